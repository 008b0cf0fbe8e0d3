------------------------------- MODULE Service -------------------------------
(* The service a server offers to its peers: what may and what must happen on
   the connections, given what the peers do.  Peer* actions belong to the
   environment, Srv* actions to the server.  Quiescent describes the states in
   which the server may rest: nothing it owes to anybody is outstanding.      *)
EXTENDS Http

VARIABLES cfg,      \* configuration
          conns,    \* connection id -> record
          run,      \* tags of executing methods
          loop,     \* "down" | "up"
          stop,     \* [due: a stop is requested and not honoured, fly: requests being made,
                    \*  seen: connections known to be accepted, lost: those a closed listener may have dropped]
          base      \* descriptors held while serving nobody, -1 = not measured yet

svars == <<cfg, conns, run, loop, stop, base>>

NoReq == [tag |-> ""]
NoStop == [due |-> FALSE, fly |-> {}, seen |-> {}, lost |-> {}]

NewConn(cls) == [st |-> "open",     \* "open" | "gone" (peer left) | "closed" (by the server)
                 cls |-> cls,       \* "ok" | "denied" (firewall) | "bad" (must be dropped) | "stall" (says nothing whole) | "odd" (may be dropped)
                 fin |-> FALSE,     \* peer finished sending
                 hold |-> FALSE,    \* peer does not take bytes
                 ph |-> "idle",     \* "idle" | "recv" | "exec" | "done"
                 req |-> NoReq, got |-> 0,
                 interim |-> 0,
                 msg |-> FALSE,     \* firewall message delivered
                 closing |-> FALSE] \* the server announced it closes

Ids == DOMAIN conns
Upd(c, f) == conns' = [conns EXCEPT ![c] = f]

SInit(g) == /\ cfg = g
            /\ conns = [c \in {} |-> NoReq]
            /\ run = {}
            /\ loop = "down"
            /\ stop = NoStop
            /\ base = -1

------------------------------------------------------------------------------
\* Peers

PeerOpen(c, cls) ==
  /\ c \notin Ids
  /\ conns' = [x \in Ids \cup {c} |-> IF x = c THEN NewConn(cls) ELSE conns[x]]
  /\ UNCHANGED <<cfg, run, loop, stop, base>>

PeerReq(c, r) ==
  /\ c \in Ids /\ ~conns[c].fin
  /\ \/ /\ conns[c].st = "open" /\ conns[c].ph = "idle"
        /\ Upd(c, [conns[c] EXCEPT !.ph = "recv", !.req = r, !.got = 0, !.interim = 0])
     \/ /\ conns[c].st = "closed"         \* too late
        /\ UNCHANGED conns
  /\ UNCHANGED <<cfg, run, loop, stop, base>>

PeerSend(c, n) ==
  /\ c \in Ids
  /\ \/ /\ conns[c].ph # "idle" /\ ~conns[c].fin
        /\ Upd(c, [conns[c] EXCEPT !.got = @ + n])
     \/ /\ conns[c].ph = "idle"           \* the rest of a request already refused
        /\ UNCHANGED conns
  /\ UNCHANGED <<cfg, run, loop, stop, base>>

PeerFin(c) ==
  /\ c \in Ids
  /\ Upd(c, [conns[c] EXCEPT !.fin = TRUE])
  /\ UNCHANGED <<cfg, run, loop, stop, base>>

PeerGone(c) ==
  /\ c \in Ids
  /\ Upd(c, [conns[c] EXCEPT !.st = IF @ = "open" THEN "gone" ELSE @])
  /\ UNCHANGED <<cfg, run, loop, stop, base>>

PeerHold(c, h) ==
  /\ c \in Ids
  /\ Upd(c, [conns[c] EXCEPT !.hold = h])
  /\ UNCHANGED <<cfg, run, loop, stop, base>>

------------------------------------------------------------------------------
\* Server towards a peer

Live(c) == c \in Ids /\ conns[c].st = "open" /\ conns[c].cls = "ok"

SrvInterim(c) ==
  /\ Live(c)
  /\ LET k == conns[c] IN
     /\ k.ph # "idle"
     /\ k.req.exp = "continue"
     /\ Defects(k.req, cfg) = {}
     /\ k.req.body > 0
     /\ k.got >= k.req.hdr
     /\ k.interim = 0
     /\ Upd(c, [k EXCEPT !.interim = 1])
  /\ UNCHANGED <<cfg, run, loop, stop, base>>

\* A stop request is made between its beginning and its end.
Made(x) == IF x \in stop.fly THEN [stop EXCEPT !.fly = @ \ {x}, !.due = TRUE] ELSE stop

\* A method starts for the request of connection c.  With a pool at most
\* cfg.workers of them run at a time, without one they run alone.
SrvExec(c, name) ==
  /\ c \in Ids /\ conns[c].cls = "ok" /\ conns[c].st # "closed"
  /\ LET k == conns[c] IN
     /\ k.ph = "recv"
     /\ Complete(k.req, k.got)
     /\ Runs(k.req, cfg)
     /\ name = CallerName(k.req, cfg)
     /\ Cardinality(run) < (IF cfg.workers = 0 THEN 1 ELSE cfg.workers)
     /\ Upd(c, [k EXCEPT !.ph = "exec"])
     /\ run' = run \cup {k.req.tag}
     /\ stop' = IF k.req.stops THEN [stop EXCEPT !.fly = @ \cup {k.req.tag}] ELSE stop
  /\ UNCHANGED <<cfg, loop, base>>

SrvDone(c) ==
  /\ c \in Ids
  /\ LET k == conns[c] IN
     /\ k.ph = "exec"
     /\ Upd(c, [k EXCEPT !.ph = "done"])
     /\ run' = run \ {k.req.tag}
     /\ stop' = Made(k.req.tag)
  /\ UNCHANGED <<cfg, loop, base>>

\* A final response arrives at the peer of c.
\* a: status, kind, fault code, fault text, tag of the call whose result it carries.
Matches(a, w) == /\ a.code = w.code
                 /\ a.kind = w.kind
                 /\ CodeFits(a.fcode, w.fcode)
                 /\ w.text = AnyText \/ a.text = w.text

SrvRefuse(c, a) ==
  /\ Live(c)
  /\ LET k == conns[c] IN
     /\ k.ph = "recv" /\ ~k.closing
     /\ Refused(k.req, cfg)
     /\ MayRefuse(k.req, cfg, k.got)
     /\ a.code \in RefusalCodes(k.req, cfg)
     /\ ~a.ka
     /\ Upd(c, [k EXCEPT !.ph = "idle", !.closing = TRUE])
  /\ UNCHANGED <<cfg, run, loop, stop, base>>

SrvAnswer(c, a) ==
  /\ Live(c)
  /\ LET k == conns[c] IN
     /\ ~k.closing
     /\ \/ k.ph = "done" /\ (a.tag = k.req.tag \/ (a.kind = "fault" /\ a.tag = ""))
        \/ k.ph = "recv" /\ Complete(k.req, k.got) /\ ~Refused(k.req, cfg) /\ ~Runs(k.req, cfg)
     /\ Matches(a, Answer(k.req, cfg))
     /\ a.ka = k.req.ka
     /\ Upd(c, [k EXCEPT !.ph = "idle", !.closing = ~k.req.ka])
  /\ UNCHANGED <<cfg, run, loop, stop, base>>

SrvRsp(c, a) == SrvRefuse(c, a) \/ SrvAnswer(c, a)

\* The firewall's message, whole, to a denied peer.
SrvFwMsg(c) ==
  /\ c \in Ids /\ conns[c].st = "open" /\ conns[c].cls = "denied" /\ ~conns[c].msg
  /\ cfg.fwmsg
  /\ Upd(c, [conns[c] EXCEPT !.msg = TRUE])
  /\ UNCHANGED <<cfg, run, loop, stop, base>>

MayClose(c) ==
  LET k == conns[c] IN
  CASE c \in stop.lost -> TRUE
    [] k.cls = "denied" -> k.msg \/ ~cfg.fwmsg
    [] k.cls \in {"bad", "stall", "odd"} -> k.cls # "stall" \/ k.fin
    [] OTHER -> \/ k.closing
                \/ k.fin /\ k.ph = "idle"
                \/ k.fin /\ k.ph = "recv" /\ ~Complete(k.req, k.got) /\ ~MustRefuse(k.req, cfg, k.got)

SrvClose(c) ==
  /\ c \in Ids /\ conns[c].st = "open"
  /\ MayClose(c)
  /\ Upd(c, [conns[c] EXCEPT !.st = "closed"])
  /\ UNCHANGED <<cfg, run, loop, stop, base>>

------------------------------------------------------------------------------
\* The serving loop

Start == /\ loop = "down" /\ loop' = "up"
         /\ UNCHANGED <<cfg, conns, run, stop, base>>

StopBegin(x) == /\ stop' = [stop EXCEPT !.fly = @ \cup {x}]
                /\ UNCHANGED <<cfg, conns, run, loop, base>>
StopEnd(x) == /\ stop' = Made(x)
              /\ UNCHANGED <<cfg, conns, run, loop, base>>
StopReq == /\ stop' = [stop EXCEPT !.due = TRUE]
           /\ UNCHANGED <<cfg, conns, run, loop, base>>

\* The loop returns for the sake of one or more requests; those still being
\* made may or may not be among them.  Connections it has not accepted by
\* then can be lost with the listener.
LoopRet == /\ loop = "up"
           /\ \E s \in SUBSET stop.fly :
                /\ stop.due \/ s # {}
                /\ stop' = [stop EXCEPT !.due = FALSE, !.fly = @ \ s, !.lost = @ \cup (Ids \ stop.seen)]
           /\ loop' = "down"
           /\ UNCHANGED <<cfg, conns, run, base>>

\* A connection attempt fails only when nobody serves.
NotServed(c) == /\ loop = "down" \/ stop.due \/ stop.fly # {}
                /\ Upd(c, [conns[c] EXCEPT !.st = "closed"])
                /\ UNCHANGED <<cfg, run, loop, stop, base>>

Settled == stop' = IF loop = "up" /\ ~(cfg.workers = 0 /\ run # {}) THEN [stop EXCEPT !.seen = Ids \ stop.lost] ELSE stop

AddWorkers(n) == /\ cfg' = [cfg EXCEPT !.workers = @ + n]
                 /\ UNCHANGED <<conns, run, loop, stop, base>>

Configure(m, s) == /\ cfg' = [cfg EXCEPT !.max = m, !.strict = s]
                   /\ UNCHANGED <<conns, run, loop, stop, base>>

------------------------------------------------------------------------------
\* Obligations

LoopBlocked == cfg.workers = 0 /\ run # {}

OwesReq(k) ==
  LET r == k.req IN
  \/ MustRefuse(r, cfg, k.got)
  \/ /\ ~Refused(r, cfg) /\ Complete(r, k.got)
     /\ Runs(r, cfg) => Cardinality(run) < cfg.workers \/ cfg.workers = 0
  \/ /\ r.exp = "continue" /\ ~Refused(r, cfg)
     /\ k.got = r.hdr /\ r.body > 0 /\ k.interim = 0
  \/ k.fin /\ ~Complete(r, k.got)

OwesOf(k) ==
  /\ k.st = "open" /\ ~k.hold
  /\ \/ k.closing
     \/ k.cls \in {"denied", "bad"}
     \/ k.cls \in {"stall", "odd"} /\ k.fin
     \/ k.cls = "ok" /\ ~k.closing /\ \/ k.ph = "recv" /\ OwesReq(k)
                                      \/ k.ph = "done"
                                      \/ k.ph = "idle" /\ k.fin

Owes(c) == c \notin stop.lost /\ OwesOf(conns[c])

Quiescent ==
  (loop = "up" /\ ~LoopBlocked) => /\ ~stop.due
                                   /\ \A c \in Ids: ~Owes(c)

------------------------------------------------------------------------------
\* Descriptors: the connections the server certainly / possibly still holds.

\* While the only thread is busy with a request, a connection may still be waiting to be accepted.

Waiting(c) == LoopBlocked /\ conns[c].ph # "exec"
Held(c) == (conns[c].st = "open" /\ c \notin stop.lost /\ ~Waiting(c)) \/ (conns[c].st = "gone" /\ conns[c].ph = "exec")
MaybeHeld(c) ==
  \/ Held(c) \/ conns[c].st = "open"
  \/ /\ conns[c].st = "gone"
     /\ \/ conns[c].hold \/ LoopBlocked \/ loop = "down"
        \/ conns[c].ph = "recv" /\ Complete(conns[c].req, conns[c].got)

Fds(n) ==
  IF base = -1 THEN /\ base' = n
                    /\ UNCHANGED <<cfg, conns, run, loop, stop>>
  ELSE /\ n >= base + Cardinality({c \in Ids: Held(c)})
       /\ n =< base + Cardinality({c \in Ids: MaybeHeld(c)})
       /\ UNCHANGED svars
=============================================================================
