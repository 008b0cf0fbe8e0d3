----------------------------- MODULE GenService -----------------------------
(* Scenario generator: behaviours of the peers of Service, with the server
   settling at "run" steps.  Requests have abstract sizes: a header of 2 and a
   body of 2 units (3 = too big for the limit of 5), so a piece ends inside the
   header (1), right after it (2), inside the body (3) or completes it (4).
   Each explored behaviour of length N is printed as a list of steps.         *)
EXTENDS Service, Json, TLC, Randomization
CONSTANTS N, Conns, Kinds, Configs, Ops, Opens, MaxReqs, Fan
VARIABLES hist, nreq, rel    \* rel: tags released

gvars == <<svars, hist, nreq, rel>>

K == [post |-> TRUE, badline |-> FALSE, clen |-> "ok", exp |-> "no", ctype |-> "xml", ka |-> TRUE,
      hdr |-> 2, body |-> 2, xml |-> "call", known |-> TRUE, cred |-> "none", user |-> "", pass |-> "",
      tag |-> "", act |-> "ok", acode |-> 0, atext |-> "", stops |-> FALSE, blocks |-> FALSE]
G == [max |-> 0, strict |-> FALSE, auth |-> FALSE, anon |-> FALSE, users |-> {}, workers |-> 0, fwmsg |-> FALSE]

Add(s) == hist' = Append(hist, s)

\* With "life" among the operations the serving loop is started and stopped by the behaviour itself.
Life == "life" \in Ops
Serving == ~Life \/ (loop = "up" /\ ~stop.due)

Init == \E i \in 1..Len(Configs) :
          /\ SInit(Configs[i])
          /\ hist = <<[o |-> "cfg", i |-> i]>> /\ nreq = 0 /\ rel = {}

Open(c) == /\ Serving
           /\ \E o \in Opens : PeerOpen(c, o) /\ Add([o |-> "open", c |-> c, k |-> o])
           /\ \A d \in Conns : d < c => d \in Ids
           /\ UNCHANGED <<nreq, rel>>

\* A random behaviour looks at a few kinds only at each step (Fan), a search at all of them (Fan = 0).
\* The choice is made anew at each step: it has to mention a variable, or TLC makes it once for all.
SomeKinds == IF Fan = 0 \/ Fan >= Len(Kinds) THEN 1..Len(Kinds) ELSE RandomSubset(IF nreq < 0 THEN 0 ELSE Fan, 1..Len(Kinds))

Req(c) == \E i \in SomeKinds : \E n \in 1..Total(Kinds[i]) :
            /\ c \in Ids /\ conns[c].st = "open" /\ conns[c].ph = "idle" /\ ~conns[c].fin
            /\ conns[c].cls \in {"ok", "denied"}
            /\ nreq < MaxReqs
            /\ n = Total(Kinds[i]) \/ "part" \in Ops
            /\ Upd(c, [conns[c] EXCEPT !.ph = "recv", !.req = [Kinds[i] EXCEPT !.tag = ToString(nreq + 1)],
                                       !.got = n, !.interim = 0])
            /\ nreq' = nreq + 1
            /\ Add([o |-> "req", c |-> c, k |-> i, n |-> n, t |-> nreq + 1])
            /\ UNCHANGED <<cfg, run, loop, stop, base, rel>>

More(c) == /\ "part" \in Ops /\ c \in Ids /\ conns[c].st = "open" /\ conns[c].ph = "recv" /\ ~conns[c].fin
           /\ \E n \in (conns[c].got + 1)..Total(conns[c].req) :
                /\ Upd(c, [conns[c] EXCEPT !.got = n])
                /\ Add([o |-> "more", c |-> c, n |-> n])
           /\ UNCHANGED <<cfg, run, loop, stop, base, nreq, rel>>

Fin(c) == /\ "fin" \in Ops /\ c \in Ids /\ ~conns[c].fin /\ conns[c].st = "open"
          /\ PeerFin(c) /\ Add([o |-> "fin", c |-> c]) /\ UNCHANGED <<nreq, rel>>
Rst(c) == /\ c \in Ids /\ conns[c].st = "open"
          /\ PeerGone(c)
          /\ \E x \in {"rst", "close"} \cap Ops : Add([o |-> x, c |-> c])
          /\ UNCHANGED <<nreq, rel>>
\* Over TLS: a peer breaks the record layer between requests, or changes its keys.
Spoil(c) == /\ "spoil" \in Ops /\ c \in Ids /\ conns[c].st = "open" /\ conns[c].ph = "idle" /\ ~conns[c].fin /\ conns[c].cls = "ok"
            /\ PeerGone(c) /\ Add([o |-> "spoil", c |-> c])
            /\ UNCHANGED <<nreq, rel>>
NewKey(c) == /\ "key" \in Ops /\ c \in Ids /\ conns[c].st = "open" /\ ~conns[c].fin /\ conns[c].cls = "ok" /\ hist[Len(hist)].o # "key"
             /\ Add([o |-> "key", c |-> c])
             /\ UNCHANGED <<svars, nreq, rel>>
Hold(c) == /\ "hold" \in Ops /\ c \in Ids /\ conns[c].st = "open"
           /\ PeerHold(c, ~conns[c].hold) /\ Add([o |-> "hold", c |-> c, h |-> ~conns[c].hold])
           /\ UNCHANGED <<nreq, rel>>
Release(c) == /\ c \in Ids /\ conns[c].req.tag # "" /\ conns[c].req.blocks /\ conns[c].req.tag \notin rel
              /\ rel' = rel \cup {conns[c].req.tag}
              /\ Add([o |-> "release", c |-> c, t |-> conns[c].req.tag])
              /\ UNCHANGED <<svars, nreq>>
StartLoop == /\ Life /\ loop = "down" /\ Start /\ Add([o |-> "start"]) /\ UNCHANGED <<nreq, rel>>
StopLoop == /\ Life /\ ~stop.due
            /\ StopReq /\ \E x \in {"stop", "astop"} : Add([o |-> x])
            /\ UNCHANGED <<nreq, rel>>
AddW == /\ "workers" \in Ops /\ cfg.workers > 0 /\ cfg.workers < 4
        /\ \E n \in 1..2 : AddWorkers(n) /\ Add([o |-> "workers", n |-> n])
        /\ UNCHANGED <<nreq, rel>>
Other == \E x \in {"eintr", "interrupt", "tick"} \cap Ops :
           /\ Add([o |-> x]) /\ hist[Len(hist)].o # x
           /\ UNCHANGED <<svars, nreq, rel>>

\* Everything the server owes, at once.
Blocking == \E c \in Ids : conns[c].req.tag # "" /\ conns[c].ph # "idle" /\ conns[c].req.blocks /\ conns[c].req.tag \notin rel
SettleConn(k) ==
  IF k.st # "open" \/ k.hold \/ (Life /\ (loop = "down" \/ stop.due)) \/ (cfg.workers = 0 /\ Blocking) THEN k
  ELSE IF k.cls \in {"denied", "bad"} \/ k.closing THEN [k EXCEPT !.st = "closed"]
  ELSE IF k.ph = "idle" THEN (IF k.fin THEN [k EXCEPT !.st = "closed"] ELSE k)
  ELSE IF MustRefuse(k.req, cfg, k.got) THEN [k EXCEPT !.st = "closed", !.ph = "idle"]
  ELSE IF Complete(k.req, k.got)
       THEN IF Runs(k.req, cfg) /\ Blocking THEN k
            ELSE [k EXCEPT !.ph = "idle", !.st = IF k.req.ka /\ ~k.fin THEN "open" ELSE "closed"]
  ELSE IF k.fin THEN [k EXCEPT !.st = "closed"] ELSE k
Run == /\ hist[Len(hist)].o # "run" /\ Len(hist) > 1
       /\ conns' = [c \in Ids |-> SettleConn(conns[c])]
       /\ Add([o |-> "run"])
       /\ IF Life /\ loop = "up" /\ ~(cfg.workers = 0 /\ Blocking)
             /\ (stop.due \/ \E c \in Ids : conns[c].ph = "recv" /\ conns[c].req.stops /\ Complete(conns[c].req, conns[c].got))
          THEN loop' = "down" /\ stop' = NoStop ELSE UNCHANGED <<loop, stop>>
       /\ UNCHANGED <<cfg, run, base, nreq, rel>>

Next == /\ Len(hist) < N
        /\ \/ \E c \in Conns : Open(c) \/ Req(c) \/ More(c) \/ Fin(c) \/ Rst(c) \/ Spoil(c) \/ NewKey(c) \/ Hold(c) \/ Release(c)
           \/ Run \/ Other \/ StartLoop \/ StopLoop \/ AddW
Spec == Init /\ [][Next]_gvars

Emit == (Len(hist) = N \/ ~ENABLED Next) => PrintT("@@" \o ToJson(hist))
=============================================================================
