----------------------------- MODULE ServerImpl -----------------------------
(* How the server produces the service of Service.tla: an acceptor with its
   firewall, one reactor loop, a reader per connection that looks for the end
   of the header and then counts body bytes, executors that run in the loop or
   in a pool, and a writer that sends a response unit by unit.  TLC checks that
   every step is a step of Service (or none) and that whenever the server has
   nothing left to do, Service lets it rest.
   Bug selects a deliberately broken variant; each has to be refuted.        *)
EXTENDS Http, TLC
CONSTANTS Conns, Kinds, Config, MaxReqs, Opens, Moves, Bug

VARIABLES k,        \* connection -> record
          running,  \* tags of executing methods
          nreq
ivars == <<k, running, nreq>>

NoReq == [tag |-> ""]
NoRsp == [code |-> 0, ka |-> FALSE, kind |-> "none", fcode |-> 0, text |-> "", tag |-> ""]
None == [peer |-> "none"]

Units == 2         \* a final response takes two writes

New(cls) == [peer |-> "open", cls |-> cls, fin |-> FALSE, hold |-> FALSE,
             req |-> NoReq, sent |-> 0, waiting |-> FALSE,
             srv |-> "backlog",   \* "backlog" | "refusing" | "open" | "closed"
             mode |-> "read",     \* "read" | "ready" | "exec" | "write"
             rd |-> 0, hdrok |-> FALSE,
             cont |-> 0,          \* 0 no interim response, 1 queued, 2 written
             out |-> 0, rsp |-> NoRsp, ran |-> FALSE,
             user |-> "", known |-> FALSE,     \* whom the connection acts for; somebody was accepted on it
             iw |-> 0, msg |-> FALSE, closing |-> FALSE]

Init == k = [c \in Conns |-> None] /\ running = {} /\ nreq = 0

Is(c) == k[c].peer # "none"
Set(c, r) == k' = [k EXCEPT ![c] = r]

------------------------------------------------------------------------------
\* Peers
POpen(c) == /\ ~Is(c) /\ \E o \in Opens : Set(c, New(o))
            /\ UNCHANGED <<running, nreq>>
PReq(c) == /\ Is(c) /\ k[c].peer = "open" /\ ~k[c].waiting /\ ~k[c].fin /\ k[c].srv # "closed" /\ ~k[c].closing /\ k[c].cls \in {"ok", "denied"}
           /\ nreq < MaxReqs
           /\ \E i \in Kinds : Set(c, [k[c] EXCEPT !.req = [i EXCEPT !.tag = ToString(nreq + 1)], !.sent = 0, !.waiting = TRUE, !.iw = 0])
           /\ nreq' = nreq + 1 /\ UNCHANGED running
PSend(c) == /\ Is(c) /\ k[c].peer = "open" /\ k[c].waiting /\ ~k[c].fin
            /\ \E n \in 1..(Total(k[c].req) - k[c].sent) : Set(c, [k[c] EXCEPT !.sent = @ + n])
            /\ UNCHANGED <<running, nreq>>
PFin(c) == /\ "fin" \in Moves /\ Is(c) /\ k[c].peer = "open" /\ ~k[c].fin /\ Set(c, [k[c] EXCEPT !.fin = TRUE])
           /\ UNCHANGED <<running, nreq>>
PGone(c) == /\ "gone" \in Moves /\ Is(c) /\ k[c].peer = "open" /\ k[c].srv # "closed"
            /\ Set(c, [k[c] EXCEPT !.peer = "gone"])
            /\ UNCHANGED <<running, nreq>>
PHold(c) == /\ "hold" \in Moves /\ Is(c) /\ k[c].peer = "open" /\ Set(c, [k[c] EXCEPT !.hold = ~@])
            /\ UNCHANGED <<running, nreq>>
Peer == \E c \in Conns : POpen(c) \/ PReq(c) \/ PSend(c) \/ PFin(c) \/ PGone(c) \/ PHold(c)

------------------------------------------------------------------------------
\* The server
LoopFree == Config.workers > 0 \/ running = {}

Accept(c) ==
  /\ LoopFree /\ Is(c) /\ k[c].srv = "backlog"
  /\ Set(c, [k[c] EXCEPT !.srv = IF @ = "backlog" /\ k[c].cls = "denied" /\ Bug # "firewall" THEN "refusing" ELSE "open"])
  /\ UNCHANGED <<running, nreq>>

RefuseConn(c) ==
  /\ LoopFree /\ Is(c) /\ k[c].srv = "refusing"
  /\ IF Config.fwmsg /\ ~k[c].msg /\ k[c].peer = "open"
     THEN Set(c, [k[c] EXCEPT !.msg = TRUE])
     ELSE Set(c, [k[c] EXCEPT !.srv = "closed"])
  /\ UNCHANGED <<running, nreq>>

Refusal(r, got) ==
  LET d == Defects(r, Config)
      big == TooBig(r, Config)
      code == IF d # {} /\ got >= r.hdr THEN CHOOSE x \in d : \A y \in d : x <= y ELSE 413
  IN [NoRsp EXCEPT !.code = code]

MustNow(r, got) == IF Bug = "limit" THEN (Defects(r, Config) # {} /\ got >= r.hdr) \/ (Config.max > 0 /\ got > Config.max)
                   ELSE MustRefuse(r, Config, got)

ParseTo(s, n) ==
  LET got == s.rd + n
      r == s.req
      h == got >= r.hdr
  IN IF MustNow(r, got)
     THEN [s EXCEPT !.rd = got, !.hdrok = h, !.mode = "write", !.out = Units, !.rsp = Refusal(r, got), !.ran = FALSE]
     ELSE IF got >= Total(r) \/ (Bug = "header" /\ h /\ r.body > 0 /\ got > r.hdr)
     THEN [s EXCEPT !.rd = got, !.hdrok = TRUE, !.mode = "ready"]
     ELSE [s EXCEPT !.rd = got, !.hdrok = h,
                    !.cont = IF h /\ ~s.hdrok /\ r.exp = "continue" /\ @ = 0 THEN 1 ELSE @]

Read(c) ==
  /\ LoopFree /\ Is(c) /\ k[c].srv = "open" /\ k[c].mode = "read" /\ k[c].waiting
  /\ \E n \in 1..(k[c].sent - k[c].rd) : Set(c, ParseTo(k[c], n))
  /\ UNCHANGED <<running, nreq>>

ReadEnd(c) ==
  /\ LoopFree /\ Is(c) /\ k[c].srv = "open" /\ k[c].mode = "read" /\ k[c].cls = "ok"
  /\ k[c].sent = k[c].rd \/ ~k[c].waiting
  /\ k[c].fin \/ k[c].peer = "gone"
  /\ Set(c, [k[c] EXCEPT !.srv = "closed"])
  /\ UNCHANGED <<running, nreq>>

WriteInterim(c) ==
  /\ LoopFree /\ Is(c) /\ k[c].srv = "open" /\ k[c].mode = "read" /\ k[c].cont = 1
  /\ IF k[c].peer = "gone" THEN Set(c, [k[c] EXCEPT !.srv = "closed"])
     ELSE ~k[c].hold /\ Set(c, [k[c] EXCEPT !.cont = 2, !.iw = @ + 1])
  /\ UNCHANGED <<running, nreq>>

\* Who is asking is found out for each request anew.
Caller(s) == IF Bug = "stickyuser" /\ s.req.cred = "none" THEN s.user ELSE CallerName(s.req, Config)
Lets(s) == \/ Runs(s.req, Config)
           \/ Bug = "askonce" /\ s.known /\ s.req.xml = "call" /\ s.req.known
           \/ Bug = "anypass" /\ s.req.cred = "basic" /\ s.req.user \in {u[1] : u \in Config.users}

Start(c) ==
  /\ LoopFree \/ Config.workers > 0
  /\ Is(c) /\ k[c].srv = "open" /\ k[c].mode = "ready"
  /\ IF Lets(k[c])
     THEN /\ Cardinality(running) < (IF Config.workers = 0 THEN 1 ELSE Config.workers + (IF Bug = "workers" THEN 1 ELSE 0))
          /\ running' = running \cup {k[c].req.tag}
          /\ Set(c, [k[c] EXCEPT !.mode = "exec", !.user = Caller(k[c]), !.known = @ \/ k[c].req.cred = "basic"])
     ELSE LET w == Answer(k[c].req, Config) IN
          /\ Set(c, [k[c] EXCEPT !.mode = "write", !.out = Units, !.ran = FALSE,
                                 !.rsp = [code |-> w.code, ka |-> k[c].req.ka, kind |-> w.kind, fcode |-> w.fcode, text |-> w.text, tag |-> ""]])
          /\ UNCHANGED running
  /\ UNCHANGED nreq

Finish(c) ==
  /\ Is(c) /\ k[c].mode = "exec"
  /\ running' = running \ {k[c].req.tag}
  /\ LET w == Answer(k[c].req, Config) IN
     Set(c, [k[c] EXCEPT !.mode = "write", !.out = Units, !.ran = TRUE,
                         !.rsp = [code |-> w.code, ka |-> IF Bug = "keepalive" THEN FALSE ELSE k[c].req.ka,
                                  kind |-> w.kind, fcode |-> w.fcode, text |-> w.text, tag |-> k[c].req.tag]])
  /\ UNCHANGED nreq

\* Swapped answers (two finished calls exchange their responses).
Swap(c, d) ==
  /\ Bug = "swap" /\ Is(c) /\ Is(d) /\ c # d /\ k[c].mode = "write" /\ k[d].mode = "write" /\ k[c].out = Units /\ k[d].out = Units
  /\ k' = [k EXCEPT ![c].rsp = k[d].rsp, ![d].rsp = k[c].rsp]
  /\ UNCHANGED <<running, nreq>>

Write(c) ==
  /\ LoopFree /\ Is(c) /\ k[c].srv = "open" /\ k[c].mode = "write" /\ k[c].out > 0
  /\ IF k[c].peer = "gone" THEN Set(c, [k[c] EXCEPT !.srv = "closed"])
     ELSE /\ ~k[c].hold
          /\ IF k[c].out > 1 THEN Set(c, [k[c] EXCEPT !.out = @ - 1])
             ELSE IF k[c].rsp.ka
                  THEN Set(c, [k[c] EXCEPT !.out = 0, !.mode = "read", !.rd = 0, !.hdrok = FALSE, !.waiting = FALSE,
                                           !.cont = IF Bug = "onecontinue" THEN @ ELSE 0])
                  ELSE Set(c, [k[c] EXCEPT !.out = 0, !.waiting = FALSE, !.closing = TRUE])
  /\ UNCHANGED <<running, nreq>>

\* A peer whose handshake fails is dropped, one that says nothing whole once it has finished sending.
Drop(c) ==
  /\ LoopFree /\ Is(c) /\ k[c].srv = "open" /\ k[c].cls \in {"bad", "stall", "odd"}
  /\ k[c].cls = "bad" \/ k[c].fin \/ k[c].peer = "gone" \/ k[c].cls = "odd"
  /\ Bug # "keepbad"
  /\ Set(c, [k[c] EXCEPT !.srv = "closed"])
  /\ UNCHANGED <<running, nreq>>

Close(c) ==
  /\ LoopFree /\ Is(c) /\ k[c].srv = "open" /\ k[c].closing /\ Bug # "linger"
  /\ Set(c, [k[c] EXCEPT !.srv = "closed"])
  /\ UNCHANGED <<running, nreq>>

Loop == \E c \in Conns : Accept(c) \/ RefuseConn(c) \/ Read(c) \/ ReadEnd(c) \/ WriteInterim(c) \/ Start(c) \/ Write(c) \/ Drop(c) \/ Close(c)
Server == Loop \/ \E c, d \in Conns : Swap(c, d)
Methods == \E c \in Conns : Finish(c)

Next == Peer \/ Server \/ Methods
Spec == Init /\ [][Next]_ivars

------------------------------------------------------------------------------
\* As the service
MapConn(s) ==
  [st |-> IF s.peer = "gone" THEN "gone" ELSE IF s.srv = "closed" THEN "closed" ELSE "open",
   cls |-> s.cls, fin |-> s.fin, hold |-> s.hold,
   ph |-> IF ~s.waiting THEN "idle" ELSE IF s.mode = "exec" THEN "exec"
          ELSE IF s.mode = "write" /\ s.ran THEN "done" ELSE "recv",
   req |-> s.req, got |-> s.sent, interim |-> s.iw, msg |-> s.msg, closing |-> s.closing]

S == INSTANCE Service WITH cfg <- Config, run <- running, loop <- "up", stop <- [due |-> FALSE, fly |-> {}, seen |-> {}, lost |-> {}], base <- -1,
       conns <- [c \in {x \in Conns : k[x].peer # "none"} |-> MapConn(k[c])]

SNext == \E c \in Conns :
  \/ \E o \in Opens : S!PeerOpen(c, o)
  \/ \E i \in Kinds : \E t \in 1..MaxReqs : S!PeerReq(c, [i EXCEPT !.tag = ToString(t)])
  \/ Is(c) /\ \E n \in 1..4 : S!PeerSend(c, n)
  \/ S!PeerFin(c) \/ S!PeerGone(c) \/ \E h \in BOOLEAN : S!PeerHold(c, h)
  \/ S!SrvInterim(c)
  \/ Is(c) /\ (S!SrvExec(c, k'[c].user) \/ S!SrvRsp(c, k[c].rsp))
  \/ S!SrvDone(c) \/ S!SrvFwMsg(c) \/ S!SrvClose(c)

StepOk == [][SNext \/ UNCHANGED <<S!svars>>]_ivars
Rests == ~ENABLED Server => S!Quiescent

\* Requirements stated on the service itself.
OnePerCall == \A c, d \in Conns : (Is(c) /\ Is(d) /\ c # d /\ k[c].req.tag # "") => k[c].req.tag # k[d].req.tag
=============================================================================
