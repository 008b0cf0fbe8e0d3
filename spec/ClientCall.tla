----------------------------- MODULE ClientCall -----------------------------
(* Library clients and the servers they call, seen from outside: connections
   opened and closed, requests and response bytes on them, what calls return,
   and how time passes.  The servers and the clock are the environment and may
   do anything; what clients may and must do is said here.
   A response is [len, kind, v, code, ka]: kind "val" | "fault" | "http" (a
   status other than 200) | "bad" (not HTTP or not an XML-RPC response).
   All texts are in hexadecimal digits.                                      *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES cl,      \* client -> options, kept connection, call in progress
          conns,   \* connection -> both sides' state
          lst,     \* listening place -> "up" | "down" | "hang" (connections are not established)
          now      \* milliseconds
cvars == <<cl, conns, lst, now>>

NoCall == [id |-> ""]
NoResp == [len |-> 0, kind |-> "none", v |-> "", code |-> 0, ka |-> FALSE]

Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Busy(k) == cl[k].call.id # ""
Place(k) == IF cl[k].px # 0 THEN cl[k].px ELSE cl[k].l
Full(c) == conns[c].r.kind # "none" /\ conns[c].sent >= conns[c].r.len
Broken(c) == IF c = 0 THEN TRUE ELSE conns[c].srv # "open"    \* 0 stands for no connection
\* The connection of the call in progress: its own, or the kept one it is going to use.
ConnOf(k) == IF cl[k].call.conn # 0 THEN cl[k].call.conn ELSE cl[k].cache
Ms(k) == cl[k].to * 1000
\* A call has waited for its server at least since `from`, perhaps only since `since`.
Overdue(k) == cl[k].to > 0 /\ now - cl[k].call.from >= Ms(k)
LongOverdue(k) == cl[k].to > 0 /\ now - cl[k].call.since >= Ms(k)

CInit == cl = [k \in {} |-> 0] /\ conns = [c \in {} |-> 0] /\ lst = [p \in {} |-> ""] /\ now = 0

------------------------------------------------------------------------------
\* The user
NewClient(k, l, uri, lead, host, tls, addr) ==
  /\ cl' = Upd(cl, k, [ka |-> FALSE, to |-> -1, auth |-> "none", px |-> 0, l |-> l, uri |-> uri, lead |-> lead, host |-> host, tls |-> tls, addr |-> addr,
                       cache |-> 0, call |-> NoCall, alive |-> TRUE])
  /\ UNCHANGED <<conns, lst, now>>
Doom(cs) == conns' = [c \in DOMAIN conns |-> IF c \in cs THEN [conns[c] EXCEPT !.due = TRUE]
                                              ELSE conns[c]]

SetKeepAlive(k, b) ==
  /\ ~Busy(k)
  /\ IF b THEN cl' = [cl EXCEPT ![k].ka = TRUE] /\ UNCHANGED conns
     ELSE cl' = [cl EXCEPT ![k].ka = FALSE, ![k].cache = 0] /\ Doom({cl[k].cache})
  /\ UNCHANGED <<lst, now>>
SetTimeout(k, n) == ~Busy(k) /\ cl' = [cl EXCEPT ![k].to = n] /\ UNCHANGED <<conns, lst, now>>
SetAuth(k, a) == ~Busy(k) /\ cl' = [cl EXCEPT ![k].auth = a] /\ UNCHANGED <<conns, lst, now>>
\* A kept connection leads elsewhere, so it is of no more use.  It need not be closed before the next call is over.
SetProxy(k, p) ==
  /\ ~Busy(k) /\ cl' = [cl EXCEPT ![k].px = p, ![k].cache = 0]
  /\ conns' = [c \in DOMAIN conns |-> IF c = cl[k].cache THEN [conns[c] EXCEPT !.due = TRUE, !.lax = TRUE] ELSE conns[c]]
  /\ UNCHANGED <<lst, now>>
Destroy(k) == ~Busy(k) /\ cl' = [cl EXCEPT ![k].alive = FALSE, ![k].cache = 0] /\ Doom({cl[k].cache}) /\ UNCHANGED <<lst, now>>
Call(k, id, name, args) ==
  /\ ~Busy(k) /\ cl[k].alive
  /\ cl' = [cl EXCEPT ![k].call = [id |-> id, name |-> name, args |-> args, conn |-> 0, since |-> now, from |-> now]]
  /\ IF cl[k].cache = 0 THEN UNCHANGED conns
     ELSE conns' = [conns EXCEPT ![cl[k].cache].got = FALSE, ![cl[k].cache].r = NoResp, ![cl[k].cache].sent = 0]
  /\ UNCHANGED <<lst, now>>

------------------------------------------------------------------------------
\* The environment
Listen(p, s) == lst' = Upd(lst, p, s) /\ UNCHANGED <<cl, conns, now>>
Tick(n) == /\ now' = now + n
           /\ conns' = [c \in DOMAIN conns |-> [conns[c] EXCEPT !.murky = FALSE]]
           /\ UNCHANGED <<cl, lst>>
\* The server stops reading, or reads again what may have been written long ago.
Hold(c, b) == conns' = [conns EXCEPT ![c].hold = b, ![c].murky = ~b] /\ UNCHANGED <<cl, lst, now>>
\* Something happened on c: the waiting for it starts anew.
Touch(c) == cl' = [k \in DOMAIN cl |-> IF Busy(k) /\ ConnOf(k) = c THEN [cl[k] EXCEPT !.call.since = now, !.call.from = now] ELSE cl[k]]
\* A signal interrupted some of the waits.
Signal ==
  /\ \E ks \in SUBSET {k \in DOMAIN cl : Busy(k)} :
       cl' = [k \in DOMAIN cl |-> IF k \in ks THEN [cl[k] EXCEPT !.call.since = now, !.call.from = now] ELSE cl[k]]
  /\ UNCHANGED <<conns, lst, now>>
SrvBegin(c, r) == conns' = [conns EXCEPT ![c].r = r, ![c].sent = 0] /\ UNCHANGED <<cl, lst, now>>
SrvSend(c, n) == conns' = [conns EXCEPT ![c].sent = @ + n] /\ Touch(c) /\ UNCHANGED <<lst, now>>
\* how: "fin" (orderly) | "rst"; gone: the server side of it exists no more
SrvEnd(c, how, gone) ==
  /\ conns' = [conns EXCEPT ![c].srv = IF @ = "rst" THEN @ ELSE how, ![c].gone = gone]
  /\ Touch(c) /\ UNCHANGED <<lst, now>>
Late(c) == cl' = [k \in DOMAIN cl |-> IF Busy(k) /\ ConnOf(k) = c THEN [cl[k] EXCEPT !.call.since = now] ELSE cl[k]]
Received(c) == (IF conns[c].murky THEN Late(c) ELSE Touch(c)) /\ UNCHANGED <<conns, lst, now>>

------------------------------------------------------------------------------
\* The clients

\* A connection is opened for a call that has none: there is no kept one, or the server has ended it.
Open(c, p) ==
  \E k \in DOMAIN cl :
    /\ Busy(k) /\ cl[k].call.conn = 0 /\ Place(k) = p
    /\ Broken(cl[k].cache)
    /\ cl' = [cl EXCEPT ![k].call.conn = c, ![k].call.since = now, ![k].call.from = now, ![k].cache = 0]
    /\ c \notin DOMAIN conns
    /\ conns' = Upd([d \in DOMAIN conns |-> IF d = cl[k].cache THEN [conns[d] EXCEPT !.due = TRUE] ELSE conns[d]],
                    c, [k |-> k, cli |-> "open", srv |-> "open", gone |-> FALSE, hold |-> FALSE, got |-> FALSE,
                        r |-> NoResp, sent |-> 0, due |-> FALSE, lax |-> FALSE, murky |-> FALSE, tun |-> 0])
    /\ UNCHANGED <<lst, now>>

\* TLS through a proxy: once per connection and before anything else, a way to the server itself is asked for.
Tunnelled(k) == cl[k].tls /\ cl[k].px # 0
Tunnel(c, addr, code) ==
  LET k == conns[c].k IN
  /\ Busy(k) /\ ConnOf(k) = c /\ conns[c].cli = "open" /\ Tunnelled(k) /\ conns[c].tun = 0
  /\ addr = cl[k].addr
  /\ conns' = [conns EXCEPT ![c].tun = code]
  /\ cl' = [cl EXCEPT ![k].call.since = now, ![k].call.from = IF conns[c].murky THEN @ ELSE now]
  /\ UNCHANGED <<lst, now>>

\* One request per call, as configured.  rq: [target, host, ka, auth, name, args]
Target(k) == IF cl[k].px = 0 \/ cl[k].tls THEN cl[k].uri ELSE "687474703a2f2f" \o cl[k].host \o cl[k].lead \o cl[k].uri
Fits(k, rq) ==
  /\ rq.target = Target(k) /\ rq.host = cl[k].host /\ rq.ka = cl[k].ka /\ rq.auth = cl[k].auth
  /\ rq.name = cl[k].call.name /\ rq.args = cl[k].call.args
\* What was under way when its call gave up may still arrive.
LateRequest(c) == conns[c].due /\ ~conns[c].lax /\ UNCHANGED cvars
Request(c, rq) ==
  LET k == conns[c].k IN
  /\ Busy(k) /\ ConnOf(k) = c /\ conns[c].cli = "open" /\ ~conns[c].got
  /\ Tunnelled(k) => conns[c].tun = 200
  /\ Fits(k, rq)
  /\ conns' = [conns EXCEPT ![c].got = TRUE]
  /\ cl' = [cl EXCEPT ![k].call.conn = c, ![k].call.since = now, ![k].call.from = IF conns[c].murky THEN @ ELSE now]
  /\ UNCHANGED <<lst, now>>

\* What the call may come to.  o: [k, v, code], k = "val" | "fault" | "http" | "net" | "timeout" | "exc"
Answered(c, o) == /\ c # 0 /\ conns[c].got /\ Full(c) /\ conns[c].r.kind = o.k /\ conns[c].r.v = o.v /\ conns[c].r.code = o.code
Began(c) == c # 0 /\ conns[c].sent > 0
Bad(c) == Began(c) /\ conns[c].r.kind = "bad"
Allowed(k, o) ==
  LET c == ConnOf(k) IN
  CASE o.k \in {"val", "fault"} -> Answered(c, o)
    [] o.k = "http"    -> Bad(c) \/ (IF c = 0 THEN FALSE ELSE conns[c].tun \notin {0, 200} /\ conns[c].tun = o.code) \/ (Began(c) /\ conns[c].r.kind = "http" /\ conns[c].r.code = o.code)
    [] o.k = "net"     -> \/ Bad(c)
                          \/ c # 0 /\ Broken(c) /\ (~Full(c) \/ ~conns[c].got \/ conns[c].srv = "rst")
                          \/ cl[k].call.conn = 0 /\ Broken(c) /\ lst[Place(k)] = "down"
    [] o.k = "timeout" -> Overdue(k)
    [] o.k = "exc"     -> Bad(c)
    [] OTHER           -> FALSE

\* A connection is kept after a call that got its answer, if so configured; otherwise it goes.
Return(k, id, o) ==
  /\ Busy(k) /\ cl[k].call.id = id
  /\ Allowed(k, o)
  /\ LET c == ConnOf(k)
         keep == cl[k].ka /\ o.k \in {"val", "fault"}
     IN /\ cl' = [cl EXCEPT ![k].call = NoCall, ![k].cache = IF keep THEN c ELSE 0]
        /\ conns' = [d \in DOMAIN conns |->
                       IF (d = c /\ ~keep) \/ (d = cl[k].cache /\ d # c) THEN [conns[d] EXCEPT !.due = TRUE]
                       ELSE IF conns[d].k = k THEN [conns[d] EXCEPT !.lax = FALSE] ELSE conns[d]]
  /\ UNCHANGED <<lst, now>>

Closed(c) ==
  /\ conns[c].cli = "open"
  /\ \/ conns[c].due \/ Broken(c)
     \/ LET k == conns[c].k IN ~Busy(k) /\ cl[k].cache = c /\ ~conns[c].r.ka
  /\ conns' = [conns EXCEPT ![c].cli = "closed"]
  /\ LET k == conns[c].k IN cl' = IF ~Busy(k) /\ cl[k].cache = c THEN [cl EXCEPT ![k].cache = 0] ELSE cl
  /\ UNCHANGED <<lst, now>>

------------------------------------------------------------------------------
\* Where things may come to rest.
MayWait(k) ==
  LET c == ConnOf(k) IN
  /\ ~LongOverdue(k)
  /\ IF Broken(c) /\ cl[k].call.conn = 0 THEN lst[Place(k)] = "hang"
     ELSE IF conns[c].hold /\ ~conns[c].got THEN conns[c].srv # "rst"
     ELSE ~Broken(c) /\ ~Full(c) /\ conns[c].got
Rest ==
  /\ \A k \in DOMAIN cl : Busy(k) => MayWait(k)
  /\ \A c \in DOMAIN conns :
       conns[c].due /\ conns[c].cli = "open" => conns[c].gone \/ conns[c].hold \/ (conns[c].lax /\ cl[conns[c].k].alive)

\* Descriptors the clients hold.
Live == {c \in DOMAIN conns : conns[c].cli = "open" /\ ~conns[c].due}
Fds(n) ==
  LET sure == {c \in Live : ~Broken(c)}
      open == {k \in DOMAIN cl : Busy(k) /\ cl[k].call.conn = 0 /\ Broken(cl[k].cache)}
      lax == {c \in DOMAIN conns : conns[c].cli = "open" /\ conns[c].lax}
  IN n >= Cardinality(sure) /\ n <= Cardinality(Live) + Cardinality(open) + Cardinality(lax)
=============================================================================
