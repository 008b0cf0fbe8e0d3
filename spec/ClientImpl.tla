----------------------------- MODULE ClientImpl -----------------------------
(* How a client makes the calls of ClientCall.tla: it takes the kept connection
   or opens one, writes the request, reads response units until the response
   is complete and keeps or drops the connection.  TLC checks that every step
   is one of ClientCall (or none) and that whenever the client has nothing left
   to do, ClientCall lets it rest.
   Bug selects a deliberately broken variant; each has to be refuted.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxCalls, MaxConns, MaxTicks, Kinds, Moves, Bug

VARIABLES ka, to, ph, id, cur, cache, rd, since,   \* the client
          net, dirty,                              \* its connections; those it is about to close
          lst, now, up
ivars == <<ka, to, ph, id, cur, cache, rd, since, net, dirty, lst, now, up>>

Units == 2
Seconds == 2
NoR == [len |-> 0, kind |-> "none", v |-> "", code |-> 0, ka |-> FALSE]
R(kind, n) == [len |-> Units, kind |-> kind, v |-> IF kind = "val" THEN ToString(n) ELSE "",
               code |-> IF kind = "http" THEN 500 ELSE 0, ka |-> TRUE]

Init == /\ ka = FALSE /\ to = -1 /\ ph = "idle" /\ id = 0 /\ cur = 0 /\ cache = 0 /\ rd = 0 /\ since = 0
        /\ net = <<>> /\ dirty = {} /\ lst = "up" /\ now = 0 /\ up = TRUE

Env == UNCHANGED <<ka, to, ph, id, cur, cache, rd, dirty, up>>
Same(x) == UNCHANGED x

------------------------------------------------------------------------------
\* User and servers
UCall == /\ ph = "idle" /\ up /\ id < MaxCalls
         /\ id' = id + 1 /\ rd' = 0 /\ since' = now
         /\ IF ka /\ cache # 0 /\ Bug # "fresh" THEN cur' = cache /\ ph' = (IF Bug = "retunnel" THEN "tunnel" ELSE "send") /\ net' = [net EXCEPT ![cache].got = FALSE, ![cache].r = NoR, ![cache].sent = 0]
            ELSE cur' = 0 /\ ph' = "connect" /\ (IF cache = 0 THEN UNCHANGED net ELSE net' = [net EXCEPT ![cache].got = FALSE, ![cache].r = NoR, ![cache].sent = 0])
         /\ UNCHANGED <<ka, to, cache, dirty, lst, now, up>>
UKa == /\ "ka" \in Moves /\ ph = "idle" /\ up /\ ka' = ~ka
       /\ IF ka /\ Bug # "offkeeps" THEN dirty' = dirty \cup ({cache} \ {0}) /\ cache' = 0 ELSE UNCHANGED <<dirty, cache>>
       /\ UNCHANGED <<to, ph, id, cur, rd, since, net, lst, now, up>>
UTo == /\ "to" \in Moves /\ ph = "idle" /\ up /\ to' = IF to = -1 THEN Seconds ELSE -1
       /\ UNCHANGED <<ka, ph, id, cur, cache, rd, since, net, dirty, lst, now, up>>
UDestroy == /\ "destroy" \in Moves /\ ph = "idle" /\ up /\ up' = FALSE
            /\ dirty' = dirty \cup ({cache} \ {0}) /\ cache' = 0
            /\ UNCHANGED <<ka, to, ph, id, cur, rd, since, net, lst, now>>
SBegin(c) == /\ net[c].r.kind = "none" /\ net[c].srv = "open" /\ net[c].got /\ \E i \in Kinds : net' = [net EXCEPT ![c].r = R(i, net[c].for)]
             /\ Env /\ UNCHANGED <<since, lst, now>>
\* What happens on a connection that is waited for ends the waiting.
Wake(c) == since' = IF ph # "idle" /\ cur = c THEN now ELSE since
SSend(c) == /\ net[c].r.kind # "none" /\ net[c].srv = "open" /\ net[c].sent < Units
            /\ net' = [net EXCEPT ![c].sent = @ + 1] /\ Wake(c)
            /\ Env /\ UNCHANGED <<lst, now>>
SEnd(c) == /\ net[c].srv = "open" /\ \E h \in {"fin", "rst"} \cap Moves : net' = [net EXCEPT ![c].srv = h]
           /\ Wake(c) /\ Env /\ UNCHANGED <<lst, now>>
SListen == /\ "down" \in Moves /\ ph # "connect" /\ lst' = IF lst = "up" THEN "down" ELSE "up"
           /\ Env /\ UNCHANGED <<since, net, now>>
Time == /\ "tick" \in Moves /\ now < MaxTicks * 1000 /\ ph \in {"send", "recv", "connect"} /\ now' = now + 1000
        /\ Env /\ UNCHANGED <<since, net, lst>>
World == UCall \/ UKa \/ UTo \/ UDestroy \/ SListen \/ Time \/ \E c \in DOMAIN net : SBegin(c) \/ SSend(c) \/ SEnd(c)

------------------------------------------------------------------------------
\* The client
Connect == /\ ph = "connect" /\ lst = "up" /\ Len(net) < MaxConns
           /\ net' = Append(net, [srv |-> "open", got |-> FALSE, r |-> NoR, sent |-> 0, cli |-> "open", for |-> id, tun |-> 0])
           /\ cur' = Len(net) + 1 /\ ph' = (IF "tunnel" \in Moves /\ Bug # "direct" THEN "tunnel" ELSE "send") /\ since' = now
           /\ UNCHANGED <<ka, to, id, cache, rd, dirty, lst, now, up>>
\* through a proxy: it lets the client through or not
Tunnel == /\ ph = "tunnel" /\ net[cur].srv = "open"
          /\ \E code \in {200, 407} : net' = [net EXCEPT ![cur].tun = code] /\ ph' = IF code = 200 \/ Bug = "pushy" THEN "send" ELSE "refused"
          /\ since' = now
          /\ UNCHANGED <<ka, to, id, cur, cache, rd, dirty, lst, now, up>>
Write == /\ ph = "send" /\ net[cur].srv # "rst"
         /\ net' = [net EXCEPT ![cur].got = TRUE, ![cur].for = id] /\ ph' = "recv" /\ since' = now
         /\ UNCHANGED <<ka, to, id, cur, cache, rd, dirty, lst, now, up>>

\* The call ends: ok tells whether it got a response that can be returned.
Finish(ok) ==
  LET keep == ka /\ (ok \/ Bug = "stale")
      gone == (IF keep THEN {} ELSE {cur}) \cup (IF cache # cur THEN {cache} ELSE {})
  IN /\ ph' = "idle" /\ cur' = 0
     /\ cache' = IF keep THEN cur ELSE 0
     /\ dirty' = dirty \cup (IF Bug = "noclose" /\ ~ka THEN {} ELSE gone \ {0})
     /\ UNCHANGED <<ka, to, id, rd, since, net, lst, now, up>>
Refused == ((ph = "connect" /\ lst = "down") \/ ph = "refused") /\ Finish(FALSE)
ReadOne == /\ ph = "recv" /\ net[cur].srv # "rst" /\ rd < net[cur].sent /\ rd + 1 < Units
           /\ rd' = rd + 1
           /\ UNCHANGED <<ka, to, ph, id, cur, cache, since, net, dirty, lst, now, up>>
ReadAll == /\ ph = "recv" /\ net[cur].srv # "rst" /\ rd < net[cur].sent /\ rd + 1 = Units
           /\ Finish(net[cur].r.kind = "val")
Cut == ph \in {"send", "recv", "tunnel"} /\ ((ph = "tunnel" /\ net[cur].srv # "open") \/ net[cur].srv = "rst" \/ (net[cur].srv = "fin" /\ ph = "recv" /\ rd = net[cur].sent)) /\ Finish(Bug = "trunc" /\ rd > 0)
TimedOut == /\ ph \in {"send", "recv"} /\ to > 0 /\ now - since >= to * 1000 /\ Bug # "deaf"
            /\ ph = "recv" /\ rd = net[cur].sent /\ net[cur].srv = "open"
            /\ Finish(FALSE)
Close == /\ dirty # {} /\ \E c \in dirty : dirty' = dirty \ {c} /\ net' = [net EXCEPT ![c].cli = "closed"]
         /\ UNCHANGED <<ka, to, ph, id, cur, cache, rd, since, lst, now, up>>
Client == Connect \/ Tunnel \/ Write \/ Refused \/ ReadOne \/ ReadAll \/ Cut \/ TimedOut \/ Close

Next == World \/ Client
Spec == Init /\ [][Next]_ivars

------------------------------------------------------------------------------
Doomed(c) == c \in dirty \/ net[c].cli = "closed" \/ ~(c = cache \/ (ph # "idle" /\ c = cur))
AsConn(c) == [k |-> 1, cli |-> net[c].cli, srv |-> net[c].srv, gone |-> FALSE, hold |-> FALSE, got |-> net[c].got,
              r |-> net[c].r, sent |-> net[c].sent, due |-> Doomed(c), lax |-> FALSE, murky |-> FALSE, tun |-> net[c].tun]
AsCall == IF ph = "idle" THEN [id |-> ""]
          ELSE [id |-> ToString(id), name |-> "6d", args |-> "", conn |-> IF cur = 0 THEN 0 ELSE IF cur = cache /\ ~net[cur].got THEN 0 ELSE cur, since |-> since, from |-> since]
C == INSTANCE ClientCall WITH
       cl <- <<[ka |-> ka, to |-> to, auth |-> "none", px |-> IF "tunnel" \in Moves THEN 1 ELSE 0, l |-> 1, tls |-> "tunnel" \in Moves, addr |-> "61", uri |-> "2f", lead |-> "", host |-> "68", cache |-> cache, call |-> AsCall, alive |-> up]>>,
       conns <- [c \in DOMAIN net |-> AsConn(c)],
       lst <- <<lst>>, now <- now

RQ == [target |-> "2f", host |-> "68", ka |-> ka, auth |-> "none", name |-> "6d", args |-> ""]
Outcomes == {[k |-> "val", v |-> ToString(i), code |-> 0] : i \in 1..MaxCalls}
            \cup {[k |-> "http", v |-> "", code |-> 500], [k |-> "http", v |-> "", code |-> 407]} \cup {[k |-> x, v |-> "", code |-> 0] : x \in {"net", "timeout", "exc"}}
\* What the finished call tells its caller.
Told == IF ph = "connect" THEN "net"
        ELSE IF ph = "refused" THEN "http"
        ELSE IF net[cur].srv = "rst" THEN "net"
        ELSE IF rd < net[cur].sent THEN "answer" ELSE IF net[cur].srv = "fin" THEN (IF Bug = "trunc" /\ rd > 0 THEN "answer" ELSE "net") ELSE "timeout"
Says(o) == IF Told = "answer" THEN net[cur].r.kind \in {o.k, "bad"} /\ (net[cur].r.kind = "val" => o.v = net[cur].r.v /\ net[cur].r.v = ToString(id))
                                    /\ (net[cur].r.kind = "bad" => o.k = "exc")
           ELSE o.k = Told /\ (Told = "http" => o.code = 407)
WorldStep ==
  \/ C!Call(1, ToString(id'), "6d", "") \/ (\E b \in BOOLEAN : C!SetKeepAlive(1, b)) \/ (\E n \in {-1, Seconds} : C!SetTimeout(1, n)) \/ C!Destroy(1)
  \/ (\E s \in {"up", "down"} : C!Listen(1, s)) \/ C!Tick(1000)
  \/ \E c \in DOMAIN net : (\E i \in Kinds : \E n \in 1..MaxCalls : C!SrvBegin(c, R(i, n))) \/ C!SrvSend(c, 1) \/ (\E h \in {"fin", "rst"} : C!SrvEnd(c, h, FALSE))
ClientStep ==
  \/ C!Open(Len(net'), 1)
  \/ \E c \in DOMAIN net : C!Request(c, RQ) \/ C!Closed(c) \/ \E code \in {200, 407} : C!Tunnel(c, "61", code)
  \/ ph # "idle" /\ \E o \in Outcomes : Says(o) /\ C!Return(1, ToString(id), o)
StepOk == [][WorldStep \/ ClientStep \/ UNCHANGED C!cvars]_ivars
Rests == ~ENABLED Client => (C!Rest \/ (ph = "connect" /\ Len(net) = MaxConns))
\* Every pending call can still end once its server is well.
OneCall == \A c, d \in DOMAIN net : (c # d /\ ~Doomed(c) /\ ~Doomed(d)) => FALSE
=============================================================================
