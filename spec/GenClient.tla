----------------------------- MODULE GenClient -----------------------------
(* Scenario generator: users making calls and changing options, servers that
   answer (well, wrongly, in pieces, late, after the call), close, reset,
   listen or not, and time passing.  After every step everything settles.
   Each explored behaviour of length N is printed.                            *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC, Randomization
CONSTANTS N, K, Kinds, Ops, MaxCalls, Fan
VARIABLES hist, s     \* s[k]: [ka, to, pend, conn, lev, lst, alive, px]

Some(x) == IF Fan = 0 \/ Fan >= Cardinality(x) THEN x ELSE RandomSubset(Fan, x)
Calls == Cardinality({i \in DOMAIN hist : hist[i].o = "call"})
Set(k, r) == s' = [s EXCEPT ![k] = r]
Add(x) == hist' = Append(hist, x)

Init == /\ hist = <<>>
        /\ s = [k \in 1..K |-> [ka |-> FALSE, to |-> FALSE, pend |-> FALSE, conn |-> FALSE, kept |-> FALSE, lev |-> 0,
                                lst |-> "up", alive |-> TRUE, px |-> FALSE, held |-> FALSE]]

Done(r, ok) == [r EXCEPT !.pend = FALSE, !.kept = ok /\ r.ka]
Go(k) == /\ ~s[k].pend /\ s[k].alive /\ Calls < MaxCalls
         /\ Set(k, IF s[k].lst = "down" /\ ~s[k].kept THEN [s[k] EXCEPT !.conn = FALSE]
                   ELSE [s[k] EXCEPT !.pend = TRUE, !.lev = 0, !.conn = s[k].lst # "hang" \/ s[k].kept])
         /\ Add([o |-> "call", k |-> k])
\* lev: 0 nothing sent, 1 a part, 2 everything
Ans(k) == /\ s[k].conn /\ s[k].lev = 0 /\ ~s[k].held
          /\ s[k].pend \/ "late" \in Ops
          /\ \E i \in Some(Kinds), n \in (IF "part" \in Ops THEN {1, 2} ELSE {2}) :
               /\ Set(k, IF s[k].pend /\ n = 2 THEN [Done(s[k], i \in {"val", "fault", "bigval"}) EXCEPT !.lev = 2] ELSE [s[k] EXCEPT !.lev = n])
               /\ Add([o |-> "ans", k |-> k, i |-> i, n |-> n])
Rest(k) == /\ s[k].conn /\ s[k].lev = 1 /\ ~s[k].held
           /\ Set(k, IF s[k].pend THEN [Done(s[k], TRUE) EXCEPT !.lev = 2] ELSE [s[k] EXCEPT !.lev = 2])
           /\ Add([o |-> "rest", k |-> k])
End(k) == /\ s[k].conn /\ ~s[k].held
          /\ \E x \in {"lfin", "lclose", "lrst"} \cap Ops : Add([o |-> x, k |-> k])
          /\ Set(k, [s[k] EXCEPT !.pend = FALSE, !.conn = FALSE])
Down(k) == /\ "down" \in Ops /\ Set(k, [s[k] EXCEPT !.lst = IF @ = "up" THEN "down" ELSE "up"])
           /\ s[k].lst \in {"up", "down"} /\ ~s[k].px
           /\ Add([o |-> IF s[k].lst = "up" THEN "ldown" ELSE "lup", k |-> k])
Hang(k) == /\ "hang" \in Ops /\ K = 1 /\ s[k].lst # "down"
           /\ Set(k, IF s[k].lst = "up" THEN [s[k] EXCEPT !.lst = "hang"] ELSE [s[k] EXCEPT !.lst = "up", !.conn = s[k].conn \/ s[k].pend])
           /\ Add([o |-> IF s[k].lst = "up" THEN "conhang" ELSE "congo", k |-> k])
Tick == /\ "tick" \in Ops /\ \E n \in {"short", "long"} :
              /\ Add([o |-> "tick", n |-> n])
              /\ s' = [k \in 1..K |-> IF n = "long" /\ s[k].pend /\ s[k].to THEN [s[k] EXCEPT !.pend = FALSE, !.kept = FALSE] ELSE s[k]]
        /\ \E k \in 1..K : s[k].pend
KeepAlive(k) == /\ "ka" \in Ops /\ ~s[k].pend /\ s[k].alive
                /\ Set(k, [s[k] EXCEPT !.ka = ~@, !.kept = FALSE]) /\ Add([o |-> "ka", k |-> k, b |-> ~s[k].ka])
Timeout(k) == /\ "to" \in Ops /\ ~s[k].pend /\ s[k].alive
              /\ Set(k, [s[k] EXCEPT !.to = ~@]) /\ Add([o |-> "to", k |-> k, b |-> ~s[k].to])
Option(k) == /\ ~s[k].pend /\ s[k].alive /\ UNCHANGED s
             /\ "auth" \in Ops /\ Add([o |-> "auth", k |-> k])
Proxy(k) == /\ "proxy" \in Ops /\ ~s[k].pend /\ s[k].alive /\ ~s[k].px /\ s[k].lst = "up"
            /\ Set(k, [s[k] EXCEPT !.px = TRUE, !.kept = FALSE]) /\ Add([o |-> "proxy", k |-> k])
Destroy(k) == /\ "destroy" \in Ops /\ ~s[k].pend /\ s[k].alive /\ Calls > 0
              /\ Set(k, [s[k] EXCEPT !.alive = FALSE]) /\ Add([o |-> "dclient", k |-> k])
Signal == "eintr" \in Ops /\ (\E k \in 1..K : s[k].pend) /\ hist[Len(hist)].o # "eintr" /\ Add([o |-> "eintr"]) /\ UNCHANGED s
Hold(k) == /\ "hold" \in Ops /\ Set(k, [s[k] EXCEPT !.held = ~@])
           /\ Add([o |-> IF s[k].held THEN "lresume" ELSE "lpause", k |-> k])

Next == /\ Len(hist) < N
        /\ \/ \E k \in 1..K : Go(k) \/ Ans(k) \/ Rest(k) \/ End(k) \/ Down(k) \/ Hang(k) \/ KeepAlive(k) \/ Timeout(k)
                              \/ Option(k) \/ Proxy(k) \/ Destroy(k) \/ Hold(k)
           \/ Tick \/ Signal
Spec == Init /\ [][Next]_<<hist, s>>
Emit == (Len(hist) = N \/ ~ENABLED Next) => PrintT("@@" \o ToJson(hist))
=============================================================================
