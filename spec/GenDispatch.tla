---------------------------- MODULE GenDispatch ----------------------------
(* Scenario generator: sequences of registrations, dispatchers, interceptors
   and calls.  Ops says which of them occur.                                  *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC, Randomization
CONSTANTS N, Names, Progs, Acts, Ops, MaxStack, MaxDisp, Fan
VARIABLE hist

Count(o) == Cardinality({i \in DOMAIN hist : hist[i].o = o})
Some(s) == IF Fan = 0 \/ Fan >= Cardinality(s) THEN s ELSE RandomSubset(Fan, s)
Add(x) == hist' = Append(hist, x)

Init == hist = <<>>
Next == /\ Len(hist) < N
        /\ \/ "reg" \in Ops /\ \E n \in Some(Names) : Add([o |-> "reg", n |-> n])
           \/ "disp" \in Ops /\ Count("disp") < MaxDisp /\ \E ns \in Some(SUBSET Names) : Add([o |-> "disp", ns |-> ns])
           \/ "intro" \in Ops /\ Count("intro") < 2 /\ Add([o |-> "intro"])
           \/ "push" \in Ops /\ Count("push") < MaxStack /\ \E p \in Some(Progs) : Add([o |-> "push", p |-> p])
           \/ "call" \in Ops /\ \E n \in Some(Names), a \in Some(Acts) : Add([o |-> "call", n |-> n, a |-> a])
           \/ "run" \in Ops /\ hist # <<>> /\ hist[Len(hist)].o = "call" /\ Add([o |-> "run"])
Spec == Init /\ [][Next]_hist
Emit == (Len(hist) = N \/ (Fan = 0 /\ Ops = {"push"}) \/ ~ENABLED Next) => PrintT("@@" \o ToJson(hist))
=============================================================================
