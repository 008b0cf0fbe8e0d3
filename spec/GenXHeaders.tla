---------------------------- MODULE GenXHeaders ----------------------------
(* Sequences of setting headers and calling, over maps of two names (values
   0 = absent, 1, 2) and an improper name.                                    *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC, Randomization
CONSTANTS N, Clients, Ops, Fan
VARIABLE hist
Maps == [{"a", "b"} -> 0..2]
Some(s) == IF Fan = 0 THEN s ELSE RandomSubset(Fan, s)
Init == hist = <<>>
Next == /\ Len(hist) < N
        /\ \E k \in Clients, m \in Some(Maps), o \in Ops, bad \in (IF Fan = 0 THEN {FALSE} ELSE BOOLEAN) :
             hist' = Append(hist, [o |-> o, k |-> k, m |-> m, bad |-> bad])
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = N => PrintT("@@" \o ToJson(hist))
=============================================================================
