------------------------------ MODULE GenCuts ------------------------------
(* All ways to cut a request of given header and body size into at most two
   pieces, and all cuts into three or four pieces at the points of interest:
   the first bytes, the bytes around the blank line, the last bytes.          *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC
CONSTANTS Shapes, MaxCuts
VARIABLES s, cuts

T(i) == Shapes[i][1] + Shapes[i][2]
Points(i) == LET h == Shapes[i][1] IN
  {p \in {1, 2, h - 4, h - 3, h - 2, h - 1, h, h + 1, h + 2, T(i) - 2, T(i) - 1} : p > 0 /\ p < T(i)}

Init == \E i \in 1..Len(Shapes) : s = i /\ cuts = <<>>
Next == /\ UNCHANGED s
        /\ Len(cuts) < MaxCuts
        /\ \E p \in 1..(T(s) - 1) :
             /\ cuts # <<>> => p > cuts[Len(cuts)]
             /\ cuts # <<>> => p \in Points(s) /\ \A j \in DOMAIN cuts : cuts[j] \in Points(s)
             /\ cuts' = Append(cuts, p)
Spec == Init /\ [][Next]_<<s, cuts>>
Emit == PrintT("@@" \o ToJson(<<s, cuts>>))
=============================================================================
