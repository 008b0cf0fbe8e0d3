---------------------------- MODULE GenParallel -----------------------------
(* Programs of threads: every choice of step kinds, threads being alike. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Kinds, Threads, MaxLen      \* Kinds: numbers
VARIABLE p
Progs == UNION {[1..n -> Kinds] : n \in 1..MaxLen}
RECURSIVE Code(_)
Code(s) == IF s = <<>> THEN 0 ELSE s[1] + 32 * Code(Tail(s))
Init == p = <<>>
Next == Len(p) < Threads /\ \E x \in Progs : (IF p = <<>> THEN TRUE ELSE Code(p[Len(p)]) <= Code(x)) /\ p' = Append(p, x)
Spec == Init /\ [][Next]_p
Emit == Len(p) = Threads => PrintT("@@" \o ToJson(p))
=============================================================================
