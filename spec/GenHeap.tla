------------------------------- MODULE GenHeap -------------------------------
(* Programs over a few variables: every operation on every part, existing or not. *)
EXTENDS ValueHeap, Json, Randomization
CONSTANTS N, Starts, Lits, Names, Types, Ops, Fan, MaxSize, Wrong
VARIABLES st, h, start
vars == <<st, h, start>>
Vars == Len(st)

RECURSIVE SizeOf(_)
RECURSIVE SumSeq(_, _)
RECURSIVE SumFun(_, _)
SizeOf(v) == IF Kind(v) = "[" THEN 1 + SumSeq(v[2], 1) ELSE IF Kind(v) = "{" THEN 1 + SumFun(v[2], DOMAIN v[2]) ELSE 1
SumSeq(q, i) == IF i > Len(q) THEN 0 ELSE SizeOf(q[i]) + SumSeq(q, i + 1)
SumFun(f, d) == IF d = {} THEN 0 ELSE LET x == CHOOSE x \in d : TRUE IN SizeOf(f[x]) + SumFun(f, d \ {x})
Total(s) == SumSeq(s, 1)

Live == {i \in 1..Vars : st[i] # None}
Good == UNION {{<<i>> \o p : p \in PathsOf(st[i])} : i \in Live}
Beyond == UNION {{p \o <<<<"i", IF Kind(Look(st, p).v) = "[" THEN Len(Look(st, p).v[2]) ELSE 0>>>>, p \o <<<<"i", -1>>>>, p \o <<<<"f", "k7a">>>>} : p \in Good}
Some(S) == IF Fan = 0 THEN S ELSE RandomSubset(IF Cardinality(S) < Fan THEN Cardinality(S) ELSE Fan, S)
AnyPath == Some(Good) \cup (IF Wrong /\ (Fan = 0 \/ RandomElement(1..5) = 1) THEN Some(Beyond) ELSE {})
A(o, p, q, n, v, t) == [o |-> o, p |-> p, q |-> q, n |-> n, v |-> v, t |-> t]
P1 == <<1>>

Acts(o) ==
  CASE o = "set" -> {A(o, <<i>>, P1, "", v, "") : i \in 1..Vars, v \in Lits}
    [] o = "del" -> {A(o, <<i>>, P1, "", None, "") : i \in Live}
    [] o \in FromPath -> {A(o, <<i>>, q, "", None, "") : i \in 1..Vars, q \in AnyPath}
    [] o = "lit" -> {A(o, p, P1, "", v, "") : p \in AnyPath, v \in Some(Lits)}
    [] o \in {"ins", "insp"} -> {A(o, p, q, n, None, "") : p \in AnyPath, q \in AnyPath, n \in Names}
    [] o \in TwoPaths -> {A(o, p, q, "", None, "") : p \in AnyPath, q \in AnyPath}
    [] o \in {"erase", "find"} -> {A(o, p, P1, n, None, "") : p \in AnyPath, n \in Names}
    [] o \in {"aclear", "sclear", "back"} -> {A(o, p, P1, "", None, "") : p \in AnyPath}
    [] o \in {"get", "mget"} -> {A(o, p, P1, n, None, t) : p \in AnyPath, t \in Some(Types), n \in Some(Names)}

Init == start \in 1..Len(Starts) /\ st = Starts[start] /\ h = <<>>
Next == /\ Len(h) < N
        /\ \E o \in (IF Fan = 0 THEN Ops ELSE RandomSubset(2, Ops)) : \E a \in Some(Acts(o)) :
             /\ Sane(a)
             /\ a.o # "del" => Live # {}
             /\ LET E == Errors(st, a) IN st' = IF E = {} THEN After(st, a) ELSE st
             /\ Total(st') <= MaxSize
             /\ h' = Append(h, a)
        /\ UNCHANGED start
Emit == Len(h) = N => PrintT("@@" \o ToJson(<<start>> \o h))
Spec == Init /\ [][Next]_vars
=============================================================================
