------------------------------ MODULE ValueHeap ------------------------------
(* Variables holding values, and the operations of values, arrays and structs on them.
   Values are as in XmlRpc.tla; <<"-">> is a variable without value.
   A path is <<variable>> followed by steps <<"i", index>> and <<"f", key>>.
   Every operation is a function of the old store: what a copy holds never depends on what happens to its source later. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

None == <<"-">>
Nothing == [x \in {} |-> 0]
Kind(v) == v[1]

\* ---------------------------------------------------------------- following and replacing
Yes(v) == [x |-> "ok", v |-> v]
No(c) == [x |-> c, v |-> None]
RECURSIVE At(_, _)
At(v, p) ==
  IF p = <<>> THEN Yes(v)
  ELSE LET s == Head(p) IN
    IF s[1] = "i" THEN
      IF Kind(v) # "[" THEN No("cast")
      ELSE IF s[2] < 0 \/ s[2] >= Len(v[2]) THEN No("range") ELSE At(v[2][s[2] + 1], Tail(p))
    ELSE
      IF Kind(v) # "{" THEN No("cast")
      ELSE IF s[2] \notin DOMAIN v[2] THEN No("nofield") ELSE At(v[2][s[2]], Tail(p))
RECURSIVE Put(_, _, _)
Put(v, p, w) ==
  IF p = <<>> THEN w
  ELSE LET s == Head(p) IN
    IF s[1] = "i" THEN <<"[", [v[2] EXCEPT ![s[2] + 1] = Put(@, Tail(p), w)]>>
    ELSE <<"{", [v[2] EXCEPT ![s[2]] = Put(@, Tail(p), w)]>>
Look(st, p) == At(st[p[1]], Tail(p))
Set(st, p, w) == [st EXCEPT ![p[1]] = Put(@, Tail(p), w)]

RECURSIVE PathsOf(_)
PathsOf(v) == {<<>>} \cup (IF Kind(v) = "[" THEN UNION {{<<<<"i", i - 1>>>> \o p : p \in PathsOf(v[2][i])} : i \in 1..Len(v[2])}
                           ELSE IF Kind(v) = "{" THEN UNION {{<<<<"f", k>>>> \o p : p \in PathsOf(v[2][k])} : k \in DOMAIN v[2]}
                           ELSE {})
IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

\* ---------------------------------------------------------------- operations
Updates == {"set", "del", "copy", "asg", "lit", "push", "pushp", "ins", "insp", "erase", "aclear", "sclear", "aasg", "sasg", "aswap", "sswap", "assign", "acopy", "scopy"}
Reads == {"get", "mget", "find", "back"}
TwoPaths == {"asg", "push", "pushp", "ins", "insp", "aasg", "sasg", "aswap", "sswap", "assign"}
FromPath == {"copy", "acopy", "scopy"}
NeedsArr == {"push", "pushp", "aclear", "aasg", "aswap", "assign", "back"}
NeedsStr == {"ins", "insp", "erase", "sclear", "sasg", "sswap", "find"}
SrcArr == {"aasg", "aswap", "assign", "acopy"}
SrcStr == {"sasg", "sswap", "scopy"}

\* Reading types: the kind of value each asks for.
Wants == [int |-> {"i"}, int64 |-> {"l"}, bool |-> {"T", "F"}, double |-> {"d"}, string |-> {"s"}, binary |-> {"b"}, datetime |-> {"D"},
          array |-> {"["}, struct |-> {"{"}, cint |-> {"i"}, cint64 |-> {"l"}, cbool |-> {"T", "F"}, cdouble |-> {"d"}, cstring |-> {"s"}, cbinary |-> {"b"}, ctm |-> {"D"},
          iter |-> {"["}, elems |-> {"["}, fields |-> {"{"},
          size |-> {"["}, ssize |-> {"{"}, has |-> {"{"}]
KindLetter(v) == CASE Kind(v) \in {"T", "F"} -> "t" [] Kind(v) = "[" -> "a" [] Kind(v) = "{" -> "m" [] OTHER -> Kind(v)
TypeName(v) == CASE Kind(v) = "n" -> "nil" [] Kind(v) = "i" -> "i4" [] Kind(v) = "l" -> "i8" [] Kind(v) \in {"T", "F"} -> "boolean"
                 [] Kind(v) = "d" -> "double" [] Kind(v) = "s" -> "string" [] Kind(v) = "b" -> "base64" [] Kind(v) = "D" -> "dateTime.iso8601"
                 [] Kind(v) = "[" -> "array" [] OTHER -> "struct"

\* The ways operation a fails on store st (it fails in one of them, none: it succeeds).
Errors(st, a) ==
  LET uses_p == a.o \notin {"set", "del"} \cup FromPath
      uses_q == a.o \in TwoPaths \cup FromPath
      P == IF uses_p THEN Look(st, a.p) ELSE Yes(None)
      Q == IF uses_q THEN Look(st, a.q) ELSE Yes(None)
      pe == IF P.x # "ok" THEN {P.x}
            ELSE IF (a.o \in NeedsArr /\ Kind(P.v) # "[") \/ (a.o \in NeedsStr /\ Kind(P.v) # "{") THEN {"cast"}
            ELSE IF a.o \in {"get", "mget"} /\ a.t \in DOMAIN Wants /\ Kind(P.v) \notin Wants[a.t] THEN {"cast"} ELSE {}
      qe == IF Q.x # "ok" THEN {Q.x}
            ELSE IF (a.o \in SrcArr /\ Kind(Q.v) # "[") \/ (a.o \in SrcStr /\ Kind(Q.v) # "{") THEN {"cast"} ELSE {}
  IN pe \cup qe

\* The store afterwards.
After(st, a) ==
  LET P == Look(st, a.p).v    Q == Look(st, a.q).v
  IN CASE a.o = "set" -> [st EXCEPT ![a.p[1]] = a.v]
       [] a.o = "del" -> [st EXCEPT ![a.p[1]] = None]
       [] a.o \in FromPath -> [st EXCEPT ![a.p[1]] = Q]
       [] a.o \in {"asg", "aasg", "sasg", "assign"} -> Set(st, a.p, Q)
       [] a.o = "lit" -> Set(st, a.p, a.v)
       [] a.o \in {"push", "pushp"} -> Set(st, a.p, <<"[", Append(P[2], Q)>>)
       [] a.o \in {"ins", "insp"} -> Set(st, a.p, <<"{", (a.n :> Q) @@ P[2]>>)
       [] a.o = "erase" -> Set(st, a.p, <<"{", [k \in DOMAIN P[2] \ {a.n} |-> P[2][k]]>>)
       [] a.o = "aclear" -> Set(st, a.p, <<"[", <<>> >>)
       [] a.o = "sclear" -> Set(st, a.p, <<"{", Nothing>>)
       [] a.o \in {"aswap", "sswap"} -> Set(Set(st, a.p, Q), a.q, P)
       [] OTHER -> st

\* What a reading operation gives.
RECURSIVE Rev(_)
Rev(q) == IF q = <<>> THEN <<>> ELSE Rev(Tail(q)) \o <<Head(q)>>
Gives(st, a) ==
  LET P == Look(st, a.p).v IN
  CASE a.o \in {"get", "mget"} /\ a.t = "size" -> <<"#", Len(P[2])>>
    [] a.o \in {"get", "mget"} /\ a.t = "ssize" -> <<"#", Cardinality(DOMAIN P[2])>>
    [] a.o \in {"get", "mget"} /\ a.t = "has" -> IF a.n \in DOMAIN P[2] THEN <<"T">> ELSE <<"F">>
    [] a.o \in {"get", "mget"} /\ a.t = "kinds" -> <<"$", KindLetter(P)>>
    [] a.o \in {"get", "mget"} /\ a.t = "type" -> <<"$", TypeName(P)>>
    [] a.o \in {"get", "mget"} -> P
    [] a.o = "find" -> IF a.n \in DOMAIN P[2] THEN P[2][a.n] ELSE None
    [] a.o = "back" -> <<"[", Rev(P[2])>>
    [] OTHER -> None

\* Exchanging an array with a part of itself, and assigning from a range of itself, are not operations of the library.
Sane(a) == /\ a.o \in {"aswap", "sswap"} => ((~IsPrefix(a.p, a.q) /\ ~IsPrefix(a.q, a.p)) \/ a.p = a.q)
           /\ a.o = "assign" => (~IsPrefix(a.p, a.q) /\ ~IsPrefix(a.q, a.p))

\* Operation a took store st to st2 with outcome r: [k |-> "ok", v] or [k |-> "exc", c].
Does(st, a, r, st2) ==
  LET E == Errors(st, a) IN
  IF E # {} THEN r.k = "exc" /\ r.c \in E /\ st2 = st
  ELSE r.k = "ok" /\ r.v = Gives(st, a) /\ st2 = After(st, a)
=============================================================================
