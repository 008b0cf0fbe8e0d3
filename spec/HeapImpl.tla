------------------------------ MODULE HeapImpl ------------------------------
(* How the library keeps values: every value owns its parts, copies are clones, replaced parts are destroyed.
   mem maps addresses to objects [k |-> "[", kids |-> addresses], [k |-> "{", kids |-> key :> address], [k |-> "leaf", v];
   slot gives the object of each variable (0: none).  bad is raised when a destroyed object is used.
   Refinement: the objects hold exactly the values of ValueHeap, each has one owner, and nothing else is allocated. *)
EXTENDS ValueHeap
CONSTANTS Vars, N, Start, Lits, Names, Ops, MaxSize, Bug
VARIABLES st, n, mem, slot, bad
vars == <<st, n, mem, slot, bad>>

H(m, b) == [m |-> m, b |-> b]
Fresh(m) == CHOOSE i \in 1..(Cardinality(DOMAIN m) + 1) : i \notin DOMAIN m
Alloc(h, o) == LET i == Fresh(h.m) IN [h |-> H(h.m @@ (i :> o), h.b), i |-> i]
RECURSIVE Order(_)
Order(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o Order(s \ {x})
KidSeq(o) == IF o.k = "[" THEN o.kids ELSE IF o.k = "{" THEN [i \in 1..Cardinality(DOMAIN o.kids) |-> o.kids[Order(DOMAIN o.kids)[i]]] ELSE <<>>
Rekid(o, q) == IF o.k = "[" THEN [o EXCEPT !.kids = q]
               ELSE IF o.k = "{" THEN LET ks == Order(DOMAIN o.kids) IN
                 [o EXCEPT !.kids = [x \in DOMAIN o.kids |-> q[CHOOSE i \in 1..Len(ks) : ks[i] = x]]]
               ELSE o

RECURSIVE Clone(_, _)
RECURSIVE CloneAll(_, _)
CloneAll(h, q) == IF q = <<>> THEN [h |-> h, q |-> <<>>]
                  ELSE LET a == Clone(h, Head(q))    b == CloneAll(a.h, Tail(q)) IN [h |-> b.h, q |-> <<a.i>> \o b.q]
Clone(h, i) == IF i \notin DOMAIN h.m THEN [h |-> H(h.m, TRUE), i |-> i]
               ELSE IF Bug = "shallow" THEN Alloc(h, h.m[i])
               ELSE LET o == h.m[i]    c == CloneAll(h, KidSeq(o)) IN Alloc(c.h, Rekid(o, c.q))
RECURSIVE Free(_, _)
RECURSIVE FreeAll(_, _)
FreeAll(h, q) == IF q = <<>> THEN h ELSE FreeAll(Free(h, Head(q)), Tail(q))
Free(h, i) == IF i = 0 THEN h
              ELSE IF i \notin DOMAIN h.m THEN H(h.m, TRUE)
              ELSE LET g == FreeAll(h, KidSeq(h.m[i])) IN H([x \in DOMAIN g.m \ {i} |-> g.m[x]], g.b)
RECURSIVE Build(_, _)
RECURSIVE BuildAll(_, _)
BuildAll(h, q) == IF q = <<>> THEN [h |-> h, q |-> <<>>]
                  ELSE LET a == Build(h, Head(q))    b == BuildAll(a.h, Tail(q)) IN [h |-> b.h, q |-> <<a.i>> \o b.q]
Build(h, v) ==
  IF v[1] = "[" THEN LET b == BuildAll(h, v[2]) IN Alloc(b.h, [k |-> "[", kids |-> b.q])
  ELSE IF v[1] = "{" THEN LET ks == Order(DOMAIN v[2])    b == BuildAll(h, [i \in 1..Len(ks) |-> v[2][ks[i]]])
                          IN Alloc(b.h, [k |-> "{", kids |-> [x \in DOMAIN v[2] |-> b.q[CHOOSE i \in 1..Len(ks) : ks[i] = x]]])
  ELSE Alloc(h, [k |-> "leaf", v |-> v])

\* the address a path leads to (the path exists)
RECURSIVE Walk(_, _, _)
Walk(m, i, p) == IF p = <<>> THEN i ELSE LET s == Head(p) IN Walk(m, IF s[1] = "i" THEN m[i].kids[s[2] + 1] ELSE m[i].kids[s[2]], Tail(p))
Addr(p) == Walk(mem, slot[p[1]], Tail(p))
\* the place holding that address: a variable, or <<object, key or index>>
Place(p) == IF Len(p) = 1 THEN <<0, p[1]>> ELSE LET s == p[Len(p)] IN <<Walk(mem, slot[p[1]], SubSeq(p, 2, Len(p) - 1)), IF s[1] = "i" THEN s[2] + 1 ELSE s[2]>>
PutAt(h, sl, pl, i) == IF pl[1] = 0 THEN [h |-> h, s |-> [sl EXCEPT ![pl[2]] = i]]
                       ELSE IF pl[1] \notin DOMAIN h.m THEN [h |-> H(h.m, TRUE), s |-> sl]
                       ELSE [h |-> H([h.m EXCEPT ![pl[1]].kids[pl[2]] = i], h.b), s |-> sl]
Now == H(mem, bad)
Take(r) == mem' = r.h.m /\ bad' = r.h.b /\ slot' = r.s
Keep(h) == mem' = h.m /\ bad' = h.b /\ UNCHANGED slot

Swapped(h, i, j) == H([h.m EXCEPT ![i].kids = h.m[j].kids, ![j].kids = h.m[i].kids], h.b)

Run(a) ==
  CASE a.o = "set" -> LET f == Free(Now, slot[a.p[1]])    b == Build(f, a.v) IN Take([h |-> b.h, s |-> [slot EXCEPT ![a.p[1]] = b.i]])
    [] a.o = "del" -> Take([h |-> Free(Now, slot[a.p[1]]), s |-> [slot EXCEPT ![a.p[1]] = 0]])
    [] a.o \in FromPath -> LET c == Clone(Now, Addr(a.q)) IN Take([h |-> Free(c.h, slot[a.p[1]]), s |-> [slot EXCEPT ![a.p[1]] = c.i]])
    [] a.o = "asg" ->
         LET q == Addr(a.q)    p == Addr(a.p)    pl == Place(a.p) IN
         IF Bug = "early" THEN LET f == Free(Now, p)    c == Clone(f, q) IN Take(PutAt(c.h, slot, pl, c.i))
         ELSE LET c == Clone(Now, q)    f == Free(c.h, p) IN Take(PutAt(f, slot, pl, c.i))
    [] a.o = "lit" -> LET b == Build(Now, a.v)    f == Free(b.h, Addr(a.p)) IN Take(PutAt(f, slot, Place(a.p), b.i))
    [] a.o \in {"push", "pushp"} ->
         LET c == Clone(Now, Addr(a.q))    p == Addr(a.p) IN
         Keep(H([c.h.m EXCEPT ![p].kids = Append(@, c.i)], c.h.b))
    [] a.o \in {"ins", "insp"} ->
         LET c == Clone(Now, Addr(a.q))    p == Addr(a.p)    o == mem[p]
             old == IF a.n \in DOMAIN o.kids THEN o.kids[a.n] ELSE 0
             f == IF Bug = "leak" THEN c.h ELSE Free(c.h, old)
         IN IF p \notin DOMAIN f.m THEN Keep(H(f.m, TRUE)) ELSE Keep(H([f.m EXCEPT ![p].kids = (a.n :> c.i) @@ @], f.b))
    [] a.o = "erase" ->
         LET p == Addr(a.p)    o == mem[p]    f == IF a.n \in DOMAIN o.kids /\ Bug # "eraseleak" THEN Free(Now, o.kids[a.n]) ELSE Now
         IN Keep(H([f.m EXCEPT ![p].kids = [x \in DOMAIN @ \ {a.n} |-> @[x]]], f.b))
    [] a.o \in {"aclear", "sclear"} ->
         LET p == Addr(a.p)    f == FreeAll(Now, KidSeq(mem[p])) IN Keep(H([f.m EXCEPT ![p].kids = IF a.o = "aclear" THEN <<>> ELSE Nothing], f.b))
    [] a.o \in {"aasg", "sasg"} ->
         LET p == Addr(a.p)    q == Addr(a.q) IN
         IF p = q THEN Keep(Now)
         ELSE IF Bug = "clearfirst" THEN
           LET f == FreeAll(Now, KidSeq(mem[p]))    c == CloneAll(f, KidSeq(mem[q])) IN
           IF q \notin DOMAIN f.m THEN Keep(H(f.m, TRUE)) ELSE Keep(H([c.h.m EXCEPT ![p].kids = Rekid(mem[q], c.q).kids], c.h.b))
         ELSE LET c == CloneAll(Now, KidSeq(mem[q]))                    \* a temporary takes the copies, then both are swapped
                  f == FreeAll(c.h, KidSeq(mem[p]))
              IN Keep(H([f.m EXCEPT ![p].kids = Rekid(mem[q], c.q).kids], f.b))
    [] a.o = "assign" ->
         LET p == Addr(a.p)    q == Addr(a.q)    f == FreeAll(Now, KidSeq(mem[p]))    c == CloneAll(f, KidSeq(mem[q])) IN
         Keep(H([c.h.m EXCEPT ![p].kids = c.q], c.h.b))
    [] a.o \in {"aswap", "sswap"} -> Keep(Swapped(Now, Addr(a.p), Addr(a.q)))
    [] OTHER -> Keep(Now)

\* ---------------------------------------------------------------- programs
RECURSIVE SizeOf(_)
RECURSIVE SumSeq(_, _)
RECURSIVE SumFun(_, _)
SizeOf(v) == IF Kind(v) = "[" THEN 1 + SumSeq(v[2], 1) ELSE IF Kind(v) = "{" THEN 1 + SumFun(v[2], DOMAIN v[2]) ELSE 1
SumSeq(q, i) == IF i > Len(q) THEN 0 ELSE SizeOf(q[i]) + SumSeq(q, i + 1)
SumFun(f, d) == IF d = {} THEN 0 ELSE LET x == CHOOSE x \in d : TRUE IN SizeOf(f[x]) + SumFun(f, d \ {x})

Live == {i \in 1..Vars : st[i] # None}
Good == UNION {{<<i>> \o p : p \in PathsOf(st[i])} : i \in Live}
A(o, p, q, nm, v) == [o |-> o, p |-> p, q |-> q, n |-> nm, v |-> v, t |-> ""]
P1 == <<1>>
Acts(o) ==
  CASE o = "set" -> {A(o, <<i>>, P1, "", v) : i \in 1..Vars, v \in Lits}
    [] o = "del" -> {A(o, <<i>>, P1, "", None) : i \in Live}
    [] o \in FromPath -> {A(o, <<i>>, q, "", None) : i \in 1..Vars, q \in Good}
    [] o = "lit" -> {A(o, p, P1, "", v) : p \in Good, v \in Lits}
    [] o \in {"ins", "insp"} -> {A(o, p, q, x, None) : p \in Good, q \in Good, x \in Names}
    [] o \in TwoPaths -> {A(o, p, q, "", None) : p \in Good, q \in Good}
    [] o = "erase" -> {A(o, p, P1, x, None) : p \in Good, x \in Names}
    [] OTHER -> {A(o, p, P1, "", None) : p \in Good}

RECURSIVE BuildVars(_, _)
BuildVars(h, q) == IF q = <<>> THEN [h |-> h, s |-> <<>>]
                   ELSE IF Head(q) = None THEN LET r == BuildVars(h, Tail(q)) IN [h |-> r.h, s |-> <<0>> \o r.s]
                   ELSE LET b == Build(h, Head(q))    r == BuildVars(b.h, Tail(q)) IN [h |-> r.h, s |-> <<b.i>> \o r.s]
Init == /\ st = Start /\ n = 0
        /\ LET r == BuildVars(H(Nothing, FALSE), Start) IN mem = r.h.m /\ slot = r.s /\ bad = FALSE
Next == /\ n < N /\ ~bad /\ n' = n + 1
        /\ \E o \in Ops : \E a \in Acts(o) :
             /\ Sane(a) /\ Errors(st, a) = {}
             /\ st' = After(st, a)
             /\ SumSeq(st', 1) <= MaxSize
             /\ Run(a)
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- refinement
RECURSIVE ValueAt(_, _)
ValueAt(m, i) == IF i \notin DOMAIN m THEN None
                 ELSE LET o == m[i] IN
                   IF o.k = "leaf" THEN o.v
                   ELSE IF o.k = "[" THEN <<"[", [x \in 1..Len(o.kids) |-> ValueAt(m, o.kids[x])]>>
                   ELSE <<"{", [x \in DOMAIN o.kids |-> ValueAt(m, o.kids[x])]>>
Same == ~bad /\ \A i \in 1..Vars : (IF slot[i] = 0 THEN None ELSE ValueAt(mem, slot[i])) = st[i]
Owners(i) == Cardinality({v \in 1..Vars : slot[v] = i})
             + Cardinality(UNION {{<<j, x>> : x \in {x \in 1..Len(KidSeq(mem[j])) : KidSeq(mem[j])[x] = i}} : j \in DOMAIN mem})
OneOwner == ~bad => \A i \in DOMAIN mem : Owners(i) = 1
=============================================================================
