-------------------------------- MODULE Order --------------------------------
(* Memory is used in order: of two uses of the same memory by different threads,
   one of them changing it, one happens before the other.  What orders two threads
   is what one released before the other acquired it: a lock, a thread that is
   started or joined, an atomic variable, a guard of a static; the environment may
   bring all threads to a stand (wall).
   clk[t][u] is how much of u's doings thread t knows to be over; what is held by
   an object is what the threads knew that released it. *)
EXTENDS Integers, Sequences
T(n) == 0..(n - 1)
Max(a, b) == IF a > b THEN a ELSE b
Join(a, b) == [u \in DOMAIN a |-> Max(a[u], b[u])]
None(n) == [u \in T(n) |-> 0]
New(n, objs, locs) ==
  [ok |-> TRUE, clk |-> [t \in T(n) |-> [u \in T(n) |-> IF u = t THEN 1 ELSE 0]],
   obj |-> [o \in 1..objs |-> None(n)], wr |-> [x \in 1..locs |-> None(n)], rd |-> [x \in 1..locs |-> None(n)]]
\* thread t knows all other threads' uses h to be over
Over(m, t, h) == \A u \in DOMAIN h : u = t \/ h[u] <= m.clk[t][u]
RECURSIVE All(_, _)
All(c, S) == IF S = {} THEN [u \in DOMAIN c |-> 0] ELSE LET t == CHOOSE t \in S : TRUE IN Join(c[t], All(c, S \ {t}))
Set(s) == {s[i] : i \in DOMAIN s}
Ev(m, e) ==
  IF e.e = "acq" THEN [m EXCEPT !.clk[e.t] = Join(@, m.obj[e.o])]
  ELSE IF e.e = "rel" THEN [m EXCEPT !.obj[e.o] = Join(@, m.clk[e.t]), !.clk[e.t][e.t] = @ + 1]
  ELSE IF e.e = "wall" THEN LET a == All(m.clk, DOMAIN m.clk) IN [m EXCEPT !.clk = [t \in DOMAIN m.clk |-> [a EXCEPT ![t] = @ + 1]]]
  ELSE IF e.e = "use" THEN
    LET r == Set(e.r) w == Set(e.w) IN
    [m EXCEPT !.ok = /\ \A x \in r \union w : Over(m, e.t, m.wr[x])
                     /\ \A x \in w : Over(m, e.t, m.rd[x]),
              !.rd = [x \in DOMAIN m.rd |-> IF x \in r THEN [m.rd[x] EXCEPT ![e.t] = m.clk[e.t][e.t]] ELSE m.rd[x]],
              !.wr = [x \in DOMAIN m.wr |-> IF x \in w THEN [m.wr[x] EXCEPT ![e.t] = m.clk[e.t][e.t]] ELSE m.wr[x]]]
  ELSE IF e.e = "end" THEN m
  ELSE [m EXCEPT !.ok = FALSE]
=============================================================================
