------------------------------ MODULE XHeaders ------------------------------
(* X- headers, from the client's maps to the method.  A header is a record
   [n |-> name in lower case, x |-> starts with X-, v |-> value]; maps are
   given as sequences of headers, a later entry replacing an earlier one.     *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES base,    \* client -> map set for all of its calls
          due      \* tag -> map the method has to see
xvars == <<base, due>>

Empty == [n \in {} |-> ""]
Put(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
RECURSIVE Fold(_, _)
Fold(m, q) == IF q = <<>> THEN m ELSE Fold(IF Head(q).x THEN Put(m, Head(q).n, Head(q).v) ELSE m, Tail(q))
Proper(q) == \A i \in DOMAIN q : q[i].x

XInit == base = Empty /\ due = Empty

Client(k) == base' = Put(base, k, Empty) /\ UNCHANGED due
\* Setting headers one by one: the first improper name is refused and nothing is set.
SetEach(k, q, ok) == /\ ok = Proper(q)
                     /\ base' = IF ok THEN [base EXCEPT ![k] = Fold(Empty, q)] ELSE base
                     /\ UNCHANGED due
\* Assigning a map: improper names are left out.
SetMap(k, q) == base' = [base EXCEPT ![k] = Fold(Empty, q)] /\ UNCHANGED due

Call(t, k, q) == due' = Put(due, t, Fold(base[k], q)) /\ UNCHANGED base
\* a request that was not made by the client: its own headers are all there is
Raw(t, q) == due' = Put(due, t, Fold(Empty, q)) /\ UNCHANGED base
Seen(t, m) == /\ t \in DOMAIN due /\ due[t] = m
              /\ due' = [u \in DOMAIN due \ {t} |-> due[u]] /\ UNCHANGED base
=============================================================================
