---------------------------- MODULE AddressImpl -----------------------------
(* How an address object remembers the result of its lookup, shared by all its
   copies and used by several threads.  A thread checks whether the socket
   address is there, otherwise looks the name up, publishes the result and reads
   it back.  Every step is separate; what the threads see is fed to Address.
   Bug: "early"   an empty socket address is published before the lookup
        "split"   the result is published field by field
        "sticky"  a failed lookup is remembered as a result
        "noport"  the port is filled in only by the first lookup that works
        "cross"   the result is remembered for all names *)
EXTENDS Address, SequencesExt
CONSTANTS Threads, Objs, Names, MaxUses, MaxLooks, Bug
VARIABLES sa, pc, tmp, uses, looks, mon
vars == <<sa, pc, tmp, uses, looks, mon>>

\* objects of the same name are copies and share what they remember
NameOf(o) == IF o \in Names THEN o ELSE CHOOSE n \in Names : TRUE
Cell(o) == IF Bug = "cross" THEN CHOOSE n \in Names : TRUE ELSE NameOf(o)
None == [fam |-> -1, ip |-> "", port |-> 0]
Zero == [fam |-> 0, ip |-> "0", port |-> 0]
Full(n, a) == [fam |-> 2, ip |-> a, port |-> 80]
IpOf(n) == {n \o "-1", n \o "-2"}

Init ==
  /\ sa = [n \in Names |-> None] /\ pc = [t \in Threads |-> [at |-> "idle"]] /\ tmp = [t \in Threads |-> None]
  /\ uses = 0 /\ looks = 0
  /\ mon = FoldLeft(Ev, New, SetToSeq({[e |-> "new", o |-> n, name |-> n, port |-> 80, ip |-> ""] : n \in Names})
                            \o SetToSeq({[e |-> "copy", o |-> o, of |-> NameOf(o)] : o \in Objs \ Names}))

See(e) == mon' = Ev(mon, e)
Begin(t, o) ==
  /\ pc[t].at = "idle" /\ uses < MaxUses /\ uses' = uses + 1
  /\ See([e |-> "use", u |-> t, o |-> o])
  /\ pc' = [pc EXCEPT ![t] = [at |-> "check", o |-> o]]
  /\ UNCHANGED <<sa, tmp, looks>>
Check(t) ==
  /\ pc[t].at = "check"
  /\ pc' = [pc EXCEPT ![t].at = IF sa[Cell(pc[t].o)] # None THEN "read" ELSE IF Bug = "early" THEN "zero" ELSE "look"]
  /\ UNCHANGED <<sa, tmp, uses, looks, mon>>
Blank(t) ==
  /\ pc[t].at = "zero" /\ sa' = [sa EXCEPT ![Cell(pc[t].o)] = Zero]
  /\ pc' = [pc EXCEPT ![t].at = "look"]
  /\ UNCHANGED <<tmp, uses, looks, mon>>
Answer(t) ==
  /\ pc[t].at = "look" /\ looks < MaxLooks /\ looks' = looks + 1
  /\ LET n == NameOf(pc[t].o)
     IN  \E a \in IpOf(n) :
           /\ See([e |-> "look", name |-> n, ip |-> a])
           /\ tmp' = [tmp EXCEPT ![t] = [Full(n, a) EXCEPT !.port = IF Bug = "noport" /\ sa[Cell(pc[t].o)] # None THEN 0 ELSE 80]]
  /\ pc' = [pc EXCEPT ![t].at = IF Bug = "split" THEN "half" ELSE "put"]
  /\ UNCHANGED <<sa, uses>>
NoAnswer(t) ==
  /\ pc[t].at = "look"
  /\ See([e |-> "look", name |-> NameOf(pc[t].o), ip |-> "fail"])
  /\ pc' = [pc EXCEPT ![t].at = "throw"]
  /\ sa' = IF Bug = "sticky" THEN [sa EXCEPT ![Cell(pc[t].o)] = Zero] ELSE sa
  /\ UNCHANGED <<tmp, uses, looks>>
Throw(t) ==
  /\ pc[t].at = "throw" /\ See([e |-> "err", u |-> t])
  /\ pc' = [pc EXCEPT ![t] = [at |-> "idle"]]
  /\ UNCHANGED <<sa, tmp, uses, looks>>
Half(t) ==
  /\ pc[t].at = "half" /\ sa' = [sa EXCEPT ![Cell(pc[t].o)] = [tmp[t] EXCEPT !.ip = "0"]]
  /\ pc' = [pc EXCEPT ![t].at = "put"]
  /\ UNCHANGED <<tmp, uses, looks, mon>>
Publish(t) ==
  /\ pc[t].at = "put" /\ sa' = [sa EXCEPT ![Cell(pc[t].o)] = tmp[t]]
  /\ pc' = [pc EXCEPT ![t].at = "read"]
  /\ UNCHANGED <<tmp, uses, looks, mon>>
Read(t) ==
  /\ pc[t].at = "read"
  /\ LET x == sa[Cell(pc[t].o)] IN See([e |-> "got", u |-> t, fam |-> x.fam, ip |-> x.ip, port |-> x.port])
  /\ pc' = [pc EXCEPT ![t] = [at |-> "idle"]]
  /\ UNCHANGED <<sa, tmp, uses, looks>>

Next == \E t \in Threads : \/ \E o \in Objs : Begin(t, o)
                           \/ Check(t) \/ Blank(t) \/ Answer(t) \/ NoAnswer(t) \/ Throw(t) \/ Half(t) \/ Publish(t) \/ Read(t)
Spec == Init /\ [][Next]_vars
Kept == mon.ok
=============================================================================
