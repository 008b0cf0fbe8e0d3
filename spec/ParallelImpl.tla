---------------------------- MODULE ParallelImpl ----------------------------
(* How steps are carried out: the input is put into a buffer, worked on with
   the help of a table that is made by whoever comes first, under a lock, and
   taken out again.
   Bug: "buffer"   all threads use one buffer
        "once"     the table counts as made before it is
        "mode"     a step of kind "b" sets a switch for its own use and puts it
                   back afterwards; the switch is everybody's
        "leftover" a step leaves something behind that the thread's next one finds
        "stuck"    a step that fails keeps the lock *)
EXTENDS Parallel
CONSTANTS Threads, Steps, Len0, Bug
VARIABLES prog, pc, buf, tab, mode, lock, left, phase, mon
vars == <<prog, pc, buf, tab, mode, lock, left, phase, mon>>
One == CHOOSE t \in Threads : TRUE
\* first every step alone, then all programs together
Progs == UNION {[1..n -> Steps] : n \in 1..Len0}
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o AsSeq(S \ {x})
Init == /\ prog = [t \in Threads |-> IF t = One THEN AsSeq(Steps) ELSE <<>>]
        /\ pc = [t \in Threads |-> IF t = One THEN "go" ELSE "off"]
        /\ buf = [t \in Threads |-> ""] /\ tab = "no" /\ mode = "" /\ lock = {} /\ left = [t \in Threads |-> ""] /\ phase = 1
        /\ mon = Ev(New, [e |-> "begin", u |-> One])
See(e) == mon' = Ev(mon, e)
B(t) == IF Bug = "buffer" THEN One ELSE t
Together ==
  /\ phase = 1 /\ \A t \in Threads : pc[t] = "off"
  /\ phase' = 2 /\ \E p \in [Threads -> Progs] : prog' = p
  \* a fresh process: the table is not there yet
  /\ tab' = "no" /\ mode' = "" /\ lock' = {} /\ buf' = [t \in Threads |-> ""] /\ left' = [t \in Threads |-> ""]
  /\ pc' = [t \in Threads |-> "new"] /\ UNCHANGED mon
Start(t) == /\ pc[t] = "new" /\ pc' = [pc EXCEPT ![t] = "go"] /\ See([e |-> "begin", u |-> t])
            /\ UNCHANGED <<prog, buf, tab, mode, lock, left, phase>>
Go(t) ==
  /\ pc[t] = "go"
  /\ IF prog[t] = <<>> THEN pc' = [pc EXCEPT ![t] = "off"] /\ See([e |-> "end", u |-> t]) /\ UNCHANGED <<buf, mode>>
     ELSE /\ buf' = [buf EXCEPT ![B(t)] = Head(prog[t])]
          /\ mode' = IF Bug = "mode" /\ Head(prog[t]) = "b" THEN "b" ELSE mode
          /\ pc' = [pc EXCEPT ![t] = "table"] /\ UNCHANGED mon
  /\ UNCHANGED <<prog, tab, lock, left, phase>>
Table(t) ==
  /\ pc[t] = "table"
  /\ IF tab = "yes" \/ (Bug = "once" /\ tab = "half") THEN pc' = [pc EXCEPT ![t] = "work"] /\ UNCHANGED <<tab, lock>>
     ELSE lock = {} /\ lock' = {t} /\ tab' = "half" /\ pc' = [pc EXCEPT ![t] = "fill"]
  /\ UNCHANGED <<prog, buf, mode, left, phase, mon>>
Fill(t) ==
  /\ pc[t] = "fill" /\ tab' = "yes" /\ pc' = [pc EXCEPT ![t] = "work"]
  /\ lock' = IF Bug = "stuck" /\ Head(prog[t]) = "b" THEN lock ELSE {}
  /\ UNCHANGED <<prog, buf, mode, left, phase, mon>>
Work(t) ==
  /\ pc[t] = "work"
  /\ Bug = "stuck" => lock \in {{}, {t}}
  /\ LET x == buf[B(t)]
         r == <<x, tab, IF Bug = "mode" /\ x # "b" THEN mode ELSE "", IF Bug = "leftover" THEN left[t] ELSE "">>
     IN See([e |-> "did", u |-> t, s |-> Head(prog[t]), r |-> r])
  /\ left' = [left EXCEPT ![t] = IF Bug = "leftover" /\ Head(prog[t]) = "b" THEN "b" ELSE ""]
  /\ mode' = IF Bug = "mode" /\ Head(prog[t]) = "b" THEN "" ELSE mode
  /\ prog' = [prog EXCEPT ![t] = Tail(@)] /\ pc' = [pc EXCEPT ![t] = "go"] /\ UNCHANGED <<buf, tab, lock, phase>>
Move == \E t \in Threads : Start(t) \/ Go(t) \/ Table(t) \/ Fill(t) \/ Work(t)
Next == Together \/ Move
Spec == Init /\ [][Next]_vars
Kept == mon.ok /\ ((~ENABLED Next) => Ev(mon, [e |-> "quiet"]).ok)
=============================================================================
