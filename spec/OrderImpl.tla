------------------------------ MODULE OrderImpl ------------------------------
(* What the threads of a pooled server share and how they take turns: the loop
   (thread 0), workers (1..Workers) and a thread that asks it to stop
   (Workers + 1).  Shared are the table of what the loop waits for, the queue of
   work, the stop flag, what is known of each connection, and the first use of
   something that is made once.
   Bug: "noreg"   a worker enters the table without its lock
        "nolook"  the loop looks at the table without the lock
        "peek"    the loop looks at the queue without the lock
        "noflag"  the stop flag has no lock
        "late"    a worker writes the response after handing the connection back
        "once"    what is made once is made without a guard *)
EXTENDS Order, FiniteSets
CONSTANTS Workers, Conns, Reqs, Loops, Bug
N == Workers + 2
Main == 0
Stopper == Workers + 1
QL == 1  RL == 2  SL == 3  GL == 4        \* locks
Queue == 1  Table == 2  Flag == 3  Once == 4
C(c) == 4 + c
VARIABLES todo, held, st, left, loops, stopped, made, seen, mon
vars == <<todo, held, st, left, loops, stopped, made, seen, mon>>
Op(k, o) == [k |-> k, o |-> o]
In(l, ops) == <<Op("acq", l)>> \o ops \o <<Op("rel", l)>>
Un(b, l, ops) == IF Bug = b THEN ops ELSE In(l, ops)
R(x) == Op("R", x)
W(x) == Op("W", x)
Guard == IF Bug = "once" THEN <<Op("once", 0)>> ELSE In(GL, <<Op("once", 0)>>)
Init == /\ todo = [t \in T(N) |-> <<>>] /\ held = [l \in 1..4 |-> -1] /\ st = [c \in 1..Conns |-> "in"] /\ left = [c \in 1..Conns |-> Reqs]
        /\ loops = Loops /\ stopped = FALSE /\ made = FALSE /\ seen = {} /\ mon = New(N, 4, 4 + Conns)
Use(t, r, w) == mon' = Ev(mon, [e |-> "use", t |-> t, r |-> r, w |-> w])
Look == Un("nolook", RL, <<R(Table), Op("see", 0)>>) \o (IF Bug = "peek" THEN <<R(Queue)>> ELSE <<>>) \o <<Op("poll", 0)>>
Tail0(t) == [todo EXCEPT ![t] = Tail(@)]
Then(t, ops) == todo' = [todo EXCEPT ![t] = ops \o Tail(@)]
Step(t) ==
  /\ todo[t] # <<>>
  /\ LET o == Head(todo[t]) IN
     CASE o.k = "acq" -> /\ held[o.o] = -1 /\ held' = [held EXCEPT ![o.o] = t] /\ mon' = Ev(mon, [e |-> "acq", t |-> t, o |-> o.o])
                         /\ todo' = Tail0(t) /\ UNCHANGED <<st, left, loops, stopped, made, seen>>
       [] o.k = "rel" -> /\ held' = [held EXCEPT ![o.o] = -1] /\ mon' = Ev(mon, [e |-> "rel", t |-> t, o |-> o.o])
                         /\ todo' = Tail0(t) /\ UNCHANGED <<st, left, loops, stopped, made, seen>>
       [] o.k = "R" -> Use(t, <<o.o>>, <<>>) /\ todo' = Tail0(t) /\ UNCHANGED <<held, st, left, loops, stopped, made, seen>>
       [] o.k = "W" -> Use(t, <<>>, <<o.o>>) /\ todo' = Tail0(t) /\ UNCHANGED <<held, st, left, loops, stopped, made, seen>>
       [] o.k = "once" -> /\ IF made THEN Use(t, <<Once>>, <<>>) ELSE Use(t, <<>>, <<Once>>)
                          /\ made' = TRUE /\ todo' = Tail0(t) /\ UNCHANGED <<held, st, left, loops, stopped, seen>>
       [] o.k = "see" -> /\ seen' = {c \in 1..Conns : st[c] = "out"} /\ todo' = Tail0(t) /\ UNCHANGED <<held, st, left, loops, stopped, made, mon>>
       [] o.k = "poll" -> /\ \/ \E c \in 1..Conns :
                                \/ st[c] = "in" /\ left[c] > 0 /\ left' = [left EXCEPT ![c] = @ - 1]
                                   /\ Then(t, <<W(C(c))>> \o In(RL, <<W(Table)>>) \o In(QL, <<W(Queue), Op("put", c)>>))
                                \/ c \in seen /\ UNCHANGED left
                                   /\ Then(t, <<R(C(c)), W(C(c))>> \o Guard \o In(RL, <<W(Table)>>) \o <<Op("in", c)>>)
                             \/ todo' = Tail0(t) /\ UNCHANGED left
                          /\ UNCHANGED <<held, st, loops, stopped, made, seen, mon>>
       [] o.k = "put" -> st' = [st EXCEPT ![o.o] = "queued"] /\ todo' = Tail0(t) /\ UNCHANGED <<held, left, loops, stopped, made, seen, mon>>
       [] o.k = "in" -> st' = [st EXCEPT ![o.o] = "in"] /\ todo' = Tail0(t) /\ UNCHANGED <<held, left, loops, stopped, made, seen, mon>>
       [] o.k = "out" -> st' = [st EXCEPT ![o.o] = "out"] /\ todo' = Tail0(t) /\ UNCHANGED <<held, left, loops, stopped, made, seen, mon>>
       [] o.k = "take" -> /\ IF \E c \in 1..Conns : st[c] = "queued"
                             THEN LET c == CHOOSE c \in 1..Conns : st[c] = "queued"
                                      reg == Un("noreg", RL, <<W(Table), Op("out", c)>>)
                                  IN /\ st' = [st EXCEPT ![c] = "busy"]
                                     /\ Then(t, <<Op("rel", QL)>> \o Guard \o (IF Bug = "late" THEN reg \o <<W(C(c))>> ELSE <<W(C(c))>> \o reg))
                             ELSE st' = st /\ Then(t, <<Op("rel", QL)>>)
                          /\ UNCHANGED <<held, left, loops, stopped, made, seen, mon>>
Begin(t) ==
  /\ todo[t] = <<>>
  /\ CASE t = Main -> /\ loops > 0 /\ loops' = loops - 1 /\ stopped' = stopped
                      /\ todo' = [todo EXCEPT ![t] = Look \o Un("noflag", SL, <<R(Flag)>>)]
       [] t = Stopper -> /\ ~stopped /\ stopped' = TRUE /\ loops' = loops
                         /\ todo' = [todo EXCEPT ![t] = Un("noflag", SL, <<W(Flag)>>)]
       [] OTHER -> /\ \E c \in 1..Conns : st[c] = "queued"
                   /\ todo' = [todo EXCEPT ![t] = <<Op("acq", QL), W(Queue), Op("take", 0)>>] /\ UNCHANGED <<loops, stopped>>
  /\ UNCHANGED <<held, st, left, made, seen, mon>>
Next == \E t \in T(N) : Step(t) \/ Begin(t)
Spec == Init /\ [][Next]_vars
InOrder == mon.ok
=============================================================================
