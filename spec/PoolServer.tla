----------------------------- MODULE PoolServer -----------------------------
(* The concurrent core of a pooled server, step by step: the serving loop with
   its snapshot-and-poll cycle, the wake-up pipe, the workers with their queue,
   lock and condition variable, threads that request a stop, and the thread
   that destroys the pool.  Every step between two synchronisation points is
   one action, so TLC explores every interleaving of them.

   Environment: each connection in Conns sends one request when it likes; the
   method of a connection in Blocking runs until released.                    *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Conns, Blocking, Workers, Stoppers, Runs, Destroy, Spurious, Bug

VARIABLES
  sent,     \* connections whose request has arrived
  rel,      \* blocking methods allowed to finish
  loop,     \* [pc, todo]: the serving thread
  exit,     \* exit flag
  pipe,     \* bytes in the wake-up pipe
  mask,     \* connection -> "in" | "out" | "none": registration with the reactor
  snap,     \* masks the running poll works with
  nrun,     \* times serving was started
  queue, w, \* request queue; worker -> [pc, job]
  sig,      \* workers whose condition wait was signalled
  qlock, dlock, dying, destr,
  st,       \* stopper -> pc
  execd,    \* connection -> times executed
  freed,    \* connection -> times the method object was released
  answered, \* connection -> responses written
  honoured, pend  \* stops that made the loop return / requested and not honoured

vars == <<sent, rel, loop, exit, pipe, mask, snap, nrun, queue, w, sig, qlock, dlock, dying, destr, st, execd, freed,
          answered, honoured, pend>>

Nobody == 0
Destroyer == 99

Init ==
  /\ sent = {} /\ rel = {}
  /\ loop = [pc |-> "down", todo |-> {}]
  /\ exit = FALSE /\ pipe = 0
  /\ mask = [c \in Conns |-> "in"] /\ snap = [c \in Conns |-> "none"]
  /\ nrun = 0
  /\ queue = <<>> /\ w = [i \in Workers |-> [pc |-> "top", job |-> 0]]
  /\ sig = {} /\ qlock = Nobody /\ dlock = Nobody /\ dying = FALSE
  /\ destr = "no" /\ st = [s \in Stoppers |-> "idle"]
  /\ execd = [c \in Conns |-> 0] /\ freed = [c \in Conns |-> 0] /\ answered = [c \in Conns |-> 0]
  /\ honoured = 0 /\ pend = FALSE

------------------------------------------------------------------------------
\* Environment

Arrive(c) == /\ c \notin sent /\ answered[c] = 0 /\ sent' = sent \cup {c}
             /\ UNCHANGED <<rel, loop, exit, pipe, mask, snap, nrun, queue, w, sig, qlock, dlock, dying, destr, st, execd, freed, answered, honoured, pend>>
Release(c) == /\ c \in Blocking \ rel /\ rel' = rel \cup {c}
              /\ UNCHANGED <<sent, loop, exit, pipe, mask, snap, nrun, queue, w, sig, qlock, dlock, dying, destr, st, execd, freed, answered, honoured, pend>>
Start == /\ loop.pc = "down" /\ nrun < Runs /\ destr = "no"
         /\ loop' = [pc |-> "check", todo |-> {}] /\ nrun' = nrun + 1
         /\ UNCHANGED <<sent, rel, exit, pipe, mask, snap, queue, w, sig, qlock, dlock, dying, destr, st, execd, freed, answered, honoured, pend>>
BeginStop(s) == /\ st[s] = "idle" /\ st' = [st EXCEPT ![s] = IF Bug = "flaglast" THEN "wake" ELSE "set"]
                /\ UNCHANGED <<sent, rel, loop, exit, pipe, mask, snap, nrun, queue, w, sig, qlock, dlock, dying, destr, execd, freed, answered, honoured, pend>>
\* The pool may be destroyed once nobody serves any more.
BeginDestroy == /\ Destroy /\ destr = "no" /\ loop.pc = "down" /\ nrun > 0
                /\ \A s \in Stoppers : st[s] \in {"idle", "done"}
                /\ destr' = "lockd"
                /\ UNCHANGED <<sent, rel, loop, exit, pipe, mask, snap, nrun, queue, w, sig, qlock, dlock, dying, st, execd, freed, answered, honoured, pend>>
SpuriousWake(i) == /\ Spurious /\ w[i].pc = "wait" /\ i \notin sig /\ sig' = sig \cup {i}
                   /\ UNCHANGED <<sent, rel, loop, exit, pipe, mask, snap, nrun, queue, w, qlock, dlock, dying, destr, st, execd, freed, answered, honoured, pend>>

Env == \/ \E c \in Conns : Arrive(c) \/ Release(c)
       \/ Start \/ BeginDestroy \/ \E s \in Stoppers : BeginStop(s)
       \/ \E i \in Workers : SpuriousWake(i)

------------------------------------------------------------------------------
\* A thread that requests a stop: flag, then wake-up

StopSet(s) == /\ st[s] = "set" /\ exit' = TRUE /\ pend' = TRUE
              /\ st' = [st EXCEPT ![s] = IF Bug = "flaglast" THEN "done" ELSE "wake"]
              /\ UNCHANGED <<sent, rel, loop, pipe, mask, snap, nrun, queue, w, sig, qlock, dlock, dying, destr, execd, freed, answered, honoured>>
StopWake(s) == /\ st[s] = "wake" /\ pipe' = pipe + 1
               /\ st' = [st EXCEPT ![s] = IF Bug = "flaglast" THEN "set" ELSE "done"]
               /\ UNCHANGED <<sent, rel, loop, exit, mask, snap, nrun, queue, w, sig, qlock, dlock, dying, destr, execd, freed, answered, honoured, pend>>

------------------------------------------------------------------------------
\* The serving loop.  Item 0 of `todo` is the wake-up pipe.

Ready(m) == {c \in Conns : (m[c] = "in" /\ c \in sent) \/ m[c] = "out"}

LoopCheck ==
  /\ loop.pc = "check"
  /\ IF exit
     THEN /\ loop' = [pc |-> "clear", todo |-> {}] /\ UNCHANGED snap
     ELSE /\ loop' = [pc |-> "poll", todo |-> {}] /\ snap' = mask
  /\ UNCHANGED <<sent, rel, exit, pipe, mask, nrun, queue, w, sig, qlock, dlock, dying, destr, st, execd, freed, answered, honoured, pend>>

LoopClear ==   \* returns to the caller, the flag is reset
  /\ loop.pc = "clear"
  /\ loop' = [pc |-> "down", todo |-> {}]
  /\ exit' = IF Bug = "sticky" THEN exit ELSE FALSE
  /\ honoured' = honoured + 1 /\ pend' = FALSE
  /\ UNCHANGED <<sent, rel, pipe, mask, snap, nrun, queue, w, sig, qlock, dlock, dying, destr, st, execd, freed, answered>>

LoopPoll ==
  /\ loop.pc = "poll" /\ (Ready(snap) # {} \/ pipe > 0)
  /\ loop' = [pc |-> "disp", todo |-> Ready(snap) \cup (IF pipe > 0 THEN {0} ELSE {})]
  /\ UNCHANGED <<sent, rel, exit, pipe, mask, snap, nrun, queue, w, sig, qlock, dlock, dying, destr, st, execd, freed, answered, honoured, pend>>

\* one event after the other; handing a request to the pool needs the queue lock
LoopPipe ==
  /\ loop.pc = "disp" /\ 0 \in loop.todo
  /\ pipe' = IF Bug = "drain" THEN 0 ELSE pipe - 1
  /\ loop' = [loop EXCEPT !.todo = @ \ {0}]
  /\ UNCHANGED <<sent, rel, exit, mask, snap, nrun, queue, w, sig, qlock, dlock, dying, destr, st, execd, freed, answered, honoured, pend>>
LoopWrite(c) ==
  /\ loop.pc = "disp" /\ c \in loop.todo /\ snap[c] = "out"
  /\ answered' = [answered EXCEPT ![c] = @ + 1]
  /\ mask' = [mask EXCEPT ![c] = "in"] /\ sent' = sent \ {c}
  /\ loop' = [loop EXCEPT !.todo = @ \ {c}]
  /\ UNCHANGED <<rel, exit, pipe, snap, nrun, queue, w, sig, qlock, dlock, dying, destr, st, execd, freed, honoured, pend>>
Waiting == {i \in Workers : w[i].pc = "wait" /\ i \notin sig}
LoopRead(c) ==
  /\ loop.pc = "disp" /\ c \in loop.todo /\ snap[c] = "in"
  /\ qlock = Nobody
  /\ mask' = [mask EXCEPT ![c] = "none"]
  /\ queue' = Append(queue, c)
  /\ IF Waiting = {} \/ (Bug = "notifyempty" /\ queue # <<>>) THEN UNCHANGED sig
     ELSE \E i \in Waiting : sig' = sig \cup {i}
  /\ loop' = [loop EXCEPT !.todo = @ \ {c}]
  /\ UNCHANGED <<sent, rel, exit, pipe, snap, nrun, w, qlock, dlock, dying, destr, st, execd, freed, answered, honoured, pend>>
LoopAgain == /\ loop.pc = "disp" /\ loop.todo = {} /\ loop' = [loop EXCEPT !.pc = "check"]
             /\ UNCHANGED <<sent, rel, exit, pipe, mask, snap, nrun, queue, w, sig, qlock, dlock, dying, destr, st, execd, freed, answered, honoured, pend>>

Loop == LoopCheck \/ LoopClear \/ LoopPoll \/ LoopPipe \/ LoopAgain \/ \E c \in Conns : LoopWrite(c) \/ LoopRead(c)

------------------------------------------------------------------------------
\* Workers

Pc(i, p) == w' = [w EXCEPT ![i].pc = p]
Take(i) == /\ w' = [w EXCEPT ![i] = [pc |-> "run", job |-> Head(queue)]]
           /\ queue' = Tail(queue) /\ qlock' = Nobody

WLock(i) ==    \* take the queue lock
  /\ w[i].pc \in {"top", "relock"} /\ qlock = Nobody
  /\ w[i].pc = "relock" => i \in sig
  /\ qlock' = i
  /\ Pc(i, IF w[i].pc = "top" THEN "look" ELSE "woken")
  /\ sig' = sig \ {i}
  /\ UNCHANGED <<sent, rel, loop, exit, pipe, mask, snap, nrun, queue, dlock, dying, destr, st, execd, freed, answered, honoured, pend>>
WLook(i) ==    \* holds the queue lock
  /\ w[i].pc = "look"
  /\ IF queue # <<>> THEN Take(i) /\ UNCHANGED dlock
     ELSE IF Bug = "late" THEN Pc(i, "wait") /\ qlock' = Nobody /\ UNCHANGED <<queue, dlock>>
     ELSE /\ dlock = Nobody        \* reads the destruction flag under its own lock
          /\ IF dying THEN Pc(i, "exit") /\ qlock' = Nobody ELSE Pc(i, "towait") /\ UNCHANGED qlock
          /\ UNCHANGED <<queue, dlock>>
  /\ UNCHANGED <<sent, rel, loop, exit, pipe, mask, snap, nrun, sig, dying, destr, st, execd, freed, answered, honoured, pend>>
WWait(i) == /\ w[i].pc = "towait" /\ Pc(i, "wait") /\ qlock' = Nobody
            /\ UNCHANGED <<sent, rel, loop, exit, pipe, mask, snap, nrun, queue, sig, dlock, dying, destr, st, execd, freed, answered, honoured, pend>>
WWake(i) == /\ w[i].pc = "wait" /\ i \in sig /\ Pc(i, "relock")
            /\ UNCHANGED <<sent, rel, loop, exit, pipe, mask, snap, nrun, queue, sig, qlock, dlock, dying, destr, st, execd, freed, answered, honoured, pend>>
WWoken(i) ==
  /\ w[i].pc = "woken" /\ dlock = Nobody
  /\ IF dying THEN Pc(i, "exit") /\ qlock' = Nobody /\ UNCHANGED queue
     ELSE IF queue = <<>>
     THEN (IF Bug = "nospurious" THEN Pc(i, "exit") ELSE Pc(i, "top")) /\ qlock' = Nobody /\ UNCHANGED queue
     ELSE Take(i)
  /\ UNCHANGED <<sent, rel, loop, exit, pipe, mask, snap, nrun, sig, dlock, dying, destr, st, execd, freed, answered, honoured, pend>>
WRun(i) ==
  /\ w[i].pc = "run"
  /\ execd' = [execd EXCEPT ![w[i].job] = @ + 1]
  /\ Pc(i, "in")
  /\ UNCHANGED <<sent, rel, loop, exit, pipe, mask, snap, nrun, queue, sig, qlock, dlock, dying, destr, st, freed, answered, honoured, pend>>
WRespond(i) ==  \* the method ended: queue the response for writing
  /\ w[i].pc = "in" /\ (w[i].job \in Blocking => w[i].job \in rel)
  /\ IF Bug = "wakefirst" THEN pipe' = pipe + 1 /\ UNCHANGED mask
     ELSE mask' = [mask EXCEPT ![w[i].job] = "out"] /\ UNCHANGED pipe
  /\ Pc(i, "tell")
  /\ UNCHANGED <<sent, rel, loop, exit, snap, nrun, queue, sig, qlock, dlock, dying, destr, st, execd, freed, answered, honoured, pend>>
WTell(i) ==     \* release the method object, wake the loop
  /\ w[i].pc = "tell"
  /\ IF Bug = "wakefirst" THEN mask' = [mask EXCEPT ![w[i].job] = "out"] /\ UNCHANGED pipe
     ELSE pipe' = (IF Bug = "nowake" THEN pipe ELSE pipe + 1) /\ UNCHANGED mask
  /\ freed' = [freed EXCEPT ![w[i].job] = @ + 1]
  /\ w' = [w EXCEPT ![i] = [pc |-> "top", job |-> 0]]
  /\ UNCHANGED <<sent, rel, loop, exit, snap, nrun, queue, sig, qlock, dlock, dying, destr, st, execd, answered, honoured, pend>>

Worker(i) == WLock(i) \/ WLook(i) \/ WWait(i) \/ WWake(i) \/ WWoken(i) \/ WRun(i) \/ WRespond(i) \/ WTell(i)

------------------------------------------------------------------------------
\* Destruction: raise the flag under its lock, wake everybody under the queue
\* lock, join, drop what is left.  "nested" holds both locks at once.

DFlag == /\ destr = "lockd" /\ dlock = Nobody
         /\ dying' = TRUE
         /\ IF Bug = "nested" THEN dlock' = Destroyer ELSE UNCHANGED dlock
         /\ destr' = "lockq"
         /\ UNCHANGED <<sent, rel, loop, exit, pipe, mask, snap, nrun, queue, w, sig, qlock, st, execd, freed, answered, honoured, pend>>
DNotify == /\ destr = "lockq" /\ (Bug = "nolock" \/ qlock = Nobody)
           /\ sig' = IF Bug = "notifyone"
                     THEN sig \cup (IF Waiting = {} THEN {} ELSE {CHOOSE i \in Waiting : TRUE})
                     ELSE sig \cup {i \in Workers : w[i].pc = "wait"}
           /\ dlock' = Nobody /\ destr' = "join"
           /\ UNCHANGED <<sent, rel, loop, exit, pipe, mask, snap, nrun, queue, w, qlock, dying, st, execd, freed, answered, honoured, pend>>
DJoin == /\ destr = "join" /\ \A i \in Workers : w[i].pc = "exit"
         /\ destr' = "gone"
         /\ freed' = [c \in Conns |-> freed[c] + Cardinality({k \in DOMAIN queue : queue[k] = c})]
         /\ queue' = <<>>
         /\ UNCHANGED <<sent, rel, loop, exit, pipe, mask, snap, nrun, w, sig, qlock, dlock, dying, st, execd, answered, honoured, pend>>

Thread(t) == CASE t = 0 -> Loop
               [] t = Destroyer -> DFlag \/ DNotify \/ DJoin
               [] t \in Workers -> Worker(t)
               [] OTHER -> StopSet(t) \/ StopWake(t)
Threads == {0, Destroyer} \cup Workers \cup Stoppers
Internal == \E t \in Threads : Thread(t)

Next == Env \/ Internal
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Thread(t))

------------------------------------------------------------------------------
\* What must hold

Once == \A c \in Conns : execd[c] =< 1 /\ freed[c] =< 1 /\ answered[c] =< execd[c] /\ freed[c] =< 1

Running == {i \in Workers : w[i].pc = "in"}

\* Whenever nothing but the environment can move, nothing is owed: the same
\* obligations as Quiescent of Service.
Rests ==
  ~(ENABLED Internal) =>
     /\ loop.pc \in {"poll", "down"}
     /\ loop.pc = "poll" => /\ ~exit /\ ~pend
                            /\ \A c \in sent : \/ c \in Blocking \ rel /\ execd[c] = 1
                                               \/ execd[c] = 0 /\ Cardinality(Running) = Cardinality(Workers)
     /\ \A s \in Stoppers : st[s] \in {"idle", "done"}
     /\ destr \in {"no", "gone"} \/ (destr = "join" /\ Running # {})
     /\ destr = "gone" => \A c \in Conns : \/ freed[c] = 1
                                           \/ mask[c] = "in" /\ execd[c] = 0    \* never handed to the pool

Gone == destr = "gone" => \A i \in Workers : w[i].pc = "exit"

\* a return needs a request made since the last return
Honest == honoured =< Cardinality({s \in Stoppers : st[s] \in {"wake", "done"}})

StopsEnd == \A s \in Stoppers : (st[s] = "set" /\ loop.pc # "down") ~> loop.pc = "down"
AnswersCome == \A c \in Conns \ Blocking : (c \in sent /\ mask[c] # "in") ~> (c \notin sent \/ loop.pc = "down" \/ Running # {})
DestroyEnds == (destr = "lockd" /\ rel = Blocking) ~> destr = "gone"
==============================================================================
