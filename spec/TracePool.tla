----------------------------- MODULE TracePool -----------------------------
(* Runs that end with the destruction of the worker pool: Service until the
   destruction begins; from then on no thread may be left and every method
   object must be released.                                                   *)
EXTENDS TraceService
VARIABLE pool    \* [st: "up" | "dying" | "gone", made: method objects created by then]

pvars == <<vars, pool>>
Up == [st |-> "up", made |-> 0]

\* A worker may still start queued methods while the pool is being destroyed, never afterwards.
PEvent(e) ==
  CASE e.e = "cfg"      -> Event(e) /\ pool' = Up
    [] e.e = "dpool"    -> pool.st = "up" /\ pool' = [pool EXCEPT !.st = "dying"] /\ UNCHANGED svars
    [] e.e = "poolgone" -> pool.st = "dying" /\ run = {} /\ pool' = [pool EXCEPT !.st = "gone"] /\ UNCHANGED svars
    [] e.e = "threads"  -> pool.st = "gone" /\ e.n = 0 /\ UNCHANGED <<svars, pool>>
    \* method objects: all that were created are either released or still held by the pool
    [] e.e = "objs"     -> /\ e.live =< e.made
                           /\ pool.st = "gone" => e.live = 0
                           /\ e.made >= Cardinality({c \in Ids : conns[c].ph \in {"exec", "done"}})
                           /\ UNCHANGED <<svars, pool>>
    [] e.e = "exec"     -> pool.st # "gone" /\ Event(e) /\ UNCHANGED pool
    [] e.e = "quiet"    -> /\ pool.st = "dying" => run # {}     \* waits for running methods only
                           /\ IF pool.st = "up" THEN Event(e) ELSE e.running = Cardinality(run) /\ UNCHANGED svars
                           /\ UNCHANGED pool
    [] OTHER            -> Event(e) /\ UNCHANGED pool

PInit == Init /\ pool = Up
PNext == /\ l <= Len(Trace) /\ PEvent(Trace[l]) /\ l' = l + 1
PSpec == PInit /\ [][PNext]_pvars
=============================================================================
