------------------------------ MODULE TraceHeap ------------------------------
EXTENDS ValueHeap, Json
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLES l, st, base
vars == <<l, st, base>>
Event(e) ==
  CASE e.e = "cfg"  -> st' = [i \in 1..e.n |-> None] /\ base' = -1
    [] e.e = "op"   -> st' = e.all /\ Does(st, e.a, e.r, st') /\ UNCHANGED base
    \* allocations when no variable holds anything: the same at the beginning and at the end
    [] e.e = "live" -> (base = -1 \/ base = e.n) /\ base' = e.n /\ UNCHANGED st
    [] OTHER        -> FALSE
Init == l = 1 /\ st = <<>> /\ base = -1
Next == l <= Len(Trace) /\ Event(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
