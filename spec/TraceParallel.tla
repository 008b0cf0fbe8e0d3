------------------------------ MODULE TraceParallel ------------------------------
(* Recorded runs of independent threads. *)
EXTENDS Parallel, Json
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLES l, m
vars == <<l, m>>
Init == l = 1 /\ m = New
Next == /\ l <= Len(Trace)
        /\ m' = (IF Trace[l].e = "cfg" THEN New ELSE Ev(m, Trace[l]))
        /\ m'.ok
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
