------------------------------ MODULE TraceOrder ------------------------------
(* Recorded uses of memory by the threads of a process. *)
EXTENDS Order, Json
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLES l, m
vars == <<l, m>>
Init == l = 1 /\ m = New(1, 0, 0)
Next == /\ l <= Len(Trace)
        /\ m' = (IF Trace[l].e = "cfg" THEN New(Trace[l].n, Trace[l].objs, Trace[l].locs) ELSE Ev(m, Trace[l]))
        /\ m'.ok
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
