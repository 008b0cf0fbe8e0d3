--------------------------- MODULE TraceXHeaders ---------------------------
EXTENDS XHeaders, Json, TLC
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLE l
vars == <<xvars, l>>

Map(q) == Fold(Empty, q)
Event(e) ==
  CASE e.e = "cfg"    -> base' = Empty /\ due' = Empty
    [] e.e = "client" -> Client(e.k)
    [] e.e = "seteach" -> SetEach(e.k, e.q, e.ok)
    [] e.e = "setmap" -> SetMap(e.k, e.q)
    [] e.e = "call"   -> Call(e.t, e.k, e.q)
    [] e.e = "raw"    -> Raw(e.t, e.q)
    [] e.e = "seen"   -> Proper(e.q) /\ Seen(e.t, Map(e.q))
    [] e.e = "quiet"  -> due = Empty /\ UNCHANGED xvars
    [] OTHER          -> FALSE
Init == l = 1 /\ XInit
Next == l <= Len(Trace) /\ Event(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
