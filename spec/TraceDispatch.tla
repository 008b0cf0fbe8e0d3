--------------------------- MODULE TraceDispatch ---------------------------
(* Recorded runs of the implementation, as behaviours of Dispatch.            *)
EXTENDS Dispatch, Json
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLE l
vars == <<dvars, l>>

ToSet(q) == {q[i] : i \in DOMAIN q}
Answer(e) == [k |-> e.k, c |-> e.c, v |-> IF e.k = "list" THEN ToSet(e.v) ELSE e.v]

Event(e) ==
  CASE e.e = "cfg"   -> /\ table' = [n \in {} |-> ""] /\ disps' = <<>> /\ stack' = <<>> /\ calls' = [t \in {} |-> <<>>]
    [] e.e = "reg"   -> Register(e.n, e.s)
    [] e.e = "disp"  -> AddDispatcher(e.s, ToSet(e.ns))
    [] e.e = "intro" -> Introspect
    [] e.e = "push"  -> Push(e.i, e.p)
    [] e.e = "call"  -> Call(e.t, e.n, [k |-> e.k, c |-> e.c, v |-> e.v])
    [] e.e = "step"  -> Step(e.t, [e |-> e.w, i |-> e.i, src |-> e.s, x |-> e.x])
    [] e.e = "ret"   -> Return(e.t, Answer(e))
    [] e.e = "quiet" -> Idle /\ UNCHANGED dvars
    [] OTHER         -> FALSE

Init == l = 1 /\ DInit
Next == l <= Len(Trace) /\ Event(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
