------------------------------ MODULE LogImpl -------------------------------
(* Threads writing to one stream.  A message goes out as text and line end in
   separate steps; between them any other thread may write.  What becomes of
   it is fed to Log line by line.
   Bug: "nolock"  nothing keeps writers apart
        "textonly" the lock covers the text but not the line end
        "late"    the message is queued and written after the call returned
        "again"   a writer that had to wait writes its message twice
        "drop"    a writer that would have to wait gives up *)
EXTENDS Log, SequencesExt
CONSTANTS Threads, Each, Bug
VARIABLES pc, n, lock, cur, mon
vars == <<pc, n, lock, cur, mon>>
Msg(t, i) == <<t, i>>
Init == pc = [t \in Threads |-> "idle"] /\ n = [t \in Threads |-> 0] /\ lock = "" /\ cur = <<>> /\ mon = New
See(e) == mon' = Ev(mon, e)
Locks == Bug # "nolock"
Begin(t) ==
  /\ pc[t] = "idle" /\ n[t] < Each
  /\ n' = [n EXCEPT ![t] = @ + 1] /\ pc' = [pc EXCEPT ![t] = IF Bug = "late" THEN "ret" ELSE "want"]
  /\ See([e |-> "log", m |-> Msg(t, n[t] + 1)])
  /\ UNCHANGED <<lock, cur>>
Take(t) ==
  /\ pc[t] = "want"
  /\ IF Locks /\ lock # "" THEN /\ Bug \in {"again", "drop"}
                                /\ pc' = [pc EXCEPT ![t] = IF Bug = "drop" THEN "ret" ELSE "wait"]
                                /\ UNCHANGED lock
     ELSE lock' = (IF Locks THEN t ELSE "") /\ pc' = [pc EXCEPT ![t] = "text"]
  /\ UNCHANGED <<n, cur, mon>>
Wake(t) ==
  /\ pc[t] = "wait" /\ lock = "" /\ lock' = t /\ pc' = [pc EXCEPT ![t] = "text2"]
  /\ UNCHANGED <<n, cur, mon>>
Text(t) ==
  /\ pc[t] \in {"text", "text2"}
  /\ cur' = cur \o (IF pc[t] = "text2" THEN <<Msg(t, n[t]), Msg(t, n[t])>> ELSE <<Msg(t, n[t])>>)
  /\ lock' = IF Bug = "textonly" THEN "" ELSE lock
  /\ pc' = [pc EXCEPT ![t] = "end"] /\ UNCHANGED <<n, mon>>
End(t) ==
  /\ pc[t] = "end" /\ See([e |-> "line", toks |-> cur, exact |-> Len(cur) = 1]) /\ cur' = <<>>
  /\ lock' = IF lock = t THEN "" ELSE lock
  /\ pc' = [pc EXCEPT ![t] = "ret"] /\ UNCHANGED n
Return(t) ==
  /\ pc[t] = "ret" /\ See([e |-> "logged", m |-> Msg(t, n[t])])
  /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<n, lock, cur>>
Next == \E t \in Threads : Begin(t) \/ Take(t) \/ Wake(t) \/ Text(t) \/ End(t) \/ Return(t)
Spec == Init /\ [][Next]_vars
Kept == mon.ok
=============================================================================
