------------------------------ MODULE TraceFds ------------------------------
(* Runs that end with the destruction of the server: Service, with an account of the descriptors.  A server that serves
   holds what it held while stopped, the listening socket and one descriptor for each connection; when it is destroyed
   nothing is left but the connections nobody has ended. *)
EXTENDS TraceService
VARIABLE fd    \* occ: the port belongs to somebody else; dead: the server is destroyed; idle: nobody serves; done: connections known to be released
fvars == <<vars, fd>>
NoFd == [occ |-> FALSE, dead |-> FALSE, idle |-> FALSE, done |-> {}]

Lo == {c \in Ids : Held(c) /\ c \notin fd.done}
Hi == {c \in Ids : MaybeHeld(c) /\ c \notin fd.done}
Within(n, a, b) == n >= a /\ n <= b
Count(n) ==
  /\ IF fd.dead THEN Within(n, 0, Cardinality(Hi)) /\ UNCHANGED base
     ELSE IF base = -1 THEN Lo = {} /\ base' = (IF loop = "up" THEN n - 1 ELSE n)
     ELSE Within(n, base + Cardinality(Lo) + (IF loop = "up" THEN 1 ELSE 0), base + Cardinality(Hi) + (IF fd.idle THEN 0 ELSE 1)) /\ UNCHANGED base
  /\ UNCHANGED <<cfg, conns, run, loop, stop>>

FEvent(e) ==
  CASE e.e = "cfg"        -> Event(e) /\ fd' = NoFd
    [] e.e = "occupied"   -> fd' = [fd EXCEPT !.occ = e.b] /\ UNCHANGED svars
    \* serving cannot begin
    [] e.e = "workexc"    -> loop = "up" /\ fd.occ /\ loop' = "down" /\ UNCHANGED <<cfg, conns, run, stop, base, fd>>
    [] e.e = "start"      -> Event(e) /\ fd' = [fd EXCEPT !.idle = FALSE]
    [] e.e = "servergone" -> loop = "down" /\ fd' = [fd EXCEPT !.dead = TRUE] /\ UNCHANGED svars
    [] e.e = "poolgone"   -> UNCHANGED <<svars, fd>>
    [] e.e = "dpool"      -> UNCHANGED <<svars, fd>>
    [] e.e = "fds"        -> Count(e.n) /\ UNCHANGED fd
    [] e.e = "quiet"      -> /\ IF fd.dead THEN UNCHANGED svars ELSE Event(e)
                             /\ fd' = [fd EXCEPT !.idle = e.work # "running", !.done = IF loop = "up" /\ ~LoopBlocked THEN @ \cup {c \in Ids : ~MaybeHeld(c)} ELSE @]
    [] OTHER              -> Event(e) /\ UNCHANGED fd

FInit == Init /\ fd = NoFd
FNext == l <= Len(Trace) /\ FEvent(Trace[l]) /\ l' = l + 1
FSpec == FInit /\ [][FNext]_fvars
=============================================================================
