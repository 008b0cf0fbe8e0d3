------------------------------ MODULE Parallel ------------------------------
(* Threads that share nothing but the library.  Each runs steps on objects of
   its own; what a step results in depends on the step alone, not on what the
   other threads do meanwhile nor on what was done before.
   State: live   threads between their begin and their end
          known  results of steps seen so far
          solo   steps that were done by a thread while no other was there; a
                 trace has to have one of each to be worth anything *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
New == [ok |-> TRUE, live |-> {}, known |-> [x \in {} |-> 0], solo |-> {}]
Begin(m, e) == [m EXCEPT !.ok = @ /\ e.u \notin m.live, !.live = @ \cup {e.u}]
Did(m, e) ==
  [m EXCEPT !.ok = @ /\ e.u \in m.live /\ (e.s \in DOMAIN m.known => m.known[e.s] = e.r),
            !.known = @ @@ (e.s :> e.r),
            !.solo = IF m.live = {e.u} THEN @ \cup {e.s} ELSE @]
Ev(m, e) ==
  CASE e.e = "begin" -> Begin(m, e)
    [] e.e = "did"   -> Did(m, e)
    [] e.e = "end"   -> [m EXCEPT !.ok = @ /\ e.u \in m.live, !.live = @ \ {e.u}]
    [] e.e = "quiet" -> [m EXCEPT !.ok = @ /\ m.live = {}]
    [] e.e = "last"  -> [m EXCEPT !.ok = @ /\ m.live = {} /\ DOMAIN m.known = m.solo]
    [] OTHER         -> [m EXCEPT !.ok = FALSE]
=============================================================================
