-------------------------------- MODULE Log ---------------------------------
(* The log of a server.  Methods, running in any thread, hand messages to the
   log; the server itself reports failed connections there.  Every message is a
   line of its own, there when the call that gave it returns, once, and not
   mixed with any other.  Logging does not change what calls return.
   State: given   messages whose log call has begun
          written messages that are lines of the log
          await   connections waiting for a response
   A line of the log is described by the messages found in it (toks) and
   whether it consists of exactly one of them (exact). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
New == [ok |-> TRUE, on |-> TRUE, given |-> {}, written |-> {}, await |-> {}]
Put(m, e) == [m EXCEPT !.given = @ \cup {e.m}]
Line(m, e) ==
  IF e.toks = <<>> THEN m
  ELSE [m EXCEPT !.ok = @ /\ m.on /\ e.exact /\ Len(e.toks) = 1 /\ e.toks[1] \in m.given /\ e.toks[1] \notin m.written,
                 !.written = @ \cup {e.toks[1]}]
Back(m, e) == [m EXCEPT !.ok = @ /\ (m.on => e.m \in m.written)]
Ev(m, e) ==
  CASE e.e = "log"   -> Put(m, e)
    [] e.e = "line"  -> Line(m, e)
    [] e.e = "logged" -> Back(m, e)
    [] e.e = "on"    -> [m EXCEPT !.on = e.v]
    [] e.e = "own"   -> m                      \* a line of the server itself
    [] e.e = "req"   -> [m EXCEPT !.await = @ \cup {e.c}]
    [] e.e = "rsp"   -> [m EXCEPT !.ok = @ /\ e.good /\ e.c \in m.await, !.await = @ \ {e.c}]
    [] e.e = "quiet" -> [m EXCEPT !.ok = @ /\ m.await = {}]
    [] OTHER         -> [m EXCEPT !.ok = FALSE]
=============================================================================
