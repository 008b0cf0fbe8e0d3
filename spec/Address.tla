------------------------------- MODULE Address -------------------------------
(* Network addresses given by host name.  A use of an address (asking for its
   socket address, connecting to it, listening on it) looks the name up or
   relies on an earlier lookup.  What must hold:
     - a use that succeeds used an IP address some lookup of that very name
       answered, and the port the address was made with;
     - a use fails only if a lookup of that name failed while it was going on;
     - in particular a failed lookup leaves nothing behind: later uses and uses
       through copies fail themselves or succeed with a real answer.
   State: objs  address object -> [name, port]
          known name -> set of answers so far ("n:<ip>" names are themselves)
          uses  use -> [name, port, failed] for the uses going on *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

NoFun == [x \in {} |-> 0]
New == [ok |-> TRUE, objs |-> NoFun, known |-> NoFun, uses |-> NoFun]

Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Known(m, n) == IF n \in DOMAIN m.known THEN m.known[n] ELSE {}
Fail(m) == [m EXCEPT !.ok = FALSE]

\* numeric addresses and "any interface" are known from the start
Make(m, e) == [m EXCEPT !.objs = Put(@, e.o, [name |-> e.name, port |-> e.port]),
                        !.known = IF e.ip = "" THEN @ ELSE Put(@, e.name, {e.ip})]
Copy(m, e) == [m EXCEPT !.objs = Put(@, e.o, m.objs[e.of])]
Use(m, e) == [m EXCEPT !.uses = Put(@, e.u, [name |-> m.objs[e.o].name, port |-> m.objs[e.o].port, failed |-> FALSE])]
Look(m, e) ==
  IF e.ip = "fail"
  THEN [m EXCEPT !.uses = [u \in DOMAIN @ |-> IF @[u].name = e.name THEN [@[u] EXCEPT !.failed = TRUE] ELSE @[u]]]
  ELSE [m EXCEPT !.known = Put(@, e.name, Known(m, e.name) \cup {e.ip})]
Got(m, e) ==
  IF e.u \in DOMAIN m.uses
  THEN LET u == m.uses[e.u]
       IN  [m EXCEPT !.ok = @ /\ e.fam = 2 /\ e.port = u.port /\ e.ip \in Known(m, u.name), !.uses = Del(@, e.u)]
  ELSE Fail(m)
Err(m, e) ==
  IF e.u \in DOMAIN m.uses THEN [m EXCEPT !.ok = @ /\ m.uses[e.u].failed, !.uses = Del(@, e.u)] ELSE Fail(m)

Ev(m, e) ==
  CASE e.e = "new"   -> Make(m, e)
    [] e.e = "copy"  -> Copy(m, e)
    [] e.e = "use"   -> Use(m, e)
    [] e.e = "look"  -> Look(m, e)
    [] e.e = "got"   -> Got(m, e)
    [] e.e = "err"   -> Err(m, e)
    [] e.e = "quiet" -> [m EXCEPT !.ok = @ /\ DOMAIN m.uses = {}]
    [] OTHER         -> Fail(m)
=============================================================================
