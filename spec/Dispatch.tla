------------------------------ MODULE Dispatch ------------------------------
(* Which code a call reaches, through which interceptors, and what the caller
   gets back.

   The server knows methods registered under a name, dispatchers tried in the
   order they were added, and a stack of interceptors.  A call that finds its
   method passes through the interceptors, last pushed outermost.  Outcomes:
     [k |-> "ok", c |-> 0, v |-> text]      a result
     [k |-> "list", c |-> 0, v |-> names]   the result of system.listMethods
     [k |-> "fault", c |-> code, v |-> text] a Fault on its way to the caller
     [k |-> "exc", c |-> 0, v |-> text]     any other exception ("*": text open)
   What an interceptor does is told by its program p:
     pass, swallow, throwb/throwa (Fault before/after yielding), alter, catch,
     conv (turns anything thrown into a Fault), params (adds an argument),
     twice (yields two times), std (throws a std::runtime_error)              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

AnyCode == 99999
ListName == "73797374656d2e6c6973744d6574686f6473"     \* "system.listMethods"

VARIABLES table,   \* name -> source, of registered methods
          disps,   \* added dispatchers, in order: [src, names]
          stack,   \* interceptors, outermost first: [i, p]
          calls    \* tag -> [rem |-> events still to come, out |-> outcome, tried |-> BOOLEAN]
dvars == <<table, disps, stack, calls>>

DInit == /\ table = [n \in {} |-> ""]
         /\ disps = <<>> /\ stack = <<>>
         /\ calls = [t \in {} |-> <<>>]

Put(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]

\* --- configuration
Register(n, s) == /\ table' = Put(table, n, s) /\ UNCHANGED <<disps, stack, calls>>
AddDispatcher(s, ns) == /\ disps' = Append(disps, [src |-> s, names |-> ns]) /\ UNCHANGED <<table, stack, calls>>
Introspect == /\ table' = Put(table, ListName, "system") /\ UNCHANGED <<disps, stack, calls>>
Push(i, p) == /\ stack' = <<[i |-> i, p |-> p]>> \o stack /\ UNCHANGED <<table, disps, calls>>

\* --- which method
Knowing(n) == {k \in DOMAIN disps : n \in disps[k].names}
Source(n) == IF n \in DOMAIN table THEN table[n]
             ELSE IF Knowing(n) = {} THEN ""
             ELSE disps[CHOOSE k \in Knowing(n) : \A j \in Knowing(n) : k <= j].src
AllNames == DOMAIN table \cup UNION {disps[k].names : k \in DOMAIN disps}

\* --- what happens to a call
Ok(v) == [k |-> "ok", c |-> 0, v |-> v]
Flt(c, v) == [k |-> "fault", c |-> c, v |-> v]
Exc(v) == [k |-> "exc", c |-> 0, v |-> v]
Text(o) == IF o.k = "ok" THEN o.v ELSE "?"      \* a result that is not a string counts as "?"

Hex(i) == "3" \o ToString(i)      \* the digit i, as texts are kept in hexadecimal
\* texts: "sw", "tb", "ta", "c", ":", "cv", "p", "st", "+", "other" followed by the interceptor's number
SwT(i) == "7377" \o Hex(i)
TbT(i) == "7462" \o Hex(i)
TaT(i) == "7461" \o Hex(i)
CvT(i) == "6376" \o Hex(i)
StT(i) == "7374" \o Hex(i)
CaT(i, v) == "63" \o Hex(i) \o "3a" \o v
OtherT == "6f74686572"

\* What interceptor x makes of the outcome of what it yielded to.
After(x, o) ==
  CASE x.p = "throwa" -> IF o.k \in {"ok", "list"} THEN Flt(200 + x.i, TaT(x.i)) ELSE o
    [] x.p = "alter"  -> IF o.k = "ok" THEN Ok(o.v \o "2b" \o Hex(x.i))
                         ELSE IF o.k = "list" THEN Ok("3f" \o "2b" \o Hex(x.i)) ELSE o
    [] x.p = "catch"  -> IF o.k = "fault" THEN Ok(CaT(x.i, o.v)) ELSE IF o.k = "exc" THEN Ok(CaT(x.i, OtherT)) ELSE o
    [] x.p = "conv"   -> IF o.k \in {"ok", "list"} THEN o ELSE Flt(300 + x.i, CvT(x.i))
    [] OTHER          -> o

Yields(x) == x.p \notin {"swallow", "throwb", "std"}
Instead(x) == CASE x.p = "swallow" -> Ok(SwT(x.i))
                [] x.p = "throwb"  -> Flt(100 + x.i, TbT(x.i))
                [] x.p = "std"     -> Exc(StT(x.i))

\* Events and outcome of method m (its source and outcome; "system" leaves no events) below the stack s.
RECURSIVE Eval(_, _, _)
Eval(s, args, m) ==
  IF s = <<>> THEN
    [ev |-> IF m.src = "system" THEN <<>>
            ELSE <<[e |-> "exec", i |-> 0, src |-> m.src, x |-> args], [e |-> "done", i |-> 0, src |-> "", x |-> <<>>]>>,
     out |-> m.out]
  ELSE LET x == Head(s)
           enter == <<[e |-> "enter", i |-> x.i, src |-> "", x |-> <<>>]>>
           leave == <<[e |-> "leave", i |-> x.i, src |-> "", x |-> <<>>]>>
           in == Eval(Tail(s), IF x.p = "params" THEN Append(args, x.i) ELSE args, m)
       IN IF ~Yields(x) THEN [ev |-> enter \o leave, out |-> Instead(x)]
          ELSE IF x.p = "twice" /\ in.out.k \in {"ok", "list"} THEN [ev |-> enter \o in.ev \o in.ev \o leave, out |-> in.out]
          ELSE [ev |-> enter \o in.ev \o leave, out |-> After(x, in.out)]

\* --- calls
\* act: what the called method does (an outcome); the source of the method decides nothing else
Call(t, n, act) ==
  /\ t \notin DOMAIN calls
  /\ LET s == Source(n)
         r == Eval(stack, <<>>, [src |-> s, out |-> IF s = "system" THEN [k |-> "list", c |-> 0, v |-> AllNames] ELSE act])
     IN calls' = Put(calls, t, IF s = "" THEN [rem |-> <<>>, out |-> Flt(-32601, "*")] ELSE [rem |-> r.ev, out |-> r.out])
  /\ UNCHANGED <<table, disps, stack>>

Step(t, ev) == /\ t \in DOMAIN calls /\ calls[t].rem # <<>> /\ Head(calls[t].rem) = ev
               /\ calls' = [calls EXCEPT ![t].rem = Tail(@)]
               /\ UNCHANGED <<table, disps, stack>>

Matches(a, o) ==
  CASE o.k = "ok"    -> a.k = "ok" /\ a.v = o.v
    [] o.k = "list"  -> a.k = "list" /\ a.v = o.v
    [] o.k = "fault" -> a.k = "fault" /\ a.c = o.c /\ (o.v = "*" \/ a.v = o.v)
    [] o.k = "exc"   -> a.k = "fault" /\ (o.v = "*" \/ a.v = o.v)

Return(t, a) == /\ t \in DOMAIN calls /\ calls[t].rem = <<>> /\ Matches(a, calls[t].out)
                /\ calls' = [u \in DOMAIN calls \ {t} |-> calls[u]]
                /\ UNCHANGED <<table, disps, stack>>

Idle == calls = [t \in {} |-> <<>>]
=============================================================================
