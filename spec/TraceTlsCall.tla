---------------------------- MODULE TraceTlsCall ----------------------------
(* Recorded calls of clients that verify servers; the servers answer every request they get.  In some runs the server
   is the library's own and verifies the client in turn: then both have to pass.  Clients call one after another. *)
EXTENDS Tls, Json, TLC
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLES l, sv, cv, req, mine, cl, call
vars == <<l, sv, cv, req, mine, cl, call>>

Pol(e) == [k |-> e.k, who |-> Rng(e.who)]
Idle == [id |-> "", c |-> 0, sent |-> FALSE, pass |-> FALSE, fresh |-> FALSE, asked |-> {}]
Pass(chain) == Passes(sv, FALSE, chain) /\ Passes(cv, req, mine)
\* what has to be asked for a new connection before anything is sent on it
Asked(a) == sv.k # "none" => Rng(cl[a.c].chain) \subseteq a.asked
Event(e) ==
  CASE e.e = "cfg"    -> /\ sv' = NoVerifier /\ cv' = NoVerifier /\ req' = FALSE /\ call' = Idle
                         /\ cl' = [c \in {} |-> 0] /\ mine' = e.mine
    [] e.e = "sv"     -> call.id = "" /\ sv' = Pol(e) /\ UNCHANGED <<cv, req, mine, cl, call>>
    [] e.e = "cv"     -> call.id = "" /\ cv' = Pol(e) /\ req' = e.req /\ UNCHANGED <<sv, mine, cl, call>>
    [] e.e = "client" -> /\ cl' = [c \in DOMAIN cl \cup {e.c} |-> IF c = e.c THEN [chain |-> e.chain, ka |-> FALSE, kept |-> FALSE] ELSE cl[c]]
                         /\ UNCHANGED <<sv, cv, req, mine, call>>
    [] e.e = "ka"     -> /\ cl' = [cl EXCEPT ![e.c].ka = e.b, ![e.c].kept = @ /\ e.b]
                         /\ UNCHANGED <<sv, cv, req, mine, call>>
    [] e.e = "verify" -> /\ call.id # "" /\ call.fresh
                         /\ LET v == IF e.side = "server" THEN sv ELSE cv IN v.k # "none" /\ e.ok = Says(v, e.cert, e.pre)
                         /\ e.cert \in Rng(IF e.side = "server" THEN cl[call.c].chain ELSE mine)
                         /\ call' = IF e.side = "server" /\ e.ok THEN [call EXCEPT !.asked = @ \cup {e.cert}] ELSE call
                         /\ UNCHANGED <<sv, cv, req, mine, cl>>
    \* kept connections were verified when they were made
    [] e.e = "call"   -> /\ call.id = ""
                         /\ call' = [id |-> e.id, c |-> e.c, sent |-> FALSE, asked |-> {}, fresh |-> ~cl[e.c].kept,
                                     pass |-> cl[e.c].kept \/ Pass(cl[e.c].chain)]
                         /\ UNCHANGED <<sv, cv, req, mine, cl>>
    [] e.e = "got"    -> /\ call.id # "" /\ ~call.sent /\ call.pass          \* the server has the request, or runs it
                         /\ call.fresh => Asked(call)
                         /\ call' = [call EXCEPT !.sent = TRUE]
                         /\ UNCHANGED <<sv, cv, req, mine, cl>>
    [] e.e = "ret"    -> /\ call.id = e.id
                         /\ e.ok = call.pass /\ (e.ok => call.sent)
                         /\ call' = Idle /\ cl' = [cl EXCEPT ![call.c].kept = e.ok /\ cl[call.c].ka]
                         /\ UNCHANGED <<sv, cv, req, mine>>
    [] e.e = "quiet"  -> call.id = "" /\ UNCHANGED <<sv, cv, req, mine, cl, call>>
    [] OTHER          -> FALSE
Init == l = 1 /\ sv = NoVerifier /\ cv = NoVerifier /\ req = FALSE /\ mine = <<>> /\ cl = [c \in {} |-> 0] /\ call = Idle
Next == l <= Len(Trace) /\ Event(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
