------------------------------- MODULE GenTls -------------------------------
(* Behaviours of the peers of a server (or of a caller and a server) that verify each other: verifiers are installed and
   replaced while no handshake is going on, peers with different certificates connect and make calls on what passed. *)
EXTENDS Tls, Json, TLC, Randomization
CONSTANTS N, Conns, Verifiers, Chains, Fan, Role
VARIABLES h, v, req, up, calm
gvars == <<h, v, req, up, calm>>

Some(n) == IF Fan = 0 \/ Fan >= n THEN 1..n ELSE RandomSubset(Fan, 1..n)
Add(s) == h' = Append(h, s)
Init == h = <<>> /\ v = NoVerifier /\ req = FALSE /\ up = [c \in Conns |-> "off"] /\ calm = TRUE
\* start with a verifier
Ver == /\ calm /\ (IF h = <<>> THEN TRUE ELSE h[Len(h)].o # "ver")
       /\ \E i \in Some(Len(Verifiers)), r \in BOOLEAN :
            /\ v' = Verifiers[i] /\ req' = r
            /\ Add([o |-> "ver", i |-> i, r |-> r, c |-> 0])
       /\ UNCHANGED <<up, calm>>
Open(c) == /\ h # <<>> /\ up[c] = "off" /\ \A d \in Conns : d < c => up[d] # "off"
           /\ \E i \in Some(Len(Chains)) :
                /\ up' = [up EXCEPT ![c] = IF Passes(v, req, Chains[i]) THEN "idle" ELSE "bad"]
                /\ Add([o |-> IF up'[c] = "bad" THEN "badopen" ELSE "open", i |-> i, r |-> FALSE, c |-> c])
           /\ calm' = FALSE /\ UNCHANGED <<v, req>>
Call(c) == /\ up[c] = "idle" /\ \E last \in BOOLEAN :
                /\ up' = [up EXCEPT ![c] = IF last THEN "done" ELSE "busy"]
                /\ Add([o |-> "call", i |-> 0, r |-> last, c |-> c])
           /\ calm' = calm /\ UNCHANGED <<v, req>>
Run == /\ (\lnot calm \/ \E c \in Conns : up[c] = "busy")
       /\ up' = [c \in Conns |-> IF up[c] = "busy" THEN "idle" ELSE up[c]]
       /\ calm' = TRUE
       /\ Add([o |-> "run", i |-> 0, r |-> FALSE, c |-> 0])
       /\ UNCHANGED <<v, req>>
Next == Len(h) < N /\ (Ver \/ Run \/ \E c \in Conns : Open(c) \/ Call(c))
Spec == Init /\ [][Next]_gvars
Emit == (Len(h) = N \/ ~ENABLED Next) => PrintT("@@" \o ToJson(h))
=============================================================================
