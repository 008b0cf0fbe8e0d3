------------------------------ MODULE TraceTls ------------------------------
(* Recorded runs of servers whose clients are verified: connections are served or dropped as Tls says, and those that
   pass are served as in Service.  A connection is judged by the verifier that was installed when it was made. *)
EXTENDS TraceService, Tls
VARIABLES ver, gen, own, yes     \* own: connection -> what it was opened under; yes: <<gen, certificate>>
tvars == <<vars, ver, gen, own, yes>>

Pol(e) == [v |-> [k |-> e.k, who |-> ToSet(e.who)], req |-> e.req]
Chain(q) == [i \in 1..Len(q) |-> q[i]]
TEvent(e) ==
  CASE e.e = "cfg"      -> Event(e) /\ ver' = [v |-> NoVerifier, req |-> FALSE] /\ gen' = 0 /\ own' = [c \in {} |-> 0] /\ yes' = {}
    [] e.e = "verifier" -> ver' = Pol(e) /\ gen' = gen + 1 /\ UNCHANGED <<svars, own, yes>>
    [] e.e = "topen"    -> /\ PeerOpen(e.c, IF Passes(ver.v, ver.req, Chain(e.chain)) THEN "ok" ELSE "bad")
                           /\ own' = [c \in DOMAIN own \cup {e.c} |-> IF c = e.c THEN [v |-> ver.v, gen |-> gen, chain |-> Chain(e.chain)] ELSE own[c]]
                           /\ UNCHANGED <<ver, gen, yes>>
    \* the verifier was asked; its answer is what its kind says
    [] e.e = "verify"   -> /\ ver.v.k # "none" /\ e.side = "client"
                           /\ e.ok = Says(ver.v, e.cert, e.pre)
                           /\ \E c \in DOMAIN own : own[c].gen = gen /\ e.cert \in Rng(own[c].chain)
                           /\ yes' = IF e.ok THEN yes \cup {<<gen, e.cert>>} ELSE yes
                           /\ UNCHANGED <<svars, ver, gen, own>>
    \* nothing runs for a certificate the verifier has not said yes to since it was installed
    [] e.e = "exec"     -> /\ Event(e)
                           /\ \A c \in ByTag(e.tag) \cap DOMAIN own : own[c].v.k # "none" => \A x \in Rng(own[c].chain) : <<own[c].gen, x>> \in yes
                           /\ UNCHANGED <<ver, gen, own, yes>>
    [] OTHER            -> Event(e) /\ UNCHANGED <<ver, gen, own, yes>>
TInit == Init /\ ver = [v |-> NoVerifier, req |-> FALSE] /\ gen = 0 /\ own = [c \in {} |-> 0] /\ yes = {}
TNext == /\ l <= Len(Trace)
         /\ TEvent(Trace[l])
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
