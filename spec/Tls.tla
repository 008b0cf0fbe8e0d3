-------------------------------- MODULE Tls --------------------------------
(* Who may talk over TLS.  A peer shows a chain of certificates, its own first, or none (the empty chain).
   A verifier v is asked about the certificates of the chain, also by questions whether it agrees that one is fine:
   "none" (no verifier), "accept", "refuse", "throw", "pre" (says what the library found: no certificate is trusted by
   itself here), "late" (refuses what the library found fine), "objects" (throws at that), "only" (accepts the certificates in v.who). *)
EXTENDS Naturals, Sequences, FiniteSets

NoVerifier == [k |-> "none", who |-> {}]
Rng(q) == {q[i] : i \in DOMAIN q}

\* what v says about certificate c that the library found fine (pre) or not
Says(v, c, pre) == CASE v.k = "accept" -> TRUE
                     [] v.k = "pre"    -> pre
                     [] v.k \in {"late", "objects"} -> ~pre
                     [] v.k = "only"   -> c \in v.who
                     [] OTHER          -> FALSE       \* also when it throws

\* Every certificate is asked about in the end, and some certificate of a chain without trusted issuer is not fine.
Accepts(v, chain) == v.k = "accept" \/ (v.k = "only" /\ Rng(chain) \subseteq v.who)

\* A connection is talked on iff
Passes(v, required, chain) == IF v.k = "none" THEN TRUE
                              ELSE IF chain = <<>> THEN ~required
                              ELSE Accepts(v, chain)
=============================================================================
