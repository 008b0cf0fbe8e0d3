------------------------------ MODULE TlsImpl ------------------------------
(* Handshakes with verification as the library does them: the mode and the verifier of the side are set up before the
   handshake, certificates are walked from the last of the chain to the first, each question goes to the verifier
   through a wrapper that turns exceptions into "no", and the first "no" ends the handshake.  Sessions of earlier
   connections may be offered again.  Only connections that are up read requests and run methods.
   Refinement: a connection gets as far as Tls.Passes says. *)
EXTENDS Tls
CONSTANTS Verifiers, Chains, Conns, Bug
VARIABLES cv, sv, req, conn, sess
vars == <<cv, sv, req, conn, sess>>

\* st: "new" | "asking" | "up" | "failed"; role: which side the library plays
Blank == [st |-> "off", role |-> "server", chain |-> <<>>, todo |-> <<>>, ran |-> FALSE, pass |-> FALSE, asked |-> FALSE]
Init == cv = NoVerifier /\ sv = NoVerifier /\ req = FALSE /\ conn = [c \in Conns |-> Blank] /\ sess = {}

Quiet == \A c \in Conns : conn[c].st \in {"off", "up", "failed"}
SetClientVerifier(v, r) == Quiet /\ cv' = v /\ req' = r /\ UNCHANGED <<sv, conn, sess>>
SetServerVerifier(v) == Quiet /\ sv' = v /\ UNCHANGED <<cv, req, conn, sess>>

Mine(role) == IF Bug = "otherside" THEN (IF role = "server" THEN sv ELSE cv) ELSE (IF role = "server" THEN cv ELSE sv)
Questions(chain) == LET n == Len(chain) IN
  <<<<chain[n], FALSE>>>> \o [i \in 1..n |-> <<chain[n + 1 - i], TRUE>>]

Open(c, role, chain) ==
  /\ conn[c].st = "off"
  /\ role = "client" => chain # <<>>                                   \* servers always show a certificate
  /\ LET v == Mine(role)
         truth == Passes(IF role = "server" THEN cv ELSE sv, role = "server" /\ req, chain)
         resumed == Bug = "resume" /\ role = "server" /\ chain \in sess
         b == [Blank EXCEPT !.role = role, !.chain = chain, !.pass = truth]
     IN conn' = [conn EXCEPT ![c] =
          IF resumed \/ v.k = "none" THEN [b EXCEPT !.st = "up"]
          ELSE IF chain = <<>> THEN [b EXCEPT !.st = IF role = "server" /\ req /\ Bug # "norequire" THEN "failed" ELSE "up"]
          ELSE [b EXCEPT !.st = "asking", !.todo = Questions(chain)]]
  /\ UNCHANGED <<cv, sv, req, sess>>

Verdict(v, q) == IF v.k = "throw" /\ Bug = "throw" THEN TRUE ELSE Says(v, q[1], q[2])
Ask(c) ==
  /\ conn[c].st = "asking"
  /\ LET k == conn[c]    yes == Verdict(Mine(k.role), Head(k.todo))
         rest == IF Bug = "first" /\ yes THEN <<>> ELSE Tail(k.todo)
     IN /\ conn' = [conn EXCEPT ![c] = IF ~yes THEN [k EXCEPT !.st = IF Bug = "ignored" THEN "up" ELSE "failed"]
                                       ELSE IF rest = <<>> THEN [k EXCEPT !.st = "up", !.todo = <<>>]
                                       ELSE [k EXCEPT !.todo = rest]]
  /\ UNCHANGED <<cv, sv, req, sess>>

\* a method runs (server) or a request goes out and its result is returned (client)
Talk(c) ==
  /\ conn[c].st = "up" \/ (Bug = "early" /\ conn[c].st = "asking")
  /\ ~conn[c].ran
  /\ conn' = [conn EXCEPT ![c].ran = TRUE]
  /\ sess' = sess \cup {conn[c].chain}
  /\ UNCHANGED <<cv, sv, req>>

Next == \/ \E v \in Verifiers, r \in BOOLEAN : SetClientVerifier(v, r)
        \/ \E v \in Verifiers : SetServerVerifier(v)
        \/ \E c \in Conns : \/ \E role \in {"server", "client"}, ch \in Chains : Open(c, role, ch)
                            \/ Ask(c) \/ Talk(c)
Spec == Init /\ [][Next]_vars

OnlyPassing == \A c \in Conns : conn[c].ran => conn[c].pass
AllPassing == \A c \in Conns : conn[c].st = "failed" => ~conn[c].pass
=============================================================================
