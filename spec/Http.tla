-------------------------------- MODULE Http --------------------------------
(* What an HTTP/XML-RPC request asks for and what it deserves.
   A request r is a record
     post, badline : BOOLEAN          request method is POST / a header line lacks its colon
     clen   : "ok" | "none" | "bad"   Content-Length readable, absent, unreadable
     exp    : "no" | "continue" | "other"
     ctype  : "xml" | "other"
     ka     : BOOLEAN                 keep-alive requested
     hdr    : Nat                     bytes of the header block with its blank line
     body   : Nat                     bytes of the body (= declared length if clen = "ok")
     xml    : "call" | "broken" | "structure" | "invalid"   what the body is (invalid: either of the two before)
     known  : BOOLEAN                 the called method exists
     cred   : "none" | "basic" | "undecodable" ; user, pass : STRING
     tag    : STRING                  identifies the call
     act    : STRING ; acode : Int ; atext : STRING     what the method does
   A configuration g is a record
     max : Nat (0 = no limit), strict : BOOLEAN,
     auth : BOOLEAN, anon : BOOLEAN, users : set of <<user, pass>>,
     workers : Nat (0 = executed inside the serving loop)                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Total(r) == r.hdr + r.body

Defects(r, g) ==
       (IF r.post THEN {} ELSE {405})
  \cup (IF r.badline \/ r.clen = "bad" THEN {400} ELSE {})
  \cup (IF r.clen = "none" THEN {411} ELSE {})
  \cup (IF r.exp = "other" THEN {417} ELSE {})
  \cup (IF g.strict /\ r.ctype # "xml" THEN {415} ELSE {})

TooBig(r, g) == g.max > 0 /\ Total(r) >= g.max

Refused(r, g) == TooBig(r, g) \/ Defects(r, g) # {}

\* Statuses a refused request may get.
RefusalCodes(r, g) == Defects(r, g) \cup (IF TooBig(r, g) THEN {413} ELSE {})

\* With `got` bytes arrived: may the refusal come already, must it have come?
MayRefuse(r, g, got) ==
  \/ Defects(r, g) # {} /\ got >= r.hdr
  \/ TooBig(r, g) /\ (got >= r.hdr \/ got >= g.max)

MustRefuse(r, g, got) ==
  \/ Defects(r, g) # {} /\ got >= r.hdr
  \/ TooBig(r, g) /\ (got >= g.max \/ got >= Total(r))

Complete(r, got) == got >= Total(r)

\* Authentication: "pass", "deny" (status 401), "fault".
AuthVerdict(r, g) ==
  IF ~g.auth THEN "pass"
  ELSE IF r.cred = "none" THEN (IF g.anon THEN "pass" ELSE "deny")
  ELSE IF r.cred = "undecodable" THEN "fault"
  ELSE IF <<r.user, r.pass>> \in g.users THEN "pass" ELSE "deny"

\* The caller's name a method sees.
CallerName(r, g) == IF g.auth /\ r.cred = "basic" THEN r.user ELSE ""

Runs(r, g) == /\ ~Refused(r, g)
              /\ AuthVerdict(r, g) = "pass"
              /\ r.xml = "call" /\ r.known

\* Any fault code.
AnyCode == 99999
NotACall == 99998      \* -32700 or -32600
CodeFits(c, f) == f = AnyCode \/ c = f \/ (f = NotACall /\ c \in {-32700, -32600})
AnyText == "*"

\* The answer of a request that is not refused: status, kind, fault code and text.
\* What the method does is told by r.act.
MethodAnswer(r, g) ==
  CASE r.act = "ok"    -> [code |-> 200, kind |-> "ok",    fcode |-> 0,       text |-> ""]
    [] r.act = "fault" -> [code |-> 200, kind |-> "fault", fcode |-> r.acode, text |-> r.atext]
    [] r.act = "exc"   -> [code |-> 200, kind |-> "fault", fcode |-> AnyCode, text |-> r.atext]

Answer(r, g) ==
  CASE AuthVerdict(r, g) = "deny"  -> [code |-> 401, kind |-> "none",  fcode |-> 0,      text |-> ""]
    [] AuthVerdict(r, g) = "fault" -> [code |-> 200, kind |-> "fault", fcode |-> AnyCode, text |-> AnyText]
    [] AuthVerdict(r, g) = "pass" /\ r.xml = "broken"
                                   -> [code |-> 200, kind |-> "fault", fcode |-> -32700, text |-> AnyText]
    [] AuthVerdict(r, g) = "pass" /\ r.xml = "structure"
                                   -> [code |-> 200, kind |-> "fault", fcode |-> -32600, text |-> AnyText]
    [] AuthVerdict(r, g) = "pass" /\ r.xml = "invalid"
                                   -> [code |-> 200, kind |-> "fault", fcode |-> NotACall, text |-> AnyText]
    [] AuthVerdict(r, g) = "pass" /\ r.xml = "call" /\ ~r.known
                                   -> [code |-> 200, kind |-> "fault", fcode |-> -32601, text |-> AnyText]
    [] OTHER                       -> MethodAnswer(r, g)
=============================================================================
