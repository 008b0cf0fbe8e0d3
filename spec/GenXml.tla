------------------------------- MODULE GenXml -------------------------------
(* Enumerates token sequences of documents: every sequence the grammar can still follow, and every first token that breaks it
   (with up to Extra further tokens behind it).  Tokens are written as "<tag", ">", and names of texts.
   With an element that breaks the grammar come the tokens that would have finished the document without it, and those that would
   have finished it had the element been one the surrounding element waits for.  *)
EXTENDS XmlRpc, Json
CONSTANTS Kind,      \* "req" | "rsp"
          Prefix,    \* tokens every document starts with
          Tags, Words,
          N, Extra
VARIABLES m, h, late, was     \* was: the machine before the last token
vars == <<m, h, late, was>>

G0 == [i |-> "", l |-> ""]
Tok(w) == CASE w = ">" -> [o |-> "close"]
            [] w = "blank" -> [o |-> "text", h |-> "20", c |-> <<32>>, d |-> ""]
            [] w = "num"   -> [o |-> "text", h |-> "31", c |-> <<49>>, d |-> "3ff0000000000000"]
            [] w = "word"  -> [o |-> "text", h |-> "78", c |-> <<120>>, d |-> ""]
            [] w = "ref"   -> [o |-> "ref"]
            [] OTHER -> [o |-> "open", t |-> w]
RECURSIVE RunTo(_, _)
RunTo(x, ts) == IF ts = <<>> THEN x ELSE RunTo(Token(x, Tok(Head(ts))), Tail(ts))

Init == m = RunTo(Start(Kind, G0), Prefix) /\ h = <<>> /\ late = 0 /\ was = m
More == Len(h) < N /\ (m.st = "run" \/ late < Extra)
\* a second text in a row would be the same text; nothing can be written outside the root
Texty(w) == w \in Words
Next == /\ More
        /\ \E w \in Tags \cup Words \cup {">"} :
             /\ (Texty(w) /\ h # <<>>) => (h[Len(h)] # w /\ ("ref" \in {w, h[Len(h)]} \/ ~Texty(h[Len(h)])))
             /\ ~(m.st = "run" /\ Len(m.stk) = 1 /\ (w = ">" \/ Texty(w)))
             /\ m.st = "run" \/ w # ">"
             /\ m' = Token(m, Tok(w)) /\ was' = m
             /\ h' = Append(h, w)
             /\ late' = IF m.st = "bad" THEN late + 1 ELSE 0

\* What the frame at the top of the stack still needs, and what finishes all of them.
One == <<"value", ">">>
Needs(x, f) ==
  CASE f.t = "methodCall" /\ f.p = 0     -> <<"methodName", "word", ">">>
    [] f.t = "methodResponse" /\ f.p = 0 -> <<"params", "param">> \o One \o <<">", ">">>
    [] f.t = "params" /\ f.p = 0 /\ x.k = "rsp" -> <<"param">> \o One \o <<">">>
    [] f.t = "param" /\ f.p = 0 -> One
    [] f.t = "fault" /\ f.p = 0 -> <<"value", "struct", "member", "name", "code", ">", "value", "int", "num", ">", ">", ">",
                                     "member", "name", "string", ">">> \o One \o <<">", ">", ">">>
    [] f.t = "member" /\ f.p = 0 -> <<"name", "word", ">">> \o One
    [] f.t = "member" /\ f.p = 1 -> One
    [] f.t = "array" /\ f.p = 0 -> <<"data", ">">>
    [] f.t \in {"int", "i4", "i8", "boolean", "double"} /\ f.c = <<>> -> <<"num">>
    [] OTHER -> <<>>
RECURSIVE Finish(_)
Finish(x) == IF Len(x.stk) <= 1 THEN <<>> ELSE Needs(x, Top(x)) \o <<">">> \o Finish(Pop(x))
Taken(x) == [x EXCEPT !.stk[Len(x.stk)].p = @ + 1]
Rest == IF m.st = "bad" /\ h # <<>> /\ h[Len(h)] # ">" /\ Len(was.stk) > 1
        THEN (IF Needs(was, Top(was)) = Needs(was, Top(Taken(was))) THEN <<Finish(was)>> ELSE <<Finish(was), Finish(Taken(was))>>)
        ELSE <<>>
Emit == (Len(h) = N \/ ~More \/ Done(m)) => PrintT("@@" \o ToJson(<<IF Done(m) THEN "done" ELSE m.st, h, Rest>>))
Spec == Init /\ [][Next]_vars
=============================================================================
