------------------------------ MODULE GenValue ------------------------------
(* All shapes of values up to a depth and width, and what writing them has to give. *)
EXTENDS XmlRpc, Json
CONSTANTS Leaves, Depth, Width
VARIABLE v

Keys == <<"k61", "k62", "k63", "k64">>
RECURSIVE Shapes(_)
Shapes(d) ==
  IF d = 0 THEN Leaves
  ELSE LET s == Shapes(d - 1) IN
       Leaves \cup UNION {{<<"[", q>> : q \in [1..n -> s]} : n \in 0..Width}
              \cup UNION {{<<"{", [x \in {Keys[i] : i \in 1..n} |-> q[CHOOSE i \in 1..n : Keys[i] = x]]>> : q \in [1..n -> s]} : n \in 0..Width}

Init == v \in Shapes(Depth)
Next == FALSE /\ UNCHANGED v
Spec == Init /\ [][Next]_v

\* ---------------------------------------------------------------- writing
O(t) == [o |-> "open", t |-> t]
C == [o |-> "close"]
El(t, q) == <<O(t)>> \o q \o <<C>>
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
RECURSIVE Order(_)
Order(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o Order(s \ {x})
Txt(h, c) == <<[o |-> "text", h |-> h, c |-> c, d |-> ""]>>
KeyText(k) == CASE k = "k61" -> Txt("61", <<97>>) [] k = "k62" -> Txt("62", <<98>>) [] k = "k63" -> Txt("63", <<99>>) [] OTHER -> Txt("64", <<100>>)
\* the leaves of the model
LeafTok(x) == CASE x = <<"n">> -> El("nil", <<>>)
                [] x = <<"T">> -> El("boolean", Txt("31", <<49>>))
                [] x = <<"F">> -> El("boolean", Txt("30", <<48>>))
                [] x = <<"i", "-12">> -> El("i4", Txt("2d3132", <<45, 49, 50>>))
                [] x = <<"l", "12">> -> El("i8", Txt("3132", <<49, 50>>))
                [] x = <<"s", "20">> -> El("string", Txt("20", <<32>>))
                [] x = <<"s", "">> -> El("string", <<>>)
                [] x = <<"b", "00ff">> -> El("base64", Txt("4150383d", Encode(<<0, 255>>)))
                [] x = <<"b", "">> -> El("base64", <<>>)
                [] x = <<"D", "19980717T14:08:55">> -> El("dateTime.iso8601", Txt("", DateText(<<1998, 7, 17, 14, 8, 55>>)))
RECURSIVE Written(_)
Written(x) ==
  El("value",
     CASE x[1] = "[" -> El("array", El("data", Flat([i \in 1..Len(x[2]) |-> Written(x[2][i])])))
       [] x[1] = "{" -> LET ks == Order(DOMAIN x[2]) IN
                        El("struct", Flat([i \in 1..Len(ks) |-> El("member", El("name", KeyText(ks[i])) \o Written(x[2][ks[i]]))]))
       [] OTHER -> LeafTok(x))
RECURSIVE RunAll(_, _)
RunAll(m, ts) == IF ts = <<>> THEN m ELSE RunAll(Token(m, Head(ts)), Tail(ts))
Request(x) == El("methodCall", El("methodName", Txt("61", <<97>>)) \o El("params", El("param", Written(x))))
Response(x) == El("methodResponse", El("params", El("param", Written(x))))
G0 == [i |-> "", l |-> ""]

RoundTrip ==
  LET q == RunAll(Start("req", G0), Request(v))
      p == RunAll(Start("rsp", G0), Response(v))
  IN /\ Done(q) /\ ~q.lax /\ ~q.any /\ Method(q) = "61" /\ Params(q) = <<v>>
     /\ Done(p) /\ ~p.lax /\ ~p.any /\ ~IsFault(p) /\ Params(p) = <<v>>
\* no document is one of the other kind, none stays one when its last token is missing, none of its proper prefixes is complete
Strict ==
  LET ts == Request(v) IN
  /\ ~Done(RunAll(Start("rsp", G0), ts))
  /\ \A k \in 1..(Len(ts) - 1) : ~Done(RunAll(Start("req", G0), SubSeq(ts, 1, k)))
Emit == PrintT("@@" \o ToJson(v))
=============================================================================
