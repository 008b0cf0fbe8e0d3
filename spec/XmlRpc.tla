------------------------------- MODULE XmlRpc -------------------------------
(* The XML-RPC grammar as a machine over the tokens of a document:
     [o |-> "open",  t |-> tag]                      (prefixes removed)
     [o |-> "close"]
     [o |-> "text",  h |-> hex of the UTF-8 bytes, c |-> character codes, d |-> bits of the number it spells or ""]
     [o |-> "ref"]                                   reference to a declared entity: stands for nothing
     [o |-> "any"]                                   something this grammar leaves open
     [o |-> "broken"]                                from here on the document is not well-formed
   The machine m is a record
     k    : "req" | "rsp"           kind of document
     g    : [i, l]                  values standing for empty integer elements, "" if none
     stk  : stack of frames, the document itself at the bottom
     st   : "run" | "bad"           bad: has to be refused
     lax  : may be refused as well
     any  : outcome left open
   A frame is [t, p, v, mp, nm, h, c, d, n]: tag, progress, values so far, members so far, name of the current member,
   text so far and the number of pieces it came in.
   Values: <<"n">>, <<"T">>, <<"F">>, <<"i", decimal>>, <<"l", decimal>>, <<"d", bits>>, <<"s", hex>>, <<"b", hex>>,
   <<"D", text>>, <<"[", values>>, <<"{", members>>; <<"s~", hex>>: this text or the empty one; <<"?">>: any value.  *)
EXTENDS Codec, TLC

Nothing == [x \in {} |-> 0]
Frame(t) == [t |-> t, p |-> 0, v |-> <<>>, mp |-> Nothing, nm |-> "", h |-> "", c |-> <<>>, d |-> "", n |-> 0]
Start(k, g) == [k |-> k, g |-> g, stk |-> <<Frame("doc")>>, st |-> "run", lax |-> FALSE, any |-> FALSE]

Scalars == {"string", "int", "i4", "i8", "boolean", "double", "base64", "dateTime.iso8601", "nil"}
Types == Scalars \cup {"struct", "array"}
Texts == Scalars \cup {"methodName", "name"}

\* What element tag does to a frame: the new progress, or -1 if it may not stand here.
Step(m, f, tag) ==
  CASE f.t = "doc"            -> IF f.p = 0 /\ tag = (IF m.k = "req" THEN "methodCall" ELSE "methodResponse") THEN 1 ELSE -1
    [] f.t = "methodCall"     -> IF f.p = 0 /\ tag = "methodName" THEN 1 ELSE IF f.p = 1 /\ tag = "params" THEN 2 ELSE -1
    [] f.t = "methodResponse" -> IF f.p = 0 /\ tag \in {"params", "fault"} THEN 1 ELSE -1
    [] f.t = "params"         -> IF tag = "param" /\ (m.k = "req" \/ f.p = 0) THEN 1 ELSE -1
    [] f.t \in {"param", "fault"} -> IF f.p = 0 /\ tag = "value" THEN 1 ELSE -1
    [] f.t = "value"          -> IF f.p = 0 /\ tag \in Types THEN 1 ELSE -1
    [] f.t = "struct"         -> IF tag = "member" THEN 0 ELSE -1
    [] f.t = "member"         -> IF f.p = 0 /\ tag = "name" THEN 1 ELSE IF f.p = 1 /\ tag = "value" THEN 2 ELSE -1
    [] f.t = "array"          -> IF f.p = 0 /\ tag = "data" THEN 1 ELSE -1
    [] f.t = "data"           -> IF tag = "value" THEN 0 ELSE -1
    [] OTHER                  -> -1

Refuse(m) == [m EXCEPT !.st = "bad"]

\* ---------------------------------------------------------------- scalars: [r |-> "ok" | "bad" | "any" | "may", v]
OkV(v) == [r |-> "ok", v |-> v]
MayV(v) == [r |-> "may", v |-> v]
BadV == [r |-> "bad", v |-> <<"?">>]
AnyV == [r |-> "any", v |-> <<"?">>]

IntText(x) == (IF x.neg THEN "-" ELSE "") \o Ascii(x.d)
Number(f, wide, tag, dflt) ==
  IF AllBlank(f.c) THEN
    (IF dflt = "" THEN BadV ELSE IF f.c = <<>> THEN OkV(<<tag, dflt>>) ELSE MayV(<<tag, dflt>>))
  ELSE LET x == Integer(f.c, wide) IN
    IF x.ok = "bad" THEN (IF \E i \in 1..Len(f.c) : f.c[i] \in Blanks THEN AnyV ELSE BadV)
    ELSE OkV(<<tag, IntText(x)>>)

Scalar(f, g) ==
  LET v ==
    CASE f.t = "string"  -> OkV(<<"s", f.h>>)
      [] f.t \in {"int", "i4"} -> Number(f, FALSE, "i", g.i)
      [] f.t = "i8"      -> Number(f, TRUE, "l", g.l)
      [] f.t = "boolean" -> IF f.c = <<48>> THEN OkV(<<"F">>) ELSE IF f.c = <<49>> THEN OkV(<<"T">>)
                            ELSE IF Number(f, FALSE, "i", "").r = "bad" THEN BadV ELSE AnyV
      [] f.t = "double"  -> IF Decimal(f.c) = "plain" THEN (IF f.d = "" THEN AnyV ELSE OkV(<<"d", f.d>>))
                            ELSE IF Decimal(f.c) = "odd" \/ (~AllBlank(f.c) /\ \E i \in 1..Len(f.c) : f.c[i] \in Blanks) THEN AnyV ELSE BadV
      [] f.t = "base64"  -> LET x == Decode(f.c) IN
                            IF x.ok = "bad" THEN BadV ELSE IF x.clean THEN OkV(<<"b", Hex(x.b)>>) ELSE AnyV
      [] f.t = "dateTime.iso8601" -> LET x == DateVerdict(f.c) IN
                            IF x = "no" THEN (IF ~AllBlank(f.c) /\ \E i \in 1..Len(f.c) : f.c[i] \in Blanks THEN AnyV ELSE BadV)
                            ELSE IF x = "yes" THEN OkV(<<"D", Ascii(f.c)>>) ELSE AnyV
      [] f.t = "nil"     -> IF AllBlank(f.c) THEN OkV(<<"n">>) ELSE MayV(<<"n">>)
  IN IF f.n > 1 /\ f.t \notin {"string", "nil"} THEN AnyV ELSE v

Settle(m, x) ==
  CASE x.r = "bad" -> Refuse(m)
    [] x.r = "any" -> [m EXCEPT !.any = TRUE]
    [] x.r = "may" -> [m EXCEPT !.lax = TRUE]
    [] OTHER -> m

\* ---------------------------------------------------------------- closing an element
Pop(m) == [m EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)]
Give(m, v) == [m EXCEPT !.stk[Len(m.stk)].v = Append(@, v)]
Top(m) == m.stk[Len(m.stk)]

FaultKeys == {"k6661756c74436f6465", "k6661756c74537472696e67"}
FaultOk(v) == v[1] = "{" /\ DOMAIN v[2] = FaultKeys
              /\ v[2]["k6661756c74436f6465"][1] \in {"i", "?"}
              /\ v[2]["k6661756c74537472696e67"][1] \in {"s", "s~", "?"}

Close(m) ==
  LET f == Top(m)    q == Pop(m)
  IN CASE f.t = "doc" -> Refuse(m)
       [] f.t = "methodCall"     -> IF f.p = 0 THEN Refuse(m) ELSE [q EXCEPT !.stk[1].nm = f.nm, !.stk[1].v = f.v]
       [] f.t = "methodName"     -> [q EXCEPT !.stk[Len(q.stk)].nm = f.h]
       [] f.t = "methodResponse" -> IF f.p = 0 THEN Refuse(m) ELSE [q EXCEPT !.stk[1].v = f.v, !.stk[1].nm = f.nm]
       [] f.t = "params"         -> IF m.k = "rsp" /\ f.p = 0 THEN Refuse(m) ELSE [q EXCEPT !.stk[Len(q.stk)].v = f.v]
       [] f.t = "param"          -> IF f.p = 0 THEN Refuse(m) ELSE Give(q, f.v[1])
       [] f.t = "fault"          -> IF f.p = 0 \/ ~FaultOk(f.v[1]) THEN Refuse(m)
                                    ELSE [q EXCEPT !.stk[Len(q.stk)].v = f.v, !.stk[Len(q.stk)].nm = "fault"]
       [] f.t = "value"          -> IF f.p = 1 THEN Give(q, f.v[1])
                                    ELSE Give(q, <<IF f.c # <<>> /\ f.n = 0 THEN "s~" ELSE "s", f.h>>)
       [] f.t = "struct"         -> Give(q, <<"{", f.mp>>)
       [] f.t = "member"         -> IF f.p # 2 THEN Refuse(m)
                                    ELSE LET key == "k" \o f.nm IN
                                      IF key \in DOMAIN Top(q).mp
                                      THEN [q EXCEPT !.any = TRUE, !.stk[Len(q.stk)].mp = (key :> <<"?">>) @@ @]
                                      ELSE [q EXCEPT !.stk[Len(q.stk)].mp = @ @@ (key :> f.v[1])]
       [] f.t = "name"           -> [q EXCEPT !.stk[Len(q.stk)].nm = f.h]
       [] f.t = "array"          -> IF f.p = 0 THEN [Give(q, <<"[", <<>> >>) EXCEPT !.lax = TRUE] ELSE Give(q, <<"[", f.v>>)
       [] f.t = "data"           -> [q EXCEPT !.stk[Len(q.stk)].v = f.v]
       [] OTHER                  -> LET x == Scalar(f, m.g) IN Settle(Give(q, x.v), x)

\* ---------------------------------------------------------------- text
Text(m, k) ==
  LET f == Top(m)    n == Len(m.stk)
  IN IF f.t \in Texts THEN
       [m EXCEPT !.stk[n].h = @ \o k.h, !.stk[n].c = @ \o k.c, !.stk[n].d = k.d, !.stk[n].n = @ + 1]
     ELSE IF f.t = "value" /\ f.p = 0 THEN
       \* white space of a value may belong to a text or stand between elements
       LET blank == AllBlank(k.c) IN
       [m EXCEPT !.stk[n].h = @ \o k.h, !.stk[n].c = @ \o k.c, !.stk[n].n = IF blank THEN @ ELSE @ + 1,
                 !.any = @ \/ (f.c # <<>> /\ (blank \/ f.n = 0))]
     ELSE IF f.t = "doc" \/ AllBlank(k.c) THEN m
     ELSE [m EXCEPT !.lax = TRUE]

Open(m, tag) ==
  LET f == Top(m)    p == Step(m, f, tag)    n == Len(m.stk)
      \* text in front of the type of a value
      stray == f.t = "value" /\ f.n > 0
      m2 == [m EXCEPT !.stk[n].p = p, !.lax = @ \/ stray]
  IN IF p = -1 THEN Refuse(m) ELSE [m2 EXCEPT !.stk = Append(@, Frame(tag))]

Token(m, k) ==
  IF m.st = "bad" THEN m
  ELSE CASE k.o = "open"  -> Open(m, k.t)
         [] k.o = "close" -> Close(m)
         [] k.o = "text"  -> Text(m, k)
         [] k.o = "any"   -> [m EXCEPT !.any = TRUE]
         [] k.o = "ref"   -> [m EXCEPT !.lax = TRUE]
         [] OTHER         -> Refuse(m)

Done(m) == m.st = "run" /\ Len(m.stk) = 1 /\ m.stk[1].p = 1
\* What the document stands for.
Method(m) == m.stk[1].nm
Params(m) == m.stk[1].v
IsFault(m) == m.stk[1].nm = "fault"
FaultCode(m) == m.stk[1].v[1][2]["k6661756c74436f6465"]
FaultText(m) == m.stk[1].v[1][2]["k6661756c74537472696e67"]

\* ---------------------------------------------------------------- agreement of a value v of the grammar with one that was read
RECURSIVE Fits(_, _)
Fits(v, g) ==
  CASE v[1] = "?"  -> TRUE
    [] v[1] = "s~" -> g = <<"s", "">> \/ g = <<"s", v[2]>>
    [] v[1] = "["  -> g[1] = "[" /\ Len(g[2]) = Len(v[2]) /\ \A i \in 1..Len(v[2]) : Fits(v[2][i], g[2][i])
    [] v[1] = "{"  -> g[1] = "{" /\ DOMAIN g[2] = DOMAIN v[2] /\ \A x \in DOMAIN v[2] : Fits(v[2][x], g[2][x])
    [] OTHER       -> g = v

\* Outcome r: [k |-> "ok", n, v] of a request, [k |-> "ok", v] or [k |-> "fault", c, v] of a response, [k |-> "exc"].
ReadsAs(m, r) ==
  IF m.k = "req" THEN r.k = "ok" /\ r.n = Method(m) /\ Len(r.v) = Len(Params(m)) /\ \A i \in 1..Len(r.v) : Fits(Params(m)[i], r.v[i])
  ELSE IF IsFault(m) THEN r.k = "fault" /\ Fits(FaultCode(m), <<"i", r.c>>) /\ Fits(FaultText(m), <<"s", r.v>>)
  ELSE r.k = "ok" /\ Fits(Params(m)[1], r.v)

MayRead(m, r) ==
  IF m.any /\ m.st # "bad" THEN TRUE
  ELSE IF ~Done(m) THEN r.k = "exc"
  ELSE (r.k = "exc" /\ m.lax) \/ (r.k # "exc" /\ ReadsAs(m, r))
=============================================================================
