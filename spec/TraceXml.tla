------------------------------ MODULE TraceXml ------------------------------
(* Documents the library read and wrote, and its codecs. *)
EXTENDS XmlRpc, Json, SequencesExt
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLES l, g
vars == <<l, g>>

Read(k, toks) == FoldLeft(Token, Start(k, g), toks)

\* live: allocations left behind; io: files and sockets touched; the result is no longer than the document
Clean(e) == e.live = 0 /\ e.io = 0 /\ e.size <= e.len

Doc(e) == Clean(e) /\ MayRead(Read(e.k, e.t), e.r)

\* A value that was written: the document stands for it, and reading gives it back.
Dump(e) ==
  LET m == Read(e.k, e.t) IN
  /\ Clean(e) /\ Done(m) /\ ~m.any /\ ~m.lax
  /\ ReadsAs(m, e.v)
  /\ MayRead(m, e.r)
  /\ (e.omit \/ e.r = e.v)

Enc(e) == e.r = Encode(e.b) /\ e.b2 = e.b
Dec(e) == LET x == Decode(e.c) IN
          IF x.ok = "bad" THEN e.r = "exc"
          ELSE (e.r = "ok" /\ e.b = x.b) \/ (e.r = "exc" /\ ~x.clean)
Date(e) == LET v == DateVerdict(e.c) IN
           CASE v = "no"  -> e.r = "exc"
             [] v = "yes" -> e.r = "ok" /\ e.f = DateFields(e.c) /\ e.b = e.c
             [] OTHER     -> e.r = "exc" \/ (e.r = "ok" /\ e.f = DateFields(e.c) /\ e.b = e.c)
Tm(e) == e.b = DateText(e.f)

Event(e) ==
  CASE e.e = "cfg"  -> g' = [i |-> "", l |-> ""]
    [] e.e = "opt"  -> g' = [i |-> e.i, l |-> e.l]
    [] e.e = "doc"  -> Doc(e) /\ UNCHANGED g
    [] e.e = "dump" -> Dump(e) /\ UNCHANGED g
    [] e.e = "enc"  -> Enc(e) /\ UNCHANGED g
    [] e.e = "dec"  -> Dec(e) /\ UNCHANGED g
    [] e.e = "date" -> Date(e) /\ UNCHANGED g
    [] e.e = "tm"   -> Tm(e) /\ UNCHANGED g
    [] OTHER        -> FALSE
Init == l = 1 /\ g = [i |-> "", l |-> ""]
Next == l <= Len(Trace) /\ Event(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
