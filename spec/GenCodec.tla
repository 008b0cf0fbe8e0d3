------------------------------ MODULE GenCodec ------------------------------
(* Byte strings, edited encodings and date texts; the laws of the codecs. *)
EXTENDS Codec, Json, TLC
CONSTANTS Bytes, MaxLen, Edits, Mode
VARIABLE x

Strings == UNION {[1..n -> Bytes] : n \in 0..MaxLen}
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Ins(s, i, c) == SubSeq(s, 1, i - 1) \o <<c>> \o SubSeq(s, i, Len(s))
Edited(s) == {s} \cup {Without(s, i) : i \in 1..Len(s)}
             \cup {[s EXCEPT ![i] = c] : i \in 1..Len(s), c \in Edits}
             \cup {Ins(s, i, c) : i \in 1..(Len(s) + 1), c \in Edits}

Fields == {1899, 1900, 1999, 2000, 2100, 9999} \X {0, 1, 2, 4, 12, 13} \X {0, 1, 28, 29, 30, 31, 32} \X {0, 9, 23, 24} \X {0, 59, 60} \X {0, 59, 60, 61, 62}
Sample == <<1998, 7, 17, 14, 8, 55>>

Init == x \in (CASE Mode = "bytes" -> Strings
                 [] Mode = "texts" -> UNION {Edited(Encode(b)) : b \in Strings}
                 [] Mode = "dates" -> {DateText(f) : f \in Fields}
                 [] Mode = "datetexts" -> Edited(DateText(Sample)))
Next == FALSE /\ UNCHANGED x
Spec == Init /\ [][Next]_x
Emit == PrintT("@@" \o ToJson(x))

\* ---- laws
Inverse == Mode = "bytes" =>
  LET e == Encode(x)    d == Decode(e) IN
  /\ Len(e) % 4 = 0 /\ 3 * Len(e) = 4 * (Len(x) + ((3 - (Len(x) % 3)) % 3))
  /\ d.ok = "yes" /\ d.b = x /\ d.clean
  /\ \A i \in 1..(Len(e) + 1) : \A c \in {9, 10, 13, 32} : Decode(Ins(e, i, c)) = d
\* a text is read only as bytes whose encoding is that text, up to blanks and unused bits
Exact == Mode = "texts" =>
  LET d == Decode(x)    t == SelectSeq(x, NotBlank) IN
  d.ok = "yes" => /\ Len(Encode(d.b)) = Len(t)
                  /\ d.clean => Encode(d.b) = t
                  /\ \A i \in 1..Len(t) : (t[i] = Pad) <=> (Encode(d.b)[i] = Pad)
DateInverse == Mode \in {"dates", "datetexts"} => (DateVerdict(x) = "yes" => DateText(DateFields(x)) = x)
=============================================================================
