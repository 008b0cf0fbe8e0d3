------------------------------- MODULE Codec -------------------------------
(* Texts as sequences of character codes: base64, dates, integers, decimals.
   "Bad" marks a text that has to be refused, "Any" one whose reading is left open. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Bad == [ok |-> "bad"]
Blanks == {9, 10, 11, 12, 13, 32}
IsDigit(c) == c >= 48 /\ c <= 57
AllBlank(s) == \A i \in 1..Len(s) : s[i] \in {9, 10, 13, 32}

\* ------------------------------------------------------------------ base64
Alpha(n) == IF n < 26 THEN 65 + n ELSE IF n < 52 THEN 97 + n - 26 ELSE IF n < 62 THEN 48 + n - 52 ELSE IF n = 62 THEN 43 ELSE 47
Index(c) == IF c >= 65 /\ c <= 90 THEN c - 65
            ELSE IF c >= 97 /\ c <= 122 THEN c - 71
            ELSE IF IsDigit(c) THEN c + 4
            ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE 64
Pad == 61

\* The canonical encoding of b.
Encode(b) ==
  LET n == Len(b)
      q == (n + 2) \div 3
      B(i) == IF i <= n THEN b[i] ELSE 0
      C(k) ==                                     \* the k-th character
        LET g == (k - 1) \div 4    r == (k - 1) % 4    i == 3 * g + 1
        IN CASE r = 0 -> Alpha(B(i) \div 4)
             [] r = 1 -> Alpha((B(i) % 4) * 16 + B(i + 1) \div 16)
             [] r = 2 -> IF i + 1 > n THEN Pad ELSE Alpha((B(i + 1) % 16) * 4 + B(i + 2) \div 64)
             [] r = 3 -> IF i + 2 > n THEN Pad ELSE Alpha(B(i + 2) % 64)
  IN [k \in 1..(4 * q) |-> C(k)]

NotBlank(c) == c \notin Blanks
\* The bytes a text stands for: quadruples, padding at the very end only.
Decode(s) ==
  LET t == SelectSeq(s, NotBlank)
      n == Len(t)
      pads == IF n > 1 /\ t[n] = Pad THEN (IF t[n - 1] = Pad THEN 2 ELSE 1) ELSE 0
      V(i) == IF i <= n - pads THEN Index(t[i]) ELSE 0
      size == 3 * (n \div 4) - pads
      D(k) == LET g == (k - 1) \div 3    r == (k - 1) % 3    i == 4 * g + 1
              IN CASE r = 0 -> V(i) * 4 + V(i + 1) \div 16
                   [] r = 1 -> (V(i + 1) % 16) * 16 + V(i + 2) \div 4
                   [] r = 2 -> (V(i + 2) % 4) * 64 + V(i + 3)
  IN IF n % 4 # 0 \/ (\E i \in 1..(n - pads) : Index(t[i]) = 64) THEN Bad
     ELSE [ok |-> "yes", b |-> [k \in 1..size |-> D(k)],
           \* the bits of the last character that no byte takes
           clean |-> pads = 0 \/ (pads = 1 /\ V(n - 1) % 4 = 0) \/ (pads = 2 /\ V(n - 2) % 16 = 0)]

\* ------------------------------------------------------------------ integers
RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 1 /\ d[1] = 48 THEN Strip(Tail(d)) ELSE d
\* digit sequences without leading zeros
RECURSIVE LexLeq(_, _)
LexLeq(a, b) == IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLeq(Tail(a), Tail(b))
DigitsLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLeq(a, b))

Max32p == <<50,49,52,55,52,56,51,54,52,55>>
Max32n == <<50,49,52,55,52,56,51,54,52,56>>
Max64p == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>
Max64n == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>

\* [ok, neg, d]: sign and digits of an integer of the given width
Integer(s, wide) ==
  LET sign == Len(s) > 0 /\ s[1] \in {43, 45}
      neg == sign /\ s[1] = 45
      body == IF sign THEN Tail(s) ELSE s
      d == Strip(body)
      lim == IF wide THEN (IF neg THEN Max64n ELSE Max64p) ELSE (IF neg THEN Max32n ELSE Max32p)
  IN IF body = <<>> \/ ~(\A i \in 1..Len(body) : IsDigit(body[i])) \/ ~DigitsLeq(d, lim) THEN Bad
     ELSE [ok |-> "yes", neg |-> neg /\ d # <<48>>, d |-> d]

\* ------------------------------------------------------------------ decimals
\* "plain": [sign] digits [. digits] [e [sign] digits]; "odd": a form with digits missing on one side of the point,
\* a special name or anything else strtod might take; "bad": cannot be a number
RECURSIVE Digits(_, _)
Digits(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN Digits(s, i + 1) ELSE i
Decimal(s) ==
  LET i0 == IF Len(s) > 0 /\ s[1] \in {43, 45} THEN 2 ELSE 1
      i1 == Digits(s, i0)
      dot == i1 <= Len(s) /\ s[i1] = 46
      i2 == IF dot THEN Digits(s, i1 + 1) ELSE i1
      ex == i2 <= Len(s) /\ s[i2] \in {69, 101}
      i3 == IF ex THEN (IF i2 + 1 <= Len(s) /\ s[i2 + 1] \in {43, 45} THEN i2 + 2 ELSE i2 + 1) ELSE i2
      i4 == IF ex THEN Digits(s, i3) ELSE i2
      mant == i1 > i0 \/ (dot /\ i2 > i1 + 1)
      full == i1 > i0 /\ (dot => i2 > i1 + 1) /\ (ex => i4 > i3)
      letters == \E i \in 1..Len(s) : s[i] \in {73, 105, 78, 110, 88, 120}       \* of inf, nan, 0x
  IN IF i4 = Len(s) + 1 /\ full THEN "plain"
     ELSE IF i4 = Len(s) + 1 /\ mant THEN "odd"
     ELSE IF letters THEN "odd" ELSE "bad"

\* ------------------------------------------------------------------ dates
Two(s, i) == (s[i] - 48) * 10 + s[i + 1] - 48
Four(s, i) == Two(s, i) * 100 + Two(s, i + 2)
DateShape(s) == /\ Len(s) = 17
                /\ \A i \in {1,2,3,4,5,6,7,8,10,11,13,14,16,17} : IsDigit(s[i])
                /\ s[9] = 84 /\ s[12] = 58 /\ s[15] = 58
MonthDays(y, m) == IF m \in {4, 6, 9, 11} THEN 30
                   ELSE IF m # 2 THEN 31
                   ELSE IF y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0) THEN 29 ELSE 28
\* "yes": a date; "no": to be refused; "any": day 31 of a shorter month, leap seconds, years before 1900
DateVerdict(s) ==
  IF ~DateShape(s) THEN "no"
  ELSE LET y == Four(s, 1)  mo == Two(s, 5)  d == Two(s, 7)  h == Two(s, 10)  mi == Two(s, 13)  se == Two(s, 16)
       IN IF mo \notin 1..12 \/ d \notin 1..31 \/ h > 23 \/ mi > 59 \/ se > 61 THEN "no"
          ELSE IF y < 1900 \/ d > MonthDays(y, mo) \/ se > 59 THEN "any" ELSE "yes"
DateFields(s) == <<Four(s, 1), Two(s, 5), Two(s, 7), Two(s, 10), Two(s, 13), Two(s, 16)>>
Dig(n) == 48 + (n % 10)
DateText(f) == <<Dig(f[1] \div 1000), Dig(f[1] \div 100), Dig(f[1] \div 10), Dig(f[1]), Dig(f[2] \div 10), Dig(f[2]),
                 Dig(f[3] \div 10), Dig(f[3]), 84, Dig(f[4] \div 10), Dig(f[4]), 58, Dig(f[5] \div 10), Dig(f[5]), 58,
                 Dig(f[6] \div 10), Dig(f[6])>>

\* ------------------------------------------------------------------ characters of numbers and dates as text
Char(c) == CASE c = 45 -> "-" [] c = 58 -> ":" [] c = 84 -> "T"
             [] c = 48 -> "0" [] c = 49 -> "1" [] c = 50 -> "2" [] c = 51 -> "3" [] c = 52 -> "4"
             [] c = 53 -> "5" [] c = 54 -> "6" [] c = 55 -> "7" [] c = 56 -> "8" [] c = 57 -> "9"
RECURSIVE AsciiFrom(_, _)
AsciiFrom(s, i) == IF i > Len(s) THEN "" ELSE Char(s[i]) \o AsciiFrom(s, i + 1)
Ascii(s) == AsciiFrom(s, 1)

\* ------------------------------------------------------------------ hexadecimal names
HexDigit == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
Hex2(b) == HexDigit[b \div 16 + 1] \o HexDigit[(b % 16) + 1]
RECURSIVE HexFrom(_, _)
HexFrom(s, i) == IF i > Len(s) THEN "" ELSE Hex2(s[i]) \o HexFrom(s, i + 1)
Hex(s) == HexFrom(s, 1)
=============================================================================
