-------------------------------- MODULE MCViews --------------------------------
(***************************************************************************)
(* The texts of Views on every byte string of up to N bytes from the        *)
(* characters that matter to UTF-8: what is shown is always well formed,    *)
(* shows well-formed text unchanged, never more than one replacement per    *)
(* byte, and is the text of the parts when cut where a character starts;    *)
(* decimal and hexadecimal numerals denote the number.  Each string is      *)
(* printed and shown by the real code.                                      *)
(***************************************************************************)
EXTENDS Views, Json, IOUtils
N == atoi(IOEnv.N)
Special == {0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 194, 223, 224, 237, 239, 240, 244, 245, 255}
VARIABLE b
Init == b = <<>>
Next == Len(b) < N /\ \E x \in Special : b' = Append(b, x) /\ PrintT(<<"B", ToJson(b')>>)

\* UTF-8 from the other side: the encodings of the scalar values
Enc(c) == IF c < 128 THEN <<c>>
          ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
          ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
          ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
ScalarValue(c) == c \in 0..55295 \/ c \in 57344..1114111
\* the only number the bits of s can stand for
CodeOf(s) == LET low == FoldLeft(LAMBDA a, x : (a * 64) + (x % 64), 0, Tail(s)) IN
           IF Len(s) = 1 THEN s[1] ELSE IF Len(s) = 2 THEN ((s[1] % 32) * 64) + low
           ELSE IF Len(s) = 3 THEN ((s[1] % 16) * 4096) + low ELSE ((s[1] % 8) * 262144) + low
Character(s) == Len(s) \in 1..4 /\ ScalarValue(CodeOf(s)) /\ Enc(CodeOf(s)) = s
RECURSIVE WellText(_)
WellText(s) == s = <<>> \/ \E k \in 1..Len(s) : Character(SubSeq(s, 1, k)) /\ WellText(Drop(s, k))
IsText == Utf8(b) <=> WellText(b)
\* characters of four bytes, also where strings are shorter
Four == {240, 241, 243, 244, 245, 248, 255} \X {0, 127, 128, 143, 144, 159, 191, 192} \X {127, 128, 191, 192} \X {127, 128, 191, 192}
IsChar == b = <<>> => \A s \in Four : /\ (CharLen(s, 1) = 4) <=> Character(s)
                                        /\ (Utf8(s) <=> WellText(s))

WellFormed == Utf8(Lossy(b))
Faithful   == Utf8(b) => Lossy(b) = b
Bounded    == Len(Lossy(b)) <= 3 * Len(b) /\ (b # <<>> => Lossy(b) # <<>>)
\* an ASCII byte is never swallowed, and text splits around it
Splits == \A i \in 1..Len(b) : b[i] < 128 =>
            Lossy(b) = Lossy(SubSeq(b, 1, i - 1)) \o <<b[i]>> \o Lossy(SubSeq(b, i + 1, Len(b)))
Trimmed == TrimNul(Lossy(b)) = Lossy(TrimNul(b))
\* numerals
Value(ds, base) == FoldLeft(LAMBDA a, d : a * base + d, 0, ds)
Small == Len(b) <= 3 /\ b # <<>>
Num24 == FoldRight(LAMBDA x, a : a * 256 + x, b, 0)
HexVal(c) == IF c >= 65 THEN c - 55 ELSE c - 48
Decimal == Small => /\ DecU(b) = Num(Num24)
                    /\ DecS(b) = Num(IF b[Len(b)] >= 128 THEN Num24 - (CASE Len(b) = 1 -> 256 [] Len(b) = 2 -> 65536 [] Len(b) = 3 -> 16777216) ELSE Num24)
                    /\ LET h == HexU(b) IN Value([i \in 1..(Len(h) - 2) |-> HexVal(h[i + 2])], 16) = Num24 /\ (Len(h) > 3 => h[3] # 48)
=============================================================================
