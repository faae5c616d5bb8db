------------------------------ MODULE MCGrammar ------------------------------
(***************************************************************************)
(* The definition grammar as a language, and the tokenizer and parser of     *)
(* ULogCodec as its recogniser.  "short": every text of up to N characters   *)
(* over {a 1 [ ] : ; space}; it is a definition iff, without the white space *)
(* that does not matter, it is one of the language's sentences, which are    *)
(* built from the bottom up here and not parsed.  "wide": a definition of    *)
(* one-character tokens with one piece (every white space of Unicode, every  *)
(* kind of other character, invalid bytes) inserted or put in place of       *)
(* another.  "key": every typed key of up to N of the pieces {char a 1 [ ] ;  *)
(* space}; it is accepted iff it begins with a sentence that the next         *)
(* character does not continue.  "keywide": as "wide", in a key.  The texts    *)
(* are printed and given to the real parser.                                  *)
(***************************************************************************)
EXTENDS ULogCodec, Json, IOUtils
N == atoi(IOEnv.N)
Mode == IOEnv.MODE
VARIABLES t, how      \* the text; [k, p, i]: what was done to the base

Alpha == {97, 49, 91, 93, 58, 59, 32}
A == 97
One == 49

\* ---- sentences, by length (no white space but the one that separates type and name)
Ids == [n \in 0..N |-> IF n = 0 THEN {} ELSE {<<A>> \o s : s \in [1..n-1 -> {A, One}]}]
Nums == [n \in 0..N |-> IF n = 0 THEN {} ELSE {[i \in 1..n |-> One]}]
PlainF(n) == UNION {{x \o <<32>> \o y \o <<59>> : x \in Ids[k], y \in Ids[n - 2 - k]} : k \in 1..n-3}
ArrF(n) == UNION {UNION {{x \o <<91>> \o c \o <<93>> \o y \o <<59>> : x \in Ids[k], c \in Nums[j], y \in Ids[n - 3 - k - j]}
                         : j \in 1..(n - 4 - k)} : k \in 1..n-5}
Fields == [n \in 0..N |-> (IF n < 4 THEN {} ELSE PlainF(n)) \cup (IF n < 6 THEN {} ELSE ArrF(n))]
RECURSIVE Lists(_)
Lists(n) == IF n = 0 THEN {<<>>} ELSE UNION {{x \o y : x \in Fields[k], y \in Lists(n - k)} : k \in {k \in 1..n : Fields[k] # {}}}
Lang == UNION {UNION {{x \o <<58>> \o l : x \in Ids[k], l \in Lists(n)} : k \in 1..N - 1 - n} : n \in 0..N-2}

Symbols == {91, 93, 58, 59}
\* without the white space at the ends and around symbols; otherwise one for many
RECURSIVE Sq(_, _, _)
Sq(s, i, acc) ==
  IF i > Len(s) THEN (IF acc # <<>> /\ acc[Len(acc)] = 32 THEN SubSeq(acc, 1, Len(acc) - 1) ELSE acc)
  ELSE IF s[i] = 32 THEN Sq(s, i + 1, IF acc = <<>> \/ acc[Len(acc)] \in Symbols \cup {32} THEN acc ELSE Append(acc, 32))
  ELSE IF s[i] \in Symbols /\ acc # <<>> /\ acc[Len(acc)] = 32 THEN Sq(s, i + 1, [acc EXCEPT ![Len(acc)] = s[i]])
  ELSE Sq(s, i + 1, Append(acc, s[i]))
Squeeze(s) == Sq(s, 1, <<>>)
Canonical(f) == Squeeze(Content([t |-> "fmt", name |-> f.name, fields |-> f.fields]))

\* ---- keys
Char == <<99, 104, 97, 114>>
KeyPieces == {Char, <<A>>, <<One>>, <<91>>, <<93>>, <<59>>, <<32>>}
RECURSIVE KNames(_)
KNames(n) == IF n = 0 THEN {} ELSE IF n = 1 THEN {Char, <<A>>}
             ELSE {x \o y : x \in KNames(n - 1), y \in {Char, <<A>>, <<One>>}}
KIds == [n \in 0..N |-> KNames(n)]
KeyLang == UNION {{x \o <<32>> \o y : x \in KIds[k], y \in UNION {KIds[j] : j \in 1..N-1-k}} : k \in 1..N-1}
      \cup UNION {UNION {{x \o <<91>> \o c \o <<93>> \o y : x \in KIds[k], c \in Nums[m], y \in UNION {KIds[j] : j \in 1..N-2-k-m}}
                        : m \in 1..(N - 2 - k)} : k \in 1..N-2}
InName(x) == IsAlpha(x) \/ IsDigit(x)

\* ---- one piece in a base text
Base == IF Mode = "wide" THEN <<97, 58, 98, 91, 51, 93, 120, 59, 99, 32, 121, 59>>        \* a:b[3]x;c y;
        ELSE Char \o <<91, 50, 93, 107, 49, 32, 122>>                                       \* char[2]k1 z
White == {<<x>> : x \in {9, 10, 11, 12, 13, 32}}
  \cup {<<194, 133>>, <<194, 160>>, <<225, 154, 128>>, <<226, 128, 168>>, <<226, 128, 169>>, <<226, 128, 175>>, <<226, 129, 159>>, <<227, 128, 128>>}
  \cup {<<226, 128, x>> : x \in 128..138}
\* well formed, not white space, not of the grammar: letters, digits, marks of other scripts, things that look like spaces
Other == {<<195, 169>>, <<206, 177>>, <<217, 160>>, <<194, 178>>, <<239, 188, 145>>, <<240, 157, 159, 153>>, <<204, 129>>, <<226, 128, 139>>,
          <<226, 128, 140>>, <<226, 129, 160>>, <<239, 187, 191>>, <<225, 160, 142>>, <<194, 173>>, <<239, 188, 155>>, <<239, 188, 154>>, <<194, 132>>,
          <<226, 128, 170>>, <<227, 128, 129>>, <<240, 159, 154, 128>>}
Ascii == {<<x>> : x \in (0..127)}
Broken == {<<x>> : x \in {128, 160, 192, 193, 194, 224, 226, 237, 240, 244, 245, 255}} \cup {<<226, 128>>, <<237, 160, 128>>, <<192, 160>>, <<240, 128, 128, 160>>, <<244, 144, 128, 128>>}
Pieces == White \cup Other \cup Ascii \cup Broken
PutIn(p, i) == SubSeq(Base, 1, i) \o p \o SubSeq(Base, i + 1, Len(Base))
PutFor(p, i) == SubSeq(Base, 1, i - 1) \o p \o SubSeq(Base, i + 1, Len(Base))

Short == Mode \in {"short", "key"}
Init == t = (IF Short THEN <<>> ELSE Base) /\ how = [k |-> "", p |-> <<>>, i |-> 0]
Next ==
  \/ Mode = "short" /\ Len(t) < N /\ how' = how /\ \E x \in Alpha : t' = Append(t, x)
  \/ Mode = "key" /\ how.i < N /\ how' = [how EXCEPT !.i = @ + 1] /\ \E x \in KeyPieces : t' = t \o x
  \/ /\ ~Short /\ how.k = ""
     /\ \E p \in Pieces :
          \/ \E i \in 0..Len(Base) : t' = PutIn(p, i) /\ how' = [k |-> "ins", p |-> p, i |-> i]
          \/ \E i \in 1..Len(Base) : t' = PutFor(p, i) /\ how' = [k |-> "rep", p |-> p, i |-> i]

F == ParseFormat(t)
ShortOk == Mode = "short" => /\ F.ok <=> Squeeze(t) \in Lang
                             /\ F.ok => Canonical(F) = Squeeze(t)
B0 == ParseFormat(Base)
WideOk == Mode = "wide" /\ how.k # "" =>
  /\ B0.ok
  /\ how.p \in White /\ (how.k = "ins" \/ how.i = 10) => F.ok /\ F = B0
  /\ how.p \in White /\ how.k = "rep" /\ how.i # 10 => ~F.ok
  /\ how.p \in Other \cup Broken => ~F.ok
  /\ F.ok => ParseFormat(BytesOf(F.name) \o Drop(Content([t |-> "fmt", name |-> F.name, fields |-> F.fields]), Len(F.name))) = F

K == ParseKey(t)
KeyOk == Mode = "key" =>
  K.ok <=> \E i \in 1..Len(t) : /\ Squeeze(SubSeq(t, 1, i)) \in KeyLang
                                /\ i = Len(t) \/ ~InName(t[i + 1])
K0 == ParseKey(Base)
KeyWideOk == Mode = "keywide" /\ how.k # "" =>
  /\ K0.ok /\ K0.f = [n |-> "k1", ty |-> "char", arr |-> "2"]
  /\ ~Utf8(t) => ~K.ok
  \* behind the field, nothing matters
  /\ how.i >= 10 /\ Utf8(t) /\ (how.p # <<>> => how.i > 10 \/ ~InName(how.p[1])) => K.ok /\ K.f = K0.f
  \* white space in front, and around the symbols
  /\ how.p \in White /\ how.k = "ins" /\ how.i \in {0, 4, 5, 6, 7} => K.ok /\ K.f = K0.f
  /\ how.p \in Other /\ how.i < (IF how.k = "ins" THEN 8 ELSE 9) => ~K.ok
\* long texts are printed when they are sentences
Ok == IF Mode = "short" THEN F.ok ELSE K.ok
Show == ~Short \/ (IF Mode = "short" THEN Len(t) ELSE how.i) <= 4 \/ Ok => PrintT(<<"B", ToJson([t |-> t])>>)
Inv == ShortOk /\ WideOk /\ KeyOk /\ KeyWideOk /\ Show
=============================================================================
