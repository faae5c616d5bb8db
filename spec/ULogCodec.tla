------------------------------ MODULE ULogCodec ------------------------------
(***************************************************************************)
(* Byte-level codec of the ULog format as yule_log must implement it:      *)
(* pure operators only.  Bytes are integers 0..255, byte strings are       *)
(* sequences, identifiers (names of formats, fields, keys, types) are TLA+ *)
(* strings.  All multi-byte numbers stay byte strings (little endian), so  *)
(* that 64-bit values and float bit patterns are exact.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

-----------------------------------------------------------------------------
\* ---- characters ---------------------------------------------------------
CharTab == <<
   " ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/",
   "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?",
   "@", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O",
   "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "[", "\\", "]", "^", "_",
   "`", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o",
   "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~" >>

Chr(b) == CharTab[b - 31]
OrdTab == [c \in {CharTab[i] : i \in 1..95} |-> 31 + (CHOOSE i \in 1..95 : CharTab[i] = c)]
StrOf(bs)   == FoldLeft(LAMBDA a, b : a \o Chr(b), "", bs)
BytesOf(s)  == [i \in 1..Len(s) |-> OrdTab[SubSeq(s, i, i)]]

\* IF with short circuit, for use where both branches are records
U16At(b, i) == b[i] + 256 * b[i + 1]
LE16(n)     == << n % 256, n \div 256 >>

\* an unsigned 64-bit little-endian number, saturated at Huge (file positions
\* in any explored run are far below it)
Huge == 2000000000
U64Sat(b) == IF \E i \in 5..8 : b[i] # 0 \/ b[4] >= 64 THEN Huge
             ELSE b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * b[4]

-----------------------------------------------------------------------------
\* ---- UTF-8 --------------------------------------------------------------
Cont(b, i) == i <= Len(b) /\ b[i] >= 128 /\ b[i] <= 191
\* length of the well-formed character starting at i, 0 if there is none
CharLen(b, i) ==
  LET x == b[i] IN
  IF x < 128 THEN 1
  ELSE IF x < 194 THEN 0
  ELSE IF x <= 223 THEN (IF Cont(b, i+1) THEN 2 ELSE 0)
  ELSE IF x <= 239 THEN
       (IF /\ Cont(b, i+1) /\ Cont(b, i+2)
           /\ (x = 224 => b[i+1] >= 160)      \* no overlong forms
           /\ (x = 237 => b[i+1] <= 159)      \* no surrogates
        THEN 3 ELSE 0)
  ELSE IF x <= 244 THEN
       (IF /\ Cont(b, i+1) /\ Cont(b, i+2) /\ Cont(b, i+3)
           /\ (x = 240 => b[i+1] >= 144)
           /\ (x = 244 => b[i+1] <= 143)      \* at most U+10FFFF
        THEN 4 ELSE 0)
  ELSE 0
Utf8(b) ==
  \A i \in 1..Len(b) :
    IF b[i] < 128 THEN TRUE
    ELSE IF b[i] >= 192 THEN CharLen(b, i) > 0
    ELSE \E j \in 1..3 : i - j >= 1 /\ b[i-j] >= 192 /\ CharLen(b, i-j) > j

-----------------------------------------------------------------------------
\* ---- tokens of definition texts -----------------------------------------
IsDigit(x) == x >= 48 /\ x <= 57
IsAlpha(x) == (x >= 65 /\ x <= 90) \/ (x >= 97 /\ x <= 122) \/ x = 95
IsSpace(x) == (x >= 9 /\ x <= 13) \/ x = 32
\* non-ASCII white space starting at i
UniSpace(b, i) ==
  \/ b[i] = 194 /\ b[i+1] \in {133, 160}
  \/ b[i] = 225 /\ b[i+1] = 154 /\ b[i+2] = 128
  \/ b[i] = 226 /\ b[i+1] = 128 /\ (b[i+2] \in 128..138 \/ b[i+2] \in {168, 169, 175})
  \/ b[i] = 226 /\ b[i+1] = 129 /\ b[i+2] = 159
  \/ b[i] = 227 /\ b[i+1] = 128 /\ b[i+2] = 128

MaxU64Digits == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
LexGT(d, m) == \E i \in 1..Len(d) : d[i] > m[i] /\ \A j \in 1..(i-1) : d[j] = m[j]
NumToken(bs) ==
  LET ds == [i \in 1..Len(bs) |-> bs[i] - 48]
      fz == SelectInSeq(ds, LAMBDA x : x # 0)
      d  == IF fz = 0 THEN <<0>> ELSE SubSeq(ds, fz, Len(ds))
  IN IF Len(d) > 20 \/ (Len(d) = 20 /\ LexGT(d, MaxU64Digits))
     THEN [k |-> "bad", s |-> ""]                     \* no such number
     ELSE [k |-> "num", s |-> StrOf([i \in 1..Len(d) |-> d[i] + 48])]
SymToken(x) ==
  IF x = 58 THEN [k |-> "sym", s |-> ":"] ELSE IF x = 59 THEN [k |-> "sym", s |-> ";"]
  ELSE IF x = 91 THEN [k |-> "sym", s |-> "["] ELSE IF x = 93 THEN [k |-> "sym", s |-> "]"]
  ELSE [k |-> "bad", s |-> ""]

\* longest-match scan; a.m is the kind of the token being scanned
FlushTok(a) ==
  IF a.m = "" THEN a.t
  ELSE Append(a.t, IF a.m = "id" THEN [k |-> "id", s |-> StrOf(a.c)] ELSE NumToken(a.c))
Tokens(b) ==
  LET step(a, i) ==
        LET x == b[i] IN
        IF IsAlpha(x) THEN
           IF a.m = "id" THEN [a EXCEPT !.c = Append(@, x)]
           ELSE [t |-> FlushTok(a), m |-> "id", c |-> <<x>>]
        ELSE IF IsDigit(x) THEN
           IF a.m # "" THEN [a EXCEPT !.c = Append(@, x)]
           ELSE [t |-> a.t, m |-> "num", c |-> <<x>>]
        ELSE IF IsSpace(x) THEN [t |-> FlushTok(a), m |-> "", c |-> <<>>]
        ELSE IF x < 128 THEN [t |-> Append(FlushTok(a), SymToken(x)), m |-> "", c |-> <<>>]
        ELSE IF x < 192 THEN a                          \* inside a character
        ELSE IF UniSpace(b, i) THEN [t |-> FlushTok(a), m |-> "", c |-> <<>>]
        ELSE [t |-> Append(FlushTok(a), [k |-> "bad", s |-> ""]), m |-> "", c |-> <<>>]
  IN FlushTok(FoldLeftDomain(step, [t |-> <<>>, m |-> "", c |-> <<>>], b))

-----------------------------------------------------------------------------
\* ---- definition grammar --------------------------------------------------
\* A field is [n |-> name, ty |-> base type name, arr |-> "" or the length as a
\* decimal numeral]
NoTok == [k |-> "eof", s |-> ""]
Tok(tk, i) == IF i <= Len(tk) THEN tk[i] ELSE NoTok
IsSym(t, s) == t.k = "sym" /\ t.s = s
NoField == [n |-> "", ty |-> "", arr |-> ""]
FailF == [ok |-> FALSE, nx |-> 0, f |-> NoField]
FieldAt(tk, i) ==
  IF Tok(tk, i).k # "id" THEN FailF
  ELSE IF IsSym(Tok(tk, i+1), "[") THEN
    IF /\ Tok(tk, i+2).k = "num" /\ IsSym(Tok(tk, i+3), "]") /\ Tok(tk, i+4).k = "id"
    THEN [ok |-> TRUE, nx |-> i + 5, f |-> [n |-> tk[i+4].s, ty |-> tk[i].s, arr |-> tk[i+2].s]]
    ELSE FailF
  ELSE IF Tok(tk, i+1).k = "id"
    THEN [ok |-> TRUE, nx |-> i + 2, f |-> [n |-> tk[i+1].s, ty |-> tk[i].s, arr |-> ""]]
  ELSE FailF

FailFmt == [ok |-> FALSE, name |-> "", fields |-> <<>>]
RECURSIVE FieldList(_, _, _, _)
FieldList(tk, i, name, acc) ==
  IF i > Len(tk) THEN [ok |-> TRUE, name |-> name, fields |-> acc]
  ELSE LET r == FieldAt(tk, i) IN
       IF r.ok /\ IsSym(Tok(tk, r.nx), ";") THEN FieldList(tk, r.nx + 1, name, Append(acc, r.f))
       ELSE FailFmt
ParseFormat(b) ==
  IF ~Utf8(b) THEN FailFmt
  ELSE LET tk == Tokens(b) IN
       IF Tok(tk, 1).k = "id" /\ IsSym(Tok(tk, 2), ":") THEN FieldList(tk, 3, tk[1].s, <<>>)
       ELSE FailFmt

\* typed key of an information or parameter message; what follows the first
\* field in the key is ignored (as the implementation does)
ParseKey(b) == IF ~Utf8(b) THEN FailF ELSE FieldAt(Tokens(b), 1)

\* numeric value of a length numeral, saturated
NumVal(s) == IF Len(s) > 6 THEN 9999999
             ELSE FoldLeft(LAMBDA a, x : 10 * a + (x - 48), 0, BytesOf(s))

-----------------------------------------------------------------------------
\* ---- values ---------------------------------------------------------------
\* Value: [k |-> kind, b |-> little-endian bytes of all elements, c |-> nested
\* instances].  Instance: [n, ts, mi, fs]; instance field: [n, ty, arr, v].
Width == [ uint8_t |-> 1, uint16_t |-> 2, uint32_t |-> 4, uint64_t |-> 8,
           int8_t |-> 1, int16_t |-> 2, int32_t |-> 4, int64_t |-> 8,
           float |-> 4, double |-> 8, bool |-> 1, char |-> 1 ]
Kind  == [ uint8_t |-> "u8", uint16_t |-> "u16", uint32_t |-> "u32", uint64_t |-> "u64",
           int8_t |-> "i8", int16_t |-> "i16", int32_t |-> "i32", int64_t |-> "i64",
           float |-> "f32", double |-> "f64", bool |-> "bool", char |-> "char" ]
AKind == [ uint8_t |-> "au8", uint16_t |-> "au16", uint32_t |-> "au32", uint64_t |-> "au64",
           int8_t |-> "ai8", int16_t |-> "ai16", int32_t |-> "ai32", int64_t |-> "ai64",
           float |-> "af32", double |-> "af64", bool |-> "abool", char |-> "achar" ]
Prim  == DOMAIN Width

NoVal == [k |-> "", b |-> <<>>, c |-> <<>>]
\* any non-zero byte is "true"
Norm(ty, bs) == IF ty = "bool" THEN [i \in 1..Len(bs) |-> IF bs[i] = 0 THEN 0 ELSE 1] ELSE bs

IsPadding(name) == Len(name) >= 8 /\ SubSeq(name, 1, 8) = "_padding"

\* Nesting deeper than this is refused (self-referential definitions never end).
\* The implementation's own bound may be anything of at least this depth; records
\* nested deeper but finitely are explored by C04 only.
MaxDepth == 40

FailV(p) == [ok |-> FALSE, p |-> p, v |-> NoVal]
NoInst == [n |-> "", ts |-> <<>>, mi |-> -1, fs |-> <<>>]
FailI(p) == [ok |-> FALSE, p |-> p, o |-> NoInst]

\* F: formats (name -> sequence of fields), pad: are padding fields kept?
RECURSIVE DecVal(_, _, _, _, _, _), DecInst(_, _, _, _, _, _)
DecVal(F, pad, f, b, p, d) ==
  LET left == Len(b) - p + 1 IN
  IF f.ty \in Prim THEN
    IF f.arr = "" THEN
      IF Width[f.ty] > left THEN FailV(p)
      ELSE [ok |-> TRUE, p |-> p + Width[f.ty],
            v |-> [k |-> Kind[f.ty], b |-> Norm(f.ty, SubSeq(b, p, p + Width[f.ty] - 1)), c |-> <<>>]]
    ELSE LET n == NumVal(f.arr) * Width[f.ty] IN
      IF n > left THEN FailV(p)
      ELSE [ok |-> TRUE, p |-> p + n,
            v |-> [k |-> AKind[f.ty], b |-> Norm(f.ty, SubSeq(b, p, p + n - 1)), c |-> <<>>]]
  ELSE IF f.ty \notin DOMAIN F THEN FailV(p)
  ELSE IF f.arr = "" THEN
    LET r == DecInst(F, pad, f.ty, b, p, d + 1) IN
    IF r.ok THEN [ok |-> TRUE, p |-> r.p, v |-> [k |-> "other", b |-> <<>>, c |-> <<r.o>>]]
    ELSE FailV(p)
  ELSE LET elt(a, i) ==
               IF ~a.ok THEN a
               ELSE LET r == DecInst(F, pad, f.ty, b, a.p, d + 1) IN
                    IF r.ok THEN [ok |-> TRUE, p |-> r.p, c |-> Append(a.c, r.o)]
                    ELSE [a EXCEPT !.ok = FALSE]
           z == FoldLeft(elt, [ok |-> TRUE, p |-> p, c |-> <<>>], [i \in 1..NumVal(f.arr) |-> i])
       IN IF z.ok THEN [ok |-> TRUE, p |-> z.p, v |-> [k |-> "aother", b |-> <<>>, c |-> z.c]]
          ELSE FailV(p)

DecInst(F, pad, name, b, p0, d) ==
  IF d > MaxDepth THEN FailI(p0)
  ELSE
  LET fld(a, f) ==
        IF ~a.ok THEN a
        ELSE LET left == Len(b) - a.p + 1 IN
        IF IsPadding(f.n) /\ f.ty = "uint8_t" /\ f.arr # "" /\ NumVal(f.arr) > left
          THEN [a EXCEPT !.p = Len(b) + 1]     \* padding at the end may be cut short
        ELSE IF IsPadding(f.n) /\ left = 0 /\ ~(f.ty = "uint8_t" /\ f.arr = "0")
          THEN a                               \* ... or not written at all
        ELSE LET r == DecVal(F, pad, f, b, a.p, d) IN
             IF ~r.ok THEN [a EXCEPT !.ok = FALSE]
             ELSE [ok |-> TRUE, p |-> r.p,
                   ts |-> IF f.n = "timestamp" /\ r.v.k = "u64" THEN r.v.b ELSE a.ts,
                   fs |-> IF IsPadding(f.n) /\ ~pad THEN a.fs
                          ELSE Append(a.fs, [n |-> f.n, ty |-> f.ty, arr |-> f.arr, v |-> r.v])]
      z == FoldLeft(fld, [ok |-> TRUE, p |-> p0, ts |-> <<>>, fs |-> <<>>], F[name])
  IN IF z.ok THEN [ok |-> TRUE, p |-> z.p, o |-> [n |-> name, ts |-> z.ts, mi |-> -1, fs |-> z.fs]]
     ELSE FailI(p0)

-----------------------------------------------------------------------------
\* ---- record bodies --------------------------------------------------------
\* Results ("items") are records whose field t tells the kind.
ErrItem == [t |-> "err"]
EndItem == [t |-> "end"]
Silent  == [t |-> "none"]
Drop(b, n) == SubSeq(b, n + 1, Len(b))

Opaque(ty, b) == [t |-> "unh", mt |-> ty, b |-> b]

DecHeader(b) == [t |-> "hdr", ver |-> b[8], ts |-> SubSeq(b, 9, 16)]
Magic == <<85, 76, 111, 103, 1, 18, 53>>

DecFlags(b) ==
  IF Len(b) < 40 THEN ErrItem
  ELSE IF b[9] \notin {0, 1} \/ \E i \in 10..16 : b[i] # 0 THEN ErrItem    \* undefined incompatible bits
  ELSE [t |-> "flags", compat |-> SubSeq(b, 1, 8), incompat |-> SubSeq(b, 9, 16),
        offs |-> <<SubSeq(b, 17, 24), SubSeq(b, 25, 32), SubSeq(b, 33, 40)>>]
\* position at which reading stops, -1 when there is none
FlagsLimit(f) ==
  LET i == SelectInSeq(f.offs, LAMBDA o : \E j \in 1..8 : o[j] # 0) IN
  IF i = 0 THEN -1 ELSE U64Sat(f.offs[i])
FlagsAppended(f) == f.incompat[1] % 2 = 1

DecFormat(b) ==
  LET r == ParseFormat(b) IN
  IF r.ok THEN [t |-> "fmt", name |-> r.name, fields |-> r.fields] ELSE ErrItem

\* a length-prefixed typed key starting at p; val = position after it
KeyAt(b, p) ==
  IF Len(b) < p \/ Len(b) < p + b[p] THEN FailF
  ELSE ParseKey(SubSeq(b, p + 1, p + b[p]))
DecInfo(F, pad, b) ==
  LET r == KeyAt(b, 1) IN
  IF ~r.ok THEN ErrItem
  ELSE LET v == DecVal(F, pad, r.f, b, 2 + b[1], 0) IN
       IF ~v.ok THEN ErrItem
       ELSE [t |-> "info", key |-> r.f.n, ty |-> r.f.ty, arr |-> r.f.arr, v |-> v.v]
DecMultiInfo(F, pad, b) ==
  LET r == KeyAt(b, 2) IN
  IF ~r.ok THEN ErrItem
  ELSE LET v == DecVal(F, pad, r.f, b, 3 + b[2], 0) IN
       IF ~v.ok THEN ErrItem
       ELSE [t |-> "minfo", cont |-> IF b[1] = 0 THEN 0 ELSE 1,
             key |-> r.f.n, ty |-> r.f.ty, arr |-> r.f.arr, v |-> v.v]
ParamVal(f, b, p) ==
  IF f.arr # "" \/ f.ty \notin {"int32_t", "float"} \/ Len(b) < p + 3 THEN FailV(p)
  ELSE [ok |-> TRUE, p |-> p + 4, v |-> [k |-> Kind[f.ty], b |-> SubSeq(b, p, p + 3), c |-> <<>>]]
DecParam(b) ==
  LET r == KeyAt(b, 1) IN
  IF ~r.ok THEN ErrItem
  ELSE LET v == ParamVal(r.f, b, 2 + b[1]) IN
       IF ~v.ok THEN ErrItem
       ELSE [t |-> "param", key |-> r.f.n, ty |-> r.f.ty, arr |-> "", v |-> v.v]
DecDefaultParam(b) ==
  LET r == KeyAt(b, 2) IN
  IF ~r.ok THEN ErrItem
  ELSE LET v == ParamVal(r.f, b, 3 + b[2]) IN
       IF ~v.ok THEN ErrItem
       ELSE [t |-> "dparam", dt |-> b[1], key |-> r.f.n, ty |-> r.f.ty, arr |-> "", v |-> v.v]

DecString(b) ==
  IF Len(b) < 9 \/ b[1] \notin 48..55 \/ ~Utf8(Drop(b, 9)) THEN ErrItem
  ELSE [t |-> "log", lvl |-> b[1], ts |-> SubSeq(b, 2, 9), msg |-> Drop(b, 9)]
DecTagged(b) ==
  IF Len(b) < 11 \/ b[1] \notin 48..55 \/ ~Utf8(Drop(b, 11)) THEN ErrItem
  ELSE [t |-> "tlog", lvl |-> b[1], tag |-> U16At(b, 2), ts |-> SubSeq(b, 4, 11), msg |-> Drop(b, 11)]
DecDropout(b) ==
  IF Len(b) < 2 THEN ErrItem ELSE [t |-> "drop", dur |-> U16At(b, 1)]

\* a subscription is accepted when its name is that of a defined format
DecSub(F, b) ==
  IF Len(b) < 3 \/ \E i \in 4..Len(b) : b[i] \notin 33..126 THEN ErrItem
  ELSE LET name == StrOf(Drop(b, 3)) IN
       IF name \notin DOMAIN F THEN ErrItem
       ELSE [t |-> "sub", multi |-> b[1], id |-> U16At(b, 2), name |-> name]

HasTimestampField(fs) == \E i \in 1..Len(fs) : fs[i].n = "timestamp"
\* a data record of the subscription [name, multi]; mi: instance number to attach or -1
DecData(F, cfg, name, mi, b) ==
  IF ~HasTimestampField(F[name]) THEN ErrItem
  ELSE LET r == DecInst(F, cfg.pad, name, b, 3, 0) IN
       IF ~r.ok \/ r.o.ts = <<>> THEN ErrItem
       ELSE [t |-> "data", id |-> U16At(b, 1), ts |-> r.o.ts, name |-> name, mi |-> mi,
             fs |-> IF cfg.ts THEN r.o.fs
                    ELSE SelectSeq(r.o.fs, LAMBDA f : f.n # "timestamp")]

-----------------------------------------------------------------------------
\* ---- encoding -------------------------------------------------------------
TypeText(ty, arr) == BytesOf(ty) \o (IF arr = "" THEN <<>> ELSE <<91>> \o BytesOf(arr) \o <<93>>)
FieldText(f) == TypeText(f.ty, f.arr) \o <<32>> \o BytesOf(f.n)
RECURSIVE EncVal(_), EncFields(_)
EncFields(fs) == FlattenSeq([i \in 1..Len(fs) |-> EncVal(fs[i].v)])
EncVal(v) == IF v.k \in {"other", "aother"}
             THEN FlattenSeq([i \in 1..Len(v.c) |-> EncFields(v.c[i].fs)])
             ELSE v.b
KeyText(it) == TypeText(it.ty, it.arr) \o <<32>> \o BytesOf(it.key)
Keyed(it) == <<Len(KeyText(it))>> \o KeyText(it)

TypeCode(it) ==
  CASE it.t = "fmt" -> 70  [] it.t = "data" -> 68 [] it.t = "sub" -> 65
    [] it.t = "info" -> 73 [] it.t = "minfo" -> 77 [] it.t = "param" -> 80
    [] it.t = "dparam" -> 81 [] it.t = "log" -> 76 [] it.t = "tlog" -> 67
    [] it.t = "drop" -> 79 [] it.t = "flags" -> 66 [] it.t = "hdr" -> 254
    [] it.t \in {"unh", "ign"} -> it.mt
    [] OTHER -> -1
Content(it) ==
  CASE it.t = "flags" -> it.compat \o it.incompat \o FlattenSeq(it.offs)
    [] it.t = "fmt" -> BytesOf(it.name) \o <<58>> \o
         FlattenSeq([i \in 1..Len(it.fields) |-> FieldText(it.fields[i]) \o <<59>>])
    [] it.t = "sub" -> <<it.multi>> \o LE16(it.id) \o BytesOf(it.name)
    [] it.t = "data" -> LE16(it.id) \o EncFields(it.fs)
    [] it.t = "info" -> Keyed(it) \o EncVal(it.v)
    [] it.t = "minfo" -> <<it.cont>> \o Keyed(it) \o EncVal(it.v)
    [] it.t = "param" -> Keyed(it) \o it.v.b
    [] it.t = "dparam" -> <<it.dt>> \o Keyed(it) \o it.v.b
    [] it.t = "log" -> <<it.lvl>> \o it.ts \o it.msg
    [] it.t = "tlog" -> <<it.lvl>> \o LE16(it.tag) \o it.ts \o it.msg
    [] it.t = "drop" -> LE16(it.dur)
    [] it.t = "unh" -> it.b
    [] OTHER -> <<>>
Record(ty, c) == LE16(Len(c)) \o <<ty>> \o c
\* what encoding a result writes (ignored data leaves nothing to write)
EncItem(it) ==
  IF it.t = "hdr" THEN Magic \o <<it.ver>> \o it.ts
  ELSE IF it.t \in {"ign", "err", "end", "none"} THEN <<>>
  ELSE Record(TypeCode(it), Content(it))
=============================================================================
