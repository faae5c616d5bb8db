--------------------------------- MODULE Views ---------------------------------
(***************************************************************************)
(* Texts and accessors of messages, as functions of their content.  The     *)
(* text of a floating point number is a parameter: fl maps the bits of the  *)
(* numbers of a message to what the standard library shows for them.        *)
(***************************************************************************)
EXTENDS Flatten

\* ---- numbers ---------------------------------------------------------------
\* decimal digits of 256 * d + b
RECURSIVE MulAdd(_, _)
MulAdd(d, carry) ==
  IF d = <<>> THEN (IF carry = 0 THEN <<>> ELSE MulAdd(<<>>, carry \div 10) \o <<carry % 10>>)
  ELSE LET x == 256 * d[Len(d)] + carry IN
       MulAdd(SubSeq(d, 1, Len(d) - 1), x \div 10) \o <<x % 10>>
Digits(le) == LET d == FoldRight(LAMBDA b, acc : MulAdd(acc, b), le, <<>>) IN
              IF d = <<>> THEN <<0>> ELSE d
DecU(le) == LET d == Digits(le) IN [i \in 1..Len(d) |-> 48 + d[i]]
\* two's complement
Negate(le) == FoldLeft(LAMBDA a, b : [s |-> Append(a.s, (256 - b - a.c) % 256), c |-> IF b + a.c > 0 THEN 1 ELSE 0],
                       [s |-> <<>>, c |-> 0], le).s
DecS(le) == IF le[Len(le)] >= 128 THEN <<45>> \o DecU(Negate(le)) ELSE DecU(le)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
HexU(le) == LET h == FlattenSeq([i \in 1..Len(le) |-> LET b == le[Len(le) + 1 - i] IN <<b \div 16, b % 16>>])
                f == SelectInSeq(h, LAMBDA x : x # 0)
                d == IF f = 0 THEN <<0>> ELSE SubSeq(h, f, Len(h))
            IN <<48, 120>> \o [i \in 1..Len(d) |-> HexDigit(d[i])]
Num(n) == BytesOf(ToString(n))

\* ---- characters -------------------------------------------------------------
Replacement == <<239, 191, 189>>
\* how many bytes of an ill-formed sequence starting at i one replacement stands for
BadLen(b, i) ==
  LET x == b[i]
      second == /\ i + 1 <= Len(b)
                /\ CASE x = 224 -> b[i+1] \in 160..191 [] x = 237 -> b[i+1] \in 128..159
                     [] x = 240 -> b[i+1] \in 144..191 [] x = 244 -> b[i+1] \in 128..143
                     [] OTHER -> b[i+1] \in 128..191
  IN IF x \notin 224..244 \/ ~second THEN 1
     ELSE IF x <= 239 THEN 2
     ELSE IF Cont(b, i+2) THEN 3 ELSE 2
LossyStep(b, a, i) ==
  IF i < a.nx THEN a
  ELSE IF CharLen(b, i) > 0 THEN [nx |-> i + CharLen(b, i), s |-> a.s \o SubSeq(b, i, i + CharLen(b, i) - 1)]
  ELSE [nx |-> i + BadLen(b, i), s |-> a.s \o Replacement]
Lossy(b) == FoldLeftDomain(LAMBDA a, i : LossyStep(b, a, i), [nx |-> 1, s |-> <<>>], b).s
RECURSIVE TrimNul(_)
TrimNul(b) == IF b # <<>> /\ b[Len(b)] = 0 THEN TrimNul(SubSeq(b, 1, Len(b) - 1)) ELSE b
CharText(x) == IF x < 128 THEN <<x>> ELSE <<92, 120, HexDigit(x \div 16), HexDigit(x % 16)>>
CharViews(v) ==
  IF v.k = "char" THEN <<<<v.b[1], v.b[1]>>, IF v.b[1] < 128 THEN v.b ELSE Replacement, CharText(v.b[1])>>
  ELSE IF v.k = "achar" THEN <<Lossy(v.b), TrimNul(Lossy(v.b)), TrimNul(v.b), v.b>>
  ELSE <<>>

\* ---- values -------------------------------------------------------------------
Comma == <<44, 32>>
Join(s) == FlattenSeq([i \in 1..Len(s) |-> (IF i > 1 THEN Comma ELSE <<>>) \o s[i]])
FloatText(fl, b) == fl[SelectInSeq(fl, LAMBDA p : p.b = b)].t
Name(n, mi) == BytesOf(DisplayName(n, mi))
Braced(o) == <<123>> \o Name(o.n, o.mi) \o <<125>>
ScalarText(fl, v) ==
  CASE v.k \in {"u8", "u16", "u32", "u64"} -> DecU(v.b)
    [] v.k \in {"i8", "i16", "i32", "i64"} -> DecS(v.b)
    [] v.k \in {"f32", "f64"} -> FloatText(fl, v.b)
    [] v.k = "bool" -> BytesOf(IF v.b[1] = 0 THEN "false" ELSE "true")
    [] v.k = "char" -> <<39>> \o CharText(v.b[1]) \o <<39>>
    [] v.k = "other" -> Braced(v.c[1])
ValueText(fl, v) ==
  IF v.k = "achar" THEN <<34>> \o Lossy(v.b) \o <<34>>
  ELSE IF IsArray(v) THEN LET s == Scalars(v) IN <<91>> \o Join([i \in 1..Len(s) |-> ScalarText(fl, s[i])]) \o <<93>>
  ELSE ScalarText(fl, v)
\* a release number is shown as such
IsRelease(key) == /\ Len(key) >= 8 /\ SubSeq(key, 1, 4) = "ver_"
                  /\ SubSeq(key, Len(key) - 7, Len(key)) = "_release"
InfoText(fl, x) ==
  BytesOf(x.key) \o <<58, 32>> \o
  (IF x.v.k = "u32" /\ IsRelease(x.key) THEN HexU(x.v.b)
   ELSE IF x.v.k = "char" THEN CharText(x.v.b[1])
   ELSE ValueText(fl, x.v))

\* ---- messages -------------------------------------------------------------------
Levels == <<"EMERG", "ALERT", "CRIT", "ERR", "WARNING", "NOTICE", "INFO", "DEBUG">>
LevelText(l) == BytesOf(Levels[l - 47])
Bit(n, i) == IF i = 0 THEN n % 2 ELSE (n \div 2) % 2
DefaultText(dt) == BytesOf(IF dt % 4 = 3 THEN "SystemWide|Configuration" ELSE IF dt % 4 = 1 THEN "SystemWide"
                           ELSE IF dt % 4 = 2 THEN "Configuration" ELSE "")
FieldsText(fs) == FlattenSeq([i \in 1..Len(fs) |-> (IF i > 1 THEN <<59, 32>> ELSE <<>>) \o FieldText(fs[i])])
ItemText(fl, x) ==
  CASE x.t = "fmt" -> FieldsText(x.fields)
    [] x.t = "data" -> Name(x.name, x.mi)
    [] x.t = "sub" -> BytesOf("Subscription: " \o x.name \o " msg_id: " \o ToString(x.id))
    [] x.t \in {"info", "minfo"} -> InfoText(fl, x)
    [] x.t = "param" -> BytesOf(x.key) \o <<58, 32>> \o ValueText(fl, x.v)
    [] x.t = "dparam" -> BytesOf(x.key) \o <<32, 40>> \o DefaultText(x.dt) \o <<41, 58, 32>> \o ValueText(fl, x.v)
    [] x.t = "log" -> LevelText(x.lvl) \o <<32>> \o DecU(x.ts) \o <<58, 32>> \o x.msg
    [] x.t = "tlog" -> LevelText(x.lvl) \o BytesOf(" Tag: ") \o Num(x.tag) \o <<32>> \o DecU(x.ts) \o <<58, 32>> \o x.msg
    [] x.t = "drop" -> Num(x.dur)
    [] OTHER -> <<>>
Accessors(x) ==
  CASE x.t = "hdr" -> EncItem(x)
    [] x.t = "flags" -> <<Bit(x.compat[1], 0), Bit(x.incompat[1], 0)>>
    [] x.t = "dparam" -> <<Bit(x.dt, 0), Bit(x.dt, 1)>>
    [] x.t \in {"log", "tlog"} -> LevelText(x.lvl)
    [] OTHER -> <<>>
TypeView(f) == [ty |-> TypeText(f.ty, f.arr), base |-> BytesOf(f.ty), sc |-> f.arr = "", ar |-> f.arr # ""]
ValView(fl, f) == TypeView(f) @@ [txt |-> ValueText(fl, f.v), ch |-> CharViews(f.v)]
RECURSIVE Vals(_, _)
Vals(fl, fs) == FlattenSeq([i \in 1..Len(fs) |->
   <<ValView(fl, fs[i])>> \o FlattenSeq([j \in 1..Len(fs[i].v.c) |-> Vals(fl, fs[i].v.c[j].fs)])])
\* the definitions that the instances of a record carry
RECURSIVE Defs(_, _)
Defs(F, o) == <<[n |-> o.n, dn |-> o.n, txt |-> Name(o.n, o.mi), df |-> IF o.n \in DOMAIN F THEN F[o.n] ELSE <<>>]>>
   \o FlattenSeq([i \in 1..Len(o.fs) |-> FlattenSeq([j \in 1..Len(o.fs[i].v.c) |-> Defs(F, o.fs[i].v.c[j])])])
Items(fl, x) ==
  CASE x.t = "fmt" -> [i \in 1..Len(x.fields) |-> TypeView(x.fields[i]) @@ [txt |-> FieldText(x.fields[i])]]
    [] x.t = "data" -> Vals(fl, x.fs)
    [] x.t \in {"info", "minfo"} -> Vals(fl, <<[ty |-> x.ty, arr |-> x.arr, v |-> x.v]>>)
    [] x.t \in {"param", "dparam"} -> <<TypeView(x) @@ [txt |-> ValueText(fl, x.v)]>>
    [] OTHER -> <<>>
\* F: the formats in effect
View(F, fl, x) ==
  [txt |-> ItemText(fl, x), acc |-> Accessors(x), vals |-> Items(fl, x),
   defs |-> IF x.t = "data" THEN Defs(F, [n |-> x.name, mi |-> x.mi, fs |-> x.fs]) ELSE <<>>]
=============================================================================
