-------------------------------- MODULE MCMeta --------------------------------
(***************************************************************************)
(* Every other message: built from its parts (which are then known), cut at  *)
(* every length or followed by up to two more bytes.  The codec must give    *)
(* the parts back whenever all of them are there, and refuse otherwise; the  *)
(* parts range over every type of value with every kind of length, every     *)
(* value of the bytes that stand for something (levels, "continued",         *)
(* "default type"), texts of characters of every length, and every place a   *)
(* key's announced length may end.  Each record is printed and read by the   *)
(* real code.                                                                *)
(***************************************************************************)
EXTENDS ULogCodec, Json, IOUtils
Big == IOEnv.BIG = "1"
VARIABLE m

F == [ n |-> <<[n |-> "p", ty |-> "uint8_t", arr |-> ""], [n |-> "q", ty |-> "int16_t", arr |-> "2"]>> ]
Arrs == {"", "0", "1", "2"} \cup (IF Big THEN {"3", "8", "40"} ELSE {})
Types == (Prim \X Arrs) \cup {<<"n", "">>, <<"n", "2">>, <<"nosuch", "">>, <<"nosuch", "0">>, <<"uint8", "">>}
Pats == {"count", "ones", "signs"}
Pat(p, i) == CASE p = "count" -> (IF i % 3 = 0 THEN 0 ELSE 100 + (i % 100)) [] p = "ones" -> 255 [] p = "signs" -> (IF i % 4 = 0 THEN 128 ELSE 1)
Need(ty, arr) == (IF ty = "n" THEN 5 ELSE IF ty \in Prim THEN Width[ty] ELSE 0) * (IF arr = "" THEN 1 ELSE NumVal(arr))
Bytes(p, n) == [i \in 1..n |-> Pat(p, i)]

Keyed1(t, first, ty, p) == [t |-> t, first |-> first, ty |-> ty[1], arr |-> ty[2], p |-> p]
Infos == {Keyed1("info", 0, ty, p) : ty \in Types, p \in Pats}
MInfos == {Keyed1("minfo", c, ty, "count") : c \in {0, 1}, ty \in Types} \cup {Keyed1("minfo", c, <<"int16_t", "">>, "ones") : c \in 0..255}
Params == {Keyed1("param", 0, ty, p) : ty \in Types, p \in Pats}
DParams == {Keyed1("dparam", c, ty, "count") : c \in {0, 1, 2, 3}, ty \in Types} \cup {Keyed1("dparam", c, <<"float", "">>, "ones") : c \in 0..255}
Texts == {<<>>, <<65>>, <<195, 169, 65>>, <<226, 130, 172>>, <<65, 240, 159, 154, 128>>, <<0, 13, 10>>, <<65, 255>>, <<237, 160, 128>>}
Tags == {0, 1, 255, 256, 65535}
Logs == {[t |-> "log", lvl |-> l, tag |-> 0, p |-> p, text |-> x] : l \in 0..255, p \in {"count"}, x \in {<<65>>}}
   \cup {[t |-> "log", lvl |-> l, tag |-> 0, p |-> p, text |-> x] : l \in 47..56, p \in Pats, x \in Texts}
TLogs == {[t |-> "tlog", lvl |-> l, tag |-> 513, p |-> "signs", text |-> <<65>>] : l \in 0..255}
   \cup {[t |-> "tlog", lvl |-> l, tag |-> g, p |-> p, text |-> x] : l \in {48, 51, 55}, g \in Tags, p \in {"ones"}, x \in Texts}
Drops == {[t |-> "drop", dur |-> d] : d \in Tags \cup {2 * 256 + 1, 32768}}
Flags == {[t |-> "flags", c |-> c, i |-> i, offs |-> o] : c \in {<<0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 2, 3, 4, 5, 6, 7, 8>>, Bytes("ones", 8)},
            i \in {0}, o \in {[j \in 1..24 |-> 0], Bytes("count", 24), Bytes("ones", 24)}}
\* a key whose announced length is not that of its text
Keys == {[t |-> "key", mt |-> mt, len |-> n, text |-> x] : mt \in {73, 77, 80, 81}, n \in 0..12,
           x \in {BytesOf("float k"), BytesOf("int32_t kk"), BytesOf("float kkk"), BytesOf("char[2]k;"), <<226, 128, 131>> \o BytesOf("float k")}}
Msgs == Infos \cup MInfos \cup Params \cup DParams \cup Logs \cup TLogs \cup Drops \cup Flags \cup Keys
Init == m \in Msgs
Next == FALSE /\ m' = m

TypeByte == CASE m.t = "info" -> 73 [] m.t = "minfo" -> 77 [] m.t = "param" -> 80 [] m.t = "dparam" -> 81 [] m.t = "log" -> 76
              [] m.t = "tlog" -> 67 [] m.t = "drop" -> 79 [] m.t = "flags" -> 66 [] m.t = "key" -> m.mt
HasFirst == TypeByte \in {77, 81}
IsKeyed == m.t \in {"info", "minfo", "param", "dparam"}
IsParam == m.t \in {"param", "dparam"}
KText == BytesOf(m.ty) \o (IF m.arr = "" THEN <<>> ELSE <<91>> \o BytesOf(m.arr) \o <<93>>) \o BytesOf(" the_key")
Lead == IF IsKeyed THEN (IF HasFirst THEN <<m.first>> ELSE <<>>) \o <<Len(KText)>> \o KText
        ELSE IF m.t = "log" THEN <<m.lvl>> \o Bytes(m.p, 8)
        ELSE IF m.t = "tlog" THEN <<m.lvl, m.tag % 256, m.tag \div 256>> \o Bytes(m.p, 8)
        ELSE <<>>
Rest == IF IsKeyed THEN Bytes(m.p, Need(m.ty, m.arr))
         ELSE IF m.t \in {"log", "tlog"} THEN m.text
         ELSE IF m.t = "drop" THEN <<m.dur % 256, m.dur \div 256>>
         ELSE IF m.t = "flags" THEN m.c \o <<m.i, 0, 0, 0, 0, 0, 0, 0>> \o m.offs
         ELSE (IF HasFirst THEN <<1>> ELSE <<>>) \o <<m.len>> \o m.text
Whole == Lead \o Rest
More == Whole \o <<7, 9>>
Cut(n) == SubSeq(More, 1, n)
Cuts == 0..Len(More)

Dec(b) == CASE TypeByte = 73 -> DecInfo(F, TRUE, b) [] TypeByte = 77 -> DecMultiInfo(F, TRUE, b) [] TypeByte = 80 -> DecParam(b)
            [] TypeByte = 81 -> DecDefaultParam(b) [] TypeByte = 76 -> DecString(b) [] TypeByte = 67 -> DecTagged(b)
            [] TypeByte = 79 -> DecDropout(b) [] TypeByte = 66 -> DecFlags(b)

\* what the record must be
Known == IF IsParam THEN m.ty \in {"int32_t", "float"} /\ m.arr = "" ELSE m.ty \in Prim \cup {"n"}
Nrm(bs) == IF m.ty = "bool" THEN [i \in 1..Len(bs) |-> IF bs[i] = 0 THEN 0 ELSE 1] ELSE bs
KeyedRight(n, x) ==
  /\ x.t = m.t <=> n >= Len(Whole) /\ Known
  /\ x.t # m.t => x.t = "err"
  /\ x.t = m.t => /\ x.key = "the_key" /\ x.ty = m.ty /\ x.arr = m.arr
                  /\ EncVal(x.v) = Nrm(Rest)
                  /\ x.v.k = (IF m.ty = "n" THEN (IF m.arr = "" THEN "other" ELSE "aother") ELSE IF m.arr = "" THEN Kind[m.ty] ELSE AKind[m.ty])
                  /\ m.t = "minfo" => (x.cont = 0 <=> m.first = 0) /\ x.cont \in {0, 1}
                  /\ m.t = "dparam" => x.dt = m.first
\* the text as cut: its bytes behind the head
LogRight(n, x) ==
  LET text == SubSeq(More, Len(Lead) + 1, n) IN
  /\ x.t = m.t <=> n >= Len(Lead) /\ m.lvl \in 48..55 /\ Utf8(text)
  /\ x.t # m.t => x.t = "err"
  /\ x.t = m.t => x.lvl = m.lvl /\ x.ts = Bytes(m.p, 8) /\ x.msg = text /\ (m.t = "tlog" => x.tag = m.tag)
DropRight(n, x) == IF n < 2 THEN x.t = "err" ELSE x = [t |-> "drop", dur |-> m.dur]
FlagsRight(n, x) == IF n < 40 THEN x.t = "err"
                    ELSE /\ x.t = "flags" /\ x.compat = m.c /\ x.incompat = <<m.i, 0, 0, 0, 0, 0, 0, 0>> /\ FlattenSeq(x.offs) = m.offs
\* the key is what its length says; a shorter one is another key or none, a longer one takes of the value
KeyRight(n, x) ==
  LET at == IF HasFirst THEN 2 ELSE 1
      text == SubSeq(More, at + 1, at + m.len)
      f == ParseKey(text) IN
  IF n < at \/ n < at + m.len \/ ~f.ok THEN x.t = "err"
  ELSE LET w == IF f.f.ty = "char" THEN 2 ELSE 4 IN
       x.t # "err" <=> /\ n >= at + m.len + w
                       /\ f.f.ty \in {"float", "int32_t", "char"} /\ (TypeByte \in {80, 81} => f.f.ty # "char")
Right(n) == LET x == Dec(Cut(n)) IN
  IF IsKeyed THEN KeyedRight(n, x) ELSE IF m.t \in {"log", "tlog"} THEN LogRight(n, x)
  ELSE IF m.t = "drop" THEN DropRight(n, x) ELSE IF m.t = "flags" THEN FlagsRight(n, x) ELSE KeyRight(n, x)
AllRight == \A n \in Cuts : Right(n)
Show == PrintT(<<"B", ToJson([ty |-> TypeByte, b |-> More, from |-> IF IsKeyed THEN Len(Lead) - 2 ELSE 0])>>)
Inv == AllRight /\ Show
=============================================================================
