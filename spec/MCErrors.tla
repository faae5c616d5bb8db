------------------------------- MODULE MCErrors -------------------------------
(***************************************************************************)
(* One record of a log is made with known defects: everything that is wrong   *)
(* with it is put there by construction (Expect), by itself or together with  *)
(* another defect.  The reader refuses the record iff something is wrong with  *)
(* it, and the causes ULogErrors finds in it are exactly those put there.     *)
(* Also every way a log can stop: cut or failing at each byte.  Each log is    *)
(* printed and read by the real code, whose errors must name such a cause.    *)
(***************************************************************************)
EXTENDS ULogParser, LogBuild, Json, IOUtils
E == INSTANCE ULogErrors
Big == IOEnv.BIG = "1"
VARIABLES w, seen             \* the log; kinds of the results so far

\* ---- the log around the record --------------------------------------------------
Defs == HeaderB
  \o fmtE("a", <<TS, F("x", "int16_t", "")>>).b                        \* 8 + 2 bytes
  \o fmtE("b", <<TS, F("n", "nest", ""), F("y", "uint8_t", "")>>).b    \* 8 + 2, then undefined
  \o fmtE("nest", <<F("v", "int16_t", ""), F("m", "lost", "2"), F("g", "gone", "")>>).b
  \o fmtE("nots", <<F("x", "uint8_t", "3")>>).b                        \* no timestamp
  \o fmtE("badts", <<F("timestamp", "uint32_t", ""), F("x", "uint8_t", "")>>).b
  \o fmtE("arrts", <<F("timestamp", "uint64_t", "2")>>).b
  \o fmtE("both", <<F("x", "uint8_t", ""), F("m", "lost", "")>>).b     \* no timestamp, and undefined
  \o fmtE("zero", <<TS, F("m", "lost", "0")>>).b
  \o fmtE("ok2", <<TS, F("n", "sub2", "2"), F("_padding0", "uint8_t", "4")>>).b
  \o fmtE("sub2", <<F("c", "char", "")>>).b
Names == <<"a", "b", "nots", "badts", "arrts", "both", "zero", "ok2">>
Subs == FoldLeft(LAMBDA s, i : s \o subE(0, i, Names[i]).b, <<>>, [i \in 1..Len(Names) |-> i])
        \o subE(0, 40, "a").b \o unsubE(40).b
UpTo(b, n) == SubSeq(b, 1, IF n < Len(b) THEN n ELSE Len(b))
Fill(n) == [i \in 1..n |-> 65]

PE == E!Malformed  GR == E!BadGrammar  UF(s) == {E!NoFormat(BytesOf(s))}  MT == {E!Plain("MissingTimestamp")}
Rw(sec, ty, b, x) == [sec |-> sec, b |-> Record(ty, b), x |-> x, end |-> "eof"]

\* ---- data: what a payload of n bytes lacks ---------------------------------------
DataNeed(i) == CASE Names[i] = "a" -> 10 [] Names[i] = "b" -> 11 [] Names[i] = "nots" -> 3 [] Names[i] = "badts" -> 5
                 [] Names[i] = "arrts" -> 16 [] Names[i] = "both" -> 1 [] Names[i] = "zero" -> 8 [] Names[i] = "ok2" -> 10
DataWrong(i, n) ==
  (IF n < DataNeed(i) THEN PE ELSE {})
  \cup (CASE Names[i] = "b" -> UF("lost") \cup UF("gone") [] Names[i] = "both" -> UF("lost") \cup MT
          [] Names[i] = "zero" -> UF("lost") [] Names[i] \in {"nots", "badts", "arrts"} -> MT [] OTHER -> {})
DataCases == {Rw("data", 68, LE16(i) \o Fill(n), DataWrong(i, n)) : i \in 1..Len(Names), n \in (IF Big THEN 0..18 ELSE {0, 1, 3, 5, 7, 8, 10, 11, 16})}
  \cup {Rw("data", 68, LE16(id) \o Fill(n), {E!Cause("UndefinedSubscription", LE16(id)), E!Cause("ParseError", LE16(id))}) :
        id \in {0, 9, 40, 256, 257, 65535, 12345}, n \in {0, 10}}
  \cup {Rw("data", ty, b, PE) : ty \in {68, 82}, b \in {<<>>, <<1>>}}
  \cup {Rw("data", 79, b, PE) : b \in {<<>>, <<255>>}}

\* ---- typed keys -----------------------------------------------------------------------
TypeNeed == [ty \in {"int32_t", "float", "uint16_t", "char[3]", "nest", "nest[2]", "lost", "sub2", "int32_t[2]", "float[1]", "bool"} |->
   CASE ty = "int32_t" -> 4 [] ty = "float" -> 4 [] ty = "uint16_t" -> 2 [] ty = "char[3]" -> 3 [] ty = "nest" -> 2 [] ty = "nest[2]" -> 4
     [] ty = "sub2" -> 1 [] ty = "int32_t[2]" -> 8 [] ty = "float[1]" -> 4 [] ty = "bool" -> 1 [] OTHER -> 0]
TypeWrong(ty) == IF ty \in {"nest", "nest[2]"} THEN UF("lost") \cup UF("gone") ELSE IF ty = "lost" THEN UF("lost") ELSE {}
\* how the key is spoilt
Spoils == {"no", "early", "sym", "tokens", "text", "long"}
KeyOf(ty, s) == CASE s = "early" -> BytesOf(ty) [] s = "sym" -> BytesOf("!" \o ty) \o <<32, 107>> [] s = "tokens" -> BytesOf("[" \o ty \o " k")
                  [] s = "text" -> BytesOf(ty \o " k") \o <<195>> [] OTHER -> BytesOf(ty \o " k")
KeyWrong(mt, ty, s, n) ==
  CASE s \in {"early", "sym", "tokens"} -> GR
    [] s = "text" -> E!NoText(KeyOf(ty, s))
    [] s = "long" -> PE
    [] mt \in {80, 81} /\ ty \notin {"int32_t", "float"} -> {E!Plain("UnknownParameterType")}
    [] OTHER -> TypeWrong(ty) \cup (IF n < TypeNeed[ty] THEN PE ELSE {})
KeyBody(mt, ty, s, n) == (IF mt \in {77, 81} THEN <<1>> ELSE <<>>)
  \o <<(IF s = "long" THEN 255 ELSE Len(KeyOf(ty, s)))>> \o KeyOf(ty, s) \o Fill(n)
KeyCases == {Rw(sec, mt, KeyBody(mt, ty, s, n), KeyWrong(mt, ty, s, n)) : sec \in {"defs", "data"}, mt \in {73, 77, 80, 81}, ty \in DOMAIN TypeNeed, s \in Spoils,
               n \in (IF Big THEN 0..8 ELSE {0, 2, 4})}
  \cup {Rw("defs", mt, b, PE) : mt \in {73, 77, 80, 81}, b \in {<<>>}} \cup {Rw("data", mt, <<7>>, PE) : mt \in {73, 77, 80, 81}}

\* ---- the rest --------------------------------------------------------------------------
Lvls == {47, 48, 55, 56, 0}
Txts == {<<>>, <<65>>, <<65, 200>>, <<195, 169>>, <<255>>}
LogCases == {Rw("data", mt, UpTo(<<l>> \o Fill(IF mt = 76 THEN 8 ELSE 10) \o t, n),
               (IF (n >= 1 /\ l \notin 48..55) \/ n < h THEN PE ELSE {})
               \cup (IF n >= h /\ UpTo(t, n - h) \in {<<65, 200>>, <<255>>, <<195>>} THEN E!NoText(UpTo(t, n - h)) ELSE {})) :
             l \in Lvls, t \in Txts, n \in 0..13, mt \in {76}, h \in {9}}
  \cup {Rw("data", 67, UpTo(<<l>> \o Fill(10) \o t, n),
               (IF (n >= 1 /\ l \notin 48..55) \/ n < 11 THEN PE ELSE {})
               \cup (IF n >= 11 /\ UpTo(t, n - 11) \in {<<65, 200>>, <<255>>, <<195>>} THEN E!NoText(UpTo(t, n - 11)) ELSE {})) :
             l \in Lvls, t \in Txts, n \in 0..13}
FlagCases == {Rw("defs", 66, UpTo([i \in 1..42 |-> IF i = 8 + at THEN bit ELSE IF i = 9 /\ at # 1 THEN one ELSE 0], n),
               (IF n < 40 THEN PE ELSE {}) \cup (IF n >= 16 /\ (at > 1 \/ bit > 1) THEN {E!Plain("UnknownIncompatBits")} ELSE {})) :
              at \in 1..8, bit \in {1, 2, 3, 128}, one \in {0, 1}, n \in {0, 7, 8, 15, 16, 39, 40}}
FmtCases == {Rw("defs", 70, BytesOf(t[1]), IF t[2] THEN {} ELSE GR) : t \in
    {<<"q:uint8_t x;", TRUE>>, <<"q:", TRUE>>, <<"", FALSE>>, <<"q", FALSE>>, <<"q;", FALSE>>, <<":", FALSE>>, <<"q:uint8_t", FALSE>>, <<"q:uint8_t x", FALSE>>,
     <<"q:uint8_t x y;", FALSE>>, <<"q:uint8_t[ x;", FALSE>>, <<"q:uint8_t[2 x;", FALSE>>, <<"q:uint8_t[x] x;", FALSE>>, <<"q:[2] x;", FALSE>>, <<"q:uint8_t x;;", FALSE>>,
     <<"q:uint8_t[99999999999999999999] x;", FALSE>>, <<"q:3 x;", FALSE>>, <<"q-r:uint8_t x;", FALSE>>, <<"q:uint8_t[-1] x;", FALSE>>}}
  \cup {Rw("defs", 70, t, E!NoText(t)) : t \in {<<255>>, BytesOf("q:uint8_t x;") \o <<195>>, <<113, 128, 58>>}}
SubCases == {Rw(sec, 65, <<0, 7, 0>> \o t, IF StrOf(t) \in {"a", "b"} THEN {} ELSE {E!NoFormat(t)}) : sec \in {"defs", "data"}, t \in {<<>>, BytesOf("a"), BytesOf("lost"), BytesOf("A"), BytesOf("ab"), BytesOf("a ")}}
  \cup {Rw(sec, 65, <<0, 7, 0>> \o t, E!NoText(t)) : sec \in {"defs", "data"}, t \in {<<97, 255>>, <<237, 160, 128>>}}
  \cup {Rw(sec, 65, <<0, 7, 0>> \o t, {E!NoFormat(t)}) : sec \in {"defs", "data"}, t \in {<<97, 0>>, <<195, 169>>}}
  \cup {Rw(sec, 65, UpTo(<<0, 7>>, n), PE) : sec \in {"defs", "data"}, n \in 0..2}
\* logs that stop: after n bytes of a record, or of the header
StopRec == <<5, 0, 79, 1, 2, 3, 4, 5>>
Stop(sec, n, e) == [sec |-> sec, b |-> UpTo(StopRec, n), end |-> e, x |-> IF e = "fail" THEN {E!Cause("Io", BytesOf("kind"))} ELSE {E!Plain("UnexpectedEndOfFile")}]
HeadOf(n, e, ok) == [sec |-> "head", b |-> UpTo(IF ok THEN HeaderB ELSE [HeaderB EXCEPT ![7] = 0], n), end |-> e,
   x |-> {E!Plain("InvalidHeader")} \cup (IF n = 16 THEN {E!Plain("InvalidMagicBits")} ELSE IF e = "fail" THEN {E!Cause("Io", BytesOf("kind"))} ELSE {E!Plain("UnexpectedEndOfFile")})]
StopCases == {Stop(sec, n, e) : sec \in {"defs", "data"}, n \in 1..7, e \in {"eof", "fail"}} \cup {Stop(sec, 0, "fail") : sec \in {"defs", "data"}}
  \cup {HeadOf(n, e, ok) : n \in 0..15, e \in {"eof", "fail"}, ok \in BOOLEAN} \cup {HeadOf(16, e, FALSE) : e \in {"eof", "fail"}}
Cases == DataCases \cup KeyCases \cup LogCases \cup FlagCases \cup FmtCases \cup SubCases \cup StopCases

Before == CASE w.sec = "head" -> <<>> [] w.sec = "defs" -> Defs [] w.sec = "data" -> Defs \o Subs
EInit == /\ w \in Cases /\ seen = <<>> /\ ending = w.end /\ inp = Before \o w.b
         /\ cfg = [hdr |-> FALSE, ts |-> TRUE, pad |-> TRUE, allow |-> [on |-> FALSE, names |-> <<>>]]
         /\ Init
ENext == /\ phase \notin {"eof", "cut", "bad"} /\ Next /\ UNCHANGED <<inp, ending, cfg, w>> /\ seen' = Append(seen, out'.t)
AtIt == IF w.sec = "head" THEN phase = "start" ELSE phase # "start" /\ pos = Len(Before)
IsStop == w.sec = "head" \/ Len(w.b) < 3 \/ Len(w.b) < 3 + U16At(w.b, 1)
CausesRight ==
  AtIt /\ phase \notin {"eof", "cut", "bad"} =>
    IF w.sec = "head" THEN E!HeaderCauses(Len(inp), ending, BytesOf("kind")) = w.x
    ELSE IF IsStop THEN E!EndCauses(ending, BytesOf("kind")) = w.x
    ELSE E!Defects(phase, formats, subs, cfg.pad, RecType, Body) = w.x
\* the record is refused iff it has a defect; everything before it is accepted
RefusedRight ==
  /\ pos <= Len(Before) /\ ~(AtIt /\ phase \in {"cut", "bad"}) /\ w.sec # "head" => \A i \in 1..Len(seen) : seen[i] # "err"
  /\ (pos = Len(inp) /\ ~IsStop) => (\E i \in 1..Len(seen) : seen[i] = "err") = (w.x # {} /\ pos > Len(Before))
  /\ phase \in {"cut", "bad"} => IsStop
Show == seen = <<>> => PrintT(<<"B", ToJson([file |-> inp, end |-> ending, pre |-> Len(Before), stop |-> IsStop, n |-> Cardinality(w.x)])>>)
Inv == CausesRight /\ RefusedRight /\ ReaderInv /\ Show
=============================================================================
