------------------------------ MODULE ULogErrors ------------------------------
(***************************************************************************)
(* What an error result may name as its cause.  A cause is [k, b]: k the     *)
(* variant of ULogError, b the bytes it must carry (the name it speaks of,    *)
(* or the bytes that were no text).  Defects(..) is the set of causes that    *)
(* are true of a record; an error result must name one of them.  Where a      *)
(* record has several defects, any one of them may be named.                  *)
(***************************************************************************)
EXTENDS ULogCodec

Cause(k, b) == [k |-> k, b |-> b]
Plain(k) == Cause(k, <<>>)
\* the record, or a text in it, is not what it should be
Malformed  == {Plain("ParseError")}
\* a definition text may also end where more of it should follow
BadGrammar == {Plain("ParseError"), Plain("UnexpectedEndOfFile")}
NoText(b)  == {Cause("Utf8", b)}
NoFormat(name) == Cause("UndefinedFormat", name)

\* names of formats that decoding a value of type ty may look up
RECURSIVE Reach(_, _)
Reach(F, S) ==
  LET n == S \cup UNION {{F[s][i].ty : i \in 1..Len(F[s])} : s \in S \cap DOMAIN F} IN
  IF n = S THEN S ELSE Reach(F, n)
Undefined(F, ty) == (Reach(F, {ty}) \ Prim) \ DOMAIN F
\* the same formats with the undefined ones taken as empty: what fails then, fails for want of bytes (or depth)
Filled(F, U) == [s \in U |-> <<>>] @@ F
ValDefects(F, pad, f, b, p) ==
  LET U == Undefined(F, f.ty) IN
  {NoFormat(BytesOf(s)) : s \in U} \cup (IF DecVal(Filled(F, U), pad, f, b, p, 0).ok THEN {} ELSE Malformed)

KeyDefects(b, p) ==
  IF Len(b) < p \/ Len(b) < p + b[p] THEN Malformed
  ELSE LET t == SubSeq(b, p + 1, p + b[p]) IN
       IF ~Utf8(t) THEN NoText(t) ELSE IF ~ParseKey(t).ok THEN BadGrammar ELSE {}
InfoDefects(F, pad, b, p) ==
  LET k == KeyDefects(b, p) IN
  IF k # {} THEN k ELSE ValDefects(F, pad, KeyAt(b, p).f, b, p + 1 + b[p])
ParamDefects(b, p) ==
  LET k == KeyDefects(b, p) IN
  IF k # {} THEN k
  ELSE LET f == KeyAt(b, p).f IN
       IF f.arr # "" \/ f.ty \notin {"int32_t", "float"} THEN {Plain("UnknownParameterType")}
       ELSE IF Len(b) < p + b[p] + 4 THEN Malformed ELSE {}
TextDefects(b, n) ==
  (IF Len(b) < n \/ (b # <<>> /\ b[1] \notin 48..55) THEN Malformed ELSE {})
  \cup (IF Len(b) >= n /\ ~Utf8(Drop(b, n)) THEN NoText(Drop(b, n)) ELSE {})
FlagsDefects(b) ==
  (IF Len(b) < 40 THEN Malformed ELSE {})
  \cup (IF Len(b) >= 16 /\ (b[9] \notin {0, 1} \/ \E i \in 10..16 : b[i] # 0) THEN {Plain("UnknownIncompatBits")} ELSE {})
FormatDefects(b) == IF ~Utf8(b) THEN NoText(b) ELSE IF ParseFormat(b).ok THEN {} ELSE BadGrammar
SubDefects(F, b) ==
  IF Len(b) < 3 THEN Malformed
  ELSE LET n == Drop(b, 3) IN
       IF ~Utf8(n) THEN NoText(n)
       ELSE IF (\E i \in 1..Len(n) : n[i] \notin 33..126) \/ StrOf(n) \notin DOMAIN F THEN {NoFormat(n)} ELSE {}
HasU64Timestamp(fs) == \E i \in 1..Len(fs) : fs[i].n = "timestamp" /\ fs[i].ty = "uint64_t" /\ fs[i].arr = ""
\* subs: live subscriptions.  An unknown id is named, in one way or another: Numbers
DataDefects(F, subs, pad, b) ==
  IF Len(b) < 2 THEN Malformed
  ELSE IF U16At(b, 1) \notin DOMAIN subs
       THEN {Cause("UndefinedSubscription", SubSeq(b, 1, 2)), Cause("ParseError", SubSeq(b, 1, 2))}
  ELSE LET n == subs[U16At(b, 1)].name IN
       (IF HasU64Timestamp(F[n]) THEN {} ELSE {Plain("MissingTimestamp")})
       \cup ValDefects(F, pad, [n |-> "", ty |-> n, arr |-> ""], b, 3)

\* of a record of the given type and section
Defects(section, F, subs, pad, ty, b) ==
  IF section = "defs" /\ ty = 66 THEN FlagsDefects(b)
  ELSE IF section = "defs" /\ ty = 70 THEN FormatDefects(b)
  ELSE IF ty = 65 THEN SubDefects(F, b)
  ELSE IF ty = 73 THEN InfoDefects(F, pad, b, 1)
  ELSE IF ty = 77 THEN InfoDefects(F, pad, b, 2)
  ELSE IF ty = 80 THEN ParamDefects(b, 1)
  ELSE IF ty = 81 THEN ParamDefects(b, 2)
  ELSE IF section # "data" THEN {}
  ELSE IF ty = 68 THEN DataDefects(F, subs, pad, b)
  ELSE IF ty = 76 THEN TextDefects(b, 9)
  ELSE IF ty = 67 THEN TextDefects(b, 11)
  ELSE IF ty \in {79, 82} /\ Len(b) < 2 THEN Malformed
  ELSE {}

\* the causes an error at the start of a file may name, and one where the input ends
HeaderCauses(len, ending, kind) ==
  {Plain("InvalidHeader")} \cup
  (IF len >= 16 THEN {Plain("InvalidMagicBits")} ELSE IF ending = "fail" THEN {Cause("Io", kind)} ELSE {Plain("UnexpectedEndOfFile")})
EndCauses(ending, kind) == IF ending = "fail" THEN {Cause("Io", kind)} ELSE {Plain("UnexpectedEndOfFile")}

\* a recorded error [k, b, nums] names the cause c
Names(e, c) == /\ e.k = c.k
               /\ CASE c.k \in {"Utf8", "UndefinedFormat", "Io", "UndefinedSubscription"} -> e.b = c.b
                    [] c.k = "ParseError" /\ c.b # <<>> -> U16At(c.b, 1) \in {e.nums[i] : i \in 1..Len(e.nums)}
                    [] OTHER -> TRUE
NamesOne(e, C) == \E c \in C : Names(e, c)
=============================================================================
