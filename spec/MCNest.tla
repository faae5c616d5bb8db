-------------------------------- MODULE MCNest --------------------------------
(***************************************************************************)
(* Decoding nested formats with limits, as a machine with an explicit stack:*)
(* one step reads one plain field, enters one nested value, or leaves it.   *)
(* D bounds the depth, V the number of nested values.  For every pair of    *)
(* formats over the given field types -- self-referential, mutually          *)
(* recursive, branching, of size zero, undefined -- and every amount of      *)
(* data, the machine stops after a bounded number of steps; where it does    *)
(* not run into a limit it decides as ULogCodec does.                        *)
(***************************************************************************)
EXTENDS LogBuild, Json, IOUtils
N == atoi(IOEnv.N)
D == 3
V == 6
VARIABLES fa, fb, have, stack, left, vals, steps, status
vars == <<fa, fb, have, stack, left, vals, steps, status>>

Kinds == {<<"uint8_t", "">>, <<"a", "">>, <<"b", "">>, <<"a", "2">>, <<"b", "2">>, <<"b", "0">>, <<"c", "">>}
Fields == UNION {[1..k -> Kinds] : k \in 0..N}
Def(fs) == [i \in 1..Len(fs) |-> F("f" \o ToString(i), fs[i][1], fs[i][2])]
Defs == [a |-> Def(fa), b |-> Def(fb)]
Frame(n) == [n |-> n, i |-> 1, r |-> -1]
Bytes(n) == [i \in 1..n |-> i]
LogFile == HeaderB \o fmtE("a", Def(fa)).b \o fmtE("b", Def(fb)).b \o fmtE("t", <<TS, F("x", "a", "")>>).b
           \o subE(0, 1, "t").b \o dataE(1, T8(1) \o Bytes(have)).b \o rawE("info", 73, keyed("b[2] k") \o Bytes(have)).b
Init ==
  /\ fa \in Fields /\ fb \in Fields /\ have \in {0, 2, 5}
  /\ stack = <<Frame("a")>> /\ left = have /\ vals = 1 /\ steps = 0 /\ status = "run"
  /\ PrintT(<<"B", ToJson([file |-> LogFile, ending |-> "eof"])>>)
Top == stack[Len(stack)]
Fs == Defs[Top.n]
Pop == SubSeq(stack, 1, Len(stack) - 1)
Fail(how) == status' = how /\ UNCHANGED <<stack, left, vals>>
SetTop(t) == [stack EXCEPT ![Len(stack)] = t]
Step ==
  /\ status = "run" /\ steps' = steps + 1 /\ UNCHANGED <<fa, fb, have>>
  /\ IF Top.i > Len(Fs) THEN
       /\ stack' = Pop /\ status' = (IF Pop = <<>> THEN "ok" ELSE "run") /\ UNCHANGED <<left, vals>>
     ELSE LET f == Fs[Top.i]
              c == IF f.arr = "" THEN 1 ELSE NumVal(f.arr)
              r == IF Top.r = -1 THEN c ELSE Top.r IN
       IF f.ty = "uint8_t" THEN
         IF left < 1 THEN Fail("fail")
         ELSE left' = left - 1 /\ stack' = SetTop([Top EXCEPT !.i = @ + 1]) /\ UNCHANGED <<vals, status>>
       ELSE IF f.ty \notin {"a", "b"} THEN Fail("fail")
       ELSE IF r = 0 THEN stack' = SetTop([Top EXCEPT !.i = @ + 1, !.r = -1]) /\ UNCHANGED <<left, vals, status>>
       ELSE IF Len(stack) >= D \/ vals >= V THEN Fail("limit")
       ELSE stack' = Append(SetTop([Top EXCEPT !.r = r - 1]), Frame(f.ty)) /\ vals' = vals + 1 /\ UNCHANGED <<left, status>>
Next == Step
\* every nested value takes one step to enter, one to leave, and for each of its fields at most one more
Terminates == steps <= V * (2 + N) + 1 /\ (status = "run" => stack # <<>>)
Agrees == status \in {"ok", "fail"} =>
            (DecInst(Defs, TRUE, "a", Bytes(have), 1, 0).ok <=> status = "ok")
Inv == Terminates /\ Agrees /\ vals <= V /\ Len(stack) <= D
=============================================================================
