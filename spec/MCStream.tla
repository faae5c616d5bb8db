------------------------------- MODULE MCStream -------------------------------
(***************************************************************************)
(* Cycles of records read again and again.  The reader's state after the    *)
(* second time is its state after the third (so it is after every later      *)
(* one), the results are the same, and its tables never weigh more than the  *)
(* records of the beginning and of one cycle, however often it comes.        *)
(***************************************************************************)
EXTENDS LogBuild, Json, IOUtils, FiniteSetsExt
VARIABLES cyc, ph,        \* the cycle; 0: being made, 1: read, 2: done
          outs, prev,     \* results of this and of the previous time
          turn, was       \* how many times; state after the previous time
VARIABLES phase, pos, formats, subs, multi, limit, out
rvars == <<phase, pos, formats, subs, multi, limit, out>>
N == atoi(IOEnv.N)
fa == fmtE("a", <<TS, F("x", "uint8_t", "")>>)
fb == fmtE("b", <<TS, F("y", "uint8_t", "")>>)
fc == fmtE("b", <<TS, F("z", "uint8_t", "2")>>)
body == T8(5) \o <<1>>
Pool == << subE(0, 1, "a"), subE(1, 1, "a"), subE(0, 1, "b"), subE(2, 2, "b"), unsubE(1), dataE(1, body), dataE(2, body \o <<2>>),
           bad(subE(0, 1, "zz")), fc, opE, rawE("log", 76, <<54>>) >>
Pres == << <<fa, fb, subE(0, 9, "a")>>, <<fa, fb>> >>
VARIABLE pre
PreB == HeaderB \o FlattenSeq([i \in 1..Len(Pres[pre]) |-> Pres[pre][i].b])
CycB == FlattenSeq([i \in 1..Len(cyc) |-> Pool[cyc[i]].b])
Inp == PreB \o FlattenSeq([i \in 1..4 |-> CycB])
P == INSTANCE ULogParser WITH inp <- Inp, ending <- "eof", cfg <- [hdr |-> FALSE, ts |-> TRUE, pad |-> FALSE, allow |-> [on |-> FALSE, names |-> <<>>]]
Init == /\ cyc = <<>> /\ pre \in 1..Len(Pres) /\ ph = 0 /\ outs = <<>> /\ prev = <<>> /\ turn = 0 /\ was = <<>> /\ P!Init
Make == /\ ph = 0 /\ Len(cyc) < N /\ \E i \in 1..Len(Pool) : cyc' = Append(cyc, i)
        /\ UNCHANGED <<pre, ph, outs, prev, turn, was, rvars>>
Start == /\ ph = 0 /\ cyc # <<>> /\ ph' = 1 /\ UNCHANGED <<cyc, pre, outs, prev, turn, was, rvars>>
State == <<phase, formats, subs, multi, limit>>
AtTurn == pos = Len(PreB) + turn * Len(CycB)
Read == /\ ph = 1 /\ phase # "eof" /\ ~(turn < 4 /\ pos > 16 /\ AtTurn) /\ P!Next
        /\ outs' = IF out' = Silent \/ pos' <= Len(PreB) THEN outs ELSE Append(outs, out')
        /\ UNCHANGED <<cyc, pre, ph, prev, turn, was>>
Turn == /\ ph = 1 /\ turn < 4 /\ pos > 16 /\ AtTurn
        /\ turn' = turn + 1 /\ prev' = outs /\ outs' = <<>> /\ was' = State
        /\ UNCHANGED <<cyc, pre, ph, rvars>>
Finish == /\ ph = 1 /\ phase = "eof" /\ ph' = 2
          /\ PrintT(<<"B", ToJson([pre |-> PreB, cyc |-> CycB, m |-> Len(cyc), p0 |-> Len(Pres[pre])])>>)
          /\ UNCHANGED <<cyc, pre, outs, prev, turn, was, rvars>>
Next == Make \/ Start \/ Read \/ Turn \/ Finish
\* after the second time nothing changes any more
Fixed == (turn >= 3 /\ AtTurn /\ phase # "eof") => State = was
Repeats == (turn = 4 /\ AtTurn /\ phase # "eof") => outs = prev
\* the weight of the tables, in bytes of the records they came from
Weight == FoldSet(LAMBDA n, a : a + 3 + Len(Content([t |-> "fmt", name |-> n, fields |-> formats[n]])), 0, DOMAIN formats)
          + FoldSet(LAMBDA i, a : a + 6 + Len(BytesOf(subs[i].name)), 0, DOMAIN subs)
Bounded == Weight <= Len(PreB) + Len(CycB)
Inv == P!ReaderInv /\ Fixed /\ Repeats /\ Bounded
=============================================================================
