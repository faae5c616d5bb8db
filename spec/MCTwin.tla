-------------------------------- MODULE MCTwin --------------------------------
(***************************************************************************)
(* Two readers at work at the same time, on every pair of a set of logs     *)
(* that disagree about everything they can disagree about (what a name      *)
(* means, what an id stands for, instances, lists, options), under every    *)
(* schedule.  Before that, one after the other, each log is read alone.     *)
(* Every schedule is printed and replayed into the real code.               *)
(***************************************************************************)
EXTENDS LogBuild, Json, IOUtils

VARIABLES a, b,         \* indices of the two logs
          ph,           \* 0, 1: first, second log alone; 2: both; 3: done
          soloA, soloB, \* results alone
          outsA, outsB, \* results together
          sched         \* whose turn it was
VARIABLES phaseS, posS, formatsS, subsS, multiS, limitS, outS
VARIABLES phaseA, posA, formatsA, subsA, multiA, limitA, outA
VARIABLES phaseB, posB, formatsB, subsB, multiB, limitB, outB
varsS == <<phaseS, posS, formatsS, subsS, multiS, limitS, outS>>
varsA == <<phaseA, posA, formatsA, subsA, multiA, limitA, outA>>
varsB == <<phaseB, posB, formatsB, subsB, multiB, limitB, outB>>

body == T8(5) \o <<1, 2, 3>>
On(ns) == [on |-> TRUE, names |-> ns]
Off == [on |-> FALSE, names |-> <<>>]
Cfg(h, t, p, al) == [hdr |-> h, ts |-> t, pad |-> p, allow |-> al]
fa == fmtE("a", <<TS, F("x", "uint8_t", "")>>)
fa2 == fmtE("a", <<F("y", "int16_t", ""), TS, F("_padding0", "uint8_t", "")>>)
fb == fmtE("b", <<TS, F("n", "a", "")>>)
info2 == rawE("info", 73, keyed("a k") \o T8(1) \o body)
L(recs, c) == [f |-> HeaderB \o FlattenSeq([i \in 1..Len(recs) |-> recs[i].b]), c |-> c]
Logs == <<
  L(<<fa, subE(0, 1, "a"), dataE(1, body)>>, Cfg(FALSE, FALSE, FALSE, Off)),
  L(<<fa2, subE(2, 1, "a"), dataE(1, body)>>, Cfg(FALSE, TRUE, TRUE, Off)),
  L(<<fa, subE(0, 1, "a"), unsubE(1), dataE(1, body)>>, Cfg(FALSE, TRUE, FALSE, On(<<"b">>))),
  L(<<fb, fa2, info2, subE(0, 1, "b"), dataE(1, body)>>, Cfg(FALSE, FALSE, FALSE, On(<<"a", "b">>))),
  L(<<flagsE(1, 70, 0, 0), fa>>, Cfg(TRUE, FALSE, FALSE, Off)) >>

SInit(p, s, f, u, m, l, o) == p = "start" /\ s = 0 /\ f = <<>> /\ u = <<>> /\ m = {} /\ l = -1 /\ o = Silent
LogS == Logs[IF ph = 0 THEN a ELSE b]
S == INSTANCE ULogParser WITH inp <- LogS.f, ending <- "eof", cfg <- LogS.c,
       phase <- phaseS, pos <- posS, formats <- formatsS, subs <- subsS, multi <- multiS, limit <- limitS, out <- outS
A == INSTANCE ULogParser WITH inp <- Logs[a].f, ending <- "eof", cfg <- Logs[a].c,
       phase <- phaseA, pos <- posA, formats <- formatsA, subs <- subsA, multi <- multiA, limit <- limitA, out <- outA
B == INSTANCE ULogParser WITH inp <- Logs[b].f, ending <- "eof", cfg <- Logs[b].c,
       phase <- phaseB, pos <- posB, formats <- formatsB, subs <- subsB, multi <- multiB, limit <- limitB, out <- outB

Init == /\ a \in 1..Len(Logs) /\ b \in 1..Len(Logs) /\ ph = 0 /\ sched = <<>>
        /\ soloA = <<>> /\ soloB = <<>> /\ outsA = <<>> /\ outsB = <<>>
        /\ S!Init /\ A!Init /\ B!Init
Add(s, o) == IF o = Silent THEN s ELSE Append(s, o)
Alone ==
  /\ ph < 2 /\ phaseS # "eof" /\ S!Next
  /\ soloA' = IF ph = 0 THEN Add(soloA, outS') ELSE soloA
  /\ soloB' = IF ph = 1 THEN Add(soloB, outS') ELSE soloB
  /\ UNCHANGED <<a, b, ph, outsA, outsB, sched, varsA, varsB>>
NextAlone ==
  /\ ph < 2 /\ phaseS = "eof" /\ ph' = ph + 1
  /\ SInit(phaseS', posS', formatsS', subsS', multiS', limitS', outS')
  /\ UNCHANGED <<a, b, soloA, soloB, outsA, outsB, sched, varsA, varsB>>
TurnA ==
  /\ ph = 2 /\ phaseA # "eof" /\ A!Next
  /\ outsA' = Add(outsA, outA') /\ sched' = IF outA' = Silent THEN sched ELSE Append(sched, 0)
  /\ UNCHANGED <<a, b, ph, soloA, soloB, outsB, varsS, varsB>>
TurnB ==
  /\ ph = 2 /\ phaseB # "eof" /\ B!Next
  /\ outsB' = Add(outsB, outB') /\ sched' = IF outB' = Silent THEN sched ELSE Append(sched, 1)
  /\ UNCHANGED <<a, b, ph, soloA, soloB, outsA, varsS, varsA>>
Finish ==
  /\ ph = 2 /\ phaseA = "eof" /\ phaseB = "eof" /\ ph' = 3
  /\ PrintT(<<"B", ToJson([a |-> a, b |-> b, fa |-> Logs[a].f, fb |-> Logs[b].f, ca |-> Logs[a].c, cb |-> Logs[b].c, sched |-> sched])>>)
  /\ UNCHANGED <<a, b, soloA, soloB, outsA, outsB, sched, varsS, varsA, varsB>>
Next == Alone \/ NextAlone \/ TurnA \/ TurnB \/ Finish

Independent == ph >= 2 => /\ outsA = SubSeq(soloA, 1, Len(outsA)) /\ outsB = SubSeq(soloB, 1, Len(outsB))
                          /\ (ph = 3 => outsA = soloA /\ outsB = soloB)
\* what the logs were made for: some pair differs in every respect
Inv == Independent /\ A!ReaderInv /\ B!ReaderInv
=============================================================================
