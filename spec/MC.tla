---------------------------------- MODULE MC ----------------------------------
(***************************************************************************)
(* Small-scope model checking of the reader.  A writer appends, one at a    *)
(* time, records of a scenario's pool to a log, in every order and number   *)
(* up to N, and ends it cleanly, by a read failure, or inside a record.     *)
(* The reader of ULogParser consumes it as it grows.  When it has ended, a  *)
(* second reader (B) consumes a related log (what that is depends on the    *)
(* scenario), for the properties that compare two runs.                     *)
(*                                                                         *)
(* The properties are stated in terms of the records written (w) and the    *)
(* results (outs), not of the reader's tables.  Every complete log is also  *)
(* printed, and the checks run the real parser on it and validate what it   *)
(* does with the Trace module.                                              *)
(***************************************************************************)
EXTENDS LogBuild, Json, IOUtils

Scen == IOEnv.SCEN
N == atoi(IOEnv.N)

VARIABLES w,        \* records written (entries of the pool)
          outs,     \* results so far, header excluded
          prelude,  \* index of the prelude
          n0,       \* length of what w started with
          lists,    \* allow lists set on the way: after how many of w, which
          fin       \* "", "A" (first reader done), "B" (both done)
VARIABLES inp, ending, cfg, phase, pos, formats, subs, multi, limit, out
VARIABLES inpB, endB, cfgB, phaseB, posB, formatsB, subsB, multiB, limitB, outB, outsB

A == INSTANCE ULogParser
B == INSTANCE ULogParser WITH inp <- inpB, ending <- endB, cfg <- cfgB, phase <- phaseB,
       pos <- posB, formats <- formatsB, subs <- subsB, multi <- multiB, limit <- limitB,
       out <- outB
varsA == <<inp, ending, cfg, phase, pos, formats, subs, multi, limit, out, outs>>
varsB == <<inpB, endB, cfgB, phaseB, posB, formatsB, subsB, multiB, limitB, outB, outsB>>

-----------------------------------------------------------------------------
\* ---- scenarios --------------------------------------------------------------
fa == fmtE("a", <<TS, F("x", "uint8_t", "")>>)
fb == fmtE("b", <<F("y", "int16_t", ""), TS>>)
fba == fmtE("b", <<TS, F("n", "a", "2")>>)
body == T8(5) \o <<1, 2, 3>>
infoB == rawE("info", 73, keyed("b k") \o T8(1) \o body \o body)
NoList == [on |-> FALSE, names |-> <<>>]
List(ns) == [on |-> TRUE, names |-> ns]
Cfg(h, t, p, al) == [hdr |-> h, ts |-> t, pad |-> p, allow |-> al]
AllOn == Cfg(TRUE, TRUE, TRUE, NoList)
Plain == Cfg(FALSE, FALSE, FALSE, NoList)

PoolSubs == << subE(0, 1, "a"), subE(0, 1, "b"), subE(1, 1, "a"), subE(2, 2, "a"), subE(0, 2, "b"),
               unsubE(1), unsubE(2), dataE(1, body), dataE(2, body), badsub(<<0, 1, 0>> \o BytesOf("z")) >>
PoolDefs == << fa, fb, fmtE("a", <<TS, F("b", "b", ""), F("x", "char", "2")>>), subE(0, 1, "a"), subE(0, 2, "b"),
               badsub(<<0, 1>>), badsub(<<0, 1, 0>> \o BytesOf("zz")), dataE(1, body \o T8(0) \o body), dataE(2, body),
               flagsE(0, 0, 0, 0), dropE, logE, unsubE(1), infoE,
               badsub(<<0, 1, 0, 97, 195>>), infoB >>
PoolAny == << subE(0, 1, "a"), subE(0, 258, "b"), unsubE(1), dataE(1, body), dataE(258, body), infoE, minfoE, paramE,
              dparamE, logE, tlogE, dropE, opE, fa, flagsE(0, 0, 0, 0) >>
\* canonical data for round trips
PoolCanon == << subE(3, 1, "a"), subE(0, 258, "b"), unsubE(1), dataE(1, T8(5) \o <<1>>), dataE(258, <<1, 2>> \o T8(3)),
                infoE, minfoE, paramE, dparamE, logE, tlogE, dropE, opE, fa, flagsE(0, 9, 0, 0) >>
PoolBad == << subE(0, 1, "a"), dataE(1, body), infoE, logE, fb,
              bad(dataE(1, <<1, 2>>)), bad(dataE(9, body)), bad(rawE("info", 73, <<>>)), bad(rawE("param", 80, keyed("char p") \o <<1>>)),
              bad(rawE("log", 76, <<10>> \o T8(1))), bad(rawE("unsub", 82, <<1>>)), bad(rawE("tlog", 67, <<54, 1>>)),
              bad(rawE("drop", 79, <<1>>)), badsub(<<0>>), bad(rawE("data", 68, <<1>>)) >>
PoolOpts == << subE(0, 1, "a"), subE(1, 1, "p"), subE(0, 2, "p"), dataE(1, T8(5) \o <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12>>),
               dataE(2, T8(5) \o <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10>>), dataE(1, T8(5) \o <<9>>), infoE, logE >>
fp == fmtE("p", <<F("_padding0", "uint8_t", "2"), TS, F("q", "n", ""), F("_padding1", "uint8_t", "3")>>)
fn == fmtE("n", <<F("_padding0", "uint8_t", ""), F("timestamp", "uint8_t", ""), F("_padding1", "int16_t", "1")>>)

S ==
  CASE Scen = "C01" -> [pre |-> <<HeaderB \o fa.b \o fb.b>>, pool |-> PoolCanon, ends |-> {"eof"},
                        cfgs |-> {AllOn, Cfg(TRUE, TRUE, TRUE, List(<<"a">>))}]
    [] Scen = "C02" -> [pre |-> <<HeaderB \o fa.b \o subE(0, 7, "a").b>>, pool |-> PoolBad, ends |-> {"eof"}, cfgs |-> {Plain}]
    [] Scen = "C03" -> [pre |-> <<HeaderB \o fa.b \o fb.b>>, pool |-> PoolAny, ends |-> {"eof", "cut"},
                        cfgs |-> {AllOn}]
    [] Scen = "C05" -> [pre |-> <<HeaderB \o fa.b \o fb.b>>, pool |-> PoolAny, ends |-> {"eof", "fail", "cutfail"},
                        cfgs |-> {AllOn}]
    [] Scen = "C06" -> [pre |-> <<HeaderB \o fa.b \o fb.b>>, pool |-> PoolSubs \o <<logE>>, ends |-> {"eof"},
                        cfgs |-> {Cfg(FALSE, TRUE, FALSE, l) : l \in {NoList, List(<<>>), List(<<"a">>),
                                                                       List(<<"b", "aa", "">>)}}]
    [] Scen = "C07" -> [pre |-> <<HeaderB \o fa.b \o fb.b>>, pool |-> PoolSubs, ends |-> {"eof"},
                        cfgs |-> {Plain, Cfg(FALSE, FALSE, FALSE, List(<<"a">>))}]
    [] Scen = "C09" -> [pre |-> <<HeaderB \o fa.b \o fn.b \o fp.b>>, pool |-> PoolOpts, ends |-> {"eof"},
                        cfgs |-> {Cfg(h, t, p, NoList) : h \in BOOLEAN, t \in BOOLEAN, p \in BOOLEAN}]
    [] Scen = "C10" -> [pre |-> <<HeaderB>>, pool |-> PoolDefs, ends |-> {"eof"}, cfgs |-> {Plain}]
    [] Scen = "C11" -> [pre |-> [i \in 1..60 |->
                                  LET o == 58 + i IN
                                  HeaderB \o flagsE(IF i % 5 = 0 THEN 0 ELSE 1, IF i % 3 = 0 THEN o ELSE 0, IF i % 3 = 1 THEN o ELSE 0,
                                                    IF i % 3 = 2 THEN o ELSE IF i % 3 = 0 THEN 3 ELSE o + 1).b],
                        pool |-> <<fa, infoE, rawE("unh", 83, <<>>), subE(0, 1, "a"), dataE(1, body)>>,
                        ends |-> {"eof"}, cfgs |-> {Plain}]
Pool == S.pool
CutAt(b, k) == SubSeq(b, 1, k)
\* histories to go on from
Starts ==
  CASE Scen \in {"C06", "C07"} -> {<<>>, <<subE(0, 1, "a"), dataE(1, body)>>,
                                  <<subE(0, 1, "a"), subE(1, 2, "a"), unsubE(1)>>}
    [] Scen = "C10" -> {<<>>, <<fa, fba, infoB>>, <<fa, subE(0, 1, "a"), dataE(1, body)>>}
    [] OTHER -> {<<>>}
Cat(ws) == FlattenSeq([i \in 1..Len(ws) |-> ws[i].b])

Init ==
  /\ prelude \in 1..Len(S.pre) /\ cfg \in S.cfgs
  /\ w \in Starts /\ n0 = Len(w) /\ lists = <<[at |-> 0, allow |-> cfg.allow]>>
  /\ inp = S.pre[prelude] \o Cat(w) /\ ending = "open" /\ A!Init
  /\ outs = <<>> /\ fin = ""
  /\ inpB = <<>> /\ endB = "eof" /\ cfgB = AllOn /\ B!Init /\ outsB = <<>>

Idle == phase \in {"defs", "data"} /\ A!Left = 0
Emit(b, e) == PrintT(<<"B", ToJson([file |-> b, ending |-> e, cfg |-> cfg, pre |-> Len(S.pre[prelude]), lists |-> lists,
                     recs |-> [i \in 1..Len(w) |-> <<Len(w[i].b), IF w[i].ok THEN 1 ELSE 0>>]])>>)
Write ==
  /\ ending = "open" /\ Idle /\ Len(w) < N + n0
  /\ \E i \in 1..Len(Pool) : w' = Append(w, Pool[i]) /\ inp' = inp \o Pool[i].b
  /\ UNCHANGED <<ending, cfg, phase, pos, formats, subs, multi, limit, out, outs, prelude, n0, lists, fin, varsB>>
Close(e) ==
  /\ e \in S.ends \cap {"eof", "fail"}
  /\ ending = "open" /\ (Idle \/ phase = "eof") /\ (Len(w) = N + n0 \/ phase = "eof")
  /\ ending' = e /\ Emit(inp, e)
  /\ UNCHANGED <<inp, cfg, phase, pos, formats, subs, multi, limit, out, outs, w, prelude, n0, lists, fin, varsB>>
\* the log stops inside its last record
CloseCut(e) ==
  /\ \/ (e = "eof" /\ "cut" \in S.ends) \/ (e = "fail" /\ "cutfail" \in S.ends)
  /\ ending = "open" /\ Idle /\ Len(w) = N + n0 - 1
  /\ \E i \in 1..Len(Pool) : \E k \in {1, 2, 3, 4, Len(Pool[i].b) - 1} :
       /\ k < Len(Pool[i].b)
       /\ inp' = inp \o CutAt(Pool[i].b, k)
       /\ Emit(inp', e)
  /\ ending' = e
  /\ UNCHANGED <<cfg, phase, pos, formats, subs, multi, limit, out, outs, w, prelude, n0, lists, fin, varsB>>
\* the user sets a list on the parser in use (once, in the model)
SetList ==
  /\ Scen = "C06" /\ ending = "open" /\ Idle /\ Len(lists) = 1 /\ Len(w) < N + n0
  /\ \E ns \in {<<"a">>, <<"b">>} :
       /\ cfg' = [cfg EXCEPT !.allow = List(ns)]
       /\ lists' = Append(lists, [at |-> Len(w), allow |-> List(ns)])
  /\ UNCHANGED <<inp, ending, phase, pos, formats, subs, multi, limit, out, outs, w, prelude, n0, fin, varsB>>
Read ==
  /\ fin = "" /\ A!Next
  /\ outs' = IF out' = Silent \/ phase = "start" \/ phase' = "eof" THEN outs ELSE Append(outs, out')
  /\ phase = "bad" => phase' = "eof"
  /\ phase # "eof"
  /\ UNCHANGED <<inp, ending, cfg, w, prelude, n0, lists, fin, varsB>>

-----------------------------------------------------------------------------
\* ---- the second log ----------------------------------------------------------
Good(ws) == SelectSeq(ws, LAMBDA e : e.ok)
PairLog == CASE Scen = "C02" -> [inp |-> S.pre[prelude] \o Cat(Good(w)), cfg |-> cfg]
             [] Scen \in {"C03", "C05"} -> [inp |-> S.pre[prelude] \o Cat(w), cfg |-> cfg]
             [] Scen = "C06" -> [inp |-> inp, cfg |-> [cfg EXCEPT !.allow = NoList]]
             [] Scen = "C09" -> [inp |-> inp, cfg |-> AllOn]
             [] Scen = "C11" -> [inp |-> SubSeq(inp, 1, IF limit >= 0 THEN IF limit < Len(inp) THEN limit ELSE Len(inp)
                                                         ELSE Len(inp)), cfg |-> cfg]
             [] OTHER -> [inp |-> <<>>, cfg |-> cfg]
ADone == phase = "eof" /\ ending # "open"
StartB ==
  /\ fin = "" /\ ADone
  /\ IF PairLog.inp = <<>> THEN fin' = "B" /\ UNCHANGED <<inpB, cfgB>>
     ELSE fin' = "A" /\ inpB' = PairLog.inp /\ cfgB' = PairLog.cfg
  /\ UNCHANGED <<varsA, w, prelude, n0, lists, endB, phaseB, posB, formatsB, subsB, multiB, limitB, outB, outsB>>
ReadB ==
  /\ fin = "A" /\ phaseB # "eof" /\ B!Next
  /\ outsB' = IF outB' = Silent \/ phaseB = "start" \/ phaseB' = "eof" THEN outsB ELSE Append(outsB, outB')
  /\ UNCHANGED <<varsA, w, prelude, n0, lists, fin, inpB, endB, cfgB>>
FinB == /\ fin = "A" /\ phaseB = "eof" /\ fin' = "B" /\ UNCHANGED <<varsA, varsB, w, prelude, n0, lists>>
Next == Write \/ (\E e \in {"eof", "fail"} : Close(e) \/ CloseCut(e)) \/ Read \/ SetList \/ StartB \/ ReadB \/ FinB

-----------------------------------------------------------------------------
\* ---- properties, in terms of what was written and what came out ---------------
Settled == phase \in {"defs", "data"} /\ pos = Len(inp)
Np == IF Scen = "C11" THEN 1 ELSE 0     \* results of the prelude's records
NPre == CASE Scen \in {"C10"} -> 0 [] Scen = "C11" -> 1 [] Scen = "C09" -> 3 [] OTHER -> 2
O(i) == outs[NPre + i]

\* the subscription record i is accepted
RECURSIVE Accepted(_)
Accepted(i) ==
  /\ w[i].k = "sub" /\ w[i].ok
  /\ \/ Scen \notin {"C10", "C11"}                       \* defined by the prelude
     \/ \E f \in 1..(i-1) : /\ w[f].k = "fmt" /\ w[f].name = w[i].name
                           /\ \A j \in 1..(f-1) : ~Accepted(j)
DataSection(i) == Scen = "C02" \/ \E j \in 1..(i-1) : Accepted(j)
LiveSub(i) == {j \in 1..(i-1) : /\ Accepted(j) /\ w[j].id = w[i].id
                 /\ \A k \in (j+1)..(i-1) : ~(w[k].id = w[i].id /\ (Accepted(k) \/ (w[k].k = "unsub" /\ w[k].ok)))}
OneLive == \A i \in 1..Len(w) : Cardinality(LiveSub(i)) <= 1
Live(i) == w[CHOOSE j \in LiveSub(i) : TRUE]

OneResultEach == Settled => Len(outs) = NPre + Len(w)
KindOf(e, i) == IF e.k \in {"info", "minfo", "param", "dparam", "sub"} THEN e.k
                ELSE IF e.k \in {"fmt", "flags"} THEN (IF DataSection(i) THEN "unh" ELSE e.k)
                ELSE IF e.k = "unsub" THEN "unh"
                ELSE IF e.k \in {"log", "tlog", "drop", "data"} THEN (IF DataSection(i) THEN e.k ELSE "unh")
                ELSE "unh"
OwnType == Settled => \A i \in 1..Len(w) : O(i).t \in {KindOf(w[i], i), "err"} \cup (IF w[i].k = "data" THEN {"ign"} ELSE {})
P07 == Settled => \A i \in 1..Len(w) : w[i].k = "data" /\ w[i].ok =>
         IF ~DataSection(i) THEN O(i).t = "unh"
         ELSE IF LiveSub(i) = {} THEN O(i).t = "err"
         ELSE O(i).t = "data" =>
              /\ O(i).name = Live(i).name
              /\ O(i).mi = IF \E j \in 1..(i-1) : Accepted(j) /\ w[j].name = Live(i).name /\ w[j].m > 0
                           THEN Live(i).m ELSE -1
\* by the list in effect when record i is read
Listed(i, n) == LET k == CHOOSE j \in 1..Len(lists) : lists[j].at < i /\ \A m \in (j+1)..Len(lists) : lists[m].at >= i
                    al == lists[k].allow
                IN ~al.on \/ \E j \in 1..Len(al.names) : al.names[j] = n
P06 == Settled => \A i \in 1..Len(w) :
         (O(i).t = "ign") <=> (w[i].k = "data" /\ w[i].ok /\ LiveSub(i) # {} /\ ~Listed(i, Live(i).name))
P10 == Settled => \A i \in 1..Len(w) :
         /\ w[i].k = "fmt" => O(i).t = IF DataSection(i) THEN "unh" ELSE "fmt"
         /\ w[i].k = "flags" => O(i).t = IF DataSection(i) THEN "unh" ELSE "flags"
         /\ w[i].k = "sub" => O(i).t = IF Accepted(i) THEN "sub" ELSE "err"
         /\ w[i].k \in {"log", "drop"} => O(i).t = IF DataSection(i) THEN w[i].k ELSE "unh"
         /\ w[i].k = "data" /\ ~DataSection(i) => O(i).t = "unh"
         /\ (phase = "data") <=> DataSection(Len(w) + 1)
         \* the last definition before the data section is the one in effect
         /\ (w[i].k = "data" /\ O(i).t = "data") =>
              LET ds == {f \in 1..Len(w) : w[f].k = "fmt" /\ w[f].name = Live(i).name /\ ~DataSection(f)}
                  f == CHOOSE f \in ds : \A g \in ds : g <= f
              IN SelectSeq(w[f].fs, LAMBDA x : x.n # "timestamp") =
                 [j \in 1..Len(O(i).fs) |-> [n |-> O(i).fs[j].n, ty |-> O(i).fs[j].ty, arr |-> O(i).fs[j].arr]]
P01 == Settled /\ Scen = "C01" => \A i \in 1..Len(w) :
         O(i).t # "err" => EncItem(O(i)) = IF O(i).t = "ign" THEN <<>> ELSE w[i].b
\* two runs
Both == fin = "B"
P02 == Both /\ Scen = "C02" => outsB = [i \in 1..Len(outsB) |->
          LET idx == SelectSeq([k \in 1..Len(w) |-> k], LAMBDA k : w[k].ok)
          IN IF i <= NPre THEN outs[i] ELSE outs[NPre + idx[i - NPre]]]
P02n == Both /\ Scen = "C02" => Len(outsB) = NPre + Len(Good(w))
\* a malformed record gives an error, and so does nothing else in the scenario
          /\ \A i \in 1..Len(w) : ~w[i].ok => O(i) = ErrItem
P03 == Both /\ Scen = "C03" =>
         IF inp = inpB THEN outs = outsB
         ELSE outs = Append(outsB, ErrItem)        \* B read the complete records only
P05 == Both /\ Scen = "C05" =>
         IF ending = "eof" THEN outs = outsB
         ELSE /\ SubSeq(outs, 1, Len(outsB)) = outsB
              /\ Len(outs) > Len(outsB)          \* the failure is reported
              /\ \A i \in (Len(outsB) + 1)..Len(outs) : outs[i] = ErrItem
P06b == Both /\ Scen = "C06" => Len(outs) = Len(outsB)
          /\ \A i \in 1..Len(outs) : outs[i].t # "ign" => outs[i] = outsB[i]
RECURSIVE KeepV(_), Keep(_)
Keep(fs) == LET k == IF cfg.pad THEN fs ELSE SelectSeq(fs, LAMBDA f : ~IsPadding(f.n))
            IN [i \in 1..Len(k) |-> [k[i] EXCEPT !.v = KeepV(@)]]
KeepV(v) == [v EXCEPT !.c = [i \in 1..Len(v.c) |-> [v.c[i] EXCEPT !.fs = Keep(@)]]]
Kept(o) == IF o.t # "data" THEN o
           ELSE [o EXCEPT !.fs = IF cfg.ts THEN Keep(@) ELSE SelectSeq(Keep(@), LAMBDA f : f.n # "timestamp")]
P09 == Both /\ Scen = "C09" => outs = [i \in 1..Len(outsB) |-> Kept(outsB[i])]
\* appended data: what lies wholly before the offset, and nothing of the rest
Ends(i) == Len(S.pre[prelude]) + Len(Cat(SubSeq(w, 1, i)))
\* what the flags record of the prelude says
Position == IF prelude % 5 = 0 THEN -1 ELSE 58 + prelude
P11a == Settled /\ Scen = "C11" => limit = Position
\* nothing but the end of the input, or appended data, ends a log that starts well
GoesOn == ending = "open" /\ Scen # "C11" => phase \notin {"cut", "bad", "eof"}
P11 == Both /\ Scen = "C11" =>
         /\ outs = IF Len(outsB) > 0 /\ outsB[Len(outsB)] = ErrItem /\ inpB # inp /\ Len(outsB) > Len(outs)
                   THEN SubSeq(outsB, 1, Len(outsB) - 1) ELSE outsB
         /\ limit >= 0 => Len(outs) = 1 + Cardinality({i \in 1..Len(w) : Ends(i) <= limit})
         /\ limit = -1 => Len(outs) = 1 + Len(w)
Props == /\ OneLive /\ (Scen # "C11" => OneResultEach)
         /\ (Scen \notin {"C11"} => OwnType)
         /\ (Scen \in {"C07", "C01", "C02", "C03"} /\ cfg.allow.on = FALSE => P07)
         /\ (Scen \in {"C06", "C07"} => P06) /\ (Scen = "C10" => P10) /\ (Scen = "C11" \/ P01)
         /\ P02 /\ P02n /\ P03 /\ P05 /\ P06b /\ P09 /\ P11 /\ P11a /\ GoesOn
         /\ A!ReaderInv
\* every reader that is given an end reaches its own
NoStuck == ~(fin = "" /\ ending # "open" /\ ~ADone /\ ~ENABLED A!Next)
=============================================================================
