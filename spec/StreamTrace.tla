------------------------------ MODULE StreamTrace ------------------------------
(***************************************************************************)
(* Very long logs: a beginning (pre), a cycle of records (cyc) that comes n  *)
(* times, and a tail.  The reader of ULogParser is run over the beginning    *)
(* and three cycles; after the second and the third its state is the same,   *)
(* so nothing that comes later can differ (MCStream shows this of the model  *)
(* in general), and what the real code does in every later cycle must        *)
(* repeat the third: the same results (same), nothing more held on to        *)
(* (live), nothing more used (peak).  Where reading ends is computed here,   *)
(* also beyond 2^32 bytes.                                                   *)
(*                                                                         *)
(* With vary, the bytes in those ranges (start, length) of the cycle are     *)
(* other letters in every cycle from the fourth on: contents and names of    *)
(* keys, of which no state depends (VaryOK).  Then same says that a cycle    *)
(* gives what it gives as the third cycle of a log.                         *)
(*                                                                         *)
(* Run: [id, derived, p0, m, pre, cyc, vary, n, tail, ending, cfg, ev]       *)
(* (p0, m: results of the beginning and of one cycle); ev[i] is one of       *)
(*   [k |-> "r", x, live, peak]        a result of the first three cycles    *)
(*   [k |-> "s", q, live, peak, same]  the most up to the end of cycle q     *)
(*   [k |-> "e", q, i, x]              a result at the end, in cycle q after *)
(*                                     i of its results                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt
Runs == ndJsonDeserialize(IOEnv.TRACE)
Diag == "DIAG" \in DOMAIN IOEnv
VARIABLES rid, l, flg, mark, top
VARIABLES phase, pos, formats, subs, multi, limit, out
R == Runs[rid]
Inp == Runs[rid].pre \o Runs[rid].cyc \o Runs[rid].cyc \o Runs[rid].cyc
P == INSTANCE ULogParser WITH inp <- Inp, ending <- "open", cfg <- Runs[rid].cfg
rvars == <<phase, pos, formats, subs, multi, limit, out>>
C == Len(R.cyc)
PreLen == Len(R.pre)

\* ends of the records of a cycle
RECURSIVE Ends(_, _)
Ends(p, s) == IF p >= C THEN s ELSE LET e == p + 3 + P!U16At(R.cyc, p + 1) IN Ends(e, Append(s, e))
\* only contents of data, values, names of keys and texts vary: what a reader holds does not depend on them
Key(s, t) == LET a == s + 3 + (IF t \in {77, 81} THEN 1 ELSE 0) IN [at |-> a + 1, len |-> R.cyc[a + 1]]
Letters(a, n) == \A i \in a + 1..a + n : R.cyc[i] \in 97..122
Ascii(a, n) == \A i \in a + 1..a + n : R.cyc[i] < 128
\* an id of two letters is the id of no subscription, a name longer than those of all formats is the name of none
RECURSIVE Recs(_, _, _)
Recs(b, p, s) == IF p >= Len(b) THEN s ELSE LET e == p + 3 + P!U16At(b, p + 1) IN Recs(b, e, Append(s, SubSeq(b, p + 1, e)))
AllRecs == ToSet(Recs(R.pre, 16, <<>>)) \cup ToSet(Recs(R.cyc, 0, <<>>))
IsLetter(c) == c \in 97..122
NoSuchIds == \A a \in AllRecs : (a[3] = 65 /\ Len(a) >= 6) => ~(IsLetter(a[5]) /\ IsLetter(a[6]))
NoNameOf(n) == \A f \in AllRecs : f[3] = 70 => \E i \in 4..n + 3 : i <= Len(f) /\ f[i] = 58
Free(s, e, off, len) ==           \* record at offset s, up to offset e
  LET t == R.cyc[s + 3] IN
  /\ off >= s + 3 /\ off + len <= e
  /\ CASE t = 68 /\ off >= s + 5 -> TRUE
       [] t \in {68, 82} /\ off < s + 5 -> off + len = s + 5 /\ e >= s + 5 /\ Letters(s + 3, 2) /\ NoSuchIds
       [] t = 65 -> off >= s + 6 /\ off + len = e /\ Letters(s + 6, e - s - 6) /\ NoNameOf(e - s - 6)
       [] t \in {73, 80, 77, 81} ->
            LET k == Key(s, t) IN
            \/ off >= k.at + k.len
            \/ /\ off > k.at /\ off + len = k.at + k.len
               /\ R.cyc[off] = 32 /\ Letters(off, len)
       [] t = 76 -> off >= s + 12 /\ Ascii(off, len)
       [] t = 67 -> off >= s + 14 /\ Ascii(off, len)
       [] OTHER -> t \notin {65, 66, 68, 70, 82}
VaryOK ==
  LET s == <<0>> \o Ends(0, <<>>) IN
  \A v \in ToSet(R.vary) : \E i \in 1..Len(s) - 1 : Free(s[i], s[i + 1], v[1], v[2])

Init == /\ rid \in 1..Len(Runs) /\ l = 1 /\ flg = <<>> /\ mark = <<>> /\ top = [live |-> 0, peak |-> 0]
        /\ Assert(VaryOK, <<"what varies is not content", R.id>>)
        /\ P!Init

Max2(a, b) == IF a > b THEN a ELSE b
\* what may be held on to: in proportion to the beginning and one cycle, whatever n is
HoldMax == 65536 + 200 * (PreLen + C)
UseMax  == 1000000 + 1000 * (PreLen + C)
Slack   == 8192
Say(x) == Diag => PrintT(<<"STEP", R.id, l, ToJson(x)>>)
Done == l' > Len(R.ev) => PrintT(<<"ACCEPTED", R.id>>)

\* ---- the first three cycles, record by record
Read ==
  /\ ~R.derived /\ pos < Len(Inp) /\ P!Next /\ rid' = rid
  /\ IF out' = P!Silent THEN UNCHANGED <<l, top>>
     ELSE /\ Say([out |-> out'.t, live |-> HoldMax, peak |-> UseMax])
          /\ l <= Len(R.ev) /\ R.ev[l].k = "r"
          /\ R.ev[l].live <= HoldMax /\ R.ev[l].peak <= UseMax
          /\ l' = l + 1
          /\ top' = [live |-> Max2(top.live, R.ev[l].live), peak |-> Max2(top.peak, R.ev[l].peak)]
  /\ flg' = IF out'.t = "flags" /\ P!FlagsAppended(out') THEN out'.offs ELSE flg
  /\ mark' = IF pos' = PreLen + 2 * C THEN <<phase', formats', subs', multi', limit'>> ELSE mark

\* a derived stream: p0 results of the beginning, m of each cycle
AllRead == IF R.derived THEN l > R.p0 + 3 * R.m ELSE pos = Len(Inp)
Count ==
  /\ R.derived /\ ~AllRead
  /\ Say([live |-> HoldMax, peak |-> UseMax])
  /\ l <= Len(R.ev) /\ R.ev[l].k = "r"
  /\ R.ev[l].live <= HoldMax /\ R.ev[l].peak <= UseMax
  /\ l' = l + 1
  /\ top' = [live |-> Max2(top.live, R.ev[l].live), peak |-> Max2(top.peak, R.ev[l].peak)]
  /\ UNCHANGED <<rid, flg, mark, rvars>>

\* ---- where reading ends: position (cycle, offset) of the appended data
RECURSIVE LongDiv(_, _, _, _)
LongDiv(b, i, q, r) ==          \* b: eight bytes, least significant first
  IF i = 0 THEN <<q, r>>
  ELSE LET z == r * 256 + b[i] IN
       LongDiv(b, i - 1, IF q >= 8000000 THEN 2000000000 ELSE q * 256 + z \div C, z % C)
RECURSIVE Borrow(_)
Borrow(p) == IF p[2] >= 0 THEN p ELSE Borrow(<<p[1] - 1, p[2] + C>>)
Offs == SelectInSeq(flg, LAMBDA o : \E j \in 1..8 : o[j] # 0)
LimitAt == LET d == LongDiv(flg[Offs], 8, 0, 0) IN Borrow(<<d[1], d[2] - PreLen>>)
\* results of a cycle that lie before the offset o
Before(o) == LET s == Ends(0, <<>>) IN Len(SelectSeq(s, LAMBDA e : e <= o))
Stop ==
  IF flg # <<>> /\ Offs # 0 /\ LimitAt[1] < R.n
  THEN [q |-> LimitAt[1], i |-> Before(LimitAt[2]), xs |-> <<"end", "end", "end">>]
  ELSE [q |-> R.n, i |-> 0, xs |-> IF R.ending = "fail" THEN <<"err">>
                                   ELSE IF R.tail = <<>> THEN <<"end", "end", "end">> ELSE <<"err", "end", "end">>]

\* ---- all later ones
Steady == R.derived \/ mark = <<phase, formats, subs, multi, limit>>
Later ==
  /\ AllRead /\ l <= Len(R.ev) /\ R.ev[l].k = "s"
  /\ Say([live |-> top.live + Slack, peak |-> top.peak + Slack, same |-> 1, steady |-> Steady])
  /\ Steady /\ R.ev[l].same = 1 /\ R.ev[l].q <= Stop.q
  /\ R.ev[l].live <= (IF top.live = 0 THEN HoldMax ELSE top.live) + Slack
  /\ R.ev[l].peak <= (IF top.peak = 0 THEN UseMax ELSE top.peak) + Slack
  /\ l' = l + 1 /\ UNCHANGED <<rid, flg, mark, top, rvars>>
EndsHere ==
  /\ AllRead /\ l <= Len(R.ev) /\ R.ev[l].k = "e"
  /\ Say(Stop)
  /\ LET k == Cardinality({j \in 1..l : R.ev[j].k = "e"}) IN
     /\ k > 1 \/ (R.ev[l].q = Stop.q /\ R.ev[l].i = Stop.i)
     /\ IF R.ending = "fail" /\ R.ev[l].q = R.n THEN R.ev[l].x.t \in (IF k = 1 THEN {"err"} ELSE {"err", "end"})
        ELSE R.ev[l].x.t = Stop.xs[k]
  /\ l' = l + 1 /\ UNCHANGED <<rid, flg, mark, top, rvars>>
Next == l <= Len(R.ev) /\ (Read \/ Count \/ Later \/ EndsHere) /\ Done
Inv == P!ReaderInv
View == <<rid, l, pos>>
=============================================================================
