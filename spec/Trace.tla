-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation of parser runs recorded from the real code.  The file   *)
(* holds many runs; each is one initial state.  A run is accepted when the  *)
(* reader of ULogParser can take, for every recorded result, a step whose   *)
(* own result agrees with the recorded one in everything the checked        *)
(* property speaks of (Match).  The invariants of the reader are evaluated  *)
(* in every state on the way.                                               *)
(*                                                                         *)
(* Run: [id, prop, file, ending, cfg, ev, ref, ...]; ev[i].x is the i-th     *)
(* result of next(); ref are the results of another run of the real code    *)
(* that the property compares with.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
Diag == "DIAG" \in DOMAIN IOEnv

VARIABLES rid, l
VARIABLES phase, pos, formats, subs, multi, limit, out
R == Runs[rid]

\* the configuration the next result is produced under: R.lists are allow lists set on
\* the parser in use, each after so many (at) results
CfgNow ==
  IF "lists" \notin DOMAIN R THEN R.cfg
  ELSE LET k == {i \in 1..Len(R.lists) : R.lists[i].at < l} IN
       IF k = {} THEN R.cfg
       ELSE [R.cfg EXCEPT !.allow = [on |-> TRUE, names |-> R.lists[CHOOSE i \in k : \A j \in k : j <= i].names]]

P == INSTANCE ULogParser WITH inp <- Runs[rid].file, ending <- Runs[rid].ending,
                              cfg <- CfgNow

-----------------------------------------------------------------------------
\* ---- agreement of a recorded result e with the specified result x ------------
Has(r, f) == f \in DOMAIN r
RawRecord == SubSeq(R.file, pos + 1, pos')
InRecord  == pos' > pos /\ phase # "start"
RecTy     == R.file[pos + 3]
IsMsg(x)  == x.t \notin {"err", "end"}
RefAt(i)  == IF i \in 1..Len(R.ref) THEN R.ref[i] ELSE [t |-> "noref"]
Drop3(b)  == SubSeq(b, 4, Len(b))
Reads(ph) == ph \in {"defs", "data"}
Crash     == {"panic", "abort", "hang", "cap"}

\* C01: what a message encodes to is the record it came from; what is ignored
\* leaves nothing
C01(x, e) == /\ e.x.t = x.t
             /\ IsMsg(x) => e.enc = (IF x.t = "ign" THEN <<>> ELSE RawRecord)
\* C02: the kind of every result, and the content that the same record has in a
\* file without the malformed records (ref, aligned by R.map; 0: malformed)
C02(x, e) == /\ e.x.t = x.t
             /\ IsMsg(x) => e.x = RefAt(R.map[l])
\* C03: the results of the complete records are those of the uncut file
C03(x, e) == IF InRecord \/ (phase = "start" /\ IsMsg(x)) THEN e.x = RefAt(l) ELSE e.x.t = x.t
\* C05: as read in one piece; no byte beyond the record's end was asked for
C05(x, e) == IF IsMsg(x) \/ InRecord
             THEN e.x = RefAt(l) /\ (Has(e, "over") => e.over = 0)
             ELSE e.x.t = x.t
\* C06: ignored, or as without a list
C06(x, e) == IF x.t = "ign" THEN e.x = x ELSE e.x = RefAt(l) /\ e.x.t # "ign"

RECURSIVE Shape(_)
Shape(fs) == [i \in 1..Len(fs) |->
   <<fs[i].n, fs[i].ty, fs[i].arr, fs[i].v.k,
     IF fs[i].v.c = <<>> THEN <<>> ELSE Shape(fs[i].v.c[1].fs)>>]
\* C07: the subscription a data record is interpreted under
C07(x, e) ==
  /\ e.x.t = x.t
  /\ x.t = "data" => /\ e.x.id = x.id /\ e.x.name = x.name /\ e.x.mi = x.mi
                     /\ Shape(e.x.fs) = Shape(x.fs)
  /\ Has(e, "ids") => \A i \in 1..Len(e.ids) :
       LET q == e.ids[i] IN
       IF q[1] \in DOMAIN subs' THEN q = <<q[1], 1, subs'[q[1]].multi, subs'[q[1]].name>>
       ELSE q[2] = 0
\* C08: content of data records
C08(x, e) == IF InRecord /\ RecTy = 68 /\ phase = "data" THEN e.x = x ELSE TRUE
\* C09: as with everything included (ref), less what the options leave out
RECURSIVE StripV(_, _)
StripF(pad, fs) == LET keep == IF pad THEN fs ELSE SelectSeq(fs, LAMBDA f : ~P!IsPadding(f.n))
                   IN [i \in 1..Len(keep) |-> [keep[i] EXCEPT !.v = StripV(pad, @)]]
StripV(pad, v) == [v EXCEPT !.c = [i \in 1..Len(v.c) |-> [v.c[i] EXCEPT !.fs = StripF(pad, @)]]]
Strip(x) ==
  IF x.t = "data"
  THEN [x EXCEPT !.fs = LET fs == StripF(R.cfg.pad, x.fs) IN
                        IF R.cfg.ts THEN fs ELSE SelectSeq(fs, LAMBDA f : f.n # "timestamp")]
  ELSE IF x.t \in {"info", "minfo"} THEN [x EXCEPT !.v = StripV(R.cfg.pad, @)]
  ELSE x
C09(x, e) == /\ e.x = Strip(RefAt(IF R.cfg.hdr THEN l ELSE l + 1))
             /\ e.x.t = x.t
             /\ x.t = "data" => e.x.ts = x.ts /\ Shape(e.x.fs) = Shape(x.fs)
\* C10: which definitions and subscriptions are in effect
C10(x, e) ==
  /\ e.x.t = x.t
  /\ x.t \in {"fmt", "sub", "unh"} => e.x = x
  /\ x.t = "data" => e.x.name = x.name /\ Shape(e.x.fs) = Shape(x.fs)
  /\ Has(e, "ids") => \A i \in 1..Len(e.ids) :
       LET q == e.ids[i] IN
       IF q[1] \in DOMAIN subs' THEN q = <<q[1], 1, subs'[q[1]].multi, subs'[q[1]].name>>
       ELSE q[2] = 0
  /\ Has(e, "fmts") => \A i \in 1..Len(e.fmts) :
       LET q == e.fmts[i] IN
       IF q.n \in DOMAIN formats' THEN q.has = 1 /\ q.fields = formats'[q.n]
       ELSE q.has = 0
\* C11: as with other bytes (ref) behind the appended-data position
C11(x, e) == e.x.t = x.t /\ (IsMsg(x) => e.x = RefAt(l))
\* C12: header and flags
C12(x, e) == IF phase = "start" /\ IsMsg(x) THEN e.x = x
             ELSE IF InRecord /\ RecTy = 66 /\ phase = "defs" THEN e.x.t = x.t
             ELSE IF phase \in {"start", "bad"} THEN e.x.t = x.t
             ELSE TRUE
\* C15: definitions and typed keys
KeyTypes == {73, 77, 80, 81}
C15(x, e) ==
  IF ~InRecord THEN TRUE
  ELSE IF RecTy = 70 /\ phase = "defs"
    THEN e.x = x /\ (x.t = "fmt" => (Has(e, "re") => e.re = x))
  ELSE IF RecTy \in KeyTypes
    THEN e.x.t = x.t /\ (IsMsg(x) => e.x.key = x.key /\ e.x.ty = x.ty /\ e.x.arr = x.arr)
  ELSE TRUE
\* C16: content of all other messages
MetaTypes == {73, 77, 80, 81}
C16(x, e) ==
  IF ~InRecord THEN TRUE
  ELSE IF RecTy \in MetaTypes \/ (phase = "defs" /\ RecTy = 66)
          \/ (phase = "data" /\ RecTy \in {76, 67, 79})
  THEN e.x = x ELSE TRUE
\* C17: as in the default build; nothing changed on another thread
C17(x, e) == e.x = RefAt(l) /\ e.x.t = x.t /\ (Has(e, "far") => e.far = e.x)

\* C20: the flattened view and the scalars of every value of the record that was
\* returned, in terms of that record
Fl == INSTANCE Flatten
C20(x, e) == e.x.t = "data" => /\ e.flat = Fl!FlatItem(e.x)
                               /\ e.sc = Fl!AllScalars(e.x.fs)

\* C21: texts and accessors of the message that was returned
Vw == INSTANCE Views
C21(x, e) == /\ e.x.t = x.t
             /\ IsMsg(x) => e.vw = Vw!View(formats', e.fl, e.x)

\* C25: an error names a cause that is true of what it is the result of; and so do
\* the refusals of look-ups made after it
Er == INSTANCE ULogErrors
FailKind == IF Has(R, "kind") THEN P!BytesOf(R.kind) ELSE <<>>
C25(x, e) ==
  /\ x.t = "err" =>
       /\ e.x.t = "err"
       /\ CASE InRecord -> Er!NamesOne(e.err, Er!Defects(phase, formats, subs, CfgNow.pad, RecTy, Drop3(RawRecord)))
            [] phase = "start" -> Er!NamesOne(e.err, Er!HeaderCauses(Len(R.file), R.ending, FailKind))
            [] Reads(phase) -> Er!NamesOne(e.err, Er!EndCauses(R.ending, FailKind))
            [] OTHER -> TRUE
  /\ Has(e, "qi") => \A i \in 1..Len(e.qi) :
       LET q == e.qi[i] IN
       IF q.id \in DOMAIN subs' THEN q.err.k = ""
       ELSE q.err.k = "UndefinedSubscription" /\ q.err.b = P!LE16(q.id)
  /\ Has(e, "qf") => \A i \in 1..Len(e.qf) :
       LET q == e.qf[i] IN
       IF q.n \in DOMAIN formats' THEN q.err.k = ""
       ELSE q.err.k = "UndefinedFormat" /\ q.err.b = q.b      \* b: the bytes of n

\* an error result carries no content
Match(x, e) ==
  /\ e.x.t \notin Crash
  /\ CASE R.prop = "C01" -> C01(x, e) [] R.prop = "C02" -> C02(x, e)
       [] R.prop = "C03" -> C03(x, e) [] R.prop = "C05" -> C05(x, e)
       [] R.prop = "C06" -> C06(x, e) [] R.prop = "C07" -> C07(x, e)
       [] R.prop = "C08" -> C08(x, e) [] R.prop = "C09" -> C09(x, e)
       [] R.prop = "C10" -> C10(x, e) [] R.prop = "C11" -> C11(x, e)
       [] R.prop = "C12" -> C12(x, e) [] R.prop = "C15" -> C15(x, e)
       [] R.prop = "C16" -> C16(x, e) [] R.prop = "C17" -> C17(x, e)
       [] R.prop = "C20" -> C20(x, e) [] R.prop = "C21" -> C21(x, e)
       [] R.prop = "C25" -> C25(x, e)
       [] R.prop = "ALL" -> e.x = x

-----------------------------------------------------------------------------
Init == rid \in 1..Len(Runs) /\ l = 1 /\ P!Init

\* a step of the reader; the recorded result must agree, unless the step is silent
Consume ==
  IF out' = P!Silent THEN l' = l
  ELSE /\ Diag => PrintT(<<"STEP", Runs[rid].id, l, ToJson(out'), phase', pos'>>)
       /\ Match(out', R.ev[l])
       /\ l' = l + 1
       /\ (l' > Len(R.ev)) => PrintT(<<"ACCEPTED", R.id>>)
Step == l <= Len(R.ev) /\ rid' = rid /\ Consume
Next ==
  \/ (P!ReadHeader /\ Step) \/ (P!BadHeader /\ Step) \/ (P!CleanEnd /\ Step)
  \/ (P!LimitEnd /\ Step) \/ (P!Truncated /\ Step) \/ (P!ReadFails /\ Step)
  \/ (P!BadAgain /\ Step) \/ (P!EndAfterCut /\ Step) \/ (P!StaysEnded /\ Step)
  \/ (P!FlagBits /\ Step) \/ (P!FormatDef /\ Step) \/ (P!Subscribe /\ Step)
  \/ (P!Unsubscribe /\ Step) \/ (P!Data /\ Step) \/ (P!Info /\ Step)
  \/ (P!MultiInfo /\ Step) \/ (P!Param /\ Step) \/ (P!DefaultParam /\ Step)
  \/ (P!LogString /\ Step) \/ (P!Tagged /\ Step) \/ (P!Dropout /\ Step)
  \/ (P!PassThrough /\ Step)

Inv == P!ReaderInv
View == <<rid, l, phase, pos>>
=============================================================================
