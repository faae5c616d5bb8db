------------------------------- MODULE MCDerive -------------------------------
(***************************************************************************)
(* Small-scope model checking of derived streams: a writer appends records  *)
(* of a pool in every order, up to N, to a log of one of several preludes   *)
(* (complete, reordered, incomplete and wrongly typed formats); the stream  *)
(* of ULogDerive reads it for two message sets (with and without a forward  *)
(* variant) and several uses of the builder.  What must come out is stated  *)
(* from the records written.                                                *)
(***************************************************************************)
EXTENDS LogBuild, Json, IOUtils

N == atoi(IOEnv.N)
Sets == JsonDeserialize(IOEnv.SCHEMAS)
\* "values": one id bound and re-bound, every prelude, the builder unused;
\* "dispatch": every kind of record; "dispatch1": the same on one prelude
Scen == IOEnv.SCEN

VARIABLES w, setname, prelude, outs
VARIABLES inp, ending, ops, phase, pos, formats, subs, multi, limit, out, bind, dout
D == INSTANCE ULogDerive WITH sch <- Sets[setname]
Sch == Sets[setname]
dvars == <<phase, pos, formats, subs, multi, limit, out, bind, dout>>

Op(o, ns, v) == [o |-> o, names |-> ns, v |-> v]
Fs(v) == Op("fs", <<>>, v)
Add(n) == Op("add", <<n>>, FALSE)
Uses == IF Scen = "values" THEN {<<>>} ELSE { <<>>, <<Fs(TRUE)>>, <<Add("c"), Fs(TRUE)>>, <<Fs(TRUE), Op("ext", <<"a", "c">>, FALSE), Fs(FALSE)>> }

X == F("x", "uint8_t", "")  W == F("w", "int16_t", "")
Y == F("y", "int16_t", "")  Q == F("q", "uint8_t", "")
fc == fmtE("c", <<TS>>)
Preludes == <<
  <<fmtE("a", <<TS, X, W>>), fmtE("b", <<Y, TS, Q>>), fc>>,
  <<fmtE("a", <<W, F("xx", "uint8_t", "2"), X, TS>>), fmtE("b", <<TS, Q>>), fc>>,
  <<fmtE("a", <<TS, F("x", "int8_t", "")>>), fmtE("b", <<TS, Y, F("q", "uint8_t", "1")>>), fc>>,
  <<fmtE("a", <<TS, F("x", "uint8_t", ""), F("w", "uint16_t", "")>>), fmtE("b", <<F("y", "int16_t", "1"), TS>>), fc>> >>
Fmts == Preludes[prelude]
Body == <<5, 128, 3, 4, 250, 6, 7, 8, 9, 10, 11, 12, 13>>
Pool == IF Scen = "values"
        THEN <<subE(0, 1, "a"), subE(1, 1, "a"), subE(0, 1, "b"), subE(0, 1, "c"), unsubE(1), dataE(1, Body)>> ELSE << subE(0, 1, "a"), subE(1, 1, "a"), subE(2, 1, "a"), subE(0, 1, "b"), subE(0, 2, "b"), subE(1, 2, "a"), subE(0, 1, "c"),
           unsubE(1), dataE(1, Body), dataE(2, Body), infoE, badsub(<<0, 1>>) >>

Init ==
  /\ setname \in {"model_Fw", "model_Nf"} /\ prelude \in (IF Scen = "dispatch1" THEN {2} ELSE 1..Len(Preludes)) /\ ops \in Uses
  /\ inp = HeaderB \o FlattenSeq([i \in 1..Len(Fmts) |-> Fmts[i].b])
  /\ ending = "open" /\ D!Init /\ w = <<>> /\ outs = <<>>
  /\ (D!RefusedAt > 0) => PrintT(<<"B", ToJson([set |-> setname, ops |-> ops, file |-> inp])>>)
Idle == phase \in {"defs", "data"} /\ D!P!Left = 0
Write ==
  /\ ending = "open" /\ Idle /\ Len(w) < N /\ D!RefusedAt = 0
  /\ \E i \in 1..Len(Pool) : w' = Append(w, Pool[i]) /\ inp' = inp \o Pool[i].b
  /\ UNCHANGED <<setname, prelude, ops, outs, ending, dvars>>
Close ==
  /\ ending = "open" /\ Idle /\ Len(w) = N /\ ending' = "eof"
  /\ PrintT(<<"B", ToJson([set |-> setname, ops |-> ops, file |-> inp])>>)
  /\ UNCHANGED <<setname, prelude, ops, outs, inp, w, dvars>>
Read ==
  /\ D!RefusedAt = 0 /\ phase # "eof" /\ D!Next
  /\ outs' = IF dout' \in {Silent, EndItem} THEN outs ELSE Append(outs, IF dout'.t = "err" /\ out'.t # "err" THEN [t |-> "why", why |-> D!DispatchFaults(out')] ELSE dout')
  /\ UNCHANGED <<setname, prelude, ops, inp, ending, w>>
Next == Write \/ Close \/ Read

-----------------------------------------------------------------------------
\* ---- what must come out, from the records written ------------------------------
Settled == phase \in {"defs", "data"} /\ pos = Len(inp)
FmtOf(name) == Fmts[CHOOSE i \in 1..Len(Fmts) : Fmts[i].name = name].fs
IsSub(j) == w[j].k = "sub" /\ w[j].ok
InData(i) == \E j \in 1..(i - 1) : IsSub(j)
LiveAt(i) == {j \in 1..(i - 1) : /\ IsSub(j) /\ w[j].id = w[i].id
                /\ \A k \in (j + 1)..(i - 1) : ~(w[k].id = w[i].id /\ (IsSub(k) \/ (w[k].k = "unsub" /\ InData(k))))}
Vars == {v \in 1..Len(Sch.vars) : TRUE}
VarOf(name, m) == {v \in Vars : Sch.structs[Sch.vars[v].st].sub = name /\ Sch.structs[Sch.vars[v].st].multi = m}
FieldsOf(v) == Sch.structs[Sch.vars[v].st].fields
Whole(v, fs) == \A j \in 1..Len(FieldsOf(v)) : FieldsOf(v)[j].opt \/ D!HasName(fs, FieldsOf(v)[j].n)
Unmet(v, fs) == {j \in 1..Len(FieldsOf(v)) : ~FieldsOf(v)[j].opt /\ ~ \E i \in 1..Len(fs) : fs[i].n = FieldsOf(v)[j].n}
KindIn(f) == IF f.arr = "" THEN Kind[f.ty] ELSE AKind[f.ty]
Typed(v, fs) == \A j \in 1..Len(FieldsOf(v)) : \A k \in 1..Len(fs) :
                   fs[k].n = FieldsOf(v)[j].n => KindIn(fs[k]) = FieldsOf(v)[j].k
RECURSIVE Offset(_, _)
Offset(fs, k) == IF k = 1 THEN 0
                 ELSE Offset(fs, k - 1) + (Width[fs[k-1].ty] * (IF fs[k-1].arr = "" THEN 1 ELSE NumVal(fs[k-1].arr)))
Wanted(v, fs) == [t |-> "map", var |-> Sch.vars[v].var,
  v |-> [j \in 1..Len(FieldsOf(v)) |->
    LET f == FieldsOf(v)[j] IN
    IF ~D!HasName(fs, f.n) THEN [f |-> f.f, p |-> 0, v |-> NoVal]
    ELSE LET k == CHOOSE k \in 1..Len(fs) : fs[k].n = f.n
             o == Offset(fs, k)
         IN [f |-> f.f, p |-> 1, v |-> [k |-> f.k, b |-> SubSeq(Body, o + 1, o + Offset(Append(SubSeq(fs, 1, k), fs[k]), k + 1) - o), c |-> <<>>]]]]
FwdKind(k) == IF D!HasFwd THEN <<<<"fwd", k>>>> ELSE <<>>
Listed(n) == (\E v \in Vars : Sch.structs[Sch.vars[v].st].sub = n)
             \/ \E i \in 1..Len(ops) : \E j \in 1..Len(ops[i].names) : ops[i].names[j] = n
Wants == IF \E i \in 1..Len(ops) : ops[i].o = "fs" /\ ops[i].v /\ \A j \in (i + 1)..Len(ops) : ops[j].o # "fs" THEN TRUE ELSE FALSE
\* results of record i: none or one
Due(i) ==
  LET e == w[i] IN
  CASE ~e.ok -> <<<<"err">>>>
    [] e.k = "sub" ->
         IF VarOf(e.name, e.m) = {} THEN (IF Wants THEN FwdKind("sub") ELSE <<>>)
         ELSE LET v == CHOOSE v \in VarOf(e.name, e.m) : TRUE IN
              IF Whole(v, FmtOf(e.name)) THEN <<>>
              ELSE <<<<"why", {[k |-> "InvalidFieldName", names |-> {FieldsOf(v)[j].n : j \in Unmet(v, FmtOf(e.name))}]}>>>>
    [] e.k = "data" ->
         IF ~InData(i) THEN FwdKind("unh")
         ELSE IF LiveAt(i) = {} THEN <<<<"err">>>>
         ELSE LET s == w[CHOOSE j \in LiveAt(i) : TRUE]
                  fs == FmtOf(s.name) IN
              IF ~Listed(s.name) THEN FwdKind("ign")
              ELSE IF VarOf(s.name, s.m) = {} THEN FwdKind("data")
              ELSE LET v == CHOOSE v \in VarOf(s.name, s.m) : TRUE IN
                   IF ~Whole(v, fs) THEN FwdKind("data")
                   ELSE IF ~Typed(v, fs) THEN <<<<"why", {[k |-> "TypeMismatch", names |-> {}]}>>>>
                   ELSE <<<<"map", Wanted(v, fs)>>>>
    [] e.k = "unsub" -> FwdKind("unh")
    [] OTHER -> FwdKind(e.k)
Pre == IF D!HasFwd THEN [i \in 1..Len(Fmts) |-> <<"fwd", "fmt">>] ELSE <<>>
Shown(o) == IF o.t = "map" THEN <<"map", o>> ELSE IF o.t = "why" THEN <<"why", o.why>> ELSE IF o.t = "fwd" THEN <<"fwd", o.x.t>> ELSE <<o.t>>
Complete == Settled => [i \in 1..Len(outs) |-> Shown(outs[i])] = Pre \o FlattenSeq([i \in 1..Len(w) |-> Due(i)])
Accepts == (D!RefusedAt = 0) <=> (D!HasFwd \/ \A i \in 1..Len(ops) : ops[i].o = "fs" /\ ~ops[i].v)
Props == Complete /\ Accepts /\ D!DeriveInv
=============================================================================
