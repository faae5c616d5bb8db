------------------------------ MODULE ULogDerive ------------------------------
(***************************************************************************)
(* The stream derived for a user's message set: the reader of ULogParser    *)
(* with timestamps, padding and an allow list of the mapped names, and a    *)
(* dispatcher in front of it.  One step is one result of the inner reader;  *)
(* `dout' is what the derived stream makes of it (Silent when it goes on    *)
(* to the next one without yielding).                                       *)
(*                                                                         *)
(* Environment: sch, the message set                                        *)
(*   [fwd     name of the forward variant, "" if there is none              *)
(*    vars    sequence of [var, st]: variant and struct names, in order     *)
(*    structs struct name -> [sub, multi, fields]; a field is               *)
(*            [f Rust name, n log name, opt, k kind of value, st struct]]    *)
(* and ops, the calls made on the builder.                                  *)
(***************************************************************************)
EXTENDS ULogCodec
VARIABLES sch, ops
VARIABLES inp, ending
VARIABLES phase, pos, formats, subs, multi, limit, out
VARIABLES
  bind,   \* id -> variant: subscriptions whose records become values
  dout    \* the latest result

HasFwd == sch.fwd # ""
\* ---- the builder -------------------------------------------------------------
Refuses(op) == ~HasFwd /\ (op.o \in {"add", "ext"} \/ (op.o = "fs" /\ op.v))
RefusedAt == SelectInSeq(ops, Refuses)
Extras == FlattenSeq([i \in 1..Len(ops) |-> IF ops[i].o = "fs" THEN <<>> ELSE ops[i].names])
FwdSubs == LET i == SelectLastInSeq(ops, LAMBDA op : op.o = "fs") IN i > 0 /\ ops[i].v
StructOf(v) == sch.structs[v.st]
InnerCfg == [hdr |-> FALSE, ts |-> TRUE, pad |-> TRUE,
             allow |-> [on |-> TRUE,
                        names |-> [i \in 1..Len(sch.vars) |-> StructOf(sch.vars[i]).sub] \o Extras]]
P == INSTANCE ULogParser WITH cfg <- InnerCfg

\* ---- values --------------------------------------------------------------------
\* A struct value: for each field [f, p, v], p = 1 when present; nested structs are
\* values of kind "s" (one) or "as" (a vector), their field lists in c.
HasName(fs, n) == \E i \in 1..Len(fs) : fs[i].n = n
Complete(st, def) == \A i \in 1..Len(sch.structs[st].fields) :
                       LET f == sch.structs[st].fields[i] IN f.opt \/ HasName(def, f.n)
BadVal == [ok |-> FALSE, v |-> NoVal]
RECURSIVE Conv(_, _, _), ConvVal(_, _)
ConvVal(f, v) ==
  IF f.k = "s" THEN
    IF v.k # "other" THEN BadVal
    ELSE LET r == Conv(f.st, formats[v.c[1].n], v.c[1].fs) IN
         [ok |-> r.ok, v |-> [k |-> "s", b |-> <<>>, c |-> <<r.v>>]]
  ELSE IF f.k = "as" THEN
    IF v.k # "aother" THEN BadVal
    ELSE LET rs == [i \in 1..Len(v.c) |-> Conv(f.st, formats[v.c[i].n], v.c[i].fs)] IN
         [ok |-> \A i \in 1..Len(rs) : rs[i].ok,
          v |-> [k |-> "as", b |-> <<>>, c |-> [i \in 1..Len(rs) |-> rs[i].v]]]
  ELSE [ok |-> v.k = f.k, v |-> v]
Conv(st, def, fs) ==
  LET one(a, f) ==
        IF ~a.ok THEN a
        ELSE IF ~HasName(def, f.n) THEN
          IF f.opt THEN [a EXCEPT !.v = Append(@, [f |-> f.f, p |-> 0, v |-> NoVal])]
          ELSE [a EXCEPT !.ok = FALSE]
        ELSE LET i == SelectInSeq(fs, LAMBDA y : y.n = f.n) IN
          IF i = 0 THEN [a EXCEPT !.ok = FALSE]      \* padding cut off by the writer
          ELSE LET r == ConvVal(f, fs[i].v) IN
               [ok |-> r.ok, v |-> Append(a.v, [f |-> f.f, p |-> 1, v |-> r.v])]
  IN FoldLeft(one, [ok |-> TRUE, v |-> <<>>], sch.structs[st].fields)

\* ---- what is wrong with a struct or value that cannot be converted ------------------
\* A fault is [k, names]: the variant of ULogError, and the fields it must speak of.
Misfit == [k |-> "TypeMismatch", names |-> {}]
Unfilled(S) == [k |-> "InvalidFieldName", names |-> S]
Lacking(st, def) == {f.n : f \in {f \in ToSet(sch.structs[st].fields) : ~f.opt /\ ~HasName(def, f.n)}}
Absent(st, def) == IF Lacking(st, def) = {} THEN {} ELSE {Unfilled(Lacking(st, def))}
RECURSIVE Faults(_, _, _), ValFaults(_, _)
ValFaults(f, v) ==
  IF f.k = "s" THEN IF v.k # "other" THEN {Misfit} ELSE Faults(f.st, formats[v.c[1].n], v.c[1].fs)
  ELSE IF f.k = "as" THEN IF v.k # "aother" THEN {Misfit}
                          ELSE UNION {Faults(f.st, formats[v.c[i].n], v.c[i].fs) : i \in 1..Len(v.c)}
  ELSE IF v.k = f.k THEN {} ELSE {Misfit}
Faults(st, def, fs) ==
  Absent(st, def) \cup
  UNION {IF ~HasName(def, f.n) THEN {}
         ELSE LET i == SelectInSeq(fs, LAMBDA y : y.n = f.n) IN
              IF i = 0 THEN {Unfilled({f.n})} ELSE ValFaults(f, fs[i].v)
         : f \in ToSet(sch.structs[st].fields)}

\* ---- dispatch -------------------------------------------------------------------
VariantFor(name, m) == SelectInSeq(sch.vars, LAMBDA v : StructOf(v).sub = name /\ StructOf(v).multi = m)
Fwd(x) == IF HasFwd THEN [t |-> "fwd", var |-> sch.fwd, x |-> x] ELSE Silent
Binds(x) == x.t = "sub" /\ VariantFor(x.name, x.multi) > 0
            /\ Complete(sch.vars[VariantFor(x.name, x.multi)].st, formats[x.name])
\* of an error that is not the inner reader's: what it may say
DispatchFaults(x) ==
  IF x.t = "sub" THEN LET v == VariantFor(x.name, x.multi) IN
                      IF v = 0 THEN {} ELSE Absent(sch.vars[v].st, formats[x.name])
  ELSE IF x.t = "data" /\ x.id \in DOMAIN bind THEN Faults(sch.vars[bind[x.id]].st, formats[x.name], x.fs)
  ELSE {}
Dispatch(x) ==
  IF x.t \in {"none", "err", "end"} THEN x
  ELSE IF x.t = "sub" THEN
    IF VariantFor(x.name, x.multi) > 0 THEN (IF Binds(x) THEN Silent ELSE ErrItem)
    ELSE IF FwdSubs THEN Fwd(x) ELSE Silent
  ELSE IF x.t = "data" /\ x.id \in DOMAIN bind THEN
    LET v == sch.vars[bind[x.id]]
        r == Conv(v.st, formats[x.name], x.fs)
    IN IF r.ok THEN [t |-> "map", var |-> v.var, v |-> r.v] ELSE ErrItem
  ELSE Fwd(x)
Rebind(x) ==
  LET live == [i \in (DOMAIN bind) \cap (DOMAIN subs') |-> bind[i]]
  IN IF x.t # "sub" THEN live
     ELSE IF Binds(x) THEN (x.id :> VariantFor(x.name, x.multi)) @@ live
     ELSE [i \in DOMAIN live \ {x.id} |-> live[i]]

Init == P!Init /\ bind = <<>> /\ dout = Silent
React == dout' = Dispatch(out') /\ bind' = Rebind(out')
Next == P!Next /\ React

\* ---- properties in every reachable state -----------------------------------------
\* a bound id is live and its subscription is the variant's
BindOK == \A i \in DOMAIN bind : /\ i \in DOMAIN subs
                                 /\ subs[i].name = StructOf(sch.vars[bind[i]]).sub
                                 /\ subs[i].multi = StructOf(sch.vars[bind[i]]).multi
\* nothing is forwarded without a forward variant; subscriptions only when asked for
FwdOK == dout.t = "fwd" => HasFwd /\ (dout.x.t = "sub" => FwdSubs)
\* a value has the fields of its struct, in order, the required ones present
ValueOK == dout.t = "map" => \E i \in 1..Len(sch.vars) :
             /\ sch.vars[i].var = dout.var
             /\ LET fs == StructOf(sch.vars[i]).fields IN
                /\ Len(dout.v) = Len(fs)
                /\ \A j \in 1..Len(fs) : dout.v[j].f = fs[j].f /\ (fs[j].opt \/ dout.v[j].p = 1)
\* an error of the derived stream's own has a cause, and nothing else has (as far as bindings have not changed)
FaultOK == /\ dout.t = "map" => DispatchFaults(out) = {}
           /\ dout.t = "err" => out.t = "err" \/ DispatchFaults(out) # {}
           /\ dout.t = "fwd" /\ out.t = "sub" => DispatchFaults(out) = {}
DeriveInv == P!ReaderInv /\ BindOK /\ FwdOK /\ ValueOK /\ FaultOK
=============================================================================
