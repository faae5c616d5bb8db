-------------------------------- MODULE Flatten --------------------------------
(***************************************************************************)
(* The flattened view of a record, as a walk: the walker keeps a stack of   *)
(* <<path, fields still to visit>> and emits one scalar leaf per step.      *)
(* FlatFields is the same as one operator (used on recorded runs); MCFlatten *)
(* checks that the two agree and that the walk visits every leaf once.      *)
(***************************************************************************)
EXTENDS ULogCodec

Two(i) == IF i < 10 THEN "0" \o ToString(i) ELSE ToString(i)
DisplayName(name, mi) == IF mi = -1 THEN name ELSE name \o "." \o Two(mi)

ArrKinds == [au8 |-> "u8", au16 |-> "u16", au32 |-> "u32", au64 |-> "u64", ai8 |-> "i8", ai16 |-> "i16",
             ai32 |-> "i32", ai64 |-> "i64", af32 |-> "f32", af64 |-> "f64", abool |-> "bool", achar |-> "char",
             aother |-> "other"]
KindW == [u8 |-> 1, u16 |-> 2, u32 |-> 4, u64 |-> 8, i8 |-> 1, i16 |-> 2, i32 |-> 4, i64 |-> 8,
          f32 |-> 4, f64 |-> 8, bool |-> 1, char |-> 1]
IsArray(v) == v.k \in DOMAIN ArrKinds
\* the scalars of an array value, in order
Scalars(v) ==
  LET k == ArrKinds[v.k] IN
  IF k = "other" THEN [i \in 1..Len(v.c) |-> [k |-> "other", b |-> <<>>, c |-> <<v.c[i]>>]]
  ELSE LET w == KindW[k] IN
       [i \in 1..(Len(v.b) \div w) |-> [k |-> k, b |-> SubSeq(v.b, (i - 1) * w + 1, i * w), c |-> <<>>]]

RECURSIVE FlatFields(_, _), FlatVal(_, _)
FlatVal(p, v) ==
  IF IsArray(v) THEN LET s == Scalars(v) IN
       FlattenSeq([i \in 1..Len(s) |-> FlatVal(p \o "." \o Two(i - 1), s[i])])
  ELSE IF v.k = "other" THEN FlatFields(p, v.c[1].fs)
  ELSE <<[p |-> p, k |-> v.k, b |-> v.b]>>
FlatFields(p, fs) == FlattenSeq([i \in 1..Len(fs) |-> FlatVal(p \o "/" \o fs[i].n, fs[i].v)])
FlatItem(x) == FlatFields(DisplayName(x.name, x.mi), x.fs)

\* every value of the record, outermost first, converted to scalars
RECURSIVE AllScalars(_), ScalarsIn(_)
None == [none |-> TRUE, s |-> <<>>]
ScalarsIn(v) == <<IF IsArray(v) THEN [none |-> FALSE, s |-> Scalars(v)] ELSE None>>
                \o FlattenSeq([i \in 1..Len(v.c) |-> AllScalars(v.c[i].fs)])
AllScalars(fs) == FlattenSeq([i \in 1..Len(fs) |-> ScalarsIn(fs[i].v)])
=============================================================================
