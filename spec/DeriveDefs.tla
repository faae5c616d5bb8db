------------------------------ MODULE DeriveDefs ------------------------------
(***************************************************************************)
(* What users may write for the derive macros: which definitions of structs *)
(* (ULogData) and enums (ULogMessages) compile, and what the accepted ones   *)
(* then stand for.  A definition is a record:                               *)
(*   struct: item, gen, shape, vis, name, attrs, fields                      *)
(*   enum:   item, gen, vis, vs (its variants)                               *)
(* Everything else of a definition is a sequence, read from left to right.   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

\* ---- names: lower snake case
Up  == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Low == "abcdefghijklmnopqrstuvwxyz"
Ch(s, i) == SubSeq(s, i, i)
Pos(c, s) == IF \E i \in 1..Len(s) : Ch(s, i) = c THEN CHOOSE i \in 1..Len(s) : Ch(s, i) = c ELSE 0
IsUp(c) == Pos(c, Up) > 0
IsLow(c) == Pos(c, Low) > 0
Lower(c) == IF IsUp(c) THEN Ch(Low, Pos(c, Up)) ELSE c
\* the case of the last letter of this word, up to i: a digit is of the case of what is before it
RECURSIVE Case(_, _, _)
Case(s, i, from) == IF i < from THEN "none" ELSE IF IsUp(Ch(s, i)) THEN "up" ELSE IF IsLow(Ch(s, i)) THEN "low" ELSE Case(s, i - 1, from)
RECURSIVE Snake(_, _, _, _)
\* i: the next character, from: where the present word began
Snake(s, i, from, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF Ch(s, i) = "_" THEN Snake(s, i + 1, i + 1, IF acc = "" \/ Ch(acc, Len(acc)) = "_" THEN acc ELSE acc \o "_")
  ELSE LET starts == /\ i > from /\ IsUp(Ch(s, i))
                     /\ \/ Case(s, i - 1, from) = "low"
                        \/ Case(s, i - 1, from) = "up" /\ i < Len(s) /\ IsLow(Ch(s, i + 1)) IN
       Snake(s, i + 1, IF starts THEN i ELSE from, (IF starts THEN acc \o "_" ELSE acc) \o Lower(Ch(s, i)))
SnakeCase(s) == Snake(s, 1, 1, "")

\* ---- structs
Scalars == {"u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "bool", "CChar"}
Wraps == { <<>>, <<"opt">>, <<"vec">>, <<"opt", "vec">> }
TypeOk(t) == t.b \in Scalars \cup {"Nested"} /\ t.w \in Wraps
FieldOk(f) == TypeOk(f.ty) /\ f.attr \in {"none", "name"}
AttrOk(a) == (a.k = "sub" /\ a.v = "text") \/ (a.k = "multi" /\ a.v = "number" /\ a.n \in 0..255)
Count(s, k) == Len(SelectSeq(s, LAMBDA a : a.k = k))
StructVerdict(d) ==
  IF d.item # "struct" \/ d.gen # "none" THEN "no"
  ELSE IF d.shape = "tuple" THEN "no"
  ELSE IF (\E i \in 1..Len(d.attrs) : ~AttrOk(d.attrs[i])) \/ Count(d.attrs, "sub") > 1 \/ Count(d.attrs, "multi") > 1 THEN "no"
  ELSE IF \E i \in 1..Len(d.fields) : ~FieldOk(d.fields[i]) THEN "no"
  ELSE IF d.shape = "unit" \/ d.fields = <<>> THEN "any"
  ELSE "yes"
Attr(d, k, val(_), default) == IF Count(d.attrs, k) = 0 THEN default
                               ELSE val(SelectSeq(d.attrs, LAMBDA a : a.k = k)[1])
SubName(d) == Attr(d, "sub", LAMBDA a : a.s, SnakeCase(d.name))
Multi(d)   == Attr(d, "multi", LAMBDA a : a.n, 0)
LogName(f) == IF f.attr = "name" THEN f.an ELSE f.n

\* ---- enums.  The structs there are: A of ("a", 0), B of ("b", 1) and C of ("c", 0), B and C in other modules
Structs == [A |-> <<"a", 0>>, B |-> <<"b", 1>>, C |-> <<"c", 0>>]
Fwd(v) == v.attr \in {"fwd", "fwd=true"}
VarOk(v) == /\ v.shape = "one"
            /\ v.attr \in {"none", "fwd", "fwd=true", "fwd=false"}
            /\ IF Fwd(v) THEN v.ty = "Msg" ELSE v.ty \in DOMAIN Structs
Odd(v) == v.shape \in {"unit", "named"} /\ v.attr = "none"
EnumVerdict(d) ==
  LET vs == d.vs IN
  IF d.item # "enum" \/ d.gen # "none" THEN "no"
  ELSE IF \E i \in 1..Len(vs) : ~VarOk(vs[i]) /\ ~Odd(vs[i]) THEN "no"
  ELSE IF Len(SelectSeq(vs, Fwd)) > 1 THEN "no"
  ELSE IF vs = <<>> \/ (\E i \in 1..Len(vs) : Odd(vs[i])) THEN "any"
  ELSE IF \E i, j \in 1..Len(vs) : i < j /\ vs[i].ty = vs[j].ty THEN "any"
  ELSE "yes"
Verdict(d) == IF d.def = "struct" THEN StructVerdict(d) ELSE EnumVerdict(d)

\* ---- what an accepted definition does with data of the subscription (name, instance); "-": nothing
MappedTo(d, name, m) == SelectSeq(d.vs, LAMBDA v : ~Fwd(v) /\ Structs[v.ty] = <<name, m>>)
Result(d, name, m) ==
  IF d.def = "struct"
  THEN IF SubName(d) = name THEN (IF Multi(d) = m THEN "V" ELSE "data") ELSE "ign"
  ELSE IF MappedTo(d, name, m) # <<>> THEN MappedTo(d, name, m)[1].n
  ELSE IF Len(SelectSeq(d.vs, Fwd)) = 0 THEN "-"
  ELSE IF \E i \in 1..Len(d.vs) : ~Fwd(d.vs[i]) /\ Structs[d.vs[i].ty][1] = name THEN "data" ELSE "ign"
Expected(d, subs) == SelectSeq([i \in 1..Len(subs) |-> Result(d, subs[i].name, subs[i].m)], LAMBDA x : x # "-")
=============================================================================
