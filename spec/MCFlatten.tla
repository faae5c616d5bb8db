------------------------------- MODULE MCFlatten -------------------------------
(***************************************************************************)
(* All records over small shapes: the walk emits every scalar leaf once, in *)
(* declared order, under its own path.                                      *)
(***************************************************************************)
EXTENDS Flatten, Json, IOUtils
N == atoi(IOEnv.N)
VARIABLES rec, stack, leaves, fields

Fld(n, ty, arr) == [n |-> n, ty |-> ty, arr |-> arr]
Formats == [ inner |-> <<Fld("a", "uint8_t", ""), Fld("b", "int16_t", "2")>>,
             mid   |-> <<Fld("i", "inner", "2"), Fld("c", "char", "")>>,
             empty |-> <<>> ]
Pool == { Fld("x", "uint8_t", ""), Fld("y", "uint16_t", "2"), Fld("z", "bool", "0"), Fld("m", "mid", ""), Fld("n", "inner", "1"),
          Fld("o", "empty", "3"), Fld("p", "float", "11"), Fld("q", "mid", "2") }
Cfg == [hdr |-> FALSE, ts |-> FALSE, pad |-> FALSE, allow |-> [on |-> FALSE, names |-> <<>>]]
TSF == Fld("timestamp", "uint64_t", "")
RECURSIVE SizeF(_)
SizeOf(f) == (IF f.arr = "" THEN 1 ELSE NumVal(f.arr)) *
             (IF f.ty \in Prim THEN Width[f.ty] ELSE SizeF(Formats[f.ty]))
SizeF(fs) == FoldLeft(LAMBDA a, f : a + SizeOf(f), 0, fs)
\* distinct bytes as far as possible
Body(fs, id) == LE16(id) \o [i \in 1..(SizeF(fs) + 8) |-> (i * 7) % 251]
Seqs(n) == UNION {{s \in [1..k -> Pool] : \A i, j \in 1..k : i # j => s[i].n # s[j].n} : k \in 0..n}
Mis == {-1, 0, 7, 10, 255}

Init == \E s \in Seqs(N), mi \in Mis :
          LET fs == <<TSF>> \o s
              d == DecData(("top" :> fs) @@ Formats, Cfg, "top", mi, Body(s, 1)) IN
          /\ fields = fs /\ rec = d
          /\ stack = <<[p |-> DisplayName(d.name, d.mi), q |-> [i \in 1..Len(d.fs) |-> [n |-> "/" \o d.fs[i].n, v |-> d.fs[i].v]]]>>
          /\ leaves = <<>>
\* one step of the walk
Walk ==
  /\ stack # <<>> /\ UNCHANGED <<rec, fields>>
  /\ LET t == stack[1] IN
     IF t.q = <<>> THEN stack' = Tail(stack) /\ UNCHANGED leaves
     ELSE LET e == t.q[1]
              p == t.p \o e.n
              rest == <<[t EXCEPT !.q = Tail(@)]>> \o Tail(stack) IN
          IF IsArray(e.v) THEN
            /\ stack' = <<[p |-> p, q |-> LET s == Scalars(e.v) IN [i \in 1..Len(s) |-> [n |-> "." \o Two(i - 1), v |-> s[i]]]]>> \o rest
            /\ UNCHANGED leaves
          ELSE IF e.v.k = "other" THEN
            /\ stack' = <<[p |-> p, q |-> [i \in 1..Len(e.v.c[1].fs) |-> [n |-> "/" \o e.v.c[1].fs[i].n, v |-> e.v.c[1].fs[i].v]]]>> \o rest
            /\ UNCHANGED leaves
          ELSE stack' = rest /\ leaves' = Append(leaves, [p |-> p, k |-> e.v.k, b |-> e.v.b])
Next == Walk /\ (stack' = <<>> => PrintT(<<"B", ToJson([fields |-> fields, mi |-> rec.mi, body |-> Body(Tail(fields), 1)])>>))

\* the bytes of the leaves, in order, are the bytes of the record; no path twice
AllOnce == stack = <<>> => /\ FlattenSeq([i \in 1..Len(leaves) |-> leaves[i].b]) = EncFields(rec.fs)
                           /\ \A i, j \in 1..Len(leaves) : i # j => leaves[i].p # leaves[j].p
                           /\ leaves = FlatItem(rec)
RecOK == rec.t = "data"
=============================================================================
