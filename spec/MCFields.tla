------------------------------ MODULE MCFields ------------------------------
(***************************************************************************)
(* Decoding of data records, for every format of up to N fields from a pool  *)
(* that has every kind of field (scalars, arrays, empty arrays, nested       *)
(* messages and arrays of them, padding of every type at every level) with   *)
(* the timestamp at every place, and for every length of the payload.  What  *)
(* DecData must return is said here in terms of where each leaf lies in the  *)
(* payload, without decoding: a record is accepted iff every leaf that is    *)
(* not wholly there is padding that may be missing, and what is returned     *)
(* are the leaves that are there, in order, with their own bytes.  For each  *)
(* format a log with all its payloads is printed, which the real code reads. *)
(***************************************************************************)
EXTENDS ULogCodec, Json, IOUtils
N == atoi(IOEnv.N)
VARIABLES fs, stamp        \* the fields; the place and the type of the timestamp

Fd(n, ty, arr) == [n |-> n, ty |-> ty, arr |-> arr]
Nested == [ n |-> <<Fd("p", "uint8_t", ""), Fd("_padding0", "uint8_t", "2")>>,
            m |-> <<Fd("q", "uint16_t", ""), Fd("r", "bool", "2"), Fd("t", "n", "")>>,
            e |-> <<>> ]
Pool == { Fd("a", "uint8_t", ""), Fd("b", "int16_t", ""), Fd("c", "bool", ""), Fd("d", "char", "3"), Fd("f", "float", "2"),
          Fd("z", "uint32_t", "0"), Fd("s", "n", ""), Fd("u", "m", "2"), Fd("w", "e", "3"), Fd("x", "n", "0"),
          Fd("_padding", "uint8_t", "2"), Fd("_padding", "uint8_t", ""), Fd("_padding", "int16_t", "2"), Fd("_padding", "n", ""),
          Fd("_paddin", "uint8_t", "2"), Fd("g", "uint64_t", "") }
Small == { Fd("a", "uint8_t", ""), Fd("c", "bool", "2"), Fd("s", "n", ""), Fd("u", "m", ""),
           Fd("_padding", "uint8_t", "2"), Fd("_padding", "int8_t", "1"), Fd("_padding", "n", "2"), Fd("z", "uint16_t", "0") }
Stamps == { <<"uint64_t", "">>, <<"uint32_t", "">>, <<"int64_t", "">>, <<"uint64_t", "1">> }
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8">>
Init == fs = <<>> /\ stamp \in [at : {0}, ty : Stamps] \cup [at : 1..N, ty : {<<"uint64_t", "">>}]
Next == /\ Len(fs) < N /\ stamp' = stamp
        /\ \E f \in IF Len(fs) < 2 THEN Pool ELSE Small : fs' = Append(fs, [f EXCEPT !.n = @ \o Digit[Len(fs) + 1]])
Here == stamp.at <= Len(fs)
Top == SubSeq(fs, 1, stamp.at) \o <<Fd("timestamp", stamp.ty[1], stamp.ty[2])>> \o SubSeq(fs, stamp.at + 1, Len(fs))
F == Nested @@ ("top" :> Top)

\* the names that stand for padding here, whatever ULogCodec says
Pads == {"_padding" \o Digit[i] : i \in 1..9}

\* ---- where each leaf lies: o the offset before it, len its bytes, excuse the offset before
\* the outermost ... padding fields it is part of (all of them), path its names
Times(f) == IF f.arr = "" THEN 1 ELSE NumVal(f.arr)
RECURSIVE Lay(_, _, _, _)
LayField(o, f, pads, path) ==
  LET ps == IF f.n \in Pads THEN Append(pads, o) ELSE pads
      pt == Append(path, f.n) IN
  IF f.ty \in Prim
  THEN <<[o |-> o, len |-> Width[f.ty] * Times(f), f |-> f, pads |-> ps, path |-> pt]>>
  ELSE FoldLeft(LAMBDA acc, i : acc \o Lay(F[f.ty], (IF acc = <<>> THEN o ELSE acc[Len(acc)].o + acc[Len(acc)].len), ps, pt),
                <<>>, [i \in 1..Times(f) |-> i])
Lay(fields, o, pads, path) ==
  FoldLeft(LAMBDA acc, f : acc \o LayField(IF acc = <<>> THEN o ELSE acc[Len(acc)].o + acc[Len(acc)].len, f, pads, path), <<>>, fields)
Leaves == Lay(Top, 0, <<>>, <<>>)
Size == IF Leaves = <<>> THEN 0 ELSE Leaves[Len(Leaves)].o + Leaves[Len(Leaves)].len

There(x, L) == x.len = 0 \/ x.o + x.len <= L
\* padding of bytes may be cut anywhere, other padding only as a whole
Missing(x, L) == \/ x.f.n \in Pads /\ x.f.ty = "uint8_t" /\ x.f.arr # ""
                 \/ \E i \in 1..Len(x.pads) : x.pads[i] >= L
Accepted(L) == /\ stamp.ty = <<"uint64_t", "">>
               /\ \A i \in 1..Len(Leaves) : There(Leaves[i], L) \/ Missing(Leaves[i], L)
\* a leaf is shown if it is there, is no padding that is left out, and is not part of padding
\* that begins where the payload has ended
Shown(x, L, pad) == /\ There(x, L)
                    /\ pad \/ x.pads = <<>>
                    /\ x.len > 0 \/ x.pads = <<>>
Byte(i) == IF i % 3 = 0 THEN 0 ELSE 100 + (i % 100)
Payload(L) == [i \in 1..L |-> Byte(i)]
Want(L, pad) == LET s == SelectSeq(Leaves, LAMBDA x : Shown(x, L, pad)) IN
  [i \in 1..Len(s) |-> [path |-> s[i].path, ty |-> s[i].f.ty, arr |-> s[i].f.arr,
                        b |-> [j \in 1..s[i].len |-> LET y == Byte(s[i].o + j) IN IF s[i].f.ty = "bool" /\ y # 0 THEN 1 ELSE y]]]

\* ---- the leaves of what the codec returns
RECURSIVE Got(_, _)
GotField(f, path) ==
  LET pt == Append(path, f.n) IN
  IF f.ty \in Prim THEN <<[path |-> pt, ty |-> f.ty, arr |-> f.arr, b |-> f.v.b]>>
  ELSE FlattenSeq([i \in 1..Len(f.v.c) |-> Got(f.v.c[i].fs, pt)])
Got(l, path) == FlattenSeq([i \in 1..Len(l) |-> GotField(l[i], path)])

Body(L) == <<5, 0>> \o Payload(L)
Dec(L, pad) == DecData(F, [pad |-> pad, ts |-> TRUE], "top", -1, Body(L))
Right(L, pad) ==
  LET x == Dec(L, pad) IN
  /\ x.t = "data" <=> Accepted(L)
  /\ x.t = "data" =>
       /\ Got(x.fs, <<>>) = Want(L, pad)
       /\ LET at == CHOOSE i \in 1..Len(Leaves) : Leaves[i].path = <<"timestamp">> IN
          x.ts = [j \in 1..8 |-> Byte(Leaves[at].o + j)]
       \* options leave out, and change nothing else
       /\ Got(DecData(F, [pad |-> pad, ts |-> FALSE], "top", -1, Body(L)).fs, <<>>)
          = SelectSeq(Want(L, pad), LAMBDA w : w.path # <<"timestamp">>)
       \* written again, it is what the leaves say
       /\ pad /\ L <= Size /\ (\A i \in 1..Len(Leaves) : There(Leaves[i], L) /\ (Leaves[i].pads = <<>> \/ Leaves[i].o < L))
          => EncFields(x.fs) = FlattenSeq([i \in 1..Len(Want(L, pad)) |-> Want(L, pad)[i].b])
AllRight == Here => \A L \in 0..Size + 1 : Right(L, TRUE) /\ Right(L, FALSE)

FmtRec(n) == Record(70, Content([t |-> "fmt", name |-> n, fields |-> F[n]]))
Log == Magic \o <<1>> \o [i \in 1..8 |-> 0] \o FmtRec("n") \o FmtRec("m") \o FmtRec("e") \o FmtRec("top")
       \o Record(65, <<0, 5, 0, 116, 111, 112>>)
       \o FlattenSeq([L \in 1..Size + 2 |-> Record(68, Body(L - 1))])
Show == Here => PrintT(<<"B", ToJson([file |-> Log])>>)
Inv == AllRight /\ Show
=============================================================================
