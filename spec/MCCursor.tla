------------------------------- MODULE MCCursor -------------------------------
(***************************************************************************)
(* All sequences of N cursor operations over short buffers; every sequence  *)
(* is printed and run on the real code.  `given' accumulates, in terms of   *)
(* the operations and results only, what the property promises.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
N == atoi(IOEnv.N)
Kind0 == IOEnv.KIND
VARIABLES kind, ops, given, known, buf, ending, pos, last
C == INSTANCE Cursor

Bufs == { SubSeq(<<7, 200, 0, 66, 255, 1>>, 1, n) : n \in {0, 1, 2, 3, 5, 6} }
Types == IF Kind0 = "buf" THEN {"u8", "i8", "bool", "u16", "i16", "u32", "f32", "u64"}
         ELSE {"u8", "i8", "bool", "u16", "i16", "u32", "i32"}
Sizes == {0, 1, 3, 6, C!Huge}
Op(op, ty, n) == [op |-> op, ty |-> ty, n |-> n]

Init == /\ kind = Kind0 /\ ops = <<>> /\ given = <<>> /\ known = TRUE
        /\ \E b \in Bufs, e \in (IF Kind0 = "buf" THEN {"eof"} ELSE {"eof", "fail"}) : C!Init(b, e)
\* what an operation took from the front, in bytes of the buffer
Step(o) ==
  /\ ops' = Append(ops, o) /\ UNCHANGED <<kind, buf, ending>>
  /\ given' = given \o SubSeq(buf, pos + 1, pos')
  /\ known' = (known /\ (kind = "buf" \/ last'.b # <<-1>>) /\ (kind = "buf" \/ last'.ok \/ (o.op = "str" /\ o.n <= Len(buf) - pos)))
NextBuf ==
  \/ \E ty \in Types : C!Take(ty) /\ Step(Op("take", ty, 0))
  \/ \E n \in Sizes : C!Advance(n) /\ Step(Op("adv", "", n))
  \/ \E n \in Sizes : C!Skip(n) /\ Step(Op("skip", "", n))
NextStream ==
  \/ \E ty \in Types : C!Read(ty) /\ Step(Op("take", ty, 0))
  \/ \E n \in Sizes \ {C!Huge} : C!ReadExact(n) /\ Step(Op("exact", "", n))
  \/ \E n \in Sizes \ {C!Huge} : C!ReadString(n) /\ Step(Op("str", "", n))
  \/ \E n \in Sizes : C!StreamSkip(n) /\ Step(Op("skip", "", n))
Next == /\ Len(ops) < N /\ known
        /\ IF kind = "buf" THEN NextBuf ELSE NextStream
        /\ Len(ops') = N => PrintT(<<"B", ToJson([ops |-> ops', file |-> buf, ending |-> ending])>>)

\* each byte once, in order: what was handed out or skipped is a prefix, what
\* remains is the rest
Once == given \o SubSeq(buf, pos + 1, Len(buf)) = buf
\* a failing operation of MessageBuf does not move (given would have grown)
FailStays == [][(kind = "buf" /\ ~last'.ok) => given' = given /\ pos' = pos]_<<ops, given, pos, last>>
\* a successful value is the next bytes of its width
Next1 == [][(last'.ok /\ ops'[Len(ops')].op = "take" /\ last'.b # <<-1>> /\ ops'[Len(ops')].ty # "bool")
            => last'.b = SubSeq(buf, pos + 1, pos + C!TypeW[ops'[Len(ops')].ty])]_<<ops, given, pos, last>>
=============================================================================
