------------------------------ MODULE CursorTrace ------------------------------
(***************************************************************************)
(* Trace validation of MessageBuf and DataStream against Cursor.            *)
(* Run: [id, kind, file, ending, ev]; event: [op, ty, n, ok, b, ret, len,    *)
(* empty] where len/empty (MessageBuf) are observed after the operation.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
Diag == "DIAG" \in DOMAIN IOEnv
VARIABLES rid, l, buf, ending, pos, last
C == INSTANCE Cursor
R == Runs[rid]
E == R.ev[l]

Init == rid \in 1..Len(Runs) /\ l = 1 /\ C!Init(Runs[rid].file, Runs[rid].ending)

Op ==
  IF R.kind = "buf"
  THEN \/ E.op = "take" /\ C!Take(E.ty)
       \/ E.op = "adv" /\ C!Advance(E.n)
       \/ E.op = "skip" /\ C!Skip(E.n)
       \/ E.op = "rest" /\ C!Rest
  ELSE \/ E.op = "take" /\ C!Read(E.ty)
       \/ E.op = "exact" /\ C!ReadExact(E.n)
       \/ E.op = "str" /\ C!ReadString(E.n)
       \/ E.op = "skip" /\ C!StreamSkip(E.n)
Agree ==
  /\ E.ok = last'.ok
  /\ (last'.ok /\ last'.b # <<-1>>) => E.b = last'.b
  /\ (last'.ok /\ R.kind = "stream" /\ last'.n >= 0) => E.ret = last'.n
  /\ R.kind = "buf" => E.len = Len(buf) - pos' /\ E.empty = (pos' = Len(buf))
Next ==
  /\ l <= Len(R.ev) /\ UNCHANGED <<rid, buf, ending>> /\ l' = l + 1
  /\ Op
  /\ Diag => PrintT(<<"STEP", R.id, l, ToJson(last'), pos'>>)
  /\ Agree
  /\ (l = Len(R.ev)) => PrintT(<<"ACCEPTED", R.id>>)
Inv == pos \in 0..Len(buf)
View == <<rid, l, pos>>
=============================================================================
