----------------------------- MODULE ProgressTrace -----------------------------
(* Recorded runs against Progress.  Run: [id, len, cap, ev, extra]: extra = 1 for
   streams that may report two results for one record (derived ones do not). *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
Diag == "DIAG" \in DOMAIN IOEnv
VARIABLES rid, l, st, fuel
R == Runs[rid]
Pr == INSTANCE Progress WITH Slack <- 24
Cls(t) == IF t \in {"err", "end", "panic", "abort", "hang", "cap", "refused"} THEN t ELSE "msg"
Init == rid \in 1..Len(Runs) /\ l = 1 /\ Pr!Init(Runs[rid].len)
Next ==
  /\ l <= Len(R.ev) /\ rid' = rid /\ l' = l + 1
  /\ Diag => PrintT(<<"STEP", R.id, l, "a message, an error or the end, within", R.cap>>)
  /\ LET e == R.ev[l] IN Pr!Result(Cls(e.x.t), IF "mem" \in DOMAIN e THEN e.mem ELSE 0, R.cap)
  /\ (l' > Len(R.ev)) => st' = "ended" /\ PrintT(<<"ACCEPTED", R.id>>)
=============================================================================
