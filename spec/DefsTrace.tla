------------------------------- MODULE DefsTrace -------------------------------
(***************************************************************************)
(* Definitions given to the real compiler, with what came of them: refused   *)
(* or accepted, and then what the derived stream made of a log.              *)
(***************************************************************************)
EXTENDS DeriveDefs, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
Diag == "DIAG" \in DOMAIN IOEnv
VARIABLES rid, l
vars == <<rid, l>>
R == Runs[rid]
Init == rid \in 1..Len(Runs) /\ l = 1
E == R.ev[l]
Want == IF l = 1 THEN [t |-> Verdict(R.d)] ELSE [t |-> "stream", xs |-> Expected(R.d, R.subs)]
Ok == IF l = 1 THEN Verdict(R.d) = "any" \/ E.x.t = Verdict(R.d)
      ELSE E.x.t = "stream" /\ E.x.xs = Expected(R.d, R.subs)
Next ==
  /\ l <= Len(R.ev)
  /\ (Diag => PrintT(<<"STEP", R.id, l, ToJson(Want)>>))
  /\ Ok
  /\ l' = l + 1 /\ rid' = rid
  /\ (l = Len(R.ev)) => PrintT(<<"ACCEPTED", R.id>>)
Inv == l <= Len(R.ev) + 1
=============================================================================
