------------------------------- MODULE TwinTrace -------------------------------
(***************************************************************************)
(* Two parsers of the real code at work at the same time.  In MCTwin the     *)
(* product of two readers of ULogParser, which share nothing, is shown to    *)
(* give each of them the results it gives alone, whatever the order of the   *)
(* calls.  Here the recorded calls of two real parsers must be steps of such *)
(* a product: every result is the next one of what that parser gives alone,  *)
(* in a process of its own (ref), no result is left out, and every message   *)
(* shows the same content at the very end, when all parsers are gone (late). *)
(*                                                                         *)
(* Run: [id, p: <<[ref]>> (two), ev: [p, x, late]]                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
Diag == "DIAG" \in DOMAIN IOEnv
VARIABLES rid, l, at
vars == <<rid, l, at>>
R == Runs[rid]
Init == rid \in 1..Len(Runs) /\ l = 1 /\ at = <<0, 0>>

Crash == {"panic", "abort", "hang", "cap"}
Step(q) ==
  /\ l <= Len(R.ev) /\ "p" \in DOMAIN R.ev[l] /\ R.ev[l].p = q - 1
  /\ at' = [at EXCEPT ![q] = @ + 1] /\ l' = l + 1 /\ rid' = rid
  /\ LET ref == R.p[q].ref
         k == at[q] + 1 IN
     /\ Diag => PrintT(<<"STEP", R.id, l, ToJson(IF k <= Len(ref) THEN ref[k] ELSE [t |-> "noref"])>>)
     /\ k <= Len(ref) /\ R.ev[l].x = ref[k] /\ R.ev[l].late = ref[k]
     /\ R.ev[l].x.t \notin Crash
  /\ (l = Len(R.ev)) => /\ \A p \in 1..2 : at'[p] = Len(R.p[p].ref)
                        /\ PrintT(<<"ACCEPTED", R.id>>)
Next == Step(1) \/ Step(2)
Inv == at[1] + at[2] = l - 1
View == <<rid, l>>
=============================================================================
