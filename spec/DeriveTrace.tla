------------------------------ MODULE DeriveTrace ------------------------------
(***************************************************************************)
(* Validation of recorded runs of derived streams (C13, C14) against         *)
(* ULogDerive.  Run: [id, prop, set, ops, file, ending, ev, ref]; ref are     *)
(* the results of the low-level parser of the real code on the same input,   *)
(* with the inner configuration: forwarded messages are these.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
Sets == JsonDeserialize(IOEnv.SCHEMAS)
Diag == "DIAG" \in DOMAIN IOEnv

VARIABLES rid, l, n
VARIABLES phase, pos, formats, subs, multi, limit, out, bind, dout
R == Runs[rid]
D == INSTANCE ULogDerive WITH sch <- Sets[Runs[rid].set], ops <- Runs[rid].ops,
                              inp <- Runs[rid].file, ending <- Runs[rid].ending

Low(i) == IF i \in 1..Len(R.ref) THEN R.ref[i] ELSE [t |-> "noref"]
\* a typed value or an error where the record of a bound subscription cannot be converted
Typed(y) == y.t = "map" \/ (y.t = "err" /\ out'.t = "data")

\* C13: the values; that what cannot become the struct is an error
C13(y, e) == y = e.x
\* C14: kind and variant of every result; what is forwarded is the message itself
C14(y, e) ==
  CASE y.t = "map" -> e.x.t = "map" /\ e.x.var = y.var
    [] y.t = "fwd" -> e.x.t = "fwd" /\ e.x.var = y.var /\ e.x.x = Low(n')
    [] y.t = "err" /\ out'.t = "data" -> e.x.t \in {"err", "map"}
    [] OTHER -> e.x.t = y.t
\* C17: the kind of result specified, and everything in it as in the default build
C17(y, e) == l <= Len(R.same) /\ e.x = R.same[l] /\ e.x.t = (IF y.t = "map" /\ R.same[l].t = "err" THEN "err" ELSE y.t)
\* C26: an error says what the inner reader says, or what is wrong with the record for its struct
Says(e, S) == "err" \in DOMAIN e /\ \E s \in S : e.err.k = s.k /\ \A m \in s.names : \E i \in 1..Len(e.err.names) : e.err.names[i] = m
C26(y, e) ==
  /\ e.x.t = y.t
  /\ y.t = "err" => IF out'.t = "err" THEN "err" \in DOMAIN e /\ n' <= Len(R.why) /\ e.err = R.why[n']
                    ELSE Says(e, D!DispatchFaults(out'))
Match(y, e) == CASE R.prop = "C26" -> C26(y, e) [] R.prop = "C13" -> C13(y, e) [] R.prop = "C14" -> C14(y, e) [] R.prop = "C17" -> C17(y, e)
\* results the property says nothing about are left out of the recording
Seen(y) == y # D!Silent /\ ~(R.prop = "C13" /\ y.t = "fwd")

Init == rid \in 1..Len(Runs) /\ l = 1 /\ n = 0 /\ D!Init
Refused ==
  /\ D!RefusedAt > 0 /\ l = 1
  /\ Diag => PrintT(<<"STEP", R.id, 1, "refused at", D!RefusedAt>>)
  /\ Len(R.ev) = 1 /\ R.ev[1].x = [t |-> "refused", at |-> D!RefusedAt]
  /\ R.prop = "C26" => R.ev[1].err.k = "InvalidConfiguration"
  /\ PrintT(<<"ACCEPTED", R.id>>) /\ l' = 2
  /\ UNCHANGED <<rid, n, phase, pos, formats, subs, multi, limit, out, bind, dout>>
Step ==
  /\ D!RefusedAt = 0 /\ l <= Len(R.ev) /\ rid' = rid
  /\ D!Next
  /\ n' = IF out' = D!Silent THEN n ELSE n + 1
  /\ IF ~Seen(dout') THEN l' = l
     ELSE /\ Diag => PrintT(<<"STEP", R.id, l, ToJson(dout'), ToJson(IF dout'.t = "fwd" THEN Low(n') ELSE "")>>)
          /\ Match(dout', R.ev[l]) /\ l' = l + 1
          /\ (l' > Len(R.ev)) => PrintT(<<"ACCEPTED", R.id>>)
Next == Refused \/ Step
Inv == D!DeriveInv
View == <<rid, l, phase, pos>>
=============================================================================
