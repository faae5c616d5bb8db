-------------------------------- MODULE EncTrace --------------------------------
(***************************************************************************)
(* What encoding does, recorded from the real code, against the encoding    *)
(* operators of ULogCodec.                                                  *)
(* Run, kind "items": ev[i] = [want, x, enc, re]: the message asked for, the *)
(* message as built, the bytes written ([-1]: encoding failed), and the     *)
(* results of parsing a log that ends with those bytes, from there on.      *)
(* Run, kind "log": ev[i] = [x, enc] for the results of parsing a log, and  *)
(* re: the results of parsing the concatenation of everything written.      *)
(***************************************************************************)
EXTENDS ULogCodec, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
Diag == "DIAG" \in DOMAIN IOEnv
VARIABLES rid, l
R == Runs[rid]
E == R.ev[l]

KeyedKinds == {"info", "minfo", "param", "dparam"}
\* does the message fit the length fields of a record?
Fits(x) == /\ x.t \in KeyedKinds => Len(KeyText(x)) <= 255
           /\ Len(Content(x)) <= 65535
Writes(x, enc) ==
  IF x.t \in {"hdr", "ign"} THEN enc = EncItem(x)
  ELSE IF Fits(x) THEN enc = EncItem(x)
  ELSE enc = <<-1>>
\* a failing writer must not be reported as success
Refused == "wfail" \in DOMAIN E /\ E.wfail
BackTo(x, re) ==
  IF x.t = "ign" THEN re = <<EndItem>>
  ELSE IF x.t = "hdr" \/ Fits(x) THEN re = <<x, EndItem>>
  ELSE TRUE
ItemsOK == E.x = E.want /\ (IF Refused THEN E.enc = <<-1>> ELSE Writes(E.x, E.enc) /\ BackTo(E.x, E.re))
Msg(x) == x.t \notin {"err", "end", "ign"}
LogOK ==
  /\ E.x.t \notin {"panic", "abort", "hang", "cap"}
  /\ IF E.x.t \in {"err", "end"} THEN TRUE ELSE E.enc = EncItem(E.x)
  \* at the end: everything written, read again
  /\ l = Len(R.ev) =>
       LET sent == SelectSeq([i \in 1..Len(R.ev) |-> R.ev[i].x], Msg) IN
       R.re = Append(sent, EndItem)
Init == rid \in 1..Len(Runs) /\ l = 1
Next ==
  /\ l <= Len(R.ev) /\ rid' = rid /\ l' = l + 1
  /\ Diag => PrintT(<<"STEP", R.id, l, IF R.kind = "items" /\ E.x.t # "panic"
                                     THEN ToJson([fits |-> Fits(E.want), enc |-> IF Fits(E.want) THEN SubSeq(EncItem(E.want), 1, 60) ELSE <<-1>>]) ELSE "">>)
  /\ IF R.kind = "items" THEN ItemsOK ELSE LogOK
  /\ (l = Len(R.ev)) => PrintT(<<"ACCEPTED", R.id>>)
Inv == TRUE
View == <<rid, l>>
=============================================================================
