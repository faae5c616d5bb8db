-------------------------------- MODULE Cursor --------------------------------
(***************************************************************************)
(* The two byte cursors: MessageBuf (over bytes in memory; an operation     *)
(* succeeds completely or leaves the cursor where it was) and DataStream    *)
(* (over a reader that ends or fails after the bytes).  One step is one     *)
(* operation; `last' is its result.                                         *)
(***************************************************************************)
EXTENDS ULogCodec

VARIABLES buf,      \* all the bytes
          ending,   \* what follows them, for the stream: "eof" or "fail"
          pos,      \* bytes handed out or skipped
          last      \* [ok, b, n]: success, bytes handed out, number reported

TypeW == [u8 |-> 1, i8 |-> 1, bool |-> 1, u16 |-> 2, i16 |-> 2, u32 |-> 4, i32 |-> 4,
          f32 |-> 4, u64 |-> 8, i64 |-> 8, f64 |-> 8]
Remaining == Len(buf) - pos
Slice(n)  == SubSeq(buf, pos + 1, pos + n)
Canon(ty, b) == IF ty = "bool" THEN Norm("bool", b) ELSE b
Done(b)   == last' = [ok |-> TRUE, b |-> b, n |-> -1]
Fail      == last' = [ok |-> FALSE, b |-> <<>>, n |-> -1]

\* ---- MessageBuf ----
\* what every operation that moves does: all or nothing
BufMove(n, b) == IF n <= Remaining THEN pos' = pos + n /\ Done(b) ELSE pos' = pos /\ Fail
Take(ty)   == BufMove(TypeW[ty], Canon(ty, Slice(TypeW[ty])))
Advance(n) == BufMove(n, Slice(n))
Skip(n)    == BufMove(n, <<>>)
\* the bytes that remain, consuming the cursor
Rest       == pos' = Len(buf) /\ Done(Slice(Remaining))

\* ---- DataStream ----
\* what is handed out or reported when the bytes run out is only partly
\* specified: nothing is known of the value, and how much of the rest was
\* consumed is open; a failing reader must be reported
Short(n) ==
  /\ pos' \in pos..Len(buf)
  /\ IF ending = "fail" THEN Fail
     ELSE \/ Fail
          \/ last' = [ok |-> TRUE, b |-> <<-1>>, n |-> -1]
Read(ty) == IF TypeW[ty] <= Remaining
            THEN pos' = pos + TypeW[ty] /\ Done(Canon(ty, Slice(TypeW[ty])))
            ELSE Short(TypeW[ty])
ReadExact(n) ==
  IF n <= Remaining THEN pos' = pos + n /\ last' = [ok |-> TRUE, b |-> Slice(n), n |-> n]
  ELSE /\ pos' \in pos..Len(buf)
       /\ \/ Fail
          \/ ending = "eof" /\ \E k \in 0..(n - 1) : k <= Remaining /\ last' = [ok |-> TRUE, b |-> <<-1>>, n |-> k]
ReadString(n) ==
  IF n <= Remaining THEN pos' = pos + n /\ (IF Utf8(Slice(n)) THEN Done(Slice(n)) ELSE Fail)
  ELSE Short(n)
StreamSkip(n) ==
  IF n <= Remaining \/ ending = "eof"
  THEN LET k == IF n <= Remaining THEN n ELSE Remaining IN
       pos' = pos + k /\ last' = [ok |-> TRUE, b |-> <<>>, n |-> k]
  ELSE pos' \in pos..Len(buf) /\ Fail

Init(b, e) == buf = b /\ ending = e /\ pos = 0 /\ last = [ok |-> TRUE, b |-> <<>>, n |-> -1]
=============================================================================
