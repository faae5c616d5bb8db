------------------------------ MODULE MCProgress ------------------------------
(***************************************************************************)
(* Every log of a small alphabet: a prelude, then up to N records with any   *)
(* of the listed types, declared lengths and bodies over a byte alphabet,    *)
(* cut anywhere.  The reader of ULogParser makes progress on each (Smaller), *)
(* never reports more than Progress allows, and can always move on.          *)
(***************************************************************************)
EXTENDS LogBuild, Json, IOUtils
N == atoi(IOEnv.N)
VARIABLES inp, ending, cfg, phase, pos, formats, subs, multi, limit, out, cnt
P == INSTANCE ULogParser
vars == <<inp, ending, cfg, phase, pos, formats, subs, multi, limit, out, cnt>>

Alpha == {0, 1, 97, 255}
Bodies == UNION {[1..k -> Alpha] : k \in 0..N}
Types == {65, 66, 67, 68, 70, 73, 76, 77, 79, 80, 81, 82, 0, 255}
Preludes == << <<>>, <<85, 76, 111>>, [Magic EXCEPT ![6] = 19] \o <<1>> \o T8(0), HeaderB,
               HeaderB \o fmtE("a", <<TS>>).b \o subE(0, 1, "a").b,
               HeaderB \o fmtE("a", <<F("a", "a", ""), TS>>).b \o subE(0, 1, "a").b,
               HeaderB \o flagsE(1, 60, 0, 0).b \o fmtE("a", <<TS, F("a", "uint8_t", "18446744073709551615")>>).b \o subE(0, 257, "a").b >>
Tails == {<<>>} \cup {<<(Len(b) + d) % 256, hi, t>> \o b : t \in Types, b \in Bodies, d \in {0, 1}, hi \in {0, 255}}
Init ==
  /\ ending \in {"eof", "fail"} /\ cfg = [hdr |-> TRUE, ts |-> FALSE, pad |-> TRUE, allow |-> [on |-> FALSE, names |-> <<>>]]
  /\ \E i \in 1..Len(Preludes) : \E t \in Tails : inp = Preludes[i] \o t
  /\ P!Init /\ cnt = 0
  /\ PrintT(<<"B", ToJson([file |-> inp, ending |-> ending])>>)
\* errors may be repeated after a refused header or a read failure; how often is not specified
Again == phase = "bad" /\ phase' = "bad"
Next == P!Next /\ ~Again /\ phase # "eof" /\ cnt' = cnt + 1 /\ UNCHANGED <<inp, ending, cfg>>

Rank == [start |-> 4, defs |-> 3, data |-> 2, cut |-> 1, bad |-> 1, eof |-> 0]
Smaller == [][ (pos' >= pos + 3 /\ phase' # "eof") \/ (pos' = pos /\ Rank[phase'] < Rank[phase]) ]_vars
Bounded == cnt <= (Len(inp) \div 3) + 2
Total == phase = "eof" \/ ENABLED P!Next
Inv == Bounded /\ Total /\ P!ReaderInv
=============================================================================
