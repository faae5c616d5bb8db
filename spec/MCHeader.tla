------------------------------- MODULE MCHeader -------------------------------
(***************************************************************************)
(* The start of a file: the header with every byte replaced by every value,  *)
(* cut at every length; and flags records with every bit (and every pair of  *)
(* incompatible bits) set, of every length, first or after other records,    *)
(* once or twice.  Nothing is read from a file whose first seven bytes are    *)
(* not the magic number; version and timestamp are those of the file,         *)
(* whatever they are; a flags record is refused iff it is too short or has    *)
(* an incompatible bit other than the lowest.  Run through the reader of      *)
(* ULogParser; each file is printed and read by the real code.                *)
(***************************************************************************)
EXTENDS ULogParser, Json, IOUtils
Pairs == IOEnv.PAIRS = "1"
VARIABLES what, res            \* what was done; the results so far
Z(n) == [i \in 1..n |-> 0]
HeaderOf(w) == LET h == Magic \o <<1, 11, 12, 13, 14, 15, 16, 17, 18>> IN
               IF w.k = "byte" THEN [h EXCEPT ![w.i] = w.v]
               ELSE IF w.k = "cut" THEN SubSeq(h, 1, w.i) ELSE h
Bit(n) == <<(n - 1) \div 8 + 1, 2 ^ ((n - 1) % 8)>>
\* 64 bits, those of bs set
Bits(bs) == [i \in 1..8 |-> FoldLeft(LAMBDA a, n : IF Bit(n)[1] = i THEN a + Bit(n)[2] ELSE a, 0, SetToSeq(bs))]
FlagsRec(w) == Record(66, SubSeq(Bits(w.c) \o Bits(w.x) \o Z(26), 1, w.len))
Fm == Record(70, BytesOf("ab:uint8_t c;"))
File(w) ==
  IF w.k \in {"byte", "cut"} THEN HeaderOf(w) \o (IF w.k = "byte" THEN Fm ELSE <<>>)
  ELSE HeaderOf(w) \o (IF w.before THEN Fm ELSE <<>>) \o FlagsRec(w) \o (IF w.twice THEN FlagsRec([w EXCEPT !.x = {}, !.len = 40]) ELSE <<>>) \o Fm
Fl(c, x, len, before, twice) == [k |-> "flags", c |-> c, x |-> x, len |-> len, before |-> before, twice |-> twice]
Whats == {[k |-> "byte", i |-> i, v |-> v] : i \in 1..16, v \in 0..255} \cup {[k |-> "cut", i |-> i] : i \in 0..16}
  \cup {Fl({n}, {}, 40, b, ~b) : n \in 1..64, b \in BOOLEAN}
  \cup {Fl({}, {n}, 40, b, tw) : n \in 1..64, b \in BOOLEAN, tw \in BOOLEAN}
  \cup {Fl({1, 64}, {1, n}, l, FALSE, FALSE) : n \in 1..64, l \in {39, 40, 42}}
  \cup {Fl({}, x, l, b, FALSE) : x \in {{}, {1}, {2}, {64}}, l \in 0..42, b \in BOOLEAN}
  \cup (IF Pairs THEN {Fl({}, {a, b}, 40, FALSE, FALSE) : a \in 1..64, b \in 1..64} ELSE {})
HInit == /\ what \in Whats /\ res = <<>> /\ inp = File(what) /\ ending = "eof"
         /\ cfg = [hdr |-> TRUE, ts |-> TRUE, pad |-> TRUE, allow |-> [on |-> FALSE, names |-> <<>>]]
         /\ Init
HNext == /\ Len(res) < 7 /\ phase # "eof" /\ Next /\ UNCHANGED <<inp, ending, cfg, what>>
         /\ res' = Append(res, out')
Done == phase = "eof"
Ts(r) == [i \in 1..Len(r) |-> r[i].t]
IsMagic == Len(inp) >= 7 /\ SubSeq(inp, 1, 7) = Magic
HeaderRight ==
  what.k \in {"byte", "cut"} =>
    /\ ~IsMagic \/ Len(inp) < 16 => \A i \in 1..Len(res) : res[i].t \in {"err", "end"}
    /\ ~IsMagic \/ Len(inp) < 16 => (Done => res[1].t = "err")
    /\ IsMagic /\ Len(inp) >= 16 =>
         /\ Done => Ts(res) = (IF what.k = "byte" THEN <<"hdr", "fmt", "end">> ELSE <<"hdr", "end">>)
         /\ res # <<>> => /\ what.k = "byte" /\ what.i > 8 => res[1].ver = 1 /\ res[1].ts[what.i - 8] = what.v
                          /\ what.k = "byte" /\ what.i = 8 => res[1].ver = what.v
                          /\ what.k = "byte" => \A j \in 1..8 : j + 8 # what.i => res[1].ts[j] = j + 10
FlagsRight ==
  what.k = "flags" /\ Done =>
    LET good == what.len >= 40 /\ what.x \subseteq {1}
        one == <<IF good THEN "flags" ELSE "err">> IN
    /\ Ts(res) = <<"hdr">> \o (IF what.before THEN <<"fmt">> ELSE <<>>) \o one \o (IF what.twice THEN <<"flags">> ELSE <<>>) \o <<"fmt", "end">>
    /\ good => LET f == res[IF what.before THEN 3 ELSE 2] IN
         /\ \A n \in 1..64 : (f.compat[Bit(n)[1]] \div Bit(n)[2]) % 2 = (IF n \in what.c THEN 1 ELSE 0)
         /\ \A n \in 1..64 : (f.incompat[Bit(n)[1]] \div Bit(n)[2]) % 2 = (IF n \in what.x THEN 1 ELSE 0)
\* after a refused header the reader gives nothing but errors, and ends
Show == res = <<>> => PrintT(<<"B", ToJson([file |-> inp, k |-> what.k])>>)
Inv == HeaderRight /\ FlagsRight /\ ReaderInv /\ Show
=============================================================================
