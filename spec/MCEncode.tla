-------------------------------- MODULE MCEncode --------------------------------
(***************************************************************************)
(* Encoding and reading are inverse, on the model: a log made of the        *)
(* encodings of up to N messages of every kind is read back by the reader   *)
(* as those messages.  Each message sequence is printed and, on the real    *)
(* code, built through the public API, encoded and parsed.                  *)
(***************************************************************************)
EXTENDS ULogCodec, Json, IOUtils
N == atoi(IOEnv.N)
VARIABLES items, done
VARIABLES inp, ending, cfg, phase, pos, formats, subs, multi, limit, out
A == INSTANCE ULogParser

Fld(n, ty, arr) == [n |-> n, ty |-> ty, arr |-> arr]
T8(a, b) == <<a, 0, 0, 0, 0, 0, 0, b>>
Val(k, b) == [k |-> k, b |-> b, c |-> <<>>]
IFld(n, ty, arr, v) == [n |-> n, ty |-> ty, arr |-> arr, v |-> v]
InnerDef == [t |-> "fmt", name |-> "in", fields |-> <<Fld("a", "uint16_t", ""), Fld("b", "bool", "2")>>]
TopDef == [t |-> "fmt", name |-> "top", fields |-> <<Fld("timestamp", "uint64_t", ""), Fld("n", "in", "2"), Fld("m", "in", ""), Fld("c", "char", "")>>]
SubTop(m) == [t |-> "sub", multi |-> m, id |-> 258, name |-> "top"]
In(x) == [n |-> "in", ts |-> <<>>, mi |-> -1,
          fs |-> <<IFld("a", "uint16_t", "", Val("u16", <<x, 128>>)), IFld("b", "bool", "2", Val("abool", <<0, 1>>))>>]
DataTop(x, mi) ==
  [t |-> "data", id |-> 258, ts |-> T8(x, 255), name |-> "top", mi |-> mi,
   fs |-> <<IFld("timestamp", "uint64_t", "", Val("u64", T8(x, 255))),
            IFld("n", "in", "2", [k |-> "aother", b |-> <<>>, c |-> <<In(x), In(7)>>]),
            IFld("m", "in", "", [k |-> "other", b |-> <<>>, c |-> <<In(255)>>]),
            IFld("c", "char", "", Val("char", <<200>>))>>]
Both ==
  { [t |-> "info", key |-> "k", ty |-> ty, arr |-> "", v |-> Val(Kind[ty], [i \in 1..Width[ty] |-> IF ty = "bool" THEN 1 ELSE 127 + i])] : ty \in Prim }
  \cup { [t |-> "minfo", cont |-> c, key |-> "k_9", ty |-> ty, arr |-> "2",
          v |-> Val(AKind[ty], [i \in 1..(2 * Width[ty]) |-> IF ty = "bool" THEN i % 2 ELSE 127 + i])] : ty \in Prim, c \in {0, 1} }
  \cup { [t |-> "info", key |-> "z", ty |-> "char", arr |-> "0", v |-> Val("achar", <<>>)],
         [t |-> "param", key |-> "P1", ty |-> "int32_t", arr |-> "", v |-> Val("i32", <<0, 0, 0, 128>>)],
         [t |-> "param", key |-> "P2", ty |-> "float", arr |-> "", v |-> Val("f32", <<1, 0, 128, 127>>)],
         [t |-> "dparam", dt |-> 3, key |-> "P1", ty |-> "int32_t", arr |-> "", v |-> Val("i32", <<255, 255, 255, 255>>)],
         [t |-> "dparam", dt |-> 255, key |-> "P3", ty |-> "float", arr |-> "", v |-> Val("f32", <<0, 0, 0, 0>>)],
         [t |-> "unh", mt |-> 83, b |-> <<1, 2, 3>>], [t |-> "unh", mt |-> 0, b |-> <<>>] }
DefsOnly ==
  { [t |-> "flags", compat |-> T8(1, 9), incompat |-> T8(0, 0), offs |-> <<T8(5, 0), T8(0, 128), T8(0, 0)>>],
    [t |-> "fmt", name |-> "empty", fields |-> <<>>],
    [t |-> "fmt", name |-> "f_1", fields |-> <<Fld("q", "in", "12"), Fld("_padding0", "uint8_t", "0")>>] }
DataOnly ==
  { [t |-> "log", lvl |-> lv, ts |-> T8(lv, 128), msg |-> <<195, 169>>] : lv \in {48, 55} }
  \cup { [t |-> "tlog", lvl |-> 51, tag |-> g, ts |-> T8(1, 1), msg |-> <<>>] : g \in {0, 255, 65535} }
  \cup { [t |-> "drop", dur |-> d] : d \in {0, 256, 65535} }
  \cup { [t |-> "unh", mt |-> 82, b |-> <<77, 1>>] }

Start == <<[t |-> "hdr", ver |-> 1, ts |-> T8(1, 200)], InnerDef, TopDef>>
Pools(s) == IF \E i \in 1..Len(s) : s[i].t = "sub"
            THEN Both \cup DataOnly \cup {DataTop(x, IF \E i \in 1..Len(s) : s[i].t = "sub" /\ s[i].multi > 0
                                                   THEN (CHOOSE m \in {0, 3} : \E i \in 1..Len(s) : s[i] = SubTop(m) /\ \A j \in (i + 1)..Len(s) : s[j].t # "sub") ELSE -1) : x \in {0, 255}}
            ELSE Both \cup DefsOnly
RECURSIVE Enc(_)
Enc(s) == FlattenSeq([i \in 1..Len(s) |-> EncItem(s[i])])
\* without the reads in between: the log grows by one message at a time
Init == /\ items = Start /\ done = 0 /\ inp = Enc(Start) /\ ending = "open"
        /\ cfg = [hdr |-> TRUE, ts |-> TRUE, pad |-> TRUE, allow |-> [on |-> FALSE, names |-> <<>>]]
        /\ A!Init
Grow == /\ done = Len(items) /\ Len(items) < Len(Start) + N
        /\ \E x \in Pools(items) \cup {SubTop(0), SubTop(3)} :
             items' = Append(items, x) /\ inp' = inp \o EncItem(x)
        /\ UNCHANGED <<done, ending, cfg, phase, pos, formats, subs, multi, limit, out>>
Read == /\ done < Len(items) /\ done' = done + 1 /\ UNCHANGED <<items, inp, ending, cfg>>
        /\ A!Next
        /\ (done' = Len(Start) + N) => PrintT(<<"B", ToJson(items)>>)
Next == Grow \/ Read
\* what is read is what was written
ReadsBack == done > 0 => out = items[done]
\* and nothing is left over
Framed == done = Len(items) => pos = Len(inp)
Progress == done < Len(items) => ENABLED A!Next
=============================================================================
