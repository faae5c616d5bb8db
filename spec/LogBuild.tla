------------------------------- MODULE LogBuild -------------------------------
(***************************************************************************)
(* The records a log writer produces, for the small-scope models.           *)
(***************************************************************************)
EXTENDS ULogCodec

F(n, ty, arr) == [n |-> n, ty |-> ty, arr |-> arr]
TS == F("timestamp", "uint64_t", "")
T8(n) == <<n, 0, 0, 0, 0, 0, 0, 0>>
\* pool entries: kind, bytes, and what is needed to state the properties
E0 == [k |-> "", b |-> <<>>, ok |-> TRUE, id |-> 0, m |-> 0, name |-> "", fs |-> <<>>]
fmtE(name, fs) == [E0 EXCEPT !.k = "fmt", !.name = name, !.fs = fs,
                   !.b = Record(70, Content([t |-> "fmt", name |-> name, fields |-> fs]))]
subE(m, id, name) == [E0 EXCEPT !.k = "sub", !.id = id, !.m = m, !.name = name,
                      !.b = Record(65, <<m>> \o LE16(id) \o BytesOf(name))]
unsubE(id) == [E0 EXCEPT !.k = "unsub", !.id = id, !.b = Record(82, LE16(id))]
dataE(id, body) == [E0 EXCEPT !.k = "data", !.id = id, !.b = Record(68, LE16(id) \o body)]
rawE(k, ty, body) == [E0 EXCEPT !.k = k, !.b = Record(ty, body)]
bad(e) == [e EXCEPT !.ok = FALSE]
badsub(body) == [E0 EXCEPT !.k = "sub", !.ok = FALSE, !.b = Record(65, body)]
keyed(txt) == <<Len(txt)>> \o BytesOf(txt)
infoE == rawE("info", 73, keyed("uint16_t k") \o <<7, 128>>)
minfoE == rawE("minfo", 77, <<1>> \o keyed("char[2] mk") \o <<200, 65>>)
paramE == rawE("param", 80, keyed("float p") \o <<1, 0, 128, 127>>)
dparamE == rawE("dparam", 81, <<3>> \o keyed("int32_t q") \o <<0, 0, 0, 128>>)
logE == rawE("log", 76, <<54>> \o T8(9) \o <<195, 169>>)
tlogE == rawE("tlog", 67, <<48>> \o <<1, 128>> \o T8(9) \o <<65>>)
dropE == rawE("drop", 79, <<255, 1>>)
opE == rawE("unh", 83, <<1, 2, 3>>)
flagsE(incompat1, o1, o2, o3) ==
  rawE("flags", 66, <<1, 0, 0, 0, 0, 0, 0, 0>> \o <<incompat1, 0, 0, 0, 0, 0, 0, 0>>
                    \o T8(o1) \o T8(o2) \o T8(o3))

HeaderB == Magic \o <<1>> \o T8(77)
=============================================================================
