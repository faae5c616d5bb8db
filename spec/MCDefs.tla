-------------------------------- MODULE MCDefs --------------------------------
(***************************************************************************)
(* A user writes a definition, part by part.  Every definition of up to N    *)
(* parts beyond the simplest is reached (and printed, for the real macros).  *)
(***************************************************************************)
EXTENDS DeriveDefs, TLC, Json, IOUtils
N == atoi(IOEnv.N)
VARIABLES d, n
T(b, w) == [b |-> b, w |-> w]
Fl(nm, ty) == [n |-> nm, attr |-> "none", an |-> "", ty |-> ty, raw |-> FALSE, full |-> FALSE]
A(k, v, s, x) == [k |-> k, v |-> v, s |-> s, n |-> x]
Names == {"Imu", "IMU", "Imu2", "IMU2", "Imu2X", "GPS2d", "A1b", "A1Bc", "X", "VehicleGPSPosition", "SOMEThing_X9", "a_B", "Foo__Bar", "lower", "ABc", "aBC", "_Lead", "T265Odometry"}
FieldTypes == {T(b, <<>>) : b \in Scalars} \cup {T("u8", w) : w \in Wraps} \cup {T("Nested", w) : w \in Wraps}
  \cup {T(b, <<>>) : b \in {"String", "u128", "usize", "array", "tuple", "ref", "char", "Msg", "Box"}}
  \cup {T("u8", <<"vec", "vec">>), T("u8", <<"opt", "opt">>), T("u8", <<"vec", "opt">>), T("i16", <<"opt", "vec">>), T("CChar", <<"vec">>), T("CChar", <<"opt">>),
        T("String", <<"opt">>), T("String", <<"vec">>)}
Fields == {Fl("f", t) : t \in FieldTypes}
  \cup {[Fl("g", T("f32", <<>>)) EXCEPT !.attr = a, !.an = "other"] : a \in {"name", "unknown", "notext", "word"}}
  \cup {[Fl("type", t) EXCEPT !.raw = TRUE] : t \in {T("u8", <<>>), T("i32", <<"opt">>), T("u8", <<"vec">>)}}
  \cup {[Fl("match", T("Nested", <<>>)) EXCEPT !.raw = TRUE, !.attr = "name", !.an = "mm"]}
  \cup {[Fl("h", t) EXCEPT !.full = TRUE] : t \in {T("u8", w) : w \in Wraps} \cup {T("Nested", <<"opt", "vec">>)}}
Attrs == {A("sub", "text", s, 0) : s \in {"my_topic", "X_y9", "Imu"}} \cup {A("sub", v, "", 0) : v \in {"notext", "word"}}
  \cup {A("multi", "number", "", x) : x \in {0, 1, 7, 255, 256, -1}} \cup {A("multi", v, "", 0) : v \in {"word", "nonumber"}}
  \cup {A("unknown", "text", "x", 0)}
Va(nm, ty) == [n |-> nm, shape |-> "one", attr |-> "none", ty |-> ty, how |-> "plain"]
Tys == {"A", "B", "C", "Msg", "String", "tuple", "Plain", "VecA"}
Vars == {Va("A", t) : t \in Tys} \cup {[Va("B", t) EXCEPT !.attr = a] : t \in {"A", "B", "Msg"}, a \in {"fwd", "fwd=true", "fwd=false", "unknown", "fwd=3"}}
  \cup {[Va("S", "A") EXCEPT !.shape = s, !.attr = a] : s \in {"two", "zero", "unit", "named"}, a \in {"none", "fwd"}}
  \cup {[Va("Ok", t) EXCEPT !.how = h] : t \in {"A", "B", "C"}, h \in {"path", "alias", "renamed"}}
Simplest == [def |-> "struct", item |-> "struct", gen |-> "none", shape |-> "named", vis |-> "pub", name |-> "Some", attrs |-> <<>>, fields |-> <<Fl("x", T("u8", <<>>))>>]
SimplestE == [def |-> "enum", item |-> "enum", gen |-> "none", vis |-> "pub", vs |-> <<>>]
Init == d \in {Simplest, SimplestE} /\ n = 0
Gens == {"type", "lifetime", "const", "where"}
Vis == {"", "pub(crate)"}
StructStep ==
  /\ d.def = "struct"
  /\ \/ \E f \in Fields : d.shape # "unit" /\ (\A i \in 1..Len(d.fields) : d.fields[i].n # f.n) /\ d' = [d EXCEPT !.fields = Append(@, f)]
     \/ \E a \in Attrs : Len(d.attrs) < 2 /\ d' = [d EXCEPT !.attrs = Append(@, a)]
     \/ \E g \in Gens : d.gen = "none" /\ d' = [d EXCEPT !.gen = g]
     \/ \E v \in Vis : d.vis = "pub" /\ d' = [d EXCEPT !.vis = v]
     \/ \E x \in Names : d.name = "Some" /\ d' = [d EXCEPT !.name = x]
     \/ \E i \in {"enum", "union"} : d.item = "struct" /\ d.shape = "named" /\ d' = [d EXCEPT !.item = i]
     \/ d.item = "struct" /\ d.shape = "named" /\ d' = [d EXCEPT !.shape = "tuple"]
     \/ d.item = "struct" /\ d.shape = "named" /\ d.fields = Simplest.fields /\ d' = [d EXCEPT !.shape = "unit", !.fields = <<>>]
EnumStep ==
  /\ d.def = "enum"
  /\ \/ \E v \in Vars : (\A i \in 1..Len(d.vs) : d.vs[i].n # v.n) /\ d' = [d EXCEPT !.vs = Append(@, v)]
     \/ \E g \in Gens : d.gen = "none" /\ d' = [d EXCEPT !.gen = g]
     \/ \E v \in Vis : d.vis = "pub" /\ d' = [d EXCEPT !.vis = v]
     \/ \E i \in {"struct", "union"} : d.item = "enum" /\ d' = [d EXCEPT !.item = i]
Next == n < N /\ n' = n + 1 /\ (StructStep \/ EnumStep)
vars == <<d, n>>
Spec == Init /\ [][Next]_vars
View == d

\* writing more never makes a definition acceptable that was not (but that the first field or variant may be missing)
Refused == [][Verdict(d) = "no" => Verdict(d') = "no"]_vars
Sound == /\ Verdict(d) = "yes" =>
              IF d.def = "struct"
              THEN /\ Multi(d) \in 0..255 /\ SubName(d) # ""
                   /\ \A i \in 1..Len(d.attrs) : d.attrs[i].k = "sub" => SubName(d) = d.attrs[i].s
                   /\ \A i \in 1..Len(d.attrs) : d.attrs[i].k = "multi" => Multi(d) = d.attrs[i].n
              ELSE /\ Len(SelectSeq(d.vs, Fwd)) <= 1
                   /\ \A i \in 1..Len(d.vs) : ~Fwd(d.vs[i]) => Result(d, Structs[d.vs[i].ty][1], Structs[d.vs[i].ty][2]) = d.vs[i].n
                   /\ Len(SelectSeq(d.vs, Fwd)) = 0 => Result(d, "zz", 0) = "-"
                   /\ Len(SelectSeq(d.vs, Fwd)) = 1 => Result(d, "zz", 0) = "ign"
         /\ d.def = "struct" => LET s == SnakeCase(d.name) IN SnakeCase(s) = s /\ \A i \in 1..Len(s) : ~IsUp(Ch(s, i))
Show == PrintT(<<"B", ToJson([d |-> d, sub |-> IF d.def = "struct" THEN SubName(d) ELSE "", v |-> Verdict(d)])>>)
Inv == Sound /\ Show
=============================================================================
