"""Message sets of users: as Rust source for the derive harness, as data for the specification."""
import random
PT = dict(u8="uint8_t", u16="uint16_t", u32="uint32_t", u64="uint64_t", i8="int8_t", i16="int16_t", i32="int32_t",
          i64="int64_t", f32="float", f64="double", bool="bool", char="char")
KINDS = list(PT)


def rtype(k):
    return "yule_log::model::CChar" if k == "char" else k


class Fld:
    """k: a scalar kind, "a" + kind for a vector of it, "s"/"as" with st for nested structs"""

    def __init__(self, f, k, n=None, opt=False, st=None):
        self.f, self.k, self.n, self.opt, self.st, self.renamed = f, k, n or f.replace("r#", ""), opt, st, n is not None

    def rust(self, path):
        st = path.get(self.st)
        t = {"s": st, "as": f"Vec<{st}>"}.get(self.k) or (
            rtype(self.k) if self.k in PT else f"Vec<{rtype(self.k[1:])}>")
        a = f'#[yule_log(field_name = "{self.n}")] ' if self.renamed else ""
        return f"    {a}pub {self.f}: {'Option<' + t + '>' if self.opt else t},"

    def spec(self):
        return dict(f=self.f, n=self.n, opt=self.opt, k=self.k, st=self.st or "")


class St:
    def __init__(self, name, fields, sub=None, default_sub=None, multi=None, vis="pub", place=None):
        """sub: subscription_name attribute; default_sub: what the name stands for without it;
        place: the module it is in, when that is another one"""
        self.name, self.fields, self.attr, self.multi, self.vis, self.place = name, fields, sub, multi, vis, place
        self.sub = sub or default_sub
        assert self.sub

    def rust(self, path):
        at = []
        if self.attr:
            at.append(f'subscription_name = "{self.attr}"')
        if self.multi is not None:
            at.append(f"multi_id = {self.multi}")
        a = f"#[yule_log({', '.join(at)})]\n" if at else ""
        show = "".join(f'        p.field(o, "{f.f}", {"self." + f.f + ".as_ref()" if f.opt else "Some(&self." + f.f + ")"});\n' for f in self.fields)
        pre, post = (f"pub mod {self.place} {{\nuse yule_log::ULogData;\n", "}\n") if self.place else ("", "")
        return (f"{pre}#[derive(ULogData)]\n{a}{self.vis} struct {self.name} {{\n" + "\n".join(f.rust(path) for f in self.fields) + "\n}\n"
                f"impl crate::show::St for {self.name} {{\n    fn show(&self, o: &mut String) {{\n"
                f"        let mut p = crate::show::Fields::start(o);\n{show}        p.end(o);\n    }}\n}}\n{post}")

    def spec(self):
        return dict(sub=self.sub, multi=self.multi or 0, fields=[f.spec() for f in self.fields])


class Enum:
    def __init__(self, name, vars, fwd=None, fwd_first=False, vis="pub", alias=()):
        self.name, self.vars, self.fwd, self.fwd_first, self.vis, self.alias = name, vars, fwd, fwd_first, vis, alias

    def rust(self, path):
        pre = "".join(f"type {self.name}{v} = {path[s]};\n" for v, s in self.vars if v in self.alias)
        vs = [f"    {v}({self.name + v if v in self.alias else path[s]})," for v, s in self.vars]
        arms = [f'            {self.name}::{v}(s) => crate::show::mapped(o, "{v}", &s),' for v, _ in self.vars]
        if self.fwd:
            f = f"    #[yule_log(forward_other)]\n    {self.fwd}(yule_log::model::msg::UlogMessage),"
            vs = [f] + vs if self.fwd_first else vs + [f]
            arms.append(f'            {self.name}::{self.fwd}(m) => crate::show::forwarded(o, "{self.fwd}", &m),')
        return (pre + f"#[derive(ULogMessages)]\n{self.vis} enum {self.name} {{\n" + "\n".join(vs) + "\n}\n"
                f"impl crate::show::En for {self.name} {{\n    fn show(self, o: &mut String) {{\n        match self {{\n"
                + "\n".join(arms) + "\n        }\n    }\n}\n"
                f"pub fn run_{self.name.lower()}<R: std::io::Read + 'static>(a: &crate::Args, rd: R) -> crate::show::Opened {{\n"
                f"    crate::open!({self.name}, a, rd)\n}}\n")


class Mod:
    def __init__(self, name, structs, enums):
        self.name, self.structs, self.enums = name, structs, enums

    def rust(self):
        return (f"pub mod {self.name} {{\nuse yule_log::{{ULogData, ULogMessages}};\n"
                + "".join(s.rust(self.paths()) for s in self.structs) + "".join(e.rust(self.paths()) for e in self.enums) + "}\n")

    def paths(self):
        return {s.name: f"crate::sets::{self.name}::{s.place}::{s.name}" if s.place else
                f"crate::sets::{self.name}::{s.name}" if any(x.place for x in self.structs) else s.name for s in self.structs}

    def sets(self):
        for e in self.enums:
            yield f"{self.name}_{e.name}", dict(
                fwd=e.fwd or "", vars=[dict(var=v, st=s) for v, s in e.vars],
                structs={s.name: s.spec() for s in self.structs})


def F(f, k, n=None, opt=False, st=None):
    return Fld(f, k, n, opt, st)


def O(f, k, n=None, st=None):
    return Fld(f, k, n, True, st)


TS = F("timestamp", "u64")


def fixed():
    yield Mod("plain", [
        St("VehicleLocalPosition", [TS, F("x", "f32"), F("y", "f32"), O("z", "f32"), O("not_there", "u64")], default_sub="vehicle_local_position"),
        St("ActuatorOutputs", [TS, F("output", "af32")], default_sub="actuator_outputs", multi=0)],
        [Enum("LoggedMessages", [("VehicleLocalPosition", "VehicleLocalPosition"), ("ActuatorOutputs", "ActuatorOutputs")], "Other")])
    yield Mod("model", [  # the sets of MCDerive
        St("Aa", [TS, F("x", "u8"), O("w", "i16")], sub="a"),
        St("Ab", [F("val", "u8", "x")], sub="a", multi=1),
        St("B", [F("y", "i16"), O("q", "u8")], default_sub="b")],
        [Enum("Fw", [("First", "Aa"), ("Second", "Ab"), ("Third", "B")], "Rest"),
         Enum("Nf", [("Third", "B"), ("Second", "Ab")])])
    # names of enums, variants and structs; the forward variant first; two sets over the same structs
    yield Mod("naming", [
        St("VehicleGPSPosition", [TS, F("lat", "i32"), F("lon", "i32", "long")], default_sub="vehicle_gps_position"),
        St("Imu", [F("gyro", "af32", "gyro_rad"), TS], sub="sensor_combined", multi=2),
        St("Data", [F("d", "u8")], default_sub="data"),
        St("SOMEThing", [F("d", "u16"), O("e", "au8")], sub="SomeThing_X9")],
        [Enum("Telemetry", [("Ok", "VehicleGPSPosition"), ("None", "Imu"), ("LoggedData", "Data")], "Unknown", fwd_first=True),
         Enum("T2", [("Ignored", "Imu"), ("Some", "SOMEThing")], "AddSubscription"),
         Enum("OtherMessages", [("Other", "Data")], "Err"),
         Enum("Quiet", [("Other", "VehicleGPSPosition"), ("Info", "SOMEThing"), ("Data", "Data")])])
    # every kind of value
    yield Mod("kinds", [
        St("Scalars", [F("s_" + k, k) for k in KINDS], default_sub="scalars"),
        St("Vectors", [F("v_" + k, "a" + k) for k in KINDS], default_sub="vectors"),
        St("OptScalars", [O("s_" + k, k) for k in KINDS], default_sub="opt_scalars"),
        St("OptVectors", [O("v_" + k, "a" + k, "w_" + k) for k in KINDS], default_sub="opt_vectors", multi=255)],
        [Enum("Kinds", [("S", "Scalars"), ("V", "Vectors"), ("Os", "OptScalars"), ("Ov", "OptVectors")], "Raw"),
         Enum("KindsOnly", [("Ov", "OptVectors"), ("Os", "OptScalars"), ("V", "Vectors"), ("S", "Scalars")])])
    # nesting
    yield Mod("nesting", [
        St("Leaf", [F("a", "u8"), F("b", "ai16"), O("c", "f64")], default_sub="leaf"),
        St("Mid", [F("leaf", "s", st="Leaf"), O("leaves", "as", st="Leaf"), F("n", "u16", "count")], default_sub="mid"),
        St("Top", [TS, F("mids", "as", "mid_list", st="Mid"), O("one", "s", st="Mid"), F("tail", "bool")], default_sub="top"),
        St("TopTwo", [F("leaf", "s", "zz", st="Leaf"), O("other", "s", st="Leaf"), O("more", "as", "many", st="Mid")], sub="top", multi=1),
        St("Pads", [F("x", "u8"), O("p0", "au8", "_padding0"), O("p1", "u16", "_padding1")], default_sub="pads")],
        [Enum("Nested", [("Top", "Top"), ("Two", "TopTwo"), ("Pads", "Pads"), ("Leaf", "Leaf")], "Raw"),
         Enum("NestedQuiet", [("Two", "TopTwo"), ("One", "Top")])])
    # nested structs all of whose fields are optional: their formats may have other fields, or none
    yield Mod("absent", [
        St("Any", [O("a", "u8"), O("b", "ai16")], default_sub="any"),
        St("Some", [O("any", "s", st="Any"), O("anys", "as", st="Any")], default_sub="some"),
        St("Lists", [TS, F("anys", "as", st="Any"), F("any", "s", st="Any"), O("more", "as", st="Some")], default_sub="lists"),
        St("After", [F("anys", "as", "list", st="Some"), F("n", "u16")], sub="lists", multi=2)],
        [Enum("Absent", [("Lists", "Lists"), ("After", "After"), ("Any", "Any")], "Raw"),
         Enum("AbsentQuiet", [("After", "After"), ("Lists", "Lists")])])
    # members that share a field of the log
    yield Mod("sharing", [
        St("Twice", [TS, F("a", "u8", "v"), F("b", "u8", "v"), O("v", "u8"), O("again", "u8", "v"), O("ts", "u64", "timestamp")], default_sub="twice"),
        St("Lists2", [F("one", "af32", "list"), O("two", "af32", "list"), F("list", "af32"), O("other", "i16"), F("same", "i16", "other")], sub="twice", multi=1),
        St("Whole", [F("p", "s", "part", st="Twice"), F("q", "s", "part", st="Twice"), O("part", "s", st="Twice")], default_sub="whole")],
        [Enum("Sharing", [("Twice", "Twice"), ("Lists", "Lists2"), ("Whole", "Whole")], "Raw"),
         Enum("SharingQuiet", [("Lists", "Lists2"), ("Twice", "Twice")])])
    # field names that the generated code uses itself
    yield Mod("locals", [
        St("Names", [F(x, k) for x, k in zip(("format", "map", "missing", "result", "x", "x_index", "idx", "data", "field", "acc", "value",
                                              "get_field", "a", "f", "i", "name", "parser", "subs", "msg", "sub"), KINDS + KINDS)], default_sub="names"),
        St("Parser", [F("format", "u8"), O("format_index", "u8"), O("subs", "au8")], sub="parser")],
        [Enum("Accessor", [("Names", "Names"), ("Parser", "Parser")], "Format"),
         Enum("Handler", [("Parser", "Parser"), ("Names", "Names")])])
    # visibility, places, raw identifiers, messages that are all forwarded
    yield Mod("places", [
        St("Hidden", [TS, F("r#type", "u8"), O("r#match", "i16"), F("leaf", "s", st="InnerLeaf")], default_sub="hidden", vis=""),
        St("InnerLeaf", [F("a", "u8"), O("r#loop", "af32", "type")], default_sub="inner_leaf", place="inner"),
        St("Crate", [F("v", "u32", "r_type"), O("r#type", "u8", "match")], default_sub="crate", vis="pub(crate)", place="other"),
        St("Deep", [F("x", "i64"), F("r#struct", "bool")], sub="hidden", multi=3, place="deep")],
        [Enum("Mixed", [("Hidden", "Hidden"), ("Crate", "Crate"), ("Deep", "Deep"), ("Leaf", "InnerLeaf")], "Rest", vis="", alias=("Deep", "Leaf")),
         Enum("MixedQuiet", [("C", "Crate"), ("H", "Hidden")], vis="pub(crate)", alias=("H",)),
         Enum("All", [], "Everything")])


def rand_mod(r, name):
    words = ["alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta", "iota", "kappa", "mu", "nu"]
    used = set()

    def word(cap=False):
        while True:
            w = "_".join(r.sample(words, r.choice([1, 1, 2, 3])))
            w = "".join(x.capitalize() for x in w.split("_")) if cap else w
            if w not in used:
                used.add(w)
                return w
    structs, nest = [], []
    for i in range(r.randrange(2, 6)):
        fs, names = [], set()
        for _ in range(r.randrange(1, 8)):
            f = r.choice(words) + r.choice(["", "_x", "2", "_9"])
            if f in names:
                continue
            names.add(f)
            n = None
            if r.random() < .3:
                n = r.choice(["x", "y", "Pos", "val_1", "A", "timestamp", "zz"]) + r.choice(["", "q", "_7"])
                if n in names or n.startswith("timestamp"):
                    n = None
                else:
                    names.add(n)
            if fs and r.random() < .08:  # the field of another member
                x = r.choice(fs)
                if x.k[-1] != "s" or not x.st:
                    fs.append(Fld(f, x.k, x.n or x.f, r.random() < .4, x.st))
                    continue
            c = r.random()
            if nest and c < .3:
                fs.append(Fld(f, r.choice(["s", "as"]), n, r.random() < .35, r.choice(nest).name))
            else:
                fs.append(Fld(f, r.choice(["", "", "a"]) + r.choice(KINDS), n, r.random() < .35))
        if r.random() < .5:
            fs.insert(r.randrange(len(fs) + 1), Fld("timestamp", "u64"))
        w = word(True)
        snake = "".join("_" + c.lower() if c.isupper() else c for c in w).lstrip("_")
        sub = r.choice([None, None, word()])
        s = St(w, fs, sub=sub, default_sub=snake, multi=r.choice([None, None, 0, 1, 2, 255]),
               vis=r.choice(["pub", "pub", "pub(crate)"]), place=r.choice([None, None, None, "in_" + w.lower()]))
        structs.append(s)
        nest.append(s)
    if r.random() < .5:  # the same subscription, another instance
        s = r.choice(structs)
        structs.append(St(word(True), [Fld(x.f, x.k, x.n, r.random() < .5, x.st) for x in r.sample(s.fields, max(1, len(s.fields) - 1))],
                          sub=s.sub, multi=(s.multi or 0) ^ 1))
    enums = []
    for i in range(2):
        vs, seen = [], set()
        for s in r.sample(structs, r.randrange(1, len(structs) + 1)):
            if (s.sub, s.multi or 0) not in seen:
                seen.add((s.sub, s.multi or 0))
                vs.append((word(True), s.name))
        enums.append(Enum("E" + word(True), vs, word(True) if i == 0 or r.random() < .4 else None, r.random() < .5,
                          vis=r.choice(["pub", "pub(crate)"]), alias=[v for v, _ in vs if r.random() < .2]))
    return Mod(name, structs, enums)


def modules(r, nrand):
    return list(fixed()) + [rand_mod(r, f"rnd{i}") for i in range(nrand)]


def source(mods):
    sets = [n for m in mods for n, _ in m.sets()]
    arms = "".join(f'        "{m.name}_{e.name}" => {m.name}::run_{e.name.lower()}(a, rd),\n' for m in mods for e in m.enums)
    return ("".join(m.rust() for m in mods) + "pub fn dispatch<R: std::io::Read + 'static>(set: &str, a: &crate::Args, rd: R) -> crate::show::Opened {\n"
            "    match set {\n" + arms + "        _ => panic!(\"unknown set\"),\n    }\n}\n")
