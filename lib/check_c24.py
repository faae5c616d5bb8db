"""C24: definitions given to the derive macros, accepted or refused by the real compiler, against DeriveDefs.tla."""
import concurrent.futures as cf, json, os, random, re, subprocess, zlib
import core
from core import TIER, SEED
from ulog import *

SUP = """#[allow(dead_code, unused)]
pub mod sup {
    #[derive(yule_log::ULogData, Debug, Clone)] pub struct Nested { pub v: u8 }
    #[derive(yule_log::ULogData)] pub struct A { pub timestamp: u64, pub x: u8 }
    pub mod m {
        #[derive(yule_log::ULogData)] #[yule_log(subscription_name = "b", multi_id = 1)] pub struct B { pub x: u8 }
        pub mod deep { #[derive(yule_log::ULogData)] pub struct C { pub x: u8 } }
    }
    pub struct Plain { pub x: u8 }
}
"""
# the same without the macros, for what the definitions look like without them
SUP_PLAIN = re.sub(r"#\[yule_log\(.*?\)\] ?", "", SUP.replace("yule_log::ULogData, ", "").replace("#[derive(yule_log::ULogData)]", ""))
HEAD = "#![allow(warnings)]\n"
USES = "use crate::sup; use crate::sup::{Nested, A, m::B, m::deep::C, Plain};"
C_TYPE = dict(u8="uint8_t", u16="uint16_t", u32="uint32_t", u64="uint64_t", i8="int8_t", i16="int16_t", i32="int32_t",
              i64="int64_t", f32="float", f64="double", bool="bool", CChar="char", Nested="nested")
RUST = dict(CChar="yule_log::model::CChar", array="[u8; 4]", tuple="(u8, u8)", ref="&'static u8",
            Msg="yule_log::model::msg::UlogMessage", Box="Box<u8>")


class Def:
    """One definition.  Everything that the specification leaves open (layout, other attributes,
    visibility of fields) is drawn from the definition itself."""

    def __init__(self, o):
        self.d, self.sub, self.verdict = o["d"], o["sub"], o["v"]
        self.key = json.dumps(self.d, sort_keys=True)
        self.got = self.out = None
        self.id = None

    def rnd(self):
        return random.Random(zlib.crc32(self.key.encode()) + SEED)

    def ty(self, t, full):
        s = RUST.get(t["b"], t["b"])
        for w in reversed(t["w"]):
            s = {"opt": "std::option::Option<%s>" if full else "Option<%s>", "vec": "std::vec::Vec<%s>" if full else "Vec<%s>"}[w] % s
        return s

    def attr(self, items, plain, r):
        if plain or not items:
            return ""
        if len(items) > 1 and r.random() < .5:
            return "".join(f"#[yule_log({i})] " for i in items)
        return f"#[yule_log({', '.join(items)})] "

    def gen(self):
        """generic parameters, where clause, what is needed for them to be used"""
        return dict(none=("", "", ""), type=("<T>", "", "std::marker::PhantomData<T>"), lifetime=("<'a>", "", "std::marker::PhantomData<&'a u8>"),
                    const=("<const N: usize>", "", ""), where=("", "where u8: Copy", ""))[self.d["gen"]]

    def text(self, plain=False):
        return (self.struct if self.d["def"] == "struct" else self.enum)(plain, self.rnd())

    def derive(self, which, plain, r):
        ds = [] if plain else [which]
        return f"#[derive({', '.join(ds)})] " if ds else ""

    def struct(self, plain, r):
        d = self.d
        at = []
        for a in d["attrs"]:
            k = dict(sub="subscription_name", multi="multi_id", unknown="topic")[a["k"]]
            at.append(dict(text=f'{k} = "{a["s"]}"', notext=f"{k} = 3", word=k, number=f"{k} = {a['n']}", nonumber=f'{k} = "many"')[a["v"]])
        g, where, used = self.gen()
        fields = []
        for f in d["fields"]:
            n = ("r#" if f["raw"] else "") + f["n"]
            fa = dict(none=[], name=[f'field_name = "{f["an"]}"'], unknown=[f'name = "{f["an"]}"'], notext=["field_name = 7"], word=["field_name"])[f["attr"]]
            doc = "/// A field.\n" if r.random() < .2 else ""
            fields.append(doc + self.attr(fa, plain, r) + r.choice(["", "pub "]) + f"{n}: {self.ty(f['ty'], f['full'])}")
        head = "/// A topic.\n" if r.random() < .3 else ""
        head += self.derive("yule_log::ULogData" if r.random() < .5 else "ULogData", plain, r) + self.attr(at, plain, r) + d["vis"] + " "
        if d["item"] == "enum":
            return head + f"enum {d['name']}{g} {where} {{ P{'(' + used + ')' if used else ''}, Q(u8) }}"
        if used:
            fields.append("_used: " + used)
        if d["item"] == "union":
            return head + f"union {d['name']}{g} {where} {{ {', '.join(fields)} }}"
        if d["shape"] == "unit":
            return head + f"struct {d['name']}{g} {where};"
        if d["shape"] == "tuple":
            tys = [self.ty(f["ty"], f["full"]) for f in d["fields"]] + ([used] if used else [])
            return head + f"struct {d['name']}{g} ({', '.join(tys)}) {where};"
        return head + f"struct {d['name']}{g} {where} {{ {', '.join(fields)} }}"

    def enum(self, plain, r):
        d = self.d
        g, where, used = self.gen()
        head = self.derive("yule_log::ULogMessages" if r.random() < .5 else "ULogMessages", plain, r) + d["vis"] + " "
        if d["item"] != "enum":
            return head + f"{d['item']} E{g} {where} {{ x: u8{', used: ' + used if used else ''} }}"
        vs, pre = [], ""
        for v in d["vs"]:
            a = dict(none=[], fwd=["forward_other"], **{"fwd=true": ["forward_other = true"], "fwd=false": ["forward_other = false"],
                     "unknown": ["forward"], "fwd=3": ["forward_other = 3"]})[v["attr"]]
            path = dict(A="sup::A", B="crate::sup::m::B", C="self::sup::m::deep::C").get(v["ty"], "")
            if v["how"] == "path":
                ty = path
            elif v["how"] == "alias":
                pre += f"type Al{v['n']} = {path}; "
                ty = "Al" + v["n"]
            elif v["how"] == "renamed":
                pre += f"use {path} as Re{v['n']}; "
                ty = "Re" + v["n"]
            else:
                ty = dict(Msg="yule_log::model::msg::UlogMessage" if r.random() < .5 else "UlogMessage", tuple="(A, A)", VecA="Vec<A>").get(v["ty"], v["ty"])
            body = dict(one=f"({ty})", two=f"({ty}, {ty})", zero="()", unit="", named=f" {{ s: {ty} }}")[v["shape"]]
            doc = "/// A variant.\n" if r.random() < .2 else ""
            vs.append(doc + self.attr(a, plain, r) + v["n"] + body)
        if used:
            vs.append(f"Used({used})")
        return pre + head + f"enum E{g} {where} {{ {', '.join(vs)} }}"

    def module(self, plain=False):
        macros = "" if plain else "use yule_log::{ULogData, ULogMessages}; use yule_log::model::msg::UlogMessage; "
        if plain:
            macros = "use crate::sup::UlogMessage; "
        return macros + USES + "\n" + self.text(plain)

    # ---- what an accepted definition then does
    def subs(self):
        if self.d["def"] == "enum":
            return [("a", 0), ("zz", 0), ("a", 1), ("b", 1), ("b", 0), ("c", 0)]
        names, ms = [self.sub, "zz", self.d["name"], self.d["name"].lower(), self.d["name"].lower() + "_", "my_topic"], [0, 1, 255, 7]
        names = [n for i, n in enumerate(names) if n not in names[:i]]
        return [(n, m) for n in names for m in ms]

    def formats(self):
        fs = [("uint64_t", None, "timestamp")]
        if self.d["def"] == "enum":
            return [("uint8_t", None, "x")] + fs
        for f in self.d["fields"]:
            n = f["an"] if f["attr"] == "name" else f["n"]
            fs.insert(len(fs) - 1, (C_TYPE[f["ty"]["b"]], 2 if "vec" in f["ty"]["w"] else None, n))
            if n != f["n"]:  # something else under the name that is not to be used
                fs.insert(0, ("double" if f["ty"]["b"] != "f64" else "uint8_t", None, f["n"]))
            if f["raw"]:
                fs.insert(0, ("double", None, "r_" + f["n"]))
        return fs

    def log(self):
        ns = [n for n, _ in self.subs()]
        F = Formats()
        F.f["nested"] = [("uint8_t", None, "v")]
        out = [header(1, 0), fmt("nested", F.f["nested"])]
        for n in dict.fromkeys(ns):
            F.f[n] = self.formats()
            out.append(fmt(n, F.f[n]))
        r = random.Random(3)
        for i, (n, m) in enumerate(self.subs()):
            out += [sub(i, n, m), data(i, F.body(r, n))]
        return b"".join(out)

    def runner(self):
        d = self.d
        if d["def"] == "struct":
            name = d["name"]
            deep = d["vis"] != "" and self.rnd().random() < .5
            opts = [("r#" if f["raw"] else "") + f["n"] for f in d["fields"] if f["ty"]["w"][:1] == ["opt"]]
            look = f"impl {name} {{ pub fn look(&self) -> bool {{ {' && '.join('self.%s.is_some()' % o for o in opts) or 'true'} }} }}\n"
            t = (f"mod deep {{ {self.module()}\n {look} }}\n" + "use yule_log::ULogMessages; use yule_log::model::msg::UlogMessage;\n") if deep \
                else self.module() + "\n" + look
            t += f"#[derive(ULogMessages)] enum M__ {{ V({'deep::' if deep else ''}{name}), #[yule_log(forward_other)] O(UlogMessage) }}\n"
            arms = 'M__::V(v) => if v.look() { "V" } else { "V?" },'
            e, fwd = "M__", "O"
        else:
            t = self.module() + "\n"
            e = "E"
            fwds = [v["n"] for v in d["vs"] if v["attr"] in ("fwd", "fwd=true")]
            fwd = fwds[0] if fwds else None
            arms = " ".join(f'E::{v["n"]}(_) => "{v["n"]}",' for v in d["vs"] if v["n"] != fwd)
        if fwd:
            arms += (f' {e}::{fwd}(m) => match m {{ UlogMessage::LoggedData(_) => "data", '
                     'UlogMessage::Ignored { msg_type } if msg_type == b\'D\' => "ign", _ => continue },')
        build = f"{e}::stream(file)" if self.rnd().random() < .5 else f"{e}::builder(file).stream()"
        t += (f"pub fn run(file: &[u8]) -> Vec<&'static str> {{ let mut out = Vec::new();\n"
              f" let s = match {build} {{ Ok(s) => s, Err(_) => return vec![\"refused\"] }};\n"
              f" for x in s.take(1000) {{ out.push(match x {{ Err(_) => \"err\", Ok(x) => match x {{ {arms} }} }}); }} out }}")
        return t


def toolchain():
    """builds yule_log; what rustc needs to use it"""
    d = os.path.join(core.ROOT, "harness", "defs")
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--message-format=json"], cwd=d, env=core.env(), capture_output=True, text=True, timeout=850)
    if p.returncode:
        raise core.ToolError("yule_log does not build:\n" + p.stderr[-3000:])
    for l in p.stdout.splitlines():
        o = json.loads(l)
        if o.get("reason") == "compiler-artifact" and o["target"]["name"] == "yule_log":
            lib = [f for f in o["filenames"] if f.endswith(".rlib")][0]
    deps = os.path.join(core.env()["CARGO_TARGET_DIR"], "debug", "deps")
    return ["-L", "dependency=" + deps, "--extern", "yule_log=" + lib]


def rustc(text, path, flags, kind):
    src = path + ".rs"
    with open(src, "w") as f:
        f.write(text)
    cmd = ["rustc", "--edition", "2021", "--crate-name", "d", *(["--crate-type", "lib", "--emit=metadata"] if kind == "lib" else ["-C", "debuginfo=0"]),
           "-o", path + (".rmeta" if kind == "lib" else ""), *flags, src]
    try:
        p = subprocess.run(cmd, env=core.env(), capture_output=True, text=True, timeout=200)
    except subprocess.TimeoutExpired:
        return "hang", ""
    if p.returncode < 0:
        return "abort", p.stderr[-2000:]
    return ("yes" if p.returncode == 0 else "no"), p.stderr[-3000:]


def judge(x, work, flags):
    """whether the compiler accepts the definition; None: it is not a definition even without the macros"""
    base = os.path.join(work, f"d{x.id}")
    if x.verdict == "no":
        plain = SUP_PLAIN.replace("pub struct Plain", "pub struct UlogMessage;\n    pub struct Plain")
        text = x.module(True).replace("yule_log::model::CChar", "u8").replace("yule_log::model::msg::UlogMessage", "crate::sup::UlogMessage")
        v, e = rustc(HEAD + plain + "pub mod d {\n" + text + "\n}", base + "p", [], "lib")
        if v != "yes":
            x.got = None
            x.err = e
            return
    x.got, x.err = rustc(HEAD + SUP + "pub mod d {\n" + x.module() + "\n}", base, flags, "lib")
    for s in (".rs", ".rmeta", "p.rs", "p.rmeta"):
        try:
            os.unlink(base + s)
        except FileNotFoundError:
            pass


def program(xs):
    main = "".join(f'"{x.id}" => m{x.id}::run(&f), ' for x in xs)
    return (HEAD + SUP + "".join(f"mod m{x.id} {{\n{x.runner()}\n}}\n" for x in xs) +
            'fn main() { for l in std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap().lines() {\n'
            ' let (id, hex) = l.split_once(\' \').unwrap();\n'
            ' let f: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();\n'
            ' let r = std::panic::catch_unwind(|| match id { ' + main + '_ => vec!["none"] });\n'
            ' println!("{} {}", id, r.unwrap_or(vec!["panic"]).join(" ")); } }\n')


def honour(xs, work, flags, name):
    """runs a log through each of the accepted definitions"""
    path = os.path.join(work, "h" + name)
    v, e = rustc(program(xs), path, flags, "bin")
    if v != "yes":
        if len(xs) == 1:
            xs[0].got, xs[0].err = v, e     # it cannot be used
            return
        # find out which of them it is
        for x in xs:
            judge(x, work, flags)
        ok = [x for x in xs if x.got == "yes"]
        if len(ok) == len(xs):
            k = len(xs) // 2
            honour(xs[:k], work, flags, name + "a")
            honour(xs[k:], work, flags, name + "b")
        elif ok:
            honour(ok, work, flags, name + "a")
        return
    for x in xs:
        x.got, x.err = "yes", ""
    with open(path + ".in", "w") as f:
        f.write("\n".join(f"{x.id} {x.log().hex()}" for x in xs) + "\n")
    try:
        p = subprocess.run([path, path + ".in"], capture_output=True, text=True, timeout=100)
        outs = dict((l.split(" ", 1) + [""])[:2] for l in p.stdout.splitlines() if " " in l)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        outs, rc = {}, -1
    for x in xs:
        x.out = outs[str(x.id)].split() if str(x.id) in outs else ["abort"]
    os.unlink(path)


def check():
    import reader_checks
    rep = core.Report("C24")
    rep.assumptions = ["the names that the generated code uses (std, yule_log, Vec, String, Option, Some, Ok, Err) are not shadowed where the macros are used",
                       "rustc decides what compiles; the edition is 2021"]
    work = core.scratch("C24")
    r = random.Random(SEED + 24)
    q = TIER == "quick"
    out, st = core.tlc("MCDefs", work, dict(N="2" if q else "3"), timeout=850)
    if not st["ok"]:
        raise core.ToolError("the specification itself violates C24:\n" + core.tail(out))
    rep.add_stats(st)
    xs = {}
    for b in re.findall(r'<<"B", "(.*)">>', out):
        x = Def(json.loads(json.loads('"' + b + '"')))
        xs[x.key] = x
    xs = [xs[k] for k in sorted(xs)]
    rep.cov["definitions_of_the_model"] = len(xs)

    def parts(x):       # how far it is from the simplest definition
        d = x.d
        if d["def"] == "enum":
            return len(d["vs"]) + (d["gen"] != "none") + (d["vis"] != "pub") + (d["item"] != "enum")
        return (len(d["fields"]) - 1 + len(d["attrs"]) + (d["gen"] != "none") + (d["vis"] != "pub") + (d["item"] != "struct")
                + (d["name"] != "Some") + (d["shape"] != "named"))
    one = [x for x in xs if parts(x) <= 1]
    two = [x for x in xs if parts(x) > 1]
    pick = {v: [x for x in one if x.verdict == v] for v in ("yes", "no")}
    for v, n in (("yes", 260 if q else 2600), ("no", 220 if q else 5000)):
        c = [x for x in two if x.verdict == v]
        e = [x for x in c if x.d["def"] == "enum"]
        s = [x for x in c if x.d["def"] == "struct"]
        pick[v] += r.sample(e, min(len(e), n // 2)) + r.sample(s, min(len(s), n // 2))
    flags = toolchain()
    for i, x in enumerate(pick["yes"] + pick["no"]):
        x.id = i + 1
    size = 30
    chunks = [pick["yes"][i:i + size] for i in range(0, len(pick["yes"]), size)]
    with cf.ThreadPoolExecutor(8) as ex:
        jobs = [ex.submit(honour, c, work, flags, str(i)) for i, c in enumerate(chunks)]
        jobs += [ex.submit(judge, x, work, flags) for x in pick["no"]]
        for j in jobs:
            j.result()
    not_rust = [x for x in pick["no"] if x.got is None]
    if len(not_rust) > len(pick["no"]) // 5:
        raise core.ToolError("too many definitions are not Rust:\n" + not_rust[0].text(True) + "\n" + not_rust[0].err)
    rep.cov["not_rust_without_the_macros"] = len(not_rust)
    todo = [x for x in pick["yes"] + pick["no"] if x.got is not None]
    rep.cov.update(definitions_compiled=len(todo), accepted_and_run=sum(x.out is not None for x in todo))
    runs = []
    for x in todo:
        ev = [dict(x=dict(t=x.got))]
        if x.out is not None:
            ev.append(dict(x=dict(t="stream", xs=x.out)))
        runs.append(dict(id=x.id, d=x.d, subs=[dict(name=n, m=m) for n, m in x.subs()], ev=ev))
    acc, st = core.validate(runs, work, module="DefsTrace")
    rep.add_stats(st)
    rep.traces += len(runs)
    rep.samples += [dict(definition=x.text(), verdict=x.got, stream=x.out) for x in todo[::max(1, len(todo) // 6)]]
    by = {x.id: x for x in todo}
    for run in runs:
        if run["id"] not in acc:
            x = by[run["id"]]
            what = (f"definition {'refused' if x.verdict == 'yes' else 'accepted'}: {x.text()}" if x.got != x.verdict else
                    f"accepted definition does something else: {x.text()}: {' '.join(x.out)}")
            rep.violation(what, dict(definition=x.text(), verdict=x.got, expected=x.verdict, errors=x.err, stream=x.out, subs=x.subs(),
                                     log=x.log().hex() if x.out else None, steps=core.diagnose(run, work, "DefsTrace")))
            if len(rep.viol) > 20:
                break
    # recorded runs that were tampered with are not accepted
    bad = []
    for run in r.sample(runs, min(300, len(runs))):
        if run["id"] not in acc:
            continue
        c = json.loads(json.dumps(run))
        s = c["ev"][-1]["x"]
        if s["t"] == "stream" and s["xs"] and r.random() < .7:
            i = r.randrange(len(s["xs"]))
            k = r.randrange(3)
            if k == 0:
                s["xs"][i] = "err"
            elif k == 1:
                del s["xs"][i]
            else:
                s["xs"][i] = "data" if s["xs"][i] == "ign" else "ign"
        else:
            c["ev"][0]["x"]["t"] = "no" if c["ev"][0]["x"]["t"] == "yes" else "yes"
        bad.append(c)
    if bad:
        acc, st = core.validate(bad, work, module="DefsTrace", name="bad")
        if acc:
            raise core.ToolError(f"{len(acc)} corrupted runs were accepted")
        rep.cov["corrupted_runs_rejected"] = len(bad)
    return rep.finish()
