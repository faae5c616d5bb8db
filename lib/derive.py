"""C13, C14, C26: streams derived for users' message sets, against ULogDerive.tla."""
import json, os, random, re
import core, gens, schemas
from core import TIER, SEED
from cases import Case
from ulog import *


class DCase(Case):
    """A derived stream over a log; the reference is the low-level parser with the inner configuration."""

    def __init__(self, file, name, spec, ops=None, note="", ending="eof", args=None):
        super().__init__(file, ending=ending, args=args, note=note)
        self.set, self.spec, self.ops = name, spec, ops
        self.args["set"] = name
        if ops is None:
            self.args["mode"] = "stream"
        elif ops:
            self.args["ops"] = ",".join(f"{o}:{'+'.join(ns) if o != 'fs' else int(v)}" for o, ns, v in ops)
        allow = [spec["structs"][v["st"]]["sub"] for v in spec["vars"]]
        for o, ns, v in ops or []:
            allow += ns
        self.ref = Case(file, ts=True, pad=True, allow=allow, ending=ending)

    def run(self, prop, ref=None):
        d = super().run(prop, ref)
        del d["cfg"]
        d["set"] = self.set
        if prop == "C17":
            d["same"] = [e["x"] for e in ref.result["ev"]]
            del d["ref"]
        if prop == "C26":
            none = dict(k="", b=[], nums=[], names=[])
            d["why"] = [e.get("err", none) for e in ref.result["ev"]]
            del d["ref"]
        d["ops"] = [dict(o=o, names=list(ns), v=bool(v)) for o, ns, v in self.ops or []]
        if prop == "C13":
            d["ev"] = [e for e in d["ev"] if e["x"]["t"] != "fwd"]
        return d


class DLog(Gen):
    """A log for a message set: formats that do, or almost do, what its structs need."""

    def __init__(self, r, spec, nrec=24, flawed=.4):
        self.r, self.canon, self.spec, self.dead = r, False, spec, .3
        self.F, self.tops, self.recs, self.live = Formats(), [], [], {}
        self.hdr = header(1, r.randrange(2 ** 32))
        self.flaw = r.choice([.04, .15]) if r.random() < flawed else 0
        self.seq = 0
        by = {}
        for s in spec["structs"].values():
            by.setdefault(s["sub"], []).append(s)
        order = list(by)
        self.multis = {n: [s["multi"] for s in by[n]] for n in order}
        for n in order:
            if n in self.F.f:
                continue
            self.define(n, by[n], True)
        # names that the set does not map
        for n in r.sample(["extra_one", "b2", "zz", "other_topic"], r.randrange(1, 4)):
            if n not in self.F.f:
                self.F.f[n] = [("uint64_t", None, "timestamp"), (r.choice(PRIM), r.choice([None, 2]), "v")]
                self.tops.append(n)
                self.multis[n] = [0]
        self.extras = [n for n in self.tops if n not in by]
        names = list(self.F.f)
        r.shuffle(names)
        if r.random() < .1:
            self.add("B", flags())
        for n in names:
            self.add("F", fmt(n, self.F.f[n]), n)
            if r.random() < .1:
                self.meta(defs=True)
        odd = r.random() < .3
        if odd:  # formats of unmapped names that cannot be decoded
            for n, fs in r.sample(gens.ODD[:9], 3):
                if n not in self.F.f and all(x[2] != n for x in self.recs):
                    self.F.f[n] = [f for f in fs if f[0] in W] or [("uint8_t", None, "q")]
                    self.tops.append(n)
                    self.multis[n] = [0]
                    self.extras.append(n)
                    self.add("F", fmt(n, fs), n)
        self.ndefs = len(self.recs)
        self.ids = r.sample(IDS, r.choice([2, 3, 4]))
        for _ in range(r.choice([1, 2, 4])):
            self.addsub()
        kinds = ["sub"] * 3 + ["data"] * 9 + ["unsub"] + (["I", "L", "O", "op"] if r.random() < .7 else [])
        for _ in range(nrec):
            self.step(r.choice(kinds))

    def define(self, name, structs, top):
        r = self.r
        fs, pads, near = {}, [], []
        for s in r.sample(structs, len(structs)):
            for f in s["fields"]:
                if f["n"] in fs:
                    continue
                if r.random() < (.4 if f["opt"] else self.flaw):
                    if r.random() < .6:  # something that is almost called like it
                        near.append((f["n"], self.field(f)))
                    continue
                fs[f["n"]] = self.field(f)
        out = [(ty, arr, n) for n, (ty, arr) in fs.items() if not n.startswith("_padding")]
        pads = [(ty, arr, n) for n, (ty, arr) in fs.items() if n.startswith("_padding")]
        r.shuffle(out)
        for n, (ty, arr) in near:
            m = r.choice([n.upper(), n.lower(), n.capitalize(), n + "_", "_" + n, n + "2", "my_" + n, n[:-1], n[1:], n.replace("_", ""),
                          n.title().replace("_", ""), n[:1].lower() + n[1:], n + n])
            if m and not m[0].isdigit() and not m.startswith("_padding") and m not in fs and m not in [x[2] for x in out] and m != "timestamp" \
                    and not any(f["n"] == m for s in structs for f in s["fields"]):
                out.insert(r.randrange(len(out) + 1), (ty, arr, m))
        for i in range(r.choice([0, 0, 1, 3])):
            out.insert(r.randrange(len(out) + 1), (r.choice(PRIM), r.choice([None, None, 0, 3]), f"unmapped_{i}"))
        if top and not any(n == "timestamp" for _, _, n in out) and r.random() >= self.flaw:
            out.insert(r.randrange(len(out) + 1), ("uint64_t", None, "timestamp"))
        if r.random() < .3 and not pads:
            out.insert(r.randrange(len(out) + 1), ("uint8_t", r.choice([1, 2, 3]), "_padding0"))
            if r.random() < .5:
                pads.append(("uint8_t", r.choice([1, 2, 5]), "_padding1"))
        elif not top and not pads and r.random() < .3:
            pads.append(("uint8_t", r.choice([1, 2, 3]), "_padding0"))
        self.F.f[name] = out + pads
        if top:
            self.tops.append(name)

    def field(self, f):
        r = self.r
        k = f["k"]
        wrong = r.random() < self.flaw and f["n"] != "timestamp"
        if k in ("s", "as"):
            if wrong and r.random() < .5:
                return r.choice([("uint8_t", 4), ("uint32_t", None), ("char", 2)])
            self.seq += 1
            n = r.choice(["n", "part_", "Zed"]) + str(self.seq)
            self.define(n, [self.spec["structs"][f["st"]]], False)
            isarr = (k == "as") != wrong
            return n, (r.choice([0, 1, 2, 3]) if isarr else None)
        base, isarr = (k[1:], True) if k[0] == "a" else (k, False)
        if wrong:
            c = r.random()
            if c < .35:
                isarr = not isarr
            else:  # another type, preferably of the same width
                w = W[schemas.PT[base]]
                base = r.choice([b for b in schemas.KINDS if b != base and (c < .6 or W[schemas.PT[b]] == w)])
        return schemas.PT[base], (r.choice([0, 1, 1, 2, 3, 5]) if isarr else None)

    def addsub(self):
        r = self.r
        name = r.choice(self.tops)
        multi = r.choice(self.multis[name] * 3 + [0, 1, 2, 255])
        mid = r.choice(self.ids)
        self.live[mid] = (name, multi)
        self.add("A", sub(mid, name, multi), (mid, name, multi))


def use(r, spec, log):
    """what the user does with the builder; None: Enum::stream"""
    if r.random() < .25:
        return None
    ops = []
    extras = (log.extras if log else ["c", "zz"]) + ["nosuch"] + [s["sub"] for s in spec["structs"].values()][:2]
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        c = r.random()
        if not spec["fwd"] and r.random() < .6:
            break
        if c < .35:
            ops.append(("add", [r.choice(extras)], False))
        elif c < .6:
            n = r.sample(extras, r.randrange(0 if spec["fwd"] else 1, len(extras) + 1))
            ops.append(("ext", n, False))
        elif c < .9 or not spec["fwd"]:
            ops.append(("fs", [], True))
        else:
            ops.append(("fs", [], False))
    return ops


def reader_args(r):
    a = {}
    if r.random() < .3:
        a["chunks"] = ",".join(str(r.choice([1, 2, 3, 7, 60])) for _ in range(4))
        if r.random() < .3:
            a.update(intr=r.choice([2, 3]), burst=r.choice([1, 2, 5, 30, 300]))
    return a


def random_cases(r, sets, n):
    names = sorted(sets)
    for i in range(n):
        name = names[i % len(names)]
        spec = sets[name]
        lg = DLog(r, spec, nrec=r.choice([10, 24, 40]))
        f = lg.file()
        if r.random() < .25:
            f = gens.with_bad(r, lg, .15)[0]
        elif r.random() < .1:
            f = gens.appended(r, f)
        ending = "eof"
        if r.random() < .1:
            f = f[:r.randrange(len(f) // 2, len(f))]
        if r.random() < .05:
            ending = "fail"
        yield DCase(f, name, spec, use(r, spec, lg), "log for " + name, ending, reader_args(r))


def exact_cases(sets):
    """Every struct, every field: the log as it should be; without the field; with each other type of it."""
    for name in sorted(sets):
        spec = sets[name]
        if name.startswith("rnd"):
            continue
        for v in spec["vars"]:
            s = spec["structs"][v["st"]]

            class R(random.Random):
                pass
            base = DLog(random.Random(5), spec, nrec=0, flawed=0)
            F = base.F
            fs0 = []
            fields = list({f["n"]: f for f in s["fields"][::-1]}.values())[::-1]
            for f in fields:
                if f["k"] in ("s", "as"):
                    n = next(k for k, x in F.f.items() if k == "nested_" + f["st"]) if "nested_" + f["st"] in F.f else None
                    if n is None:
                        n = "nested_" + f["st"]
                        nest(F, spec, f["st"])
                    fs0.append((n, 2 if f["k"] == "as" else None, f["n"]))
                else:
                    a = f["k"][0] == "a"
                    fs0.append((schemas.PT[f["k"][1:] if a else f["k"]], 2 if a else None, f["n"]))
            hasts = any(f[2] == "timestamp" for f in fs0)
            variants = [(fs0, ("as is", v["st"])), (fs0[::-1], ("reversed", v["st"]))]
            # without most of the fields
            for keep in [fs0[:0], fs0[:1], fs0[-1:], fs0[::2], fs0[1::2]]:
                variants.append((keep + [f for f in fs0 if f[2] == "timestamp" and f not in keep], None))
            for i, f in enumerate(fs0):
                if f[2] == "timestamp":
                    continue
                g = fields[i]
                what = (g["k"], g["opt"])
                variants.append((fs0[:i] + fs0[i + 1:], what + ("missing",)))
                variants.append((fs0[:i] + [(f[0], None if f[1] else 1, f[2])] + fs0[i + 1:], what + ("array or not",)))
                variants.append((fs0[:i] + [(f[0], 0, f[2])] + fs0[i + 1:], what + ("array of none",)))
                for p in PRIM:
                    if p != f[0]:
                        variants.append((fs0[:i] + [(p, f[1], f[2])] + fs0[i + 1:], what + (p,)))
            # the same for the fields of nested structs, one level at a time
            deep = []
            for i, f in enumerate(fs0):
                if fields[i]["k"] in ("s", "as"):
                    for alt, formats in altered(F, f[0], 2):
                        deep.append((fs0[:i] + [(alt, f[1], f[2])] + fs0[i + 1:], formats, None))
            for fs, formats, what in [(x, {}, w) for x, w in variants] + deep:
                for n in [n for n in F.f if n.startswith("alt_")]:
                    del F.f[n]
                F.f.update(formats)
                fs = fs if hasts else [("uint64_t", None, "timestamp")] + fs
                F.f[s["sub"]] = fs
                rr = random.Random(len(fs))
                out = [header(1, 0)] + [fmt(n, F.f[n]) for n in F.f] + [sub(1, s["sub"], s["multi"])]
                bs = [F.body(rr, s["sub"], False) for _ in range(2)]
                out += [data(1, b) for b in bs + [bytes(len(bs[0])), b"\1" * len(bs[0])]] + [log("x")]
                if any(f[2].startswith("_padding") for f in fs):
                    b = F.body(rr, s["sub"], False)
                    out += [data(1, b[:k]) for k in range(len(b))]
                c = DCase(b"".join(out), name, spec, [], f"{v['st']} exactly or all but")
                c.what = what
                yield c


def scale_cases(r, sets, q):
    """formats of very many fields, vectors of very many elements, the same subscription under very many ids"""
    for name in sorted(sets):
        spec = sets[name]
        if name.startswith("rnd") or not spec["vars"] or (q and r.random() < .3 and name != "plain_LoggedMessages"):
            continue
        v = r.choice(spec["vars"])
        s = spec["structs"][v["st"]]
        fields = {f["n"]: f for f in s["fields"]}.values()
        for what in ("fields", "elements", "ids"):
            F = DLog(r, spec, nrec=0, flawed=0).F
            fs = []
            for f in fields:
                if f["k"] in ("s", "as"):
                    nest(F, spec, f["st"])
                    fs.append(("nested_" + f["st"], (r.choice([70, 300]) if what == "elements" else 2) if f["k"] == "as" else None, f["n"]))
                else:
                    a = f["k"][0] == "a"
                    fs.append((schemas.PT[f["k"][1:] if a else f["k"]], (r.choice([257, 1025, 1025]) if what == "elements" and r.random() < .6 else 2) if a else None, f["n"]))
            if what == "fields":
                more = [(r.choice(PRIM), r.choice([None, None, 1]), f"unmapped_{i}") for i in range(r.choice([130, 300]))]
                fs = fs[:len(fs) // 2] + more + fs[len(fs) // 2:]
            if not any(f[2] == "timestamp" for f in fs):
                fs.insert(0, ("uint64_t", None, "timestamp"))
            F.f[s["sub"]] = fs
            if F.size(s["sub"]) > 60000:
                continue
            n = 2 if what != "ids" else 90 if q else r.choice([300, 1000])
            out = [header(1, 0)] + [fmt(x, F.f[x]) for x in F.f] + [sub(300 - i if n < 300 else i, s["sub"], s["multi"]) for i in range(n)]
            for i in range(n) if n < 3 else [0, 1, n // 2, n - 2, n - 1]:
                out.append(data(300 - i if n < 300 else i, F.body(r, s["sub"], False)))
            if any(len(x) > 65538 for x in out):
                continue
            yield DCase(b"".join(out), name, spec, r.choice([None, []]), "very many " + what)


def first_of_each(r, cases):
    """one case of each kind of field and what became of it, and all that are of no such kind"""
    cases, seen, out = r.sample(cases, len(cases)), set(), []
    for c in cases:
        if c.what is None or c.what not in seen:
            seen.add(c.what)
            out.append(c)
    return out


def altered(F, n, depth):
    """formats that are like n but for one field, which is missing or of another type"""
    fs = F.f[n]
    alts = [([], {}), (fs + [("int16_t", 2, "further")], {}), ([("char", 3, "further")], {})]
    for j, g in enumerate(fs):
        alts.append((fs[:j] + fs[j + 1:], {}))
        alts.append((fs[:j] + [(g[0], None if g[1] else 1, g[2])] + fs[j + 1:], {}))
        alts.append((fs[:j] + [(g[0], 0, g[2])] + fs[j + 1:], {}))
        alts.append((fs[:j] + [("uint8_t" if g[0] != "uint8_t" else "char", g[1], g[2])] + fs[j + 1:], {}))
        alts.append((fs[:j] + [(g[0], g[1], g[2] + "_")] + fs[j + 1:], {}))
        if depth > 1 and g[0] in F.f:
            for alt, formats in altered(F, g[0], depth - 1):
                alts.append((fs[:j] + [(alt, g[1], g[2])] + fs[j + 1:], formats))
    for a, formats in alts:
        name = f"alt_{depth}"
        yield name, {**formats, name: a}


def nest(F, spec, st):
    n = "nested_" + st
    if n in F.f:
        return
    fs = []
    for f in {f["n"]: f for f in spec["structs"][st]["fields"]}.values():
        if f["k"] in ("s", "as"):
            nest(F, spec, f["st"])
            fs.append(("nested_" + f["st"], 1 if f["k"] == "as" else None, f["n"]))
        else:
            a = f["k"][0] == "a"
            fs.append((schemas.PT[f["k"][1:] if a else f["k"]], 1 if a else None, f["n"]))
    F.f[n] = fs[::-1]


def model_cases(r, work, rep, sets, path, scen, n, take):
    out, st = core.tlc("MCDerive", work, dict(N=str(n), SCEN=scen, SCHEMAS=path), timeout=850)
    if not st["ok"]:
        raise core.ToolError("the specification itself violates C13/C14:\n" + core.tail(out))
    rep.add_stats(st)
    bs = sorted(set(re.findall(r'<<"B", "(.*)">>', out)))
    rep.cov["model_behaviours_" + scen] = len(bs)
    rep.cov["model_bound_records_" + scen] = n
    for b in (bs if len(bs) <= take else r.sample(bs, take)):
        o = json.loads(json.loads('"' + b + '"'))
        ops = [(x["o"], x["names"], x["v"]) for x in o["ops"]]
        yield DCase(bytes(o["file"]), o["set"], sets[o["set"]], ops or r.choice([None, []]), "behaviour of the model")


def sample_cases(sets, maxrec):
    for n, b in gens.sample_logs(maxrec):
        for ops in (None, [("add", ["vehicle_attitude"], False), ("fs", [], True)]):
            yield DCase(b, "plain_LoggedMessages", sets["plain_LoggedMessages"], ops, "sample " + n)


def corrupt(prop, r, run):
    run = json.loads(json.dumps(run))
    ev = run["ev"]
    if prop == "C26":
        errs = [e for e in ev if "err" in e]
        if not errs:
            return None
        e = r.choice(errs)["err"]
        e.update(r.choice([dict(k="Other"), dict(k="InvalidConfiguration" if e["k"] != "InvalidConfiguration" else "TypeMismatch"),
                           dict(k="InvalidFieldName", names=["x"]), dict(k="UndefinedFormat", b=[1, 2])]))
        return run
    maps = [e for e in ev if e["x"]["t"] == "map"]
    fwds = [e for e in ev if e["x"]["t"] == "fwd"]
    if prop == "C13":
        if not maps:
            return None
        e = r.choice(maps)
        f = r.choice(e["x"]["v"])
        c = r.randrange(3)
        if c == 0 and f["v"]["b"]:
            f["v"]["b"][-1] ^= 1
        elif c == 1:
            f["p"] ^= 1
        else:
            e["x"] = dict(t="err")
        return run
    c = r.randrange(4)
    if c == 0 and maps:
        r.choice(maps)["x"]["var"] += "q"
    elif c == 1 and fwds:
        r.choice(fwds)["x"]["x"] = dict(t="ign", mt=0)
    elif c == 2 and (maps + fwds):
        ev.remove(r.choice(maps + fwds))
    elif c == 3 and maps:
        r.choice(maps)["x"] = dict(t="fwd", var=run["set"], x=dict(t="err"))
    else:
        return None
    return run


def build(prop, rep, r):
    """The harness with as many of the message sets as compile.  A set that does not compile is a
    violation: of C13 when it is the struct's derive, of C14 when it is the enum's."""
    d = os.path.join(core.BUILD, "derive")
    os.makedirs(d, exist_ok=True)
    src, spec = os.path.join(d, "schema.rs"), os.path.join(d, "sets.json")
    mods = schemas.modules(random.Random(SEED * 31 + 7), 6 if TIER == "quick" else 24)
    bad = []
    for attempt in range(4):
        text = schemas.source(mods)
        if not os.path.exists(src) or open(src).read() != text:
            with open(src, "w") as f:
                f.write(text)
        os.environ["VH_SCHEMA"] = src
        rc, path, log = core.cargo_build("derive")
        if rc == 0:
            break
        lines = text.split("\n")
        hits = [(int(n), m) for n, m in re.findall(r"schema\.rs:(\d+):\d+: (error.*)", log)]
        if not hits:
            raise core.ToolError("harness derive does not build:\n" + log[-4000:])
        drop, names = set(), {m.name for m in mods}
        for n, m in hits:
            mod = [l.split()[2] for l in lines[:n] if l.startswith("pub mod ") and l.split()[2] in names][-1]
            drop.add(mod)
            what = "C13" if "ULogData" in lines[n - 1] else "C14"
            k = next((x for x in range(n, min(n + 6, len(lines))) if re.match(r"(pub |pub\(crate\) )?(struct|enum) ", lines[x].lstrip())), n)
            bad.append((what, mod, lines[k].strip(" {"), m, lines[n - 1:n + 30]))
        mods = [m for m in mods if m.name not in drop]
        if not mods:
            break
    seen = set()
    for what, mod, decl, m, ctx in bad:
        if what == prop and (mod, decl) not in seen:
            seen.add((mod, decl))
            rep.violation(f"a user's program does not compile: {decl}: {m}", dict(module=mod, declaration=decl, error=m, source=ctx))
    if not mods:
        return None, None, None
    if rc != 0:
        raise core.ToolError("harness derive does not build:\n" + log[-4000:])
    sets = {n: s for m in mods for n, s in m.sets()}
    with open(spec, "w") as f:
        json.dump(sets, f)
    return path, sets, spec


def check(prop):
    import reader_checks
    rep = core.Report(prop)
    rep.assumptions = reader_checks.ASSUME
    work = core.scratch(prop)
    r = random.Random(SEED + int(prop[1:]))
    low = core.build("core")
    binary, sets, path = build(prop, rep, r)
    if rep.viol:
        return rep.finish()
    if binary is None:
        raise core.ToolError("no message set compiles")
    os.environ["SCHEMAS"] = path
    q = TIER == "quick"
    cases = []
    if "model_Fw" in sets and "model_Nf" in sets:
        for scen, n in (dict(C13=[("values", 4)], C14=[("dispatch1", 3)], C26=[("values", 4)]) if q else
                        dict(C13=[("values", 6)], C14=[("values", 5), ("dispatch", 3)], C26=[("values", 6)]))[prop]:
            cases += list(model_cases(r, work, rep, sets, path, scen, n, 1500 if q else 12000))
    g = list(random_cases(r, sets, 700 if q else 8000))
    if prop in ("C13", "C26"):
        e = list(exact_cases(sets))
        g += first_of_each(r, e) if q else e
        rep.cov["field_by_field_cases"] = len(e)
    if "plain_LoggedMessages" in sets:
        g += list(sample_cases(sets, 150 if q else 1500))
    for _ in range(1 if q else 6):
        g += list(scale_cases(r, sets, q))
    rep.cov["generated_cases"] = len(g)
    rep.cov["message_sets"] = len(sets)
    if prop == "C26":
        for c in cases + g:
            c.args["want"] = c.ref.args["want"] = "err"
    for part in reader_checks.split(cases + g, 4000):
        if reader_checks.run_check(prop, rep, part, work, binary, low, module="DeriveTrace", corruptor=corrupt):
            break
    if prop == "C26":
        k = {}
        for c in cases + g:
            for e in c.result["ev"] if c.result else []:
                if "err" in e:
                    k[e["err"]["k"]] = k.get(e["err"]["k"], 0) + 1
        rep.cov["error_results_by_cause"] = k
    return rep.finish()
