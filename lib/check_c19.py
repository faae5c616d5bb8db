"""C19: encoding, against the encoding operators of ULogCodec.tla (EncTrace, MCEncode)."""
import json, random, re
import core, gens
from core import TIER, SEED
from cases import Case
from ulog import *

KIND = dict(uint8_t="u8", uint16_t="u16", uint32_t="u32", uint64_t="u64", int8_t="i8", int16_t="i16", int32_t="i32",
            int64_t="i64", float="f32", double="f64", bool="bool", char="char")


class ECase(Case):
    def __init__(self, items, note, quiet=0, room=None, step=None):
        super().__init__(b"", note=note)
        self.items = items
        self.args["op"] = "encode"
        self.args["items"] = json.dumps(items, separators=(",", ":"))
        if quiet:
            self.args["quiet"] = quiet
        if room is not None:
            self.args["room"] = room
        if step:
            self.args["step"] = step

    def run(self, prop, ref=None):
        ev = self.result["ev"]
        if self.result.get("crash"):
            return dict(id=self.id, kind="items", ev=[dict(want=dict(t="none"), x=dict(t="crash"), enc=[], re=[])])
        out = []
        for e in ev:
            w = {k: v for k, v in self.items[e["i"]].items() if k != "padding"}
            d = dict(want=w, x=e["x"], enc=e["enc"], re=e["re"])
            if e["wfail"]:
                d["wfail"] = True
            if e["i"] >= int(self.args.get("quiet", 0)):
                out.append(d)
        return dict(id=self.id, kind="items", ev=out)

    def describe(self):
        return dict(scenario=self.line()[:1500], note=self.note, results=json.dumps(self.result["ev"][-1:])[:600])


class LCase(Case):
    def run(self, prop, ref=None):
        if self.result.get("crash"):
            return dict(id=self.id, kind="log", ev=[dict(x=dict(t=self.result["crash"]), enc=[])], re=[])
        return dict(id=self.id, kind="log", ev=self.result["ev"], re=self.result["re"])


# ---- messages, as the harness builds them ---------------------------------------------------
def val(r, ty, arr):
    n = 1 if arr is None else arr
    return dict(k=("a" if arr is not None else "") + KIND[ty], b=list(b"".join(prim_bytes(r, ty) for _ in range(n))), c=[])


def inst(r, F, name, mi=-1):
    fs, ts = [], []
    for ty, arr, n in F[name]:
        if ty in W:
            v = val(r, ty, arr)
            if n == "timestamp" and ty == "uint64_t" and arr is None:
                ts = v["b"]
        elif arr is None:
            v = dict(k="other", b=[], c=[inst(r, F, ty)])
        else:
            v = dict(k="aother", b=[], c=[inst(r, F, ty) for _ in range(arr)])
        fs.append(dict(n=n, ty=ty, arr="" if arr is None else str(arr), v=v))
    return dict(n=name, ts=ts, mi=mi, fs=fs)


def fitem(name, fields, padding=None):
    d = dict(t="fmt", name=name, fields=[dict(n=n, ty=ty, arr="" if a is None else str(a)) for ty, a, n in fields])
    if padding is not None:
        d["padding"] = padding
    return d


def le(n, w=8):
    return list(n.to_bytes(w, "little"))


def keyed(r, t, ty, arr, key, **kw):
    return dict(t=t, key=key, ty=ty, arr="" if arr is None else str(arr), v=val(r, ty, arr), **kw)


HDR = dict(t="hdr", ver=1, ts=le(0))


def meta(r, where):
    c = r.choice(["info", "minfo", "param", "dparam", "unh", "ign"] + (["log", "tlog", "drop"] if where == "data" else ["flags"]))
    k = ident(r, 20)
    if c in ("info", "minfo"):
        ty, arr = r.choice(PRIM), r.choice([None, None, 0, 1, 2, 17, 300])
        return keyed(r, c, ty, arr, k, **(dict(cont=r.randrange(2)) if c == "minfo" else {}))
    if c in ("param", "dparam"):
        return keyed(r, c, r.choice(["int32_t", "float"]), None, k, **(dict(dt=r.choice(U8B)) if c == "dparam" else {}))
    if c == "unh":
        ty = r.choice([83, 0, 255, 64, 66 if where == "data" else 68, 70 if where == "data" else 79, 82])
        n = r.choice([0, 1, 2, 255, 256, 1000])
        return dict(t="unh", mt=ty, b=[r.randrange(256) for _ in range(max(n, 2 if ty == 82 else 0))])
    if c == "ign":
        return dict(t="ign", mt=r.choice([68, 0, 255]))
    if c in ("log", "tlog"):
        d = dict(t=c, lvl=r.randrange(48, 56), ts=list(r.choice(SPECIAL[8])), msg=list(text(r).encode()))
        if c == "tlog":
            d["tag"] = r.choice(U16B)
        return d
    if c == "drop":
        return dict(t="drop", dur=r.choice(U16B))
    return dict(t="flags", compat=[r.randrange(256) for _ in range(8)], incompat=[0] * 8,
                offs=[le(r.choice([0, 1, 255, 2**32, 2**63, 2**64 - 1])) for _ in range(3)])


def sequence(r):
    """a log of messages of every kind, formats and subscriptions where they must be"""
    g = Gen(r, nrec=0, fmts=r.randrange(1, 4), flags_p=0, pads=r.random() < .5)
    items = [dict(t="hdr", ver=r.choice(U8B), ts=list(r.choice(SPECIAL[8])))]
    for n, fs in g.F.f.items():
        items.append(fitem(n, fs, r.choice([None, 0, 3])))
        if r.random() < .4:
            items.append(meta(r, "defs"))
    seen, live = set(), {}
    for _ in range(r.choice([1, 3, 6])):
        name, mid, m = r.choice(g.tops), r.choice(IDS), r.choice([0, 0, 1, 255])
        items.append(dict(t="sub", multi=m, id=mid, name=name))
        live[mid] = (name, m)
        if m:
            seen.add(name)
        for _ in range(r.choice([0, 2, 4])):
            if r.random() < .5:
                items.append(meta(r, "data"))
            else:
                i = r.choice(list(live))
                n, m = live[i]
                d = inst(r, g.F.f, n)
                items.append(dict(t="data", id=i, ts=d["ts"], name=n, mi=m if n in seen else -1, fs=d["fs"]))
    return items


def sized(r):
    """around every length limit: one byte under, at it, one over, far over"""
    top = [fitem("t", [("uint64_t", None, "timestamp"), ("uint8_t", 3, "d")]), dict(t="sub", multi=0, id=1, name="t")]
    for room in (-1, 0, 1, 2, 255, 256, 65536):
        for kind in ("info", "minfo", "param", "dparam"):
            extra = dict(cont=1) if kind == "minfo" else dict(dt=1) if kind == "dparam" else {}
            ty = "float"
            n = 255 + room - len(ty) - 1
            if n > 70000 or n < 1:
                continue
            yield [HDR, keyed(r, kind, ty, None, "k" * n, **extra)], f"{kind} with a key of {255 + room}"
        for kind in ("info", "minfo"):
            extra = dict(cont=0) if kind == "minfo" else {}
            for ty in ("uint8_t", "char", "bool", "uint16_t", "double") if room in (-1, 0, 1, 2) else ("uint8_t",):
                base = 1 + len(extra) + len(f"{ty}[65000] k")
                cnt = (65535 + room - base) // W[ty]
                if cnt < 10000:
                    base = 1 + len(extra) + len(f"{ty}[6500] k")
                    cnt = (65535 + room - base) // W[ty]
                key = "k" + "k" * (65535 + room - base - cnt * W[ty] if room < 255 and cnt >= 1000 else 0)
                if len(f"{ty}[{cnt}] {key}") <= 255:
                    yield [HDR, keyed(r, kind, ty, cnt, key, **extra)], f"{kind} {ty}[{cnt}] content {65535 + room}"
        n = 65535 + room
        yield [HDR, *top, dict(t="log", lvl=48, ts=le(1), msg=[120] * (n - 9))], f"text, content {n}"
        yield [HDR, *top, dict(t="tlog", lvl=48, tag=7, ts=le(1), msg=[120] * (n - 11))], f"tagged text, content {n}"
        yield [HDR, dict(t="unh", mt=83, b=[7] * n)], f"opaque, content {n}"
        yield [HDR, fitem("f" * (n - len(":uint8_t x;")), [("uint8_t", None, "x")])], f"format name, content {n}"
        nm = "g" * (n - 3)
        if n <= 65535:
            short = "g" * 200
            yield [HDR, fitem(short, [("uint64_t", None, "timestamp")]), dict(t="sub", multi=0, id=1, name=short)], "long subscription"
        else:
            yield [HDR, *top, dict(t="sub", multi=0, id=1, name=nm)], f"subscription, content {n}"
        yield ([HDR, fitem("t", [("uint64_t", None, "timestamp"), ("uint8_t", n - 10, "d")]), dict(t="sub", multi=0, id=1, name="t"),
                dict(t="data", id=1, ts=le(5), name="t", mi=-1, fs=[
                    dict(n="timestamp", ty="uint64_t", arr="", v=dict(k="u64", b=le(5), c=[])),
                    dict(n="d", ty="uint8_t", arr=str(n - 10), v=dict(k="au8", b=[9] * (n - 10), c=[]))])], f"data, content {n}")
    # non-ASCII text: bytes, not characters, count
    for n in (32762, 32763, 32764):
        yield [HDR, *top, dict(t="log", lvl=50, ts=le(1), msg=list(("é" * n).encode()))], f"{n} two-byte characters"


def corrupt(prop, r, run):
    run = json.loads(json.dumps(run))
    es = [e for e in run["ev"] if e["enc"] and e["enc"] != [-1]]
    if not es:
        return None
    e = r.choice(es)
    c = r.randrange(3)
    if c == 0:
        e["enc"][-1] ^= 1
    elif c == 1:
        e["enc"][0] = (e["enc"][0] + 1) % 256
    else:
        e["enc"] = [-1]
    return run


def check():
    import reader_checks
    rep = core.Report("C19")
    rep.assumptions = reader_checks.ASSUME
    work = core.scratch("C19")
    r = random.Random(SEED)
    binary = core.build("core")
    q = TIER == "quick"
    out, st = core.tlc("MCEncode", work, dict(N="2" if q else "3"), timeout=850)
    if not st["ok"]:
        raise core.ToolError("the specification itself violates C19:\n" + core.tail(out))
    rep.add_stats(st)
    bs = sorted(set(re.findall(r'<<"B", "(.*)">>', out)))
    rep.cov["model_behaviours"] = len(bs)
    take = 1200 if q else 12000
    cases = []
    for b in (bs if len(bs) <= take else r.sample(bs, take)):
        cases.append(ECase(json.loads(json.loads('"' + b + '"')), "messages of the model", quiet=3))
    g = []
    for _ in range(200 if q else 3000):
        s = sequence(r)
        g.append(ECase(s, "random messages", step=r.choice([None, 1, 3])))
        if r.random() < .3:
            # the last message meets a full writer
            s = [x for x in s if x["t"] != "ign"]
            g.append(ECase(s, "writer that fails", room=r.randrange(3), quiet=len(s) - 1))
    big = [ECase(s, n, quiet=len(s) - 1) for s, n in sized(r)]
    for l in gens.logs(r, 120 if q else 1500):
        g.append(LCase(l.file(), args=dict(op="relog"), note="log parsed, encoded, parsed"))
    for _ in range(40 if q else 400):
        l = Gen(r, nrec=20, canon=False)
        f, mp, good = gens.with_bad(r, l, .3)
        g.append(LCase(f, args=dict(op="relog"), note="log with malformed records and loose values"))
    for n, b in gens.sample_logs(100 if q else 1500):
        g.append(LCase(b, args=dict(op="relog"), note="sample " + n))
    rep.cov["generated_cases"] = len(g) + len(big)
    rep.cov["length_limit_cases"] = len(big)
    for part in reader_checks.split(cases + g, 4000) + [big]:
        if reader_checks.run_check("C19", rep, part, work, binary, module="EncTrace", corruptor=corrupt):
            break
    return rep.finish()
