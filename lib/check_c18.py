"""C18: MessageBuf and DataStream against Cursor.tla."""
import json, random, re
import core
from core import TIER, SEED
from cases import Case

TYPES = "u8 i8 bool u16 i16 u32 i32 f32 u64 i64 f64".split()
HUGE = [2**64 - 1, 2**64 - 2, 2**63, 2**63 - 1, 2**32, 2**31]
SIGN = bytes([0x80, 0xff, 0x7f, 0x81, 0xfe, 0xff, 0xff, 0xc3, 0x28, 1, 0, 2, 0xf0, 0x9f, 0x98, 0x80])


class CCase(Case):
    def __init__(self, kind, file, ops, **kw):
        super().__init__(file, **kw)
        self.kind = kind
        self.args["op"] = kind
        self.args["ops"] = ",".join(ops)

    def run(self, prop, ref=None):
        ev = self.result["ev"]
        if self.result.get("crash"):
            ev = [dict(op="crash", ty="", n=0, ok=False, b=[], ret=-1, len=0, empty=True)]
        return dict(id=self.id, kind=self.kind, file=list(self.file), ending=self.ending, ev=ev)

    def describe(self):
        return dict(scenario=self.line()[:600], note=self.note, results=self.result["ev"][:12])


def optext(o):
    if o["op"] == "take":
        return o["ty"]
    n = o["n"] if o["n"] < 2 * 10**9 else 2**64 - 1
    return f"{o['op']}:{n}"


def model_cases(r, work, rep, n, take):
    for kind in ("buf", "stream"):
        out, st = core.tlc("MCCursor", work, dict(KIND=kind, N=str(n)), timeout=850)
        if not st["ok"]:
            raise core.ToolError("the specification itself violates C18:\n" + core.tail(out))
        rep.add_stats(st)
        bs = sorted(set(re.findall(r'<<"B", "(.*)">>', out)))
        rep.cov["model_behaviours_" + kind] = len(bs)
        if len(bs) > take:
            bs = r.sample(bs, take)
        for b in bs:
            o = json.loads(json.loads('"' + b + '"'))
            ops = [optext(x) for x in o["ops"]]
            if kind == "buf":
                ops.append("rest")
            c = CCase(kind, bytes(o["file"]), ops, ending=o["ending"], note="behaviour of the model")
            if kind == "stream" and r.random() < .5:
                c.args["chunks"] = r.choice(["1", "2,1", "3"])
                if r.random() < .4:
                    c.args.update(intr=2, burst=r.choice([1, 12]))
            yield c


def random_cases(r, n):
    for i in range(n):
        kind = r.choice(["buf", "stream"])
        size = r.choice([0, 1, 2, 7, 8, 9, 16, 31, 64, 255, 256, 300])
        f = bytes(r.choice(SIGN) if r.random() < .6 else r.randrange(256) for _ in range(size))
        if r.random() < .3:
            f = bytes(r.randrange(32, 127) for _ in range(size))
        ops, left = [], size
        for _ in range(r.choice([3, 8, 20, 60])):
            c = r.random()
            if c < .65:
                t = r.choice([t for t in TYPES if kind == "buf" or t != "i64"])
                ops.append(t)
            else:
                k = r.choice(["adv", "skip"] if kind == "buf" else ["exact", "skip", "skip", "str"])
                s = r.choice([0, 1, 2, 3, 5, 17, size, size + 1])
                if r.random() < .35 and (kind == "buf" or k == "skip"):
                    s = r.choice(HUGE + [2**64 - 1 - size, 2**64 - size, 2**64 - size // 2 - 1])
                    s = min(s, 2**64 - 1)
                ops.append(f"{k}:{s}")
        if kind == "buf" and r.random() < .7:
            ops.append("rest")
        c = CCase(kind, f, ops, ending="eof" if kind == "buf" or r.random() < .6 else "fail", note="random operations")
        if kind == "buf":
            c.args["vec"] = r.randrange(2)
        else:
            c.args["chunks"] = ",".join(str(r.choice([1, 2, 3, 5, 17, 1000])) for _ in range(4))
            if r.random() < .4:
                c.args.update(intr=r.choice([2, 3]), burst=r.choice([1, 2, 5, 30, 300]))
            if c.ending == "fail":
                c.args["fail"] = r.choice(["reset", "other", "timeout", "block"])
        yield c


def boundary_cases(r):
    """exactly enough, one too few, around every type, in the middle and at the end of the buffer"""
    for kind in ("buf", "stream"):
        for t in TYPES:
            if kind == "stream" and t == "i64":
                continue
            w = dict(u8=1, i8=1, bool=1, u16=2, i16=2, u32=4, i32=4, f32=4).get(t, 8)
            for pre in (0, 1, 3):
                for d in (-1, 0, 1):
                    size = pre + w + d
                    for fill in (bytes([0x80 + i for i in range(20)]), bytes(19) + b"\x01", bytes([2] * 20), b"\xff" * 20, bytes(20)):
                        ops = [f"skip:{pre}", t, "u8"]
                        if kind == "buf":
                            ops += [t, "adv:0", "rest"]
                        yield CCase(kind, fill[:max(size, 0)], ops, note="boundary")
    # skips far larger than one read of the reader, and larger than what is there
    for size in (1000, 8192, 8193, 70000, 200001):
        f = bytes((i * 7 + i // 256) % 256 for i in range(size))
        for n in (size - 1, size, size + 1, 2**64 - 1, 8192, 65536):
            for ch in ("", "1000", "7,5000"):
                c = CCase("stream", f, [f"skip:{n}", "u16", "skip:3", "u8"], note="long skip")
                if ch:
                    c.args["chunks"] = ch
                yield c


def corrupt(prop, r, run):
    run = json.loads(json.dumps(run))
    ok = [e for e in run["ev"] if e["ok"] and (e["b"] or e["op"] == "skip") and not (run["kind"] == "stream" and e["op"] not in ("skip",))]
    if not ok:
        return None
    e = r.choice(ok)
    if e["b"]:
        if run["kind"] == "buf" and r.random() < .5:
            e["len"] += 1
        else:
            e["b"][-1] ^= 1
    elif run["kind"] == "stream":
        e["ret"] += 1
    else:
        e["len"] += 1
    return run


def check():
    import reader_checks
    rep = core.Report("C18")
    rep.assumptions = reader_checks.ASSUME
    work = core.scratch("C18")
    r = random.Random(SEED)
    binary = core.build("core")
    q = TIER == "quick"
    cases = list(model_cases(r, work, rep, 3 if q else 4, 4000 if q else 40000))
    g = list(boundary_cases(r)) + list(random_cases(r, 3000 if q else 40000))
    rep.cov["generated_cases"] = len(g)
    small = [c for c in g if len(c.file) < 2000]
    large = [c for c in g if len(c.file) >= 2000]
    for part in reader_checks.split(cases + small, 12000) + [large]:
        if reader_checks.run_check("C18", rep, part, work, binary, module="CursorTrace", corruptor=corrupt):
            break
    return rep.finish()
