"""C23: reading is streaming: bounded memory and the same results after any number of records."""
import json, random, re
import core, gens
from core import TIER, SEED
from ulog import *


def vary(r, cyc, pre):
    """ranges of the cycle that may hold any letters: contents, log text, names of keys; ids and names of what does not exist"""
    out, p = [], 0
    letters = lambda b: all(97 <= c < 123 for c in b)
    every = gens.split_records(pre)[1:] + gens.split_records(bytes(16) + cyc)[1:]
    noid = not any(x[2] == 65 and len(x) >= 6 and letters(x[4:6]) for x in every)
    longest = max([x[3:].find(b":") if b":" in x[3:] else 10**6 for x in every if x[2] == 70], default=0)
    for x in gens.split_records(bytes(16) + cyc)[1:]:
        t, n = chr(x[2]), len(x)
        if t in "DR" and n >= 5 and letters(x[3:5]) and noid and r.random() < .9:
            out.append((p + 3, 2))
        if t == "D":
            at = 5
        elif t == "A":
            at = n
            if n - 6 > longest and letters(x[6:]):
                k = r.randrange(6, n)
                out.append((p + k, n - k))
        elif t in "IPMQ" and n > 4 + (t in "MQ") and (a := 4 + (t in "MQ")) + x[a - 1] <= n:
            key, at = x[a:a + x[a - 1]], a + x[a - 1]
            name = key[key.rfind(b" ") + 1:]
            if len(name) > 0 and b" " in key and all(97 <= c < 123 for c in name) and r.random() < .5:
                out.append((p + at - len(name), len(name)))
        elif t in "LC":
            at = 12 if t == "L" else 14
            if not x[at:].isascii():       # a letter for a part of a character would spoil the text
                at = n
        elif t not in "FBARIPMQ":
            at = 3
        else:
            at = n
        if at < n and r.random() < .8:
            out.append((p + at, min(n - at, r.choice([1, 8, 30, n]))))
        p += n
    return out


class Long:
    """pre, then n times cyc, then tail"""
    ref = None

    def __init__(self, pre, cyc, n, tail=b"", hdr=None, ts=None, pad=None, allow=None, ending="eof", cmp=1, note="", flagged=False):
        self.pre, self.cyc, self.n, self.tail = pre, cyc, n, tail
        self.opts = dict(hdr=hdr, ts=ts, pad=pad)
        self.allow, self.ending, self.cmp, self.note = allow, ending, cmp, note
        self.file = pre + cyc
        self.p0 = len(gens.split_records(pre)) - 1 + bool(hdr)
        self.m = len(gens.split_records(bytes(16) + cyc)) - 1
        self.vary, self.id, self.result = [], None, None

    def varied(self, r):
        """the contents of the records differ from cycle to cycle"""
        self.vary = vary(r, self.cyc, self.pre)
        if self.vary:
            self.note += "; values vary"
            self.cmp = max(1, self.n // 150)
        return self

    def varies(self):
        return f" cmp={self.cmp} vary=" + ",".join(f"{a},{b}" for a, b in self.vary) if self.vary else ""

    def line(self):
        a = dict(id=self.id, op="long", pre=self.pre.hex(), cyc=self.cyc.hex(), tail=self.tail.hex(), n=self.n, p0=self.p0, m=self.m, cmp=self.cmp)
        for k, v in self.opts.items():
            if v is not None:
                a[k] = int(v)
        if self.allow is not None:
            a["allow"] = ",".join(self.allow)
        if self.ending == "fail":
            a["fail"] = 1
        return " ".join(f"{k}={v}" for k, v in a.items()) + self.varies()

    def run(self, prop, ref=None):
        return dict(id=self.id, derived=False, p0=self.p0, m=self.m, pre=list(self.pre), cyc=list(self.cyc), vary=[list(x) for x in self.vary], tail=list(self.tail), n=self.n, ending=self.ending,
                    cfg=dict(**{k: bool(v) for k, v in self.opts.items()}, allow=dict(on=self.allow is not None, names=list(self.allow or []))),
                    ev=self.result["ev"])

    def describe(self):
        return dict(scenario=self.line(), note=self.note, results=self.result["ev"][-6:] if self.result else None)


class DLong(Long):
    """the same, read by a stream derived for a message set"""

    def __init__(self, name, ops, *a, **kw):
        super().__init__(*a, **kw)
        self.set, self.ops = name, ops

    def opts_(self):
        return f"set={self.set} " + (f"ops={self.ops}" if self.ops is not None else "mode=stream")

    def solo(self, k):
        return f"id={k} want=light extra=0 file={(self.pre + self.cyc * k).hex()} {self.opts_()}"

    def line(self):
        return (f"id={self.id} op=long file={(self.pre + self.cyc).hex()} back={len(self.pre)} again={self.n - 1} n={self.n} "
                f"p0={self.p0} m={self.m} {self.opts_()}" + self.varies())

    def run(self, prop, ref=None):
        d = super().run(prop)
        d["derived"] = True
        d["cfg"] = dict(hdr=False, ts=True, pad=True, allow=dict(on=False, names=[]))
        return d


def derived(r, rep, work, n, q):
    """logs of message sets, also such that the stream skips everything in the cycle"""
    import derive
    binary, sets, path = derive.build("C23", rep, r)
    if binary is None:
        return None, []
    out = []
    for i in range(n):
        name = r.choice(sorted(sets))
        g = derive.DLog(r, sets[name], nrec=r.choice([0, 3]), flawed=.1)
        k = len(g.recs)
        skip = i % 4 == 0
        while len(g.recs) < k + r.choice([1, 4, 9]):
            g.step(r.choice(["I", "L", "op", "P"] if skip else ["data", "data", "sub", "unsub", "L"]))
            if not g.live:
                g.addsub()
        cyc = b"".join(x[1] for x in g.recs[k:])
        if len(cyc) > 20000:
            continue
        out.append(DLong(name, r.choice([None, "", "fs:1"]) if sets[name]["fwd"] else None, b"".join([g.hdr] + [x[1] for x in g.recs[:k]]), cyc,
                         200000 // len(cyc) * (1 if q else 8) + 500, note=f"random log for the message set {name}, repeated"))
        if i % 2:
            out[-1].varied(r)
    lines = [re.sub("^id=\\d+", f"id={3 * i + k - 1}", t.solo(k)) for i, t in enumerate(out) for k in (1, 2, 3)]
    res = core.execute(binary, lines, work, name="solo")
    keep = []
    for i, t in enumerate(out):
        c = [sum(1 for e in res[3 * i + k]["ev"] if e["x"]["t"] != "end") if res[3 * i + k] else -1 for k in range(3)]
        t.m = c[2] - c[1]
        t.p0 = c[1] - 2 * t.m
        if c[0] >= 0 and t.m >= 0 and t.p0 >= 0:
            keep.append(t)
    return binary, keep


def reps(size, q):
    """enough times for a byte held back per cycle to show, and for all that was read not to fit"""
    return max(1000, 200000 // size) if q else max(5000, 2000000 // size)


def model(r, work, rep, take, q):
    out, st = core.tlc("MCStream", work, dict(N="2" if q else "3"), timeout=850)
    if not st["ok"]:
        raise core.ToolError("the specification itself violates C23:\n" + core.tail(out))
    rep.add_stats(st)
    bs = sorted(set(re.findall(r'<<"B", "(.*)">>', out)))
    rep.cov["model_behaviours"] = len(bs)
    for b in (bs if len(bs) <= take else r.sample(bs, take)):
        o = json.loads(json.loads('"' + b + '"'))
        cyc = bytes(o["cyc"])
        yield Long(bytes(o["pre"]), cyc, 3000, ts=True, note="cycle of the model")


def flagged(pre, off):
    """pre with an appended-data position"""
    return pre[:16] + flags(bytes(8), b"\1" + bytes(7), (off, 0, 0)) + pre[16:]


def logs(r, n, q):
    for i in range(n):
        g = Gen(r, nrec=r.choice([0, 1, 4]), canon=False, fmts=r.choice([1, 2, 3]), flags_p=0)
        pre = g.file()
        k = len(g.recs)
        kinds = r.choice([["data"] * 4 + ["sub", "unsub"], ["sub", "unsub"], ["data"], ["I", "M", "P", "Q", "L", "C", "O", "op"],
                          ["sub", "data", "unsub", "I", "M", "P", "Q", "L", "C", "O", "op"], ["M"], ["P", "Q"]])
        while len(g.recs) < k + r.choice([1, 3, 8]):
            g.step(r.choice(kinds))
            if not g.live:
                g.addsub()
        cyc = b"".join(x[1] for x in g.recs[k:])
        c = r.random()
        if c < .25:      # malformed records, unknown ids, unknown formats
            cyc += r.choice([data(4242, b"abc"), sub(7, "nosuchformat"), rec(76, b"\x10"), rec(68, b""), data(next(iter(g.live)), b"\1"),
                             rec(80, b"\x03int"), rec(65, b"\0"), flags(bytes(8), bytes(8), (1, 2, 3)), fmt("late", [("uint8_t", None, "a")]) * 2])
        if i % 8 == 3:   # malformed records of all kinds
            cyc += b"".join(gens.bad_records(r, g, True) for _ in range(r.choice([5, 20, 60])))
        if r.random() < .3:      # ids and names of nothing, which may differ every time
            cyc += b"".join(r.sample([data(r.choice([0x6161, 0x7a62]), bytes(r.choice([0, 9, 40]))), unsub(0x6b61), sub(r.choice([3, 0x6161]), "q" * 80),
                                      data(0x6361, b"")], r.randrange(1, 4)))
        if i % 6 == 5:   # definitions, again and again
            pre = pre[:16]
            cyc = b"".join(x[1] for x in g.recs if x[0] in "FIMP")
        if len(cyc) > 20000:
            continue
        nn = reps(len(cyc), q)
        tail, ending = b"", "eof"
        c = r.random()
        if c < .25:
            x = g.recs[-1][1]
            tail = x[:r.randrange(1, len(x))]
        elif c < .35:
            ending = "fail"
        hdr, ts, pad = (r.choice([None, True, False]) for _ in range(3))
        if r.random() < .35:
            m = r.randrange(4, nn)
            pre = flagged(pre, len(pre) + 43 + m * len(cyc) + r.randrange(-3, len(cyc) + 2))
        c = Long(pre, cyc, nn, tail, hdr, ts, pad, gens.rallow(r, g), ending, note="random log, repeated")
        yield c.varied(r) if i % 2 else c


def huge(r, q):
    """beyond 2^32 bytes"""
    F = [("uint64_t", None, "timestamp"), ("uint8_t", 65500, "x")]
    pre = header(1, 5) + fmt("a", F) + sub(1, "a", 0)
    big = rec(83, bytes(r.randrange(256) for _ in range(65535)))
    small = data(1, bytes(8) + bytes(65500)) if not q else data(1, b"")
    log_ = log("x", 0x30, 9)
    c = len(big) + len(small) + len(log_)
    lim = 2**32 + 5 * c + 77
    n = lim // c + 40
    # the position of the appended data beyond 2^32, in the first and in the second record of a cycle
    for cyc in ([big, small, log_], [small, log_, big]):
        b = b"".join(cyc)
        yield Long(flagged(pre, lim), b, n, cmp=4001, note="appended data beyond 4 GiB")
        if not q:
            yield Long(flagged(pre, 2**31 + 12345), b, n, cmp=4001, note="appended data beyond 2 GiB")
            yield Long(flagged(pre, 2**32), b, n, cmp=4001, note="appended data at 4 GiB")
            yield Long(flagged(pre, 2**63), b, n, big[:70], cmp=4001, note="cut off beyond 4 GiB")
            yield Long(pre, b, n, cmp=4001, ending="fail", note="read failure beyond 4 GiB")
        else:
            break


def corrupt(prop, r, run):
    run = json.loads(json.dumps(run))
    ev = run["ev"]
    ss = [e for e in ev if e.get("k") == "s"]
    es = [e for e in ev if e.get("k") == "e"]
    rs = [e for e in ev if e.get("k") == "r"]
    c = r.randrange(5)
    if c == 0 and ss:
        r.choice(ss)["same"] = 0
    elif c == 1 and ss:
        r.choice(ss)["live"] += 10**9
    elif c == 2 and ss:
        r.choice(ss)["peak"] += 10**9
    elif c == 3 and es:
        es[0]["q"] += 1
    elif rs:
        r.choice(rs)["live"] += 10**9
    else:
        return None
    return run


def check():
    import reader_checks
    rep = core.Report("C23")
    rep.assumptions = reader_checks.ASSUME
    work = core.scratch("C23")
    r = random.Random(SEED)
    binary = core.build("core")
    q = TIER == "quick"
    cases = list(model(r, work, rep, 150 if q else 2926, q))
    g = list(logs(r, 100 if q else 900, q)) + list(huge(r, q))
    rep.cov["generated_cases"] = len(g)
    rep.cov["bytes_read_by_the_parser"] = sum(len(c.pre) + len(c.cyc) * c.n for c in cases + g)
    reader_checks.run_check("C23", rep, cases + g, work, binary, module="StreamTrace", corruptor=corrupt)
    if not rep.viol:
        binary, ds = derived(r, rep, work, 60 if q else 600, q)
        if binary is None:
            raise core.ToolError("no message set compiles")
        rep.cov["derived_streams"] = len(ds)
        reader_checks.run_check("C23", rep, ds, work, binary, module="StreamTrace", corruptor=corrupt)
    return rep.finish()
