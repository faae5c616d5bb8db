"""C22: parsers and the messages they returned do not influence one another."""
import json, random, re
import core, gens
from core import TIER, SEED
from cases import Case
from ulog import *


class Twin:
    """two cases at once"""
    ref = None

    def __init__(self, a, b, sched, mode, note):
        self.p, self.sched, self.mode, self.note = [a, b], sched, mode, note
        self.file = a.file + b.file
        self.id, self.result = None, None
        self.first = len(sched) % 2

    def sub(self, k):
        c = self.p[k]
        c.id = 0
        return c.line().replace(" ", "&")

    def line(self):
        return f"id={self.id} op=twin mode={self.mode} sched={self.sched} first={self.first} p0={self.sub(0)} p1={self.sub(1)}"

    def run(self, prop, ref=None):
        ps = []
        for c in self.p:
            d = c.run(prop, None) if c.result else None
            ps.append(dict(file=d["file"], ending=d["ending"], cfg=d["cfg"], ref=[e["x"] for e in c.result["ev"]]))
        return dict(id=self.id, p=ps, ev=self.result["ev"])

    def describe(self):
        return dict(scenario=self.line(), note=self.note, results=[(e.get("p"), e["x"]["t"]) for e in self.result["ev"]] if self.result else None)


def solos(binary, twins, work):
    """every parser's results in a process of its own"""
    seen, lines = {}, []
    for t in twins:
        for k in (0, 1):
            s = t.sub(k)
            if s not in seen:
                seen[s] = len(lines)
                lines.append(f"id={len(lines)} op=solo p0={s}")
    res = core.execute(binary, lines, work, name="solo")
    for t in twins:
        for k in (0, 1):
            r = res[seen[t.sub(k)]]
            t.p[k].result = r
            if r is not None:  # up to the first end
                ev = r["ev"]
                i = next((i for i, e in enumerate(ev) if e["x"]["t"] == "end"), len(ev) - 1)
                t.p[k].result = dict(r, ev=ev[:i + 1])


def model(r, work, rep, take):
    out, st = core.tlc("MCTwin", work, timeout=850)
    if not st["ok"]:
        raise core.ToolError("the specification itself violates C22:\n" + core.tail(out))
    rep.add_stats(st)
    bs = sorted(set(re.findall(r'<<"B", "(.*)">>', out)))
    rep.cov["model_behaviours"] = len(bs)
    for b in (bs if len(bs) <= take else r.sample(bs, take)):
        o = json.loads(json.loads('"' + b + '"'))
        p = []
        for x in "ab":
            c = o["c" + x]
            p.append(Case(bytes(o["f" + x]), hdr=c["hdr"], ts=c["ts"], pad=c["pad"], allow=c["allow"]["names"] if c["allow"]["on"] else None,
                          args=gens.opt(r, "drop", 1)))
        yield Twin(p[0], p[1], "".join(map(str, o["sched"])), r.choice(["turns", "turns", "threads"]), "schedule of the model")


POOL = ["a", "b", "pos", "att", "c1", "c2", "status", "x", "A", "Pos", "POS", "X", "Status", "c_1"]


def logs(r, n):
    for i in range(n):
        gs = []
        for k in (0, 1):
            g = Gen(r, nrec=r.choice([3, 10, 25]), canon=False, fmts=r.choice([2, 3, 4]), flags_p=.3, pool=POOL,
                    kinds=["sub"] * 3 + ["data"] * 6 + ["unsub", "I", "M", "P", "Q", "L", "C", "O", "op"])
            gs.append(g)
        if i % 9 == 8:
            gs[1] = gens.tricky_log(r)
        ps = []
        for g in gs:
            f, ending, a = g.file(), "eof", {}
            c = r.random()
            if c < .2:
                f = gens.with_bad(r, g, .2)[0]
            elif c < .28:
                f = gens.appended(r, f)
            elif c < .35:
                f = f[:r.randrange(len(f))]
                ending = r.choice(["eof", "fail"])
            if r.random() < .3:
                a["chunks"] = r.choice(["1", "3,5", "64"])
            if r.random() < .5:
                a["drop"] = 1
            ps.append(Case(f, **gens.rcfg(r), allow=gens.rallow(r, g), ending=ending, args=a))
        if r.random() < .1:
            ps[1] = Case(ps[0].file, **gens.rcfg(r), args=dict(ps[0].args), ending=ps[0].ending)
        s = ""
        while len(s) < 60 and r.random() < .95:
            s += r.choice("01") * r.choice([1, 1, 1, 2, 5, 20])
        yield Twin(ps[0], ps[1], s, r.choice(["turns", "turns", "threads", "free", "free"]), "random pair of logs")
    ss = gens.sample_logs(60 if TIER == "quick" else 600)
    for (n1, b1), (n2, b2) in zip(ss, ss[1:] + ss[:1]):
        for mode in ("turns", "free"):
            yield Twin(Case(b1, **gens.rcfg(r)), Case(b2, **gens.rcfg(r)), "", mode, f"samples {n1} {n2}")


def corrupt(prop, r, run):
    run = json.loads(json.dumps(run))
    ev = run["ev"]
    i = r.choice([i for i, e in enumerate(ev) if e["x"]["t"] not in ("err", "end")] or [None])
    if i is None:
        return None
    c = r.randrange(3)
    if c == 0:
        ev[i]["late"] = dict(t="err")
    elif c == 1:
        ev[i]["x"] = ev[i]["late"] = dict(t="ign", mt=0)
    else:
        ev[i]["p"] = 1 - ev[i]["p"]
        if run["p"][0]["ref"] == run["p"][1]["ref"]:
            return None
    return run


def check():
    import reader_checks
    rep = core.Report("C22")
    rep.assumptions = reader_checks.ASSUME
    work = core.scratch("C22")
    r = random.Random(SEED)
    binary = core.build("core")
    q = TIER == "quick"
    cases = list(model(r, work, rep, 700 if q else 4164))
    g = list(logs(r, 260 if q else 2500))
    rep.cov["generated_cases"] = len(g)
    for part in reader_checks.split(cases + g, 3000):
        solos(binary, part, work)
        part = [t for t in part if all(c.result is not None for c in t.p)]
        if reader_checks.run_check("C22", rep, part, work, binary, module="TwinTrace", corruptor=corrupt):
            break
    return rep.finish()
