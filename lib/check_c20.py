"""C20: flattening, against Flatten.tla."""
import json, random, re
import core, gens
from core import TIER, SEED
from cases import Case
from ulog import *


def shape_file(fields, mi, bodies, nested):
    fs = [(f["ty"], int(f["arr"]) if f["arr"] else None, f["n"]) for f in fields]
    out = [header(1, 0)] + [fmt(n, x) for n, x in nested.items()] + [fmt("top", fs)]
    if mi == 0:
        out.append(sub(9, "top", 3))
    out.append(sub(1, "top", max(mi, 0)))
    return b"".join(out + [data(1, b) for b in bodies])


def model_cases(r, work, rep, n, take):
    out, st = core.tlc("MCFlatten", work, dict(N=str(n)), timeout=850)
    if not st["ok"]:
        raise core.ToolError("the specification itself violates C20:\n" + core.tail(out))
    rep.add_stats(st)
    bs = sorted(set(re.findall(r'<<"B", "(.*)">>', out)))
    rep.cov["model_behaviours"] = len(bs)
    nested = dict(inner=[("uint8_t", None, "a"), ("int16_t", 2, "b")], mid=[("inner", 2, "i"), ("char", None, "c")], empty=[])
    for b in (bs if len(bs) <= take else r.sample(bs, take)):
        o = json.loads(json.loads('"' + b + '"'))
        body = bytes(o["body"][2:])
        yield Case(shape_file(o["fields"], o["mi"], [body, body[::-1]], nested), ts=r.random() < .5, args=dict(want="flat"),
                   note="record of the model")


def special_cases(r):
    """long arrays (three digits), every type as array and scalar, deep nesting, padding, instances"""
    for arr in (1, 2, 9, 10, 11, 99, 100, 101, 255, 256, 1000, 1001):
        for ty in (PRIM if arr in (1, 2, 11, 101) else ["uint8_t", "float"]):
            fs = [dict(n="timestamp", ty="uint64_t", arr=""), dict(n="v", ty=ty, arr=str(arr)), dict(n="w", ty=ty, arr="")]
            body = bytes(8) + bytes(r.randrange(256) for _ in range(W[ty] * (arr + 1)))
            yield Case(shape_file(fs, r.choice([-1, 0, 1, 10, 99, 100, 255]), [body], {}), args=dict(want="flat"), note=f"{ty}[{arr}]")
    for n in (2, 3, 11, 101):
        nested = dict(a=[("uint16_t", None, "x"), ("char", 2, "y")], b=[("a", 2, "q"), ("uint8_t", 1, "_padding0"), ("double", None, "z")])
        fs = [dict(n="n", ty="b", arr=str(n)), dict(n="timestamp", ty="uint64_t", arr=""), dict(n="m", ty="b", arr=""), dict(n="_padding0", ty="uint8_t", arr="3")]
        size = (n + 1) * (2 * 4 + 1 + 8) + 8 + 3
        for pad in (0, 1):
            for ts in (0, 1):
                yield Case(shape_file(fs, 5, [bytes(r.randrange(256) for _ in range(size))], nested), pad=bool(pad), ts=bool(ts),
                           args=dict(want="flat"), note="nested arrays")


def corrupt(prop, r, run):
    run = json.loads(json.dumps(run))
    es = [e for e in run["ev"] if e.get("flat")]
    if not es:
        return None
    e = r.choice(es)
    i = r.randrange(len(e["flat"]))
    c = r.randrange(4)
    if c == 0:
        del e["flat"][i]
    elif c == 1:
        e["flat"][i]["p"] += "0"
    elif c == 2:
        e["flat"][i]["b"][0] ^= 1
    else:
        e["sc"].append(dict(none=True, s=[]))
    return run


def check():
    import reader_checks
    rep = core.Report("C20")
    rep.assumptions = reader_checks.ASSUME
    work = core.scratch("C20")
    r = random.Random(SEED)
    binary = core.build("core")
    q = TIER == "quick"
    cases = list(model_cases(r, work, rep, 2 if q else 3, 2500))
    g = list(special_cases(r))
    for lg in gens.logs(r, 250 if q else 2500, tricky=True):
        g.append(Case(lg.file(), **gens.rcfg(r), args=dict(want="flat"), note="random log"))
    for n, b in gens.sample_logs(150 if q else 2000):
        g.append(Case(b, args=dict(want="flat"), note="sample " + n))
    rep.cov["generated_cases"] = len(g)
    for part in reader_checks.split(cases + g, 4000):
        if reader_checks.run_check("C20", rep, part, work, binary, corruptor=corrupt):
            break
    return rep.finish()
