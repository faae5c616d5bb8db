"""Checks of the properties of the reader: MC (model) -> real code -> Trace (validation)."""
import concurrent.futures as cf, json, random, re
import core, gens
from core import TIER, SEED
from cases import Case, ALLON

# scenario bound in the model and number of its behaviours run on the real code
MCN = dict(C01=(3, 4), C02=(3, 4), C03=(2, 3), C05=(2, 3), C06=(2, 3), C07=(3, 5), C09=(3, 4), C10=(3, 4), C11=(3, 5))


def mc_cases(prop, r, work, rep, take):
    n = MCN[prop][0 if TIER == "quick" else 1]
    out, st = core.tlc("MC", work, dict(SCEN=prop, N=str(n)), timeout=850, workers="auto" if TIER != "quick" else 6)
    if not st["ok"]:
        raise core.ToolError("the specification itself violates " + prop + ":\n" + core.tail(out))
    rep.add_stats(st)
    bs = re.findall(r'<<"B", "(.*)">>', out)
    bs = sorted(set(bs))
    rep.cov["model_behaviours"] = len(bs)
    rep.cov["model_bound_records"] = n
    if len(bs) > take:
        bs = r.sample(bs, take)
    cases = []
    for b in bs:
        o = json.loads(json.loads('"' + b + '"'))
        c = mk_mc(prop, r, o)
        cases.append(c)
    return cases


def mk_mc(prop, r, o):
    f = bytes(o["file"])
    cfg = dict(hdr=o["cfg"]["hdr"], ts=o["cfg"]["ts"], pad=o["cfg"]["pad"])
    al = o["cfg"]["allow"]["names"] if o["cfg"]["allow"]["on"] else None
    full = o["pre"] + sum(x[0] for x in o["recs"])
    c = Case(f, **cfg, allow=al, ending=o["ending"], note="behaviour of the model")
    if prop == "C01":
        c.args["want"] = "enc"
    elif prop == "C02":
        pre = len(gens.split_records(f[:o["pre"]])) - 1
        mp, g, p, k = list(range(1, pre + 1)), [f[:o["pre"]]], o["pre"], pre
        for n, ok in o["recs"]:
            if ok:
                k += 1
                g.append(f[p:p + n])
            mp.append(k if ok else 0)
            p += n
        c.meta["map"] = mp
        c.ref = Case(b"".join(g), **cfg, allow=al)
    elif prop == "C03":
        c.ref = Case(f[:full], **cfg, allow=al)
        c.args["extra"] = 3
    elif prop == "C05":
        c.ref = Case(f[:full], **cfg, allow=al)
        c.args["chunks"] = ",".join(str(r.choice([1, 2, 3, 5, 17])) for _ in range(6))
        if r.random() < .4:
            c.args.update(intr=r.choice([2, 3]), burst=r.choice([1, 2, 5, 30, 300]))
        if c.ending == "fail":
            c.args["fail"] = r.choice(["reset", "block", "other", "invalid"])
    elif prop == "C06":
        c.ref = Case(f, **cfg)
        c.args["api"] = r.choice(["builder", "depr", "rev"])
        pre = len(gens.split_records(f[:o["pre"]])) - 1
        gens.set_lists(c, [(pre + x["at"], x["allow"]["names"]) for x in o["lists"][1:]])
    elif prop == "C07":
        c.args["ids"] = "1,2,3"
    elif prop == "C09":
        c.ref = Case(f, **ALLON)
    elif prop == "C10":
        c.args.update(ids="1,2", fmts="a,b,zz")
    elif prop == "C11":
        offs = [int.from_bytes(f[16 + 3 + 16 + 8 * i:16 + 3 + 24 + 8 * i], "little") for i in range(3)]
        o1 = next((x for x in offs if x), None)
        if f[16 + 3 + 8] & 1 and o1 and o1 < len(f):
            c.ref = Case(f[:o1] + bytes(r.randrange(256) for _ in range(len(f) - o1)), **cfg)
        else:
            c.ref = Case(f, **cfg)
    return c


# ---- corrupted copies of recorded runs: the binding must reject every one ----------------------
def corrupt(prop, r, run):
    run = json.loads(json.dumps(run))
    ev = run["ev"]
    idx = [i for i, e in enumerate(ev) if e["x"]["t"] not in ("err", "end")]
    if not idx:
        return None
    i = r.choice(idx)
    x = ev[i]["x"]
    kinds = {
        "C01": lambda: ev[i]["enc"].__setitem__(-1, ev[i]["enc"][-1] ^ 1) if ev[i].get("enc") else ev[i].__setitem__("enc", [0, 0, 68]),
        "C07": lambda: (x.__setitem__("mi", 9 if x["mi"] == -1 else -1) if x["t"] == "data" else ev[i].__setitem__("x", dict(t="err"))),
        "C08": lambda: x["ts"].__setitem__(3, x["ts"][3] ^ 1) if x["t"] == "data" else None,
        "C12": lambda: x.__setitem__("ver", x["ver"] ^ 1) if x["t"] == "hdr" else ev[i].__setitem__("x", dict(t="err")) if x["t"] == "flags" else None,
        "C15": lambda: ((x["fields"].append(dict(n="q", ty="q", arr="")) or True) if x["t"] == "fmt" else
                        x.__setitem__("key", x["key"] + "q") if "key" in x else None),
        "C16": lambda: (x.__setitem__("key", x["key"] + "q") if "key" in x else x.__setitem__("dur", 77777) if x["t"] == "drop" else
                        x["ts"].__setitem__(7, x["ts"][7] ^ 1) if x["t"] in ("log", "tlog") else x["compat"].__setitem__(7, x["compat"][7] ^ 1) if x["t"] == "flags" else None),
    }
    if prop == "C25":
        j = [e for e in ev if "err" in e and e["err"]["k"] not in ("InvalidHeader", "Other") and len(e["err"]["k"]) > 2]
        if not j:
            return None
        e = r.choice(j)["err"]
        e.update(r.choice([dict(k="Other"), dict(k="InvalidHeader"), dict(k="Io", b=[120]), dict(k="UndefinedFormat", b=[120]), dict(k="Utf8", b=[120, 255])]))
        return run
    before = json.dumps(run)
    mode = r.randrange(3)
    if prop == "C21":
        i = r.choice([i for i, e in enumerate(ev) if "vw" in e and e["vw"]["txt"]] or [None])
        if i is None:
            return None
        v = ev[i]["vw"]
        if mode == 0:
            v["txt"][-1] ^= 1
        elif mode == 1 and v["vals"]:
            v["vals"][-1]["txt"].append(48)
        else:
            v["acc"].append(0)
        return run
    if prop in ("C08", "C12", "C15", "C16"):
        kinds[prop]()
    elif mode == 0 and prop in kinds:
        kinds[prop]()
    elif mode == 1 and len(ev) > 2:
        del ev[i]                      # a result is lost
    else:
        ev[i]["x"] = dict(t="err")     # a message turned into an error
    return run if json.dumps(run) != before else None


def split(cases, size):
    return [cases[i:i + size] for i in range(0, len(cases), size)]


def run_check(prop, rep, cases, work, binary, ref_binary=None, module="Trace", corruptor=corrupt, binding=8, timeout=800):
    """executes cases (and their references), validates, reports."""
    r = random.Random(SEED * 7919 + 13)
    refs, n = {}, 0
    for c in cases:
        n += 1
        c.id = n
    for c in cases:
        if c.ref is not None:
            k = (c.ref.line(),)
            if k in refs:
                c.ref = refs[k]
            else:
                refs[k] = c.ref
    reflist = list(refs.values())
    for c in reflist:
        n += 1
        c.id = n
    res = core.execute(binary, [c.line() for c in cases], work)
    rres = core.execute(ref_binary or binary, [c.line() for c in reflist], work, name="ref") if reflist else {}
    for c in cases:
        c.result = res[c.id]
    for c in reflist:
        c.result = rres[c.id]
    live = [c for c in cases if c.result is not None and (c.ref is None or c.ref.result is not None)]
    runs = [c.run(prop, c.ref) for c in live]
    neg = []
    for k in r.sample(range(len(runs)), min(len(runs), binding * 6)):
        if len(neg) >= binding:
            break
        b = corruptor(prop, r, runs[k])
        if b is not None:
            b["id"] = 10**6 + runs[k]["id"]
            neg.append(b)
    acc, st = core.validate(runs + neg, work, module=module, timeout=timeout)
    rep.add_stats(st)
    rep.traces += len(runs)
    rep.cov["recorded_results_checked"] = rep.cov.get("recorded_results_checked", 0) + sum(len(x["ev"]) for x in runs)
    rep.cov["corrupted_runs_rejected"] = rep.cov.get("corrupted_runs_rejected", 0) + sum(1 for b in neg if b["id"] not in acc)
    for c in live[:1] + live[len(live) // 2:len(live) // 2 + 1]:
        d = c.describe()
        d["scenario"] = d["scenario"][:400]
        rep.samples.append(json.dumps(d)[:900])
    rejected = sorted((c for c in live if c.id not in acc), key=lambda c: len(c.file))
    for c in rejected[:5]:
        d = c.describe()
        if c.ref is not None:
            d["reference"] = c.ref.line()
        shown = c.run(prop, c.ref)
        diag = core.diagnose(shown, work, module).splitlines()
        d["specification_said"] = [x[:2000] for x in diag[-2:]]
        where = ""
        m = re.match(r'<<"STEP", \d+, (\d+), (.*)', diag[-1]) if diag else None
        if m:
            i = int(m.group(1))
            got = shown["ev"][i - 1] if i <= len(shown["ev"]) else None
            d["real_code_gave"] = got
            where = f"result {i}: specified {m.group(2)[:160]} but the real code gave {json.dumps(got)[:160]}"
        rep.violation(f"{c.note}: {where}", d)
    if len(rejected) > 5:
        rep.violation(f"{len(rejected) - 5} more runs rejected", dict(ids=[c.id for c in rejected[5:50]]))
    if not rejected:
        bad = [b["id"] for b in neg if b["id"] in acc]
        if bad:
            raise core.ToolError(f"corrupted runs accepted: {bad}")
        if not neg:
            raise core.ToolError("no corrupted run could be made")
    return rejected


def model(module, prop, work, rep, **env):
    """checks a model and returns what it printed (its cases), as JSON values"""
    out, st = core.tlc(module, work, env, timeout=850)
    if not st["ok"]:
        raise core.ToolError(f"the specification itself violates {prop}:\n" + core.tail(out))
    rep.add_stats(st)
    bs = sorted(set(re.findall(r'<<\s*"B",\s+"(.*)"\s*>>', out)))
    rep.cov["model_behaviours"] = rep.cov.get("model_behaviours", 0) + len(bs)
    return [json.loads(json.loads('"' + x + '"')) for x in bs]


def grammar_model(r, work, rep):
    """every text of MCGrammar as a format definition or a key of the real parser"""
    from ulog import header, rec, info, minfo
    n = "5" if TIER == "quick" else "7"
    for mode in ("short", "wide", "key", "keywide"):
        ts = [bytes(x["t"]) for x in model("MCGrammar", "C15", work, rep, N=n, MODE=mode)]
        rep.cov["model_texts_" + mode] = len(ts)
        size = 400
        for k in range(0, len(ts), size):
            part = ts[k:k + size]
            if mode in ("short", "wide"):
                recs = [rec("F", t) for t in part]
            else:
                recs = [info(t, b"xyz" * 4) if i % 2 else minfo(t, b"xyz" * 4, i % 3) for i, t in enumerate(part)]
            yield Case(header() + b"".join(recs), pad=True, args=dict(want="re"), note="texts of the model: " + mode)


def fields_model(r, work, rep):
    """every format of MCFields with payloads of every length"""
    bs = model("MCFields", "C08", work, rep, N="2" if TIER == "quick" else "3")
    if TIER == "quick":
        bs = r.sample(bs, 500)
    for k, b in enumerate(bs):
        yield Case(bytes(b["file"]), pad=k % 2 == 0, ts=k % 3 != 0, note="formats of the model, cut everywhere")


def meta_model(r, work, rep):
    """every message of MCMeta, cut everywhere, many to a file"""
    from ulog import header, rec, fmt, sub
    bs = model("MCMeta", "C16", work, rep, BIG="0" if TIER == "quick" else "1")
    if TIER == "quick":
        bs = r.sample(bs, 900)
    defs, data = [], []
    for b in bs:
        body = bytes(b["b"])
        cuts = [rec(b["ty"], body[:n]) for n in range(b["from"], len(body) + 1)]
        if b["ty"] == 66:
            defs.append([x for i, x in enumerate(cuts)])
        elif b["ty"] in (76, 67, 79) or r.random() < .5:
            data.append(cuts)
        else:
            defs.append(cuts)
    start = header() + fmt("n", [("uint8_t", None, "p"), ("int16_t", 2, "q")])
    for k in range(0, len(defs), 20):
        yield Case(start + b"".join(x for c in defs[k:k + 20] for x in c), pad=True, note="messages of the model, cut everywhere, in the definitions")
    start += sub(0, "n")
    for k in range(0, len(data), 20):
        yield Case(start + b"".join(x for c in data[k:k + 20] for x in c), pad=True, note="messages of the model, cut everywhere, in the data")


def header_model(r, work, rep):
    """every file of MCHeader"""
    bs = model("MCHeader", "C12", work, rep, PAIRS="0" if TIER == "quick" else "1")
    for b in bs:
        yield Case(bytes(b["file"]), hdr=True, note="file of the model: " + b["k"])


def views_model(r, work, rep):
    """every short string of MCViews, shown by the real code"""
    from ulog import header, info
    bs = [bytes(x) for x in model("MCViews", "C21", work, rep, N="3" if TIER == "quick" else "4")]
    for k in range(0, len(bs), 400):
        yield Case(header() + b"".join(info(f"char[{len(b)}] k", b) for b in bs[k:k + 400]), args=dict(want="vw"), note="strings of the model")


def errors_model(r, work, rep):
    """every log of MCErrors; records of one section many to a file"""
    bs = model("MCErrors", "C25", work, rep, BIG="0" if TIER == "quick" else "1")
    for b in (x for x in bs if x["stop"]):
        f = bytes(b["file"])
        a, m = gens.failing(r) if b["end"] == "fail" else ({}, {})
        yield Case(f, pad=True, ending=b["end"], args=dict(a, want="err"), meta=m, note="log of the model that stops")
    for pre in sorted({b["pre"] for b in bs if not b["stop"]}):
        of = [bytes(b["file"]) for b in bs if b["pre"] == pre and not b["stop"]]
        for k in range(0, len(of), 40):
            yield Case(of[k][:pre] + b"".join(f[pre:] for f in of[k:k + 40]), pad=k % 80 == 0, args=dict(want="err"), note="records of the model with known defects")


MODELS = dict(C25=errors_model, C12=header_model, C16=meta_model, C08=fields_model, C15=grammar_model, C21=views_model)
ASSUME = ["TLC evaluates the specification correctly", "the harness projects results faithfully (it formats values, it judges nothing)"]


def ts_build(crate, rep):
    """the harness, which moves and shares everything between threads, in the thread-safe build"""
    rc, path, log = core.cargo_build(crate, "ts")
    if rc == 0:
        return path
    errs = re.findall(r"^.*error.*$", log, re.M)
    if not errs:
        raise core.ToolError(f"harness {crate} does not build:\n" + log[-3000:])
    rep.violation(f"a program that uses {crate} from several threads compiles against the default build only: {errs[0][:300]}", dict(errors=log[-6000:]))


def derived_ts(rep, work, r):
    """derived streams in both builds; what comes out of the thread-safe one is looked at on another thread"""
    import derive
    default, sets, path = derive.build("", rep, random.Random(SEED))
    if default is None:
        raise core.ToolError("no message set compiles")
    binary = ts_build("derive", rep)
    if binary is None:
        return
    import os
    os.environ["SCHEMAS"] = path
    cases = list(derive.random_cases(r, sets, 150 if TIER == "quick" else 2000))
    for c in cases:
        c.ref = derive.DCase(c.file, c.set, c.spec, c.ops, ending=c.ending, args=dict(c.args))
    rep.cov["derived_cases"] = len(cases)
    run_check("C17", rep, cases, work, binary, default, module="DeriveTrace", corruptor=derived_corrupt)


def derived_corrupt(prop, r, run):
    import derive
    return derive.corrupt(r.choice(["C13", "C14"]), r, run)


def check(prop):
    rep = core.Report(prop)
    rep.assumptions = ASSUME
    work = core.scratch(prop)
    r = random.Random(SEED)
    binary = core.build("core")
    cases = []
    if prop in MCN:
        cases += mc_cases(prop, r, work, rep, 900 if TIER == "quick" else 12000)
    if prop in MODELS:
        cases += MODELS[prop](r, work, rep)
    g = list(getattr(gens, prop)(r, TIER))
    cases += g
    rep.cov["generated_cases"] = len(g)
    ref_binary = None
    if prop == "C17":
        ref_binary = binary
        binary = ts_build("core", rep)
        if binary is None:
            return rep.finish()
        for c in cases:
            c.ref = Case(c.file, c.hdr, c.ts, c.pad, c.allow, c.ending, args={k: v for k, v in c.args.items() if k != "want"})
    for part in split(cases, 4000):
        if run_check(prop, rep, part, work, binary, ref_binary):
            break
    if prop == "C17":
        derived_ts(rep, work, r)
    return rep.finish()
