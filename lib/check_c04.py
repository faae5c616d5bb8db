"""C04: arbitrary input, against Progress.tla; the models are MCProgress (reader) and MCNest
(decoding with limits)."""
import json, os, random, re, struct
import core, gens
from core import TIER, SEED
from cases import Case
from ulog import *

MB = 1 << 20


class PCase(Case):
    """Only the progress of the run is recorded.  cap: memory one step may take."""
    n = 0

    def __init__(self, file, cap=None, **kw):
        super().__init__(file, **kw)
        # a few MB, and what values in memory take compared to their bytes in the log
        self.cap = cap or 3 * MB + 900 * len(self.file)
        self.args.setdefault("want", "mem,light")
        # every second run with a logger that formats all there is to log
        PCase.n += 1
        if PCase.n % 2:
            self.args["log"] = 1

    def run(self, prop, ref=None):
        return dict(id=self.id, len=len(self.file), cap=self.cap, ev=self.result["ev"])


class PDCase(PCase):
    """the same for a derived stream"""

    def __init__(self, file, name, mode=None, **kw):
        super().__init__(file, **kw)
        self.args["set"] = name
        if mode:
            self.args["mode"] = mode


def conf(r):
    c = gens.rcfg(r)
    if r.random() < .25:
        c["allow"] = r.choice([[], ["a"], ["a", "b", "t"]])
    a = {}
    if r.random() < .2:
        a["chunks"] = ",".join(str(r.choice([1, 2, 3, 7, 4096])) for _ in range(3))
        if r.random() < .4:
            a.update(intr=r.choice([2, 3]), burst=r.choice([1, 2, 5, 30, 300]))
    if c.get("allow") is not None and r.random() < .5:
        a["api"] = r.choice(["depr", "rev"])
    c["args"] = a
    c["ending"] = "fail" if r.random() < .08 else "eof"
    if c["ending"] == "fail":
        a["fail"] = r.choice(["reset", "block", "invalid", "timeout", "pipe", "other"])
    return c


HUGE = [255, 256, 65535, 65536, 10 ** 6, 2 ** 24, 5 * 10 ** 7, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 10 ** 12, 2 ** 61, 2 ** 63 - 1, 2 ** 63,
        2 ** 64 - 1, 2 ** 64, 10 ** 30]
HDR = header(1, 5)


def sizes(r):
    """lengths that nothing backs, wherever a length can be declared"""
    for n in HUGE:
        for ty in PRIM:
            yield HDR + info(f"{ty}[{n}] k", b"abc") + minfo(f"{ty}[{n}] k", b"\1" * 40), f"{ty}[{n}] in an info record"
            yield (HDR + fmt("a", [("uint64_t", None, "timestamp")]) + rec("F", f"b:uint64_t timestamp;{ty}[{n}] x;".encode())
                   + sub(1, "b") + data(1, bytes(8)) + data(1, bytes(30))), f"{ty}[{n}] in a data record"
        for pad in ("_padding0", "_paddingX"):
            yield HDR + rec("F", f"b:uint64_t timestamp;uint8_t[{n}] {pad};".encode()) + sub(1, "b") + data(1, bytes(8)) + data(1, bytes(30)), "padding"
        for inner in ("", "uint8_t v;", "uint8_t[0] v;", "uint8_t[2] _padding0;", "char _padding0;", "e2[0] z;", "e2 z;", "nowhere z;", "e z;", "uint8_t v;int16_t w;", "float v;float w;char[2] z;",
                      "uint64_t[4] v;" + "bool w;" * 9):
            f = rec("F", b"e2:") + rec("F", ("e:" + inner).encode()) + rec("F", f"t:uint64_t timestamp;e[{n}] x;".encode())
            yield (HDR + f + sub(1, "t") + data(1, bytes(8)) + data(1, bytes(100)) + info(f"e[{n}] k", b"") + info(f"e[{n}] k", bytes(50)),
                   f"e[{n}] of {inner or 'nothing'}", 150 * MB)
    for a in (b"99999999999999999999", b"00000000000000000000001", b"-1", b"1e9", b"0x10", b"1 2", b"", b"18446744073709551616", b"9" * 5000):
        yield HDR + rec("F", b"b:uint8_t[" + a + b"] x;") + info(b"uint8_t[" + a[:100] + b"] k", b"abc"), "odd numeral"


def nesting(r):
    """definitions that refer to themselves, to one another, deeply, and doubling"""
    for depth in (1, 2, 10, 38, 63, 64, 65, 66, 100, 1000, 3000):
        fs = [rec("F", f"d{i}:d{i + 1} x;".encode()) for i in range(depth)] + [rec("F", f"d{depth}:uint8_t v;".encode())]
        yield HDR + b"".join(fs) + rec("F", b"t:uint64_t timestamp;d0 x;") + sub(1, "t") + data(1, bytes(8) + b"\7") + info("d0 k", b"\7"), f"chain {depth}"
    for body in ("a x;", "a[2] x;", "uint8_t v;a x;", "a[0] x;", "uint8_t[0] v;a x;", "a[1] x;a[1] y;", "b x;", "b[3] x;b y;", "a[18446744073709551615] x;",
                 "uint8_t _padding0;a _padding1;", "a _padding0;", "a[3] _padding0;"):
        f = rec("F", ("a:" + body).encode()) + rec("F", b"b:a y;a z;") + rec("F", b"t:uint64_t timestamp;a x;") + rec("F", b"s:s x;uint64_t timestamp;")
        yield (HDR + f + sub(1, "t") + sub(2, "s") + data(1, bytes(8)) + data(1, bytes(3000)) + data(2, bytes(3000)) + info("a k", bytes(200)) + info("b[2] k", b""),
               "recursive: " + body, 150 * MB)
    for n in (10, 17, 19, 30, 60) if TIER == "quick" else (10, 17, 18, 19, 20, 30, 45, 60):
        for w in (2, 10) if TIER == "quick" else (2, 3, 10):
            for leaf in ("", "uint8_t v;", "uint8_t[3] _padding0;", "uint16_t _padding0;"):
                fs = [rec("F", f"d{i}:d{i + 1}[{w}] x;".encode()) for i in range(n)] + [rec("F", f"d{n}:{leaf}".encode())]
                gs = [rec("F", f"g{i}:g{i + 1} x;g{i + 1} y;".encode()) for i in range(n)] + [rec("F", f"g{n}:{leaf}".encode())]
                yield (HDR + b"".join(fs + gs) + rec("F", b"t:uint64_t timestamp;d0 x;") + rec("F", b"s:uint64_t timestamp;g0 x;") + sub(1, "t") + sub(2, "s")
                       + data(1, bytes(8)) + data(1, bytes(3000)) + data(2, bytes(8)) + data(2, bytes(60000)) + info("g0 k", b""), f"doubling {n} {w} {leaf}", 250 * MB)


SOUP = ["uint8_t", "float", "a", "t", "[", "]", ";", ":", " ", "3", "0", "99999999999", "18446744073709551616", "_padding0", "timestamp", "\t", "\xa0", "é",
        "\u3000", "x", "uint64_t timestamp;", "a b;", "\0", "-", ".", "[2]", "char[40] ", "int32_t ", "\U0001f680"]


def soup(r, n):
    return "".join(r.choice(SOUP) for _ in range(r.randrange(n)))


def grammar(r):
    """records whose texts are made of pieces of the grammar"""
    out = [HDR]
    for _ in range(r.randrange(3, 20)):
        t = r.choice("FFFIIMPQALC")
        s = soup(r, 12)
        if r.random() < .4:
            s = r.choice(["a:", "t:uint64_t timestamp;", "a:b x;"]) + s
        b = s.encode()
        if r.random() < .2:
            i = r.randrange(len(b) + 1)
            b = b[:i] + bytes([r.randrange(128, 256)]) + b[i:]
        if t in "IP":
            b = bytes([r.choice([len(b) % 256, r.randrange(256)])]) + b + bytes(r.randrange(9))
        elif t in "MQ":
            b = bytes([r.randrange(4), r.choice([len(b) % 256, r.randrange(256)])]) + b + bytes(r.randrange(9))
        elif t == "A":
            b = bytes([r.randrange(3), r.randrange(3), 0]) + r.choice([b"a", b"t", b])
        elif t in "LC":
            b = bytes([r.choice([0x36, 0, 255])]) + bytes(r.choice([8, 10])) + b
        out.append(rec(t, b))
    for _ in range(r.randrange(5)):
        out.append(data(r.randrange(3), bytes(r.randrange(256) for _ in range(r.randrange(40)))))
    return b"".join(out)


def mutate(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 2, 4, 12])):
        c = r.random()
        if not b:
            break
        i = r.randrange(len(b))
        if c < .25:
            b[i] ^= 1 << r.randrange(8)
        elif c < .45:
            b[i] = r.choice([0, 1, 127, 128, 255, 59, 58, 91, 93, 32, 48, 57, 65, 68, 70, 73])
        elif c < .6:
            del b[i:i + r.choice([1, 2, 3, 20])]
        elif c < .75:
            j = r.randrange(len(b))
            b[i:i] = b[j:j + r.choice([1, 3, 30])]
        elif c < .85:
            b[i:i] = bytes(r.randrange(256) for _ in range(r.choice([1, 2, 8])))
        else:
            b[i:i] = r.choice([b"[18446744073709551615]", b"[99999999]", b"[", b"]", b";;", b"_padding0", b"\xff\xff", b"\0\0D", b"\xc3\x28"])
    return bytes(b)


def shortest(r):
    """every record type in both sections, with every short body of equal bytes"""
    for pre in (HDR, HDR + fmt("a", [("uint64_t", None, "timestamp"), ("a", None, "x"), ("uint8_t", 5, "_padding0")]) + sub(0, "a") + sub(257, "a", 2)):
        for fill in (0, 1, 48, 65, 255):
            yield pre + b"".join(rec(t, bytes([fill] * n)) for t in b"ABCDFILMOPQRS\0\xff" for n in range(13)) + b"\1", f"short bodies of {fill}"


def corrupt(prop, r, run):
    run = json.loads(json.dumps(run))
    c = r.randrange(3)
    e = r.choice(run["ev"])
    if c == 0:
        e["x"] = dict(t=r.choice(["panic", "abort", "hang", "cap"]))
    elif c == 1:
        e["mem"] = run["cap"] + 1
    else:  # goes on after its end
        run["ev"].append(dict(x=dict(t="err")))
        if not any(x["x"]["t"] == "end" for x in run["ev"]):
            return None
    return run


def model(r, work, rep, module, n, take):
    out, st = core.tlc(module, work, dict(N=str(n)), timeout=850)
    if not st["ok"]:
        raise core.ToolError(f"{module}:\n" + core.tail(out))
    rep.add_stats(st)
    bs = sorted(set(re.findall(r'<<"B", "(.*)">>', out)))
    rep.cov["model_behaviours_" + module] = len(bs)
    for b in (bs if len(bs) <= take else r.sample(bs, take)):
        o = json.loads(json.loads('"' + b + '"'))
        yield PCase(bytes(o["file"]), ending=o["ending"], note="log of " + module, **gens.rcfg(r))


def check():
    import derive, reader_checks
    rep = core.Report("C04")
    rep.assumptions = reader_checks.ASSUME + ["a step that does not return within 12 s is taken to hang",
                                              "memory of a step is what the allocator was asked for on top of what was in use"]
    work = core.scratch("C04")
    r = random.Random(SEED * 3 + 1)
    q = TIER == "quick"
    binary = core.build("core")
    cases = list(model(r, work, rep, "MCProgress", 2 if q else 3, 3500 if q else 60000))
    cases += list(model(r, work, rep, "MCNest", 2, 2500 if q else 10000))
    hostile = list(sizes(r)) + list(nesting(r)) + list(shortest(r))
    for x in hostile:
        cases.append(PCase(x[0], cap=x[2] if len(x) > 2 else None, note=x[1], **gens.rcfg(r)))
    logs = gens.logs(r, 150 if q else 1500, maxrec=30)
    files = [l.file() for l in logs] + [b for _, b in gens.sample_logs(60)] + [x[0] for x in hostile if len(x[0]) < 20000]
    for _ in range(6000 if q else 120000):
        c = r.random()
        if c < .1:
            f = bytes(r.choice([0, 1, 65, 68, 70, r.randrange(256)]) for _ in range(r.choice([0, 1, 15, 16, 17, 40, 300])))
            f = f if r.random() < .4 else HDR + f
        elif c < .45:
            f = grammar(r)
        else:
            f = mutate(r, r.choice(files))
        cases.append(PCase(f, cap=250 * MB, note="mutated or random input", **conf(r)))
    # the inputs of the other properties
    for p in range(1, 18):
        if not hasattr(gens, f"C{p:02d}"):
            continue
        g = list(getattr(gens, f"C{p:02d}")(random.Random(SEED * 100 + p), "quick"))
        for c in g if not q else r.sample(g, min(len(g), 200)):
            a = {k: v for k, v in c.args.items() if k in ("chunks", "intr", "burst", "fail", "api", "gates", "more")}
            cases.append(PCase(c.file, hdr=c.hdr, ts=c.ts, pad=c.pad, allow=c.allow, ending=c.ending, args=a, note=f"C{p:02d}: {c.note}"))
    for _ in range(100 if q else 1500):
        cases.append(PCase(gens.odd_log(r).file(), note="odd formats", **conf(r)))
    rep.cov["generated_cases"] = len(cases)
    bad = False
    for part in reader_checks.split(cases, 30000):
        bad = reader_checks.run_check("C04", rep, part, work, binary, module="ProgressTrace", corruptor=corrupt)
        if bad:
            return rep.finish()
    # derived streams
    dbin, sets, _ = derive.build("", rep, r)
    if dbin:
        dcases = []
        for _ in range(1500 if q else 20000):
            n = r.choice(sorted(sets))
            if r.random() < .6:
                lg = derive.DLog(r, sets[n], nrec=12, flawed=1)
                f = mutate(r, lg.file()) if r.random() < .8 else lg.file()
            else:
                f = mutate(r, r.choice(files))
            dcases.append(PDCase(f, n, r.choice([None, "stream"]), cap=250 * MB, note="derived stream over damaged input",
                                 args=dict(want="light")))
        for x in hostile[::7 if q else 1]:
            dcases.append(PDCase(x[0], "plain_LoggedMessages", cap=250 * MB, note=x[1], args=dict(want="light")))
        reader_checks.run_check("C04", rep, dcases, work, dbin, module="ProgressTrace", corruptor=corrupt)
        rep.cov["derived_cases"] = len(dcases)
    return rep.finish()
