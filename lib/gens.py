"""Scenario generators, one per property of the reader.  They choose inputs, configurations and
reader behaviour; what must come out is decided by the specification (Trace.tla)."""
import json, os, random, re, struct
import core
from ulog import *
from cases import Case, ALLON, escaped

SAMPLES = "/repo/core/test_data/input"


def quick(tier, q, t):
    return q if tier == "quick" else t


def rcfg(r, **kw):
    c = dict(hdr=r.random() < .5, ts=r.random() < .5, pad=r.random() < .5)
    c.update(kw)
    return c


def rallow(r, g):
    c = r.random()
    if c < .5:
        return None
    names = r.sample(g.tops, r.randrange(0, len(g.tops) + 1))
    if c > .9:
        names.append("zzz")
    return names


def split_records(file):
    """cuts a log into header and records (for sample files)"""
    out, p = [file[:16]], 16
    while p + 3 <= len(file):
        n = file[p] + 256 * file[p + 1] + 3
        if p + n > len(file):
            break
        out.append(file[p:p + n])
        p += n
    return out


def sample_logs(maxrec):
    out = []
    for n in sorted(os.listdir(SAMPLES)):
        if n.endswith(".ulg"):
            with open(os.path.join(SAMPLES, n), "rb") as f:
                b = f.read()
            rs = split_records(b)
            defs = [x for x in rs[1:] if x[2] in b"FBIMPQ"]
            # the definitions that are used, as many records as fit
            k = 0
            while k + 1 < len(rs) and rs[k + 1][2] != ord("A"):
                k += 1
            out.append((n, b"".join(rs[:k + 1 + maxrec]) if len(rs) > k + 1 + maxrec else b))
    return out


# ---------------------------------------------------------------------------------------------
# adversarial names and shapes shared by generators

def tricky_log(r, canon=True):
    """formats with many fields, deep nesting, long names, many subscriptions"""
    g = Gen(r, nrec=0, canon=canon, fmts=1, flags_p=0)
    g.recs, g.live, g.tops = [], {}, []
    F = g.F.f = {}
    c = r.randrange(6)
    if c == 0:      # deep nesting
        d = r.choice([3, 5, 9, 20])
        F["l0"] = [("uint16_t", None, "v"), ("char", 2, "c")]
        for i in range(1, d):
            F[f"l{i}"] = [("int8_t", None, "pre"), (f"l{i-1}", r.choice([None, 1]), "n"), ("uint8_t", r.choice([1, 1, 2, 5, 8, 20]), "_padding0"),
                          ("bool", None, "post")]
        F["top"] = [("uint64_t", None, "timestamp"), (f"l{d-1}", r.choice([None, 1, 2]) if d < 6 else None, "deep"),
                    ("double", None, "last")]
    elif c == 1:    # many fields
        F["top"] = [("uint64_t", None, "timestamp")] + [(r.choice(PRIM), None, f"field_{i}") for i in range(r.choice([40, 120]))]
    elif c == 2:    # large arrays
        F["el"] = [("float", None, "x"), ("int16_t", 2, "y")]
        F["top"] = [("uint64_t", None, "timestamp"), ("uint8_t", r.choice([255, 256, 1000]), "a"), ("el", r.choice([99, 100, 101]), "els"),
                    ("uint64_t", r.choice([3, 32]), "b")]
    elif c == 3:    # long names
        n = "n" * r.choice([100, 200, 255])
        F[n] = [("uint64_t", None, "timestamp"), ("float", None, "f" * r.choice([100, 300]))]
    elif c == 4:    # names that look like types and keywords, digits, underscores
        F["float_"] = [("uint64_t", None, "timestamp"), ("int32_t", None, "int32_t"), ("char", 3, "_"), ("bool", None, "__x9")]
        F["Uint8_t"] = [("float_", 2, "float_"), ("uint64_t", None, "timestamp"), ("uint8_t", None, "timestamp_sample")]
    else:           # nested timestamps, everywhere
        F["t2"] = [("uint64_t", None, "timestamp"), ("uint8_t", None, "z")]
        F["t1"] = [("t2", 2, "arr"), ("uint64_t", None, "timestamp_sample"), ("t2", None, "timestamp_")]
        F["top"] = [("t1", None, "n"), ("t2", 3, "m"), ("uint64_t", None, "timestamp"), ("t2", None, "last")]
    for n in F:
        g.add("F", fmt(n, F[n]), n)
        if any(f[2] == "timestamp" and f[0] == "uint64_t" and f[1] is None for f in F[n]):
            g.tops.append(n)
    for _ in range(3):
        g.addsub()
    for _ in range(10):
        g.step(r.choice(["data"] * 6 + ["sub", "unsub", "L", "I"]))
    return g


def big_log(r):
    """records up to the size limit"""
    g = Gen(r, nrec=3, canon=True, fmts=2, flags_p=0)
    n = r.choice([32757, 32758, 32768, 65525])
    g.hdr = header(1, 5)
    g.recs = [("F", fmt("big", [("uint64_t", None, "timestamp"), ("uint8_t", n, "d")]), None), ("A", sub(65535, "big", 255), None),
              ("D", data(65535, bytes(8) + bytes(r.randrange(256) for _ in range(n))), None),
              ("L", log("z" * r.choice([65526, 32768, 32767])), None), ("op", rec(83, bytes(65535)), None), ("L", log("end"), None)]
    g.tops = ["big"]
    return g


def logs(r, n, canon=True, maxrec=60, tricky=True, **kw):
    for i in range(n):
        if tricky and i % 6 == 5:
            yield tricky_log(r, canon)
        else:
            yield Gen(r, nrec=r.choice([4, 12, maxrec]), canon=canon, big=r.random() < .2, **kw)


def crowd_log(r, nfmt, nsub):
    """many formats, many subscriptions; the names, and the ids that are watched"""
    names = [f"f{k}" for k in range(nfmt)]
    nest = r.sample(names, 3)
    out = [header(1, 0)] + [fmt(n, [("uint64_t", None, "timestamp"), (nest[0] if i % 50 == 7 and n not in nest else "uint8_t", None, "a")])
                            for i, n in enumerate(names)]
    size = {n: 17 if i % 50 == 7 and n not in nest else 9 for i, n in enumerate(names)}
    dense = r.random() < .5
    ids = list(range(nsub)) if dense else r.sample(range(65536), nsub)
    live = {}
    for k, i in enumerate(ids):
        live[i] = names[-1 - k % nfmt] if k % 3 else r.choice(names)
        out.append(sub(i, live[i], k % 256))
    watch = ids[:2] + ids[-2:] + ids[nsub // 2:nsub // 2 + 1] + r.sample(ids, min(nsub, 15))
    for i in watch:
        out.append(data(i, bytes(r.randrange(256) for _ in range(size[live[i]]))))
        if r.random() < .3:
            out.append(unsub(r.choice(watch)))
        if r.random() < .3:
            j = r.choice(watch)
            live[j] = r.choice(names)
            out.append(sub(j, live[j], 0))
    return b"".join(out), names, watch


def appended(r, f):
    """the log f with flags that announce appended data somewhere in it"""
    bs, p = [59], 16
    while p + 3 <= len(f):
        p += 3 + f[p] + 256 * f[p + 1]
        bs.append(min(p, len(f)) + 43)
    o = r.choice(bs[len(bs) // 2:]) + r.choice([0, 0, 0, 1, -1, 2, 3, 5, 16, -16])
    return f[:16] + flags(bytes(8), b"\1" + bytes(7), r.choice([(o, 0, 0), (0, o, 0), (0, 0, o), (o, 7, 9)])) + f[16:]


def odd_names(r, names):
    """names that are nearly those of formats, and of none"""
    n = r.choice(names)
    out = [n + "\0", n + "\0\0\0", " " + n, n + " ", n + "\n", "\ufeff" + n, n + "x", n[:-1], n[1:], n.upper(), n.swapcase(), n + "0", n + ":", n + n,
           "*", "", "?", ".*", n + "*", n[:1] + "*", "^" + n + "$", n + "_0", n + "/", "/" + n, "nosuch" + "h" * r.choice([20, 60, 120, 250, 300])]
    return [x for x in out if x not in names]


# ---------------------------------------------------------------------------------------------
# malformed records (each must cost exactly its own result)

def bad_records(r, g, data_section, short=True):
    """records that cannot be decoded whatever the state is (in the given section)"""
    out = [
        rec("I", b""), rec("I", bytes([5]) + b"abc"), rec("I", key("float x") + b"\1\2\3"), rec("I", key("nosuch x") + bytes(4)),
        rec("I", key("float") + bytes(4)), rec("I", key(b"float \xff\xfe") + bytes(4)), rec("I", key("float[ x") + bytes(4)),
        rec("I", key("char[70000] x") + b"abc"), rec("I", key("char[99999999999999999999999] x") + b"abc"),
        rec("I", key("uint8_t[18446744073709551615] x") + b"abc"), rec("I", key("uint64_t[2305843009213693952] x") + b"abc"),
        rec("I", key(";") + bytes(4)), rec("I", key("9 x") + bytes(4)), rec("I", b"\0"),
        rec("M", b""), rec("M", b"\0"), rec("M", b"\1" + bytes([200]) + b"x"), rec("M", b"\0" + key("uint16_t[3] x") + bytes(5)),
        rec("P", b""), rec("P", key("int32_t x") + b"\1\2\3"), rec("P", key("int64_t x") + bytes(8)), rec("P", key("float[1] x") + bytes(4)),
        rec("P", key("double x") + bytes(8)), rec("P", key("int32_t[1] x") + bytes(4)), rec("P", key("uint32_t x") + bytes(4)),
        rec("P", key("char x") + bytes(4)), rec("P", key("bool x") + bytes(4)), rec("P", key("a b") + bytes(4)),
        rec("Q", b""), rec("Q", b"\1"), rec("Q", b"\1" + key("int32_t x")), rec("Q", b"\3" + key("int16_t x") + bytes(4)),
        rec("A", b""), rec("A", b"\0\1"), rec("A", b"\0\1\0"), rec("A", b"\0\1\0nosuchformat"), rec("A", b"\0\1\0a\xffb"), rec("A", b"\0\1\0a b"),
        rec("A", b"\0\1\0\xc3\xa9"),
    ]
    if data_section:
        out += [
            rec("L", b""), rec("L", b"\x36" + bytes(7)), rec("L", b"\x2f" + bytes(8) + b"a"), rec("L", b"\x38" + bytes(8) + b"a"),
            rec("L", b"\0" + bytes(8)), rec("L", b"\x36" + bytes(8) + b"a\xff"), rec("L", b"\x36" + bytes(8) + b"\xc3"),
            rec("L", b"\x07" + bytes(8) + b"x"), rec("L", b"\xff" + bytes(8) + b"x"),
            rec("C", b""), rec("C", b"\x36" + bytes(9)), rec("C", b"\x39" + bytes(10)), rec("C", b"\x36" + bytes(10) + b"\xed\xa0\x80"),
            rec("O", b""), rec("O", b"\1"), rec("R", b""), rec("R", b"\1"),
            *[rec("A", bytes([r.choice([0, 1])]) + struct.pack("<H", m) + t) for m in list(g.live)[:3] for t in (b"", b"nosuchformat", g.live[m][0].encode() + b"\0")],
            *[rec(t, struct.pack("<H", m)[:1]) for m in list(g.live)[:2] for t in "RD"],
            rec("D", b""), rec("D", b"\1"), rec("D", struct.pack("<H", 4242)), data(4243, bytes(20)),
        ]
        if g.live and short:
            mid = r.choice(list(g.live))
            name = g.live[mid][0]
            full = g.F.body(r, name)
            # without the trailing padding, one byte short
            n = len(full)
            fs = list(g.F.f[name])
            while fs and fs[-1][2].startswith("_padding"):
                n -= g.F.fsize(fs.pop())
            if fs and fs[-1][0] in W and g.F.fsize(fs[-1]) > 0 and not any(f[2].startswith("_padding") for f in allfields(g.F, name)[:-1]):
                out += [data(mid, full[:n - 1])] * 3
    else:
        out += [
            rec("F", b""), rec("F", b"a"), rec("F", b":"), rec("F", b"a:b"), rec("F", b"a:b c"), rec("F", b"a:b c;d"), rec("F", b"a:b[ c;"),
            rec("F", b"a:b[x] c;"), rec("F", b"a:b[99999999999999999999] c;"), rec("F", b"\xff:b c;"), rec("F", b"a b:c d;"), rec("F", b"9a:c d;"),
            rec("F", b"a:9 d;"), rec("F", b"a:c 9;"), rec("F", b"a:c d;;"), rec("F", b"a::c d;"), rec("F", b"a:c d,"), rec("F", b"a:c[-1] d;"),
            rec("F", b"a:c[1.5] d;"), rec("F", b"a:c[1] [2] d;"), rec("F", b"a:c d[1];"), rec("F", b"a-b:c d;"), rec("F", b"a:c d;\0"),
            *[rec("F", n.encode() + t) for n in list(g.F.f)[:3] for t in (b":", b":uint64_t timestamp", b":uint64_t timestamp;x", b":a b;c", b" :x y;!", b":\xff")[1:]],
            rec("B", b""), rec("B", bytes(39)), flags(incompat=b"\2" + bytes(7)), flags(incompat=b"\x80" + bytes(7)),
            flags(incompat=bytes(7) + b"\1"), flags(incompat=b"\1\1" + bytes(6), offs=(5, 6, 7)),
        ]
    return r.choice(out)


def allfields(F, name):
    out = []
    for f in F.f[name]:
        if f[0] in W:
            out.append(f)
        else:
            out += allfields(F, f[0])
            out.append((f[0], f[1], f[2]))
    return out


def with_bad(r, g, p=0.4, short=True):
    """interleaves malformed records; returns (file, map, good file); map for header included"""
    data_section, n = False, 0
    parts, mp, good = [g.hdr], [1], [g.hdr]
    live = {}
    saved = g.live
    for kind, b, inf in g.recs:
        while r.random() < p:
            g.live = live
            parts.append(bad_records(r, g, data_section, short))
            mp.append(0)
        if kind == "A":
            data_section = True
            if isinstance(inf, tuple):
                live[inf[0]] = (inf[1], inf[2])
        elif kind == "R":
            live.pop(inf, None)
        n += 1
        parts.append(b)
        good.append(b)
        mp.append(n + 1)
    while r.random() < p:
        g.live = live
        parts.append(bad_records(r, g, data_section, short))
        mp.append(0)
    g.live = saved
    return b"".join(parts), mp, b"".join(good)


def opt(r, k, v, p=.5):
    return {k: v} if r.random() < p else {}


def more(r, f, c, p=.5):
    """bytes that turn up behind the cut: the rest of the log, or what reads as records wherever one starts"""
    if r.random() > p:
        return {}
    k = r.random()
    m = f[c:] if k < .4 else bytes(700) if k < .7 else (f[c:c + r.randrange(40)] + bytes(1400)) if k < .85 else b"\x00\x00S" * 300
    return dict(more=m.hex()) if m else {}


# ---------------------------------------------------------------------------------------------
# generators: yield Cases

def C01(r, tier):
    for n, b in sample_logs(quick(tier, 400, 8000)):
        yield Case(b, **ALLON, args=dict(want="enc"), note="sample " + n)
        names = sorted({x[6:].decode() for x in split_records(b)[1:] if x[2] == 65})
        if names:
            yield Case(b, **ALLON, allow=names[::2], args=dict(want="enc"), note="sample " + n)
    for g in logs(r, quick(tier, 150, 1200), canon=True):
        yield Case(g.file(), **ALLON, args=dict(want="enc"), note="canonical log")
        if r.random() < .4:
            yield Case(g.file(), **ALLON, allow=rallow(r, g) or [], args=dict(want="enc"), note="canonical log, allow list")
    for _ in range(quick(tier, 1, 4)):
        yield Case(big_log(r).file(), **ALLON, args=dict(want="enc"), note="large records")


def large_bad(r, n):
    """records of the sizes at which a size is easily got wrong, well-formed or not, in both sections"""
    sizes = [65535, 65535, 65534, 32768, 32767, 8192, 4096, 1024, 512, 257, 256, 255]
    for _ in range(n):
        F = [("uint64_t", None, "timestamp"), ("uint8_t", 65525, "x")]
        parts, mp, good, k = [header(1, 5)], [1], [header(1, 5)], 1
        def put(b, ok=True):
            nonlocal k
            parts.append(b)
            if ok:
                good.append(b)
                k += 1
            mp.append(k if ok else 0)
        def any_(s, later=True):
            c = r.randrange(8)
            n = sizes[s]
            z = bytes([r.choice([0, 1, 65, 255])]) * n
            if c == 0:
                put(rec("F", z[:n]), later)
            elif c == 1:
                put(rec(r.choice("IPQM"), b"\xff" + z[1:]), False)
            elif c == 2:
                put(rec("I", b"\7bool ok" + z[8:]))
            elif c == 3:
                put(rec(r.choice("Zxd"), z))
            elif c == 4:
                put(rec("B", bytes(8) + b"\2" + z[9:]), later)
            elif c == 5:
                put(rec("M", b"\0\7bool ok" + z[9:]))
            elif c == 6:
                put(rec("P", b"\7bool ok" + z[8:]))
            else:
                put(rec("F", (b"f%d:" % k + b"uint8_t x;" * (n // 10))[:min(n, 700) - 2] + b"!!"), later)
        todo = r.sample(range(1, len(sizes)), 5) + [0, 1]
        for s in todo[:2]:
            any_(s, False)
        put(fmt("a", F))
        put(sub(1, "a"))
        for s in todo[2:]:
            n, c = sizes[s], r.randrange(6)
            if c == 0:
                put(log("z" * (n - 9)))
            elif c == 1:
                put(rec("L", b"\x36" + bytes(8) + b"\xff" * (n - 9)), False)
            elif c == 2:
                put(data(1, bytes(n - 2)), n == 65535)
            elif c == 3:
                put(data(2, bytes(n - 2)), False)
            elif c == 4:
                put(rec(r.choice("Sy"), bytes(n)))
            else:
                any_(s)
            if r.random() < .7:
                put(log("between", 0x34, n))
        yield Case(b"".join(parts), hdr=True, ref=Case(b"".join(good), hdr=True), meta=dict(map=mp), note="records of large sizes, well-formed and not")


def C02(r, tier):
    for i in range(quick(tier, 130, 1200)):
        g = Gen(r, nrec=r.choice([4, 12, 30]), canon=False) if i % 6 else tricky_log(r)
        cfg = rcfg(r, hdr=True)
        al = rallow(r, g) if r.random() < .2 else None
        # data that is not listed is ignored, not decoded
        f, mp, good = with_bad(r, g, r.choice([.1, .4, .6]), short=al is None)
        ref = Case(good, **cfg, allow=al)
        yield Case(f, **cfg, allow=al, ref=ref, meta=dict(map=mp), note="malformed records interleaved")
        if i % 5 == 0:
            yield Case(good, **cfg, allow=al, ref=ref, meta=dict(map=list(range(1, len(mp) + 1))), note="no malformed records")
    yield from large_bad(r, quick(tier, 5, 40))
    # every single malformed record kind in both sections, at every place of a small log
    for i in range(quick(tier, 40, 300)):
        g = Gen(r, nrec=4, canon=False, fmts=2)
        f, mp, good = with_bad(r, g, .85)
        yield Case(f, hdr=True, ref=Case(good, hdr=True), meta=dict(map=mp), note="mostly malformed records")


def C03(r, tier):
    for i in range(quick(tier, 12, 60)):
        g = Gen(r, nrec=r.choice([3, 6]), canon=False, fmts=r.choice([1, 2]), flags_p=.3)
        if i % 4 == 3:
            g = tricky_log(r)
        f = g.file()
        cfg = rcfg(r)
        ref = Case(f, **cfg)
        bs = g.bounds()
        cuts = set(range(0, 17)) if i < 2 else {0, 15, 16}
        for b in bs:
            cuts |= {b - 1, b, b + 1, b + 2, b + 3}
        cuts |= {r.randrange(len(f)) for _ in range(30)}
        cuts = [c for c in cuts if 0 <= c <= len(f)]
        if len(cuts) > quick(tier, 90, 400):
            cuts = r.sample(cuts, quick(tier, 90, 400))
        for c in cuts:
            yield Case(f[:c], **cfg, ref=ref, args=dict(extra=3, **opt(r, "chunks", r.choice(["1", "2,3", "7"]), .3),
                       **more(r, f, c)), note=f"cut at {c}")
        # a record announcing more than there is
        big = f + struct.pack("<HB", 65535, r.choice(b"DILAZ")) + bytes(r.randrange(0, 200))
        yield Case(big, **cfg, ref=ref, args=dict(extra=3), note="declared length beyond the end")


def C05(r, tier):
    kinds = ["reset", "block", "invalid", "timeout", "pipe", "other"]
    for i in range(quick(tier, 30, 250)):
        g = tricky_log(r) if i % 5 == 4 else Gen(r, nrec=r.choice([4, 10]), canon=False, fmts=r.choice([1, 3]), big=i % 3 == 0)
        f = g.file()
        if i % 4 == 0:
            f, _, _ = with_bad(r, g, .3)
        cfg = rcfg(r)
        al = rallow(r, g) if i % 4 == 1 else None
        ref = Case(f, **cfg, allow=al)
        yield Case(f, **cfg, allow=al, ref=ref, note="one piece")
        for ch in ["1", "2", "3", "1,2,3,4,5", "16,1", "4096", ",".join(str(r.randrange(1, 40)) for _ in range(9))]:
            if r.random() < .6:
                a = dict(chunks=ch)
                if r.random() < .6:
                    a.update(intr=r.choice([2, 3, 5]), burst=r.choice([1, 2, 5, 30, 300]))
                yield Case(f, **cfg, allow=al, ref=ref, args=a, note="pieces " + ch)
        if i % 15 == 7:
            b = big_log(r).file()
            bref = Case(b, **cfg, args=dict(want="light"))
            for ch in ["", "4096", "8192", "1000,1", "65535", "32768,3"]:
                yield Case(b, **cfg, ref=bref, args=dict(want="light", chunks=ch, **opt(r, "intr", 3, .3)), note="large records in pieces " + ch)
        if i % 3 == 2:
            e = appended(r, f)
            ref2 = Case(e, **cfg, allow=al)
            for ch in ["1", "2,3", "4096"]:
                yield Case(e, **cfg, allow=al, ref=ref2, args=dict(chunks=ch, **opt(r, "intr", 2, .4)), note="appended data, pieces " + ch)
            c = r.randrange(16, len(e) + 1)
            yield Case(e[:c], **cfg, allow=al, ending="fail", ref=ref2, args=dict(fail=r.choice(kinds), **opt(r, "chunks", "3", .4)), note=f"appended data, read failure at {c}")
        # every record is available as soon as its bytes are
        p, gates = 16, []
        if cfg["hdr"]:
            gates.append(16)
        while p + 3 <= len(f):
            p += 3 + f[p] + 256 * f[p + 1]
            gates.append(min(p, len(f)))
        gates += [len(f)] * 30
        yield Case(f, **cfg, allow=al, ref=ref, args=dict(want="over", gates=",".join(map(str, gates)), **opt(r, "chunks", "5", .3)),
                   note="gated delivery")
        for _ in range(4):
            c = r.choice([r.randrange(0, len(f) + 1), r.choice(gates[:-30] or [16])])
            yield Case(f[:c], **cfg, allow=al, ending="fail", ref=ref, args=dict(fail=r.choice(kinds), **opt(r, "chunks", "3", .4),
                       **opt(r, "intr", 2, .2), burst=r.choice([1, 20]), **more(r, f, c)), note=f"read failure at {c}")
        # the reader has reported the end, and has more to deliver if it is asked again
        for _ in range(3):
            c = r.choice([r.randrange(16, len(f) + 1), r.choice(gates[:-30] or [16])])
            a = more(r, f, c, 1)
            yield Case(f[:c], **cfg, allow=al, ref=Case(f[:c], **cfg, allow=al), args=dict(**a, extra=3, **opt(r, "chunks", r.choice(["3", "1"]), .6)),
                       note=f"end at {c}, more behind")


def set_lists(c, lists):
    """allow lists set on the parser in use, after so many results"""
    if lists:
        c.args["lists"] = ";".join(f"{k}:{'+'.join(map(escaped, ns))}" for k, ns in lists)
        c.meta["lists"] = [dict(at=k, names=list(ns)) for k, ns in lists]
    return c


def C06(r, tier):
    for n, m, k in [(400, 500, 300)] if tier == "quick" else [(400, 500, 300), (1500, 1500, 1499), (20, 3000, 10)]:
        f, names, watch = crowd_log(r, n, m)
        cfg = rcfg(r)
        al = r.sample(names, k)
        yield Case(f, **cfg, allow=al, ref=Case(f, **cfg), args=dict(api=r.choice(["builder", "depr", "rev"])), note="many names")
    for i in range(quick(tier, 100, 900)):
        g = Gen(r, nrec=r.choice([10, 40]), canon=False, fmts=r.choice([2, 3, 4]), flags_p=.1,
                kinds=["sub"] * 4 + ["data"] * 8 + ["unsub"] * 2 + ["L", "I", "op"], dead=.2) if i % 8 else tricky_log(r)
        f = g.file()
        if i % 5 == 0:
            f, _, _ = with_bad(r, g, .2)
        if i % 7 == 3:
            f = appended(r, f)
        cfg = rcfg(r)
        names = list(g.tops)
        lists = [r.sample(names, r.randrange(0, len(names) + 1)), names, [], odd_names(r, names)[:5]]
        al = r.choice(lists[:1] * 4 + lists[1:])
        if r.random() < .3:
            n = r.choice(names)
            al = al + [r.choice([n + "x", n[:-1] or "q", n.upper() if n.upper() not in names else "qq", n + "0"])]
        if r.random() < .6:
            al = (al if r.random() < .5 else []) + r.sample(odd_names(r, names), r.choice([1, 3]))
        ref = Case(f, **cfg)
        yield Case(f, **cfg, allow=al, ref=ref, args=dict(api=r.choice(["builder", "depr", "rev"])), note="list " + ",".join(al))
        if i % 2 == 0:      # lists set while the parser is in use
            k = len(g.recs) + cfg["hdr"]
            ls = sorted((r.randrange(g.ndefs, k + 2), r.choice(lists + [r.sample(names, r.randrange(0, len(names) + 1)) + ["zz"]]))
                        for _ in range(r.choice([1, 1, 2, 3])))
            yield set_lists(Case(f, **cfg, allow=al if r.random() < .5 else None, ref=ref, note="lists set on the way"), ls)
        if i % 6 == 0:
            yield Case(f, **cfg, ref=ref, note="no list")


def C07(r, tier):
    for n, m in [(3, 1200)] if tier == "quick" else [(3, 1200), (1, 300), (300, 300), (20, 5000)]:
        f, names, watch = crowd_log(r, n, m)
        yield Case(f, **rcfg(r), args=dict(ids=",".join(map(str, watch))), note="many subscriptions")
    for i in range(quick(tier, 110, 1000)):
        g = Gen(r, nrec=r.choice([10, 30, 60]), canon=False, fmts=r.choice([2, 3, 4]), flags_p=.1,
                kinds=["sub"] * 6 + ["data"] * 9 + ["unsub"] * 4 + ["L"], dead=.5) if i % 8 else tricky_log(r)
        f = g.file()
        if i % 4 == 0:
            f, _, _ = with_bad(r, g, .3)
        if i % 9 == 5:
            f = appended(r, f)
        yield Case(f, **rcfg(r), allow=rallow(r, g) if i % 3 == 0 else None, args=dict(ids=",".join(map(str, IDS))),
                   note="subscription histories")


def short_data(r, g):
    """data records of every length up to a little more than declared"""
    for mid, (name, multi) in list(g.live.items()):
        full = g.F.body(r, name, False) + bytes(3)
        ls = range(len(full) + 1) if len(full) < 60 else sorted({0, 1, 7, 8, 9, len(full)} | {r.randrange(len(full)) for _ in range(40)})
        for n in ls:
            g.add("D", data(mid, full[:n]))


ODD = [
    # no usable timestamp, undefined and self-referential types, padding in odd places
    ("n1", [("uint32_t", None, "timestamp"), ("uint8_t", None, "a")]),
    ("n2", [("uint64_t", 1, "timestamp"), ("uint8_t", None, "a")]),
    ("n3", [("uint8_t", None, "a")]),
    ("n4", []),
    ("n5", [("uint64_t", None, "timestamp"), ("missing", None, "a")]),
    ("n6", [("uint64_t", None, "timestamp"), ("missing", 0, "a")]),
    ("n7", [("uint64_t", None, "timestamp"), ("n7", None, "a")]),
    ("n8", [("uint64_t", None, "timestamp"), ("n8", 0, "a"), ("uint8_t", None, "z")]),
    ("n9", [("has_ts", None, "timestamp"), ("uint8_t", None, "a")]),
    ("has_ts", [("uint64_t", None, "timestamp")]),
    ("n10", [("has_ts", 2, "x"), ("uint8_t", None, "a")]),
    ("n11", [("int64_t", None, "timestamp"), ("uint64_t", None, "timestamp_sample")]),
    ("n12", [("uint64_t", None, "timestamp"), ("n4", 5, "empties"), ("n4", None, "e"), ("uint8_t", None, "z")]),
    ("n13", [("uint8_t", 3, "_padding0"), ("uint64_t", None, "timestamp"), ("uint8_t", 2, "_padding1"), ("uint16_t", None, "z"),
             ("uint8_t", 5, "_padding2")]),
    ("n14", [("uint64_t", None, "_padding_ts"), ("uint64_t", None, "timestamp"), ("float", 2, "_padding0"), ("n3", None, "_padding1"),
             ("uint8_t", None, "z")]),
    ("n15", [("uint64_t", None, "timestamp"), ("has_ts", None, "in"), ("has_ts", 2, "ins"), ("uint8_t", None, "z")]),
    ("n16", [("uint64_t", None, "timestamp"), ("bool", 4, "f"), ("char", 4, "c"), ("float", 2, "q"), ("double", None, "d")]),
    ("n17", [("n18", None, "a"), ("uint64_t", None, "timestamp"), ("n18", 2, "b")]),
    ("n18", [("n16b", 2, "p"), ("int8_t", None, "q"), ("uint8_t", 1, "_padding0")]),
    # names more than once
    ("n19", [("uint64_t", None, "timestamp"), ("uint8_t", None, "a"), ("uint8_t", None, "a")]),
    ("n20", [("uint8_t", None, "a"), ("uint64_t", None, "timestamp"), ("uint8_t", 2, "a"), ("n3", None, "a"), ("n3", 2, "a"), ("bool", None, "b")]),
    ("n21", [("uint64_t", None, "timestamp"), ("n22", None, "a"), ("n22", 2, "a")]),
    ("n22", [("int8_t", None, "a"), ("int8_t", None, "a"), ("int8_t", None, "b"), ("int8_t", None, "a")]),
    ("n23", [("uint64_t", None, "timestamp"), ("n24", None, "t"), ("n24", 3, "t")]),
    ("n24", [("int8_t", None, "a"), ("int8_t", None, "b"), ("int8_t", None, "b")]),
    ("n25", [("uint64_t", None, "timestamp"), ("uint8_t", None, "a"), ("uint64_t", None, "timestamp")]),
    ("n26", [("uint64_t", 1, "timestamp"), ("uint64_t", None, "timestamp"), ("uint32_t", None, "timestamp"), ("has_ts", None, "timestamp"), ("uint8_t", None, "a")]),
    ("n16b", [("int16_t", 2, "i"), ("uint32_t", None, "j")]),
]


def odd_log(r):
    g = Gen(r, nrec=0, canon=False, fmts=1, flags_p=0)
    g.recs, g.live = [], {}
    g.F.f = {n: fs for n, fs in ODD}
    g.tops = [n for n, _ in ODD]
    for n, fs in ODD:
        g.add("F", fmt(n, fs), n)
    for i, (n, _) in enumerate(ODD):
        g.add("A", sub(i, n, 0), (i, n, 0))
    for _ in range(3):
        for i, (n, fs) in enumerate(ODD):
            k = r.randrange(0, 60)
            g.add("D", data(i, bytes(r.choice([0, 1, 2, 255, r.randrange(256)]) for _ in range(k))))
    return g


def wide_log(r):
    """records of very many fields and nested values"""
    g = Gen(r, nrec=0, canon=False, fmts=1, flags_p=0)
    g.recs, g.live = [], {}
    T = ("uint64_t", None, "timestamp")
    one, two = r.sample(PRIM, 2)
    g.F.f = {"one": [(one, None, "a")], "two": [("one", 2, "a"), (two, 1, "b")],
             "w1": [T] + [(r.choice(["one", "two"]), r.choice([None, 1, 1, 2]), f"x{i}") for i in range(r.choice([70, 130, 260]))],
             "w2": [("two", r.choice([65, 257, 1000]), "x"), T, ("one", 300, "y")],
             "w3": [T] + [(r.choice(PRIM + ["one"]), r.choice([None, None, 0, 1, 3]), f"x{i}") for i in range(r.choice([255, 256, 257, 600]))],
             "w4": [(r.choice(["one", "two"]), 66, f"x{i}") for i in range(4)] + [T]}
    g.tops = ["w1", "w2", "w3", "w4"]
    for n in r.sample(list(g.F.f), 6):
        g.add("F", fmt(n, g.F.f[n]), n)
    for i, n in enumerate(g.tops):
        g.live[i] = (n, 0)
        g.add("A", sub(i, n, 0), (i, n, 0))
        g.adddata(i)
        b = g.F.body(r, n, False)
        g.add("D", data(i, b[:-1]))
    return g


def C08(r, tier):
    for i in range(quick(tier, 3, 20)):
        yield Case(wide_log(r).file(), **rcfg(r, ts=r.random() < .8), note="records of many values")
    for i in range(quick(tier, 60, 500)):
        g = tricky_log(r, False) if i % 3 == 2 else Gen(r, nrec=r.choice([10, 30]), canon=False, big=i % 5 == 0, flags_p=0,
                                                       kinds=["sub", "data", "data", "data"])
        yield Case(g.file(), **rcfg(r, ts=r.random() < .8), note="data of random formats")
    for i in range(quick(tier, 25, 200)):
        g = Gen(r, nrec=0, canon=False, fmts=r.choice([1, 3]), flags_p=0) if i % 3 else tricky_log(r, False)
        g.addsub()
        short_data(r, g)
        yield Case(g.file(), **rcfg(r), note="data records of every length")
    for i in range(quick(tier, 12, 100)):
        yield Case(odd_log(r).file(), **rcfg(r), note="odd formats")
    for _ in range(quick(tier, 1, 4)):
        yield Case(big_log(r).file(), note="large records")


def C09(r, tier):
    for i in range(quick(tier, 24, 200)):
        c = i % 4
        g = tricky_log(r, False) if c == 3 else odd_log(r) if c == 2 and i % 8 == 2 else Gen(r, nrec=r.choice([10, 20]), canon=False, flags_p=.3)
        if c == 1:
            short_data(r, g)
            g.recs = g.recs[:150]
        f = g.file()
        if i % 6 == 0:
            f, _, _ = with_bad(r, g, .3, short=c != 2)
        if i % 5 == 1:
            f = appended(r, f)
        al = rallow(r, g) if i % 4 == 0 else None
        ref = Case(f, **ALLON, allow=al)
        for h in (None, False, True):
            for t in (None, False, True):
                for p in (None, False, True):
                    # unset options are the defaults
                    if (h is None or t is None or p is None) and (r.random() < .8 or not (h is None and t is None and p is None)):
                        continue
                    a = dict(api="new") if h is None and t is None and p is None and al is None else dict(api=r.choice(["builder", "rev"]))
                    yield Case(f, hdr=h, ts=t, pad=p, allow=al, ref=ref, args=a, note=f"options {h} {t} {p}")


def C10(r, tier):
    for n, m in [(400, 40)] if tier == "quick" else [(400, 40), (1500, 100), (300, 1000)]:
        f, names, watch = crowd_log(r, n, m)
        yield Case(f, **rcfg(r), args=dict(ids=",".join(map(str, watch[:5])), fmts=",".join(names[:2] + names[-2:] + r.sample(names, 3))), note="many formats")
    names = ["a", "b", "c"]
    for i in range(quick(tier, 120, 1000)):
        g = Gen(r, nrec=0, canon=False, fmts=1, flags_p=0)
        g.recs, g.live = [], {}
        F = {}
        started = False
        for _ in range(r.choice([8, 20, 40])):
            c = r.random()
            if c < .3:
                n = r.choice(names)
                fs = [("uint64_t", None, "timestamp")] + rand_fields(r, [x for x in F if x != n and g.F.f.get(x) is not None and not started], "none",
                                                                      pads=False, nmax=3)
                if not started:
                    try:
                        old = dict(g.F.f)
                        g.F.f[n] = fs
                        if any(g.F.size(x) > 300 for x in g.F.f):
                            raise RecursionError
                        F[n] = fs
                    except RecursionError:
                        g.F.f = old
                        continue
                g.add("F", fmt(n, fs))
            elif c < .5:
                n = r.choice(names + ["zz"]) if r.random() < .85 else r.choice(odd_names(r, names))
                mid = r.choice([0, 1, 256])
                m = r.choice([0, 0, 1])
                if r.random() < .3:
                    g.add("A", rec("A", r.choice([b"", b"\0", b"\0\1", b"\0\1\0", b"\0\1\0zz", b"\0\1\0a\xff", b"\0\0\0a "])))
                    continue
                g.add("A", sub(mid, n, m))
                if n in F:
                    started = True
                    g.live[mid] = (n, m)
            elif c < .75 and g.live:
                g.adddata(r.choice(list(g.live)))
            elif c < .8:
                # before the first subscription an announced end would end the log
                g.add("B", flags(offs=(r.choice([0, 20]), 0, 0), incompat=bytes(r.choice([0, 0, 1 if started else 0, 2, 255]) for _ in range(8))
                                 if r.random() < .4 else bytes(8)))
            elif c < .85:
                g.add("D", data(r.choice([0, 1, 256]), bytes(r.randrange(0, 30))))
            elif c < .9:
                mid = r.choice([0, 1, 256])
                g.live.pop(mid, None)
                g.add("R", unsub(mid))
            elif c < .95 and F:
                n, a = r.choice(list(F)), r.choice([None, 1, 2])
                try:
                    g.add("I", info(ftext((n, a, "k")), g.F.value(r, (n, a, "k"), False)))
                except RecursionError:
                    pass
            else:
                g.meta(defs=not started)
        yield Case(g.file(), **rcfg(r), args=dict(ids="0,1,256", fmts=",".join(map(escaped, names + ["zz"] + r.sample(odd_names(r, names), 2)))), note="definitions and subscriptions in any order")


def C11(r, tier):
    for i in range(quick(tier, 40, 350)):
        g = Gen(r, nrec=r.choice([3, 8]), canon=False, fmts=2, flags_p=0)
        bs0 = 16 + 43
        tail = g.file()[16:]
        bs = [b + 43 for b in g.bounds()]
        f0 = lambda fl: g.hdr + fl + tail
        for _ in range(7):
            o = r.choice([r.choice(bs), r.choice(bs) - r.choice([1, 2]), r.choice(bs) + r.choice([1, 2, 3]), r.randrange(bs0, len(tail) + bs0),
                          len(tail) + bs0 + r.choice([0, 1, 100]), 2**31 + 5, 2**32 + bs0 + 20, 2**63])
            o = max(o, bs0)
            slot = r.randrange(3)
            later = r.choice([0, 60, 20, o + 9, 1])
            offs = [(o, later, r.choice([0, 17])), (0, o, later), (0, 0, o)][slot]
            on = r.random() < .8
            comp = bytes([r.choice([0, 1, 255])]) + bytes(7)
            fl = flags(comp, bytes([1 if on else 0]) + bytes(7), offs)
            f = f0(fl)
            cfg = rcfg(r, hdr=r.random() < .5)
            if on and o < len(f):
                k = len(f) - o
                c = r.random()
                t2 = bytes(r.randrange(256) for _ in range(k)) if c < .5 else bytes(k) if c < .7 else b"\xff" * k if c < .8 \
                    else bytes(r.randrange(256) for _ in range(k + 300))
                ref = Case(f[:o] + t2, **cfg)
            else:
                ref = Case(f, **cfg)
            yield Case(f, **cfg, ref=ref, args=opt(r, "chunks", "7", .2), note=f"appended data at {o} slot {slot} on={on}")
        fl = flags(bytes(8), b"\1" + bytes(7), (0, 0, 0))
        f = f0(fl)
        yield Case(f, ref=Case(f), note="flag set, no offsets")
        # an offset at or before the flags record, the header, or in refused flags
        o = r.choice([1, 15, 16, 17, 58])
        f = f0(flags(bytes(8), b"\1" + bytes(7), (o, 0, 0)))
        yield Case(f, ref=Case(f[:59] + bytes(len(f) - 59)), note="offset before the end of the flags")
        f = f0(flags(bytes(8), b"\3" + bytes(7), (r.choice(bs), 0, 0)))
        yield Case(f, ref=Case(f), note="refused flags announce nothing")
        # two of them, the later one counts
        o, p = r.choice(bs) + 43, r.choice(bs) + 43
        f = g.hdr + flags(bytes(8), b"\1" + bytes(7), (o, 0, 0)) + flags(bytes(8), b"\1" + bytes(7), (p, 0, 0)) + tail
        yield Case(f, ref=Case(f[:p] + bytes(r.randrange(256) for _ in range(max(0, len(f) - p)))), note="announced twice")
        f = g.hdr + flags(bytes(8), b"\1" + bytes(7), (o, 0, 0)) + flags(bytes(8), r.choice([b"\0", b"\3"]) + bytes(7), (p, 0, 0)) + tail
        yield Case(f, ref=Case(f[:o] + bytes(r.randrange(256) for _ in range(max(0, len(f) - o)))), note="not announced again")
        # not the first record
        o = r.choice(bs)
        k = r.randrange(0, g.ndefs)
        parts = [x for _, x, _ in g.recs]
        f = g.hdr + b"".join(parts[:k]) + flags(bytes(8), b"\1" + bytes(7), (0, o, 0)) + b"".join(parts[k:])
        if o > 16 + sum(map(len, parts[:k])) + 43 and o < len(f):
            yield Case(f, ref=Case(f[:o] + bytes(r.randrange(256) for _ in range(len(f) - o))), note="flags later in the definitions")


def C12(r, tier):
    tail = fmt("a", [("uint64_t", None, "timestamp")]) + sub(1, "a") + data(1, bytes(8))
    for i in range(8):
        for v in {0, 1, 255, MAGIC[i] ^ 1 if i < 7 else 2, MAGIC[i] ^ 0x80 if i < 7 else 128} | {r.randrange(256) for _ in range(quick(tier, 3, 40))}:
            h = bytearray(header(1, 0x0102030405060708))
            h[i] = v
            yield Case(bytes(h) + tail, **rcfg(r, hdr=True), note=f"header byte {i} = {v}")
    h = header(1, 0xfedcba9876543210)
    for n in range(17):
        yield Case(h[:n], **rcfg(r), args=opt(r, "chunks", "1", .5), note=f"{n} bytes of header")
        yield Case((h[:n] if r.random() < .5 else bytes(n)), **rcfg(r), ending="fail", note=f"read failure after {n} bytes of header")
    for _ in range(quick(tier, 60, 600)):
        v, ts = r.randrange(256), r.choice([0, 2**63, 2**64 - 1, r.randrange(2**64)])
        yield Case(header(v, ts) + tail, **rcfg(r, hdr=r.random() < .8), note="header values")
    for _ in range(quick(tier, 40, 400)):
        k = r.choice([0, 5, 15, 16, 17, 40, 200])
        b = bytearray(r.randrange(256) for _ in range(k))
        if r.random() < .5:
            b[:r.randrange(8)] = MAGIC[:r.randrange(8)]
        yield Case(bytes(b[:k]) + (tail if r.random() < .5 else b""), **rcfg(r), note="not a log")
    yield Case(b"X" + header() + tail, note="shifted magic")
    for k in (1, 7, 8, 15, 16, 17, 32, 64):
        for j in (bytes(r.randrange(256) for _ in range(k)), bytes(k), (header(0, 1, magic=b"ulog\x01\x12\x35") * 4)[:k], (header(1, 1)[:15] * 5)[:k]):
            yield Case(j + header(1, 7) + tail, **rcfg(r), note="a log after something else")
    yield Case(MAGIC + tail, note="shifted content")
    # flags: every undefined bit
    for byte in range(8):
        for bit in range(8):
            inc = bytearray(8)
            inc[byte] = 1 << bit
            if r.random() < .3:
                inc[0] |= 1
            comp = bytes(r.randrange(256) for _ in range(8))
            yield Case(header() + flags(comp, bytes(inc), (0, 0, 0)) + tail, **rcfg(r), note=f"incompat bit {byte}.{bit}")
    # several flags messages; offsets all alike, and far behind the end
    for _ in range(quick(tier, 30, 300)):
        offs = r.choice([(0, 0, 0), (10**6, 0, 0), (0, 10**6, 10**6)])
        g = [fmt("b", [("uint8_t", None, "x")])]
        for _ in range(r.choice([2, 3])):
            g.append(flags(bytes([r.randrange(4)] + [0] * 7), bytes([r.choice([0, 1, 1, 1, 2, 3, 128]), r.choice([0] * 9 + [4]), 0, 0, 0, 0, 0, r.choice([0] * 9 + [255])]), offs))
        r.shuffle(g)
        yield Case(header() + b"".join(g) + tail, **rcfg(r), note="several flags messages")
    for _ in range(quick(tier, 60, 600)):
        inc = bytes([r.choice([0, 1, 1, 2, 3, 254, 255])]) + bytes(r.choice([0, 0, 0, 0, 0, 0, 1, 128, 255]) for _ in range(7))
        comp = bytes(r.randrange(256) for _ in range(8))
        g = [fmt("b", [("uint8_t", None, "x")]), flags(comp, inc, (r.choice([0, 0, 10**6]), 0, r.choice([0, 10**6]))), tail]
        if r.random() < .5:
            g[0], g[1] = g[1], g[0]
        yield Case(header() + b"".join(g), **rcfg(r), note="random flags")


IDCH = ASCII


def fmt_text(r, good=.6):
    """definition texts around the grammar"""
    def idt():
        if r.random() < .15:    # nearly the name of a type
            t = r.choice(PRIM)
            return r.choice([t.replace("_t", ""), t.upper(), t.capitalize(), "u" + t, t + "_t", t[:-1], t + "1", t + "_", "_" + t, t.replace("_", ""),
                             t.replace("_t", "_T"), "int", "uint", "byte", "string", "long", "float32", "float64", "float_t", "boolean", "u8", "f32",
                             "int128_t", "uint24_t", "char_t", "size_t"])
        return r.choice(["a", "x", "float", "_", "a1", "Z_9", "timestamp", "int32_t", "_padding0", "uint8_t", ident(r), ident(r, 40)])

    def sp():
        return r.choice(["", "", "", " ", "  ", "\t", "\n", "\r\n", "\u00a0", "\u2003", "\v", "\f", "\u3000", "\u0085"])

    def sp1():
        return r.choice([" ", " ", " ", "  ", "\t", "\n ", "\u00a0", "\u2029"])

    def num():
        return r.choice(["0", "1", "2", "10", "007", "255", "65536", "4294967295", "18446744073709551615", "00000000000000000000000001",
                         "18446744073709551616", "99999999999999999999"] + [str(r.randrange(100000))] * 4)

    def field():
        t = idt()
        if r.random() < .4:
            return sp() + t + sp() + "[" + sp() + num() + sp() + "]" + sp() + idt() + sp() + ";"
        return sp() + t + sp1() + idt() + sp() + ";"
    s = sp() + idt() + sp() + ":" + "".join(field() for _ in range(r.choice([0, 1, 1, 2, 3, 5]))) + sp()
    if r.random() > good:
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            p = r.randrange(len(s) + 1)
            c = r.random()
            if c < .35 and s:
                s = s[:p] + s[p + 1:]
            elif c < .75:
                s = s[:p] + r.choice([" ", ";", ":", "[", "]", "a", "1", "9", "_", "-", ",", "\0", "é", "\u2003", ".", "#", "\u0661", "[1]", "x y;", "\x1c"]) + s[p:]
            elif s:
                q = r.randrange(len(s))
                s = s[:min(p, q)] + s[max(p, q):]
    return s


TOKS = ["a", "b7", ":", ";", "[", "]", "3", " ", "-"]


def C15(r, tier):
    # batches: one format record per text, before any subscription
    def batch(texts, note):
        f = header() + b"".join(rec("F", t if isinstance(t, bytes) else t.encode()) for t in texts)
        return Case(f, pad=True, args=dict(want="re"), note=note)
    for i in range(quick(tier, 8, 60)):
        yield batch([fmt_text(r, r.choice([.9, .5, 0])) for _ in range(200)], "random definition texts")
    # all short token sequences
    import itertools
    seqs = []
    for n in range(0, quick(tier, 5, 6)):
        seqs += ["".join(t) for t in itertools.product(TOKS, repeat=n)]
    tailed = ["a:" + s for s in seqs] if tier != "quick" else ["a:" + s for s in r.sample(seqs, 2500)]
    allseq = seqs if tier != "quick" else r.sample(seqs, 1500)
    allseq = allseq + tailed
    for i in range(0, len(allseq), 500):
        yield batch(allseq[i:i + 500], "short token sequences")
    edits = []
    base = "ab:uint8_t[3] x;c y;"
    for i in range(len(base) + 1):
        for c in [" ", ";", ":", "[", "]", "z", "5", "_", "\n", ".", "\0", "é"]:
            edits.append(base[:i] + c + base[i:])
            if i < len(base):
                edits.append(base[:i] + c + base[i + 1:])
        if i < len(base):
            edits.append(base[:i] + base[i + 1:])
    for i in range(0, len(edits), 300):
        yield batch(edits[i:i + 300], "single edits")
    # bytes that are not text; every byte in every role
    raw = [b"a:b c;\xff", b"\xc3:b c;", b"a:b \xc3\xa9;", b"\xed\xa0\x80", b"\xf0\x9f\x9a\x80:a b;", b"a:\xc2\xa0b\xe2\x80\x83c;", b"\xef\xbb\xbfa:b c;",
           b"a:b \xf4\x90\x80\x80;", b"a:b \xc0\x80;"]
    for x in range(256):
        c = bytes([x])
        raw += [c, c + b":b d;", b"a:" + c + b" d;", b"a:b" + c + b"d;", b"a:b[1" + c + b"] d;", b"a:b d" + c]
    for i in range(0, len(raw), 300):
        yield batch(raw[i:i + 300], "every byte in every role")
    # many fields, long names, long lengths
    yield batch(["n" * 900 + ":" + "t" * 700 + "[" + "0" * 300 + "7] " + "f" * 500 + ";", "a:" + "uint8_t x;" * 120, "a:" + "b[2]c;" * 150,
                 "a" * 1500], "long texts")
    for n in quick(tier, [255, 256, 257, 400, 1025], [255, 256, 257, 400, 1023, 1024, 1025, 4097, 5500]):
        yield batch(["a:" + "".join(f"char c{i};" for i in range(n))], "many fields")
    # typed keys
    for i in range(quick(tier, 6, 50)):
        recs = []
        for _ in range(120):
            c = r.random()
            s = fmt_text(r, .8).split(":", 1)[-1].split(";")[0] if c < .5 else r.choice(["float x", "int32_t y", "char[5] z", " float  x ", "float\tx",
                "char[5]z", "char [ 5 ] z", "float", "float[", "float[3", "float[3]", "float[] x", "x:float y", "[3] x", "3 x", "float 3", "float -x",
                "uint8_t[0] e", "uint8_t[1] e", "floaty x", "Float x", "", " ", "bool b1", "f\u00a0x", "float x1_", "float _"])
            if c > .9:
                s += r.choice(["\0", "é", "\x80"])
            k = s.encode()[:255]
            if r.random() < .05:
                k = k + b"\xff"
            k = k[:255]
            ty = r.choice("IMPQ")
            pre = b"" if ty in "IP" else bytes([r.choice([0, 1, 255])])
            recs.append(rec(ty, pre + key(k) + bytes(r.choice([0, 1, 4, 5, 8, 16, 40]))))
        yield Case(header() + b"".join(recs), pad=r.random() < .5, note="typed keys")
    for i in range(quick(tier, 20, 150)):
        g = Gen(r, nrec=6, canon=False)
        yield Case(g.file(), args=dict(want="re"), note="definitions of random logs")


def C16(r, tier):
    for i in range(quick(tier, 60, 500)):
        g = Gen(r, nrec=r.choice([20, 50]), canon=False, flags_p=.8, fmts=2, kinds=["I", "M", "P", "Q", "L", "C", "O", "op", "sub", "data"])
        f = g.file()
        if i % 3 == 0:
            f, _, _ = with_bad(r, g, .3)
        yield Case(f, **rcfg(r), allow=rallow(r, g) if i % 6 == 0 else None, note="metadata in random logs")
    # in the data section: levels, tags, timestamps, texts, dropouts
    pre = header() + fmt("a", [("uint64_t", None, "timestamp")]) + fmt("n", [("int16_t", None, "q"), ("n2", 2, "w")]) + fmt("n2", [("char", 3, "c")])
    recs = []
    for l in range(256):
        recs.append(log("x", l, l))
        recs.append(tlog("y", l, 256 - l, 2**64 - 1 - l))
    for t in U16B:
        recs.append(tlog("t", 0x30, t, 1))
        recs.append(drop(t))
        recs.append(rec("O", struct.pack("<H", t) + b"\1\2\3"))
    yield Case(pre + sub(1, "a") + b"".join(recs), note="levels, tags and durations")
    texts = [b"", b"\0", b"a\0b", "é".encode(), b"\xff", b"\xc3", b"\xc3\x28", b"\xe2\x82", b"\xf0\x9f\x9a\x80", b"\xed\xa0\x80", b"\xc0\xaf",
             b"\xf4\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xef\xbf\xbe", b"\xf8\x88\x80\x80\x80", b"\x80", b"x" * 1000, b"\xe0\x80\x80",
             b"\xe0\xa0\x80", b"\xf0\x80\x80\x80", b"tail\xe2\x82", b"\r\n\t ", b" lead", b"trail "]
    for n in range(quick(tier, 1, 4)):
        more = texts + [text(r).encode() for _ in range(100)] + [bytes(r.randrange(256) for _ in range(r.randrange(6))) for _ in range(150)]
        yield Case(pre + sub(1, "a") + b"".join(log(t) + tlog(t) for t in more), note="texts")
    shorts = []
    for n in range(13):
        for t in "LCOIMPQ":
            shorts.append(rec(t, bytes([0x36] * n)))
    yield Case(pre + sub(1, "a") + b"".join(shorts), note="short records")
    # every type, scalar and array, in both sections, keys and values of all sizes
    for n in range(quick(tier, 3, 25)):
        recs = []
        for ty in PRIM + ["n", "n2", "nosuch"]:
            for arr in [None, 0, 1, 2, 3, 17]:
                w = W.get(ty, 8)
                for extra in (0, 0, 1, -1):
                    k = r.choice(["k", "key_" + ty, "_padding" + r.choice(["", "0", "_x"]), "timestamp", ty if ty in PRIM else "n", "K" * r.choice([10, 100, 200])])
                    sz = max(0, (w if arr is None else w * arr) + extra)
                    val = b"".join(r.choice(SPECIAL[1]) for _ in range(sz))
                    ft = ftext((ty, arr, k))
                    recs.append(r.choice([lambda: info(ft, val), lambda: minfo(ft, val, r.choice([0, 1, 2, 255])), lambda: param(ft, val),
                                          lambda: dparam(ft, val, r.choice(U8B))])())
        for v in SPECIAL[4] + [bytes(3), bytes(5), b""]:
            for ty in ["int32_t", "float", "uint32_t", "double", "bool"]:
                for dt in (0, 1, 2, 3, 255):
                    recs.append(dparam(ty + " p", v, dt))
                recs.append(param(ty + " p", v))
        r.shuffle(recs)
        b = b"".join(recs)
        yield Case(pre + b + sub(1, "a") + b, **rcfg(r), note="typed values in both sections")
    for _ in range(quick(tier, 20, 200)):
        comp = bytes(r.randrange(256) for _ in range(8))
        fl = flags(comp, bytes([r.choice([0, 1])]) + bytes(7), [r.choice([0, 2**40, 2**63, 2**64 - 1, 10**6]) for _ in range(3)])
        sh = r.choice([0, 1, 8, 16, 24, 39])
        f = header() + rec("B", fl[3:3 + sh]) + fl
        yield Case(f + info("float x", bytes(4)) + sub(1, "a"), note="flags")
    for _ in range(quick(tier, 1, 6)):
        big = []
        for ty, n in ("uint8_t", 5000), ("char", 30000), ("bool", 3000), ("float", 1025), ("uint64_t", 8000), ("n2", 300), ("int16_t", 257):
            w = W.get(ty, 3) * n
            v = bytes(r.randrange(256) for _ in range(w + r.choice([0, 0, 1, -1])))
            big += [info(f"{ty}[{n}] x", v), minfo(f"{ty}[{n}] x", v, 1)]
        yield Case(pre + b"".join(big) + sub(1, "a") + b"".join(big[:6]), note="long arrays")
    for L in (254, 255):
        k = "float " + "k" * (L - 6)
        yield Case(header() + info(k, bytes(4)) + minfo(k, bytes(4)) + param(k, bytes(4)) + dparam(k, bytes(4)), note="longest keys")
    yield Case(big_log(r).file(), note="large records")


def C17(r, tier):
    for n, b in sample_logs(quick(tier, 150, 4000)):
        yield Case(b, **rcfg(r), args=dict(want="far"), note="sample " + n)
    for i, g in enumerate(logs(r, quick(tier, 90, 800), canon=False)):
        f = g.file()
        if i % 4 == 0:
            f, _, _ = with_bad(r, g, .3)
        if i % 7 == 0:
            f = f[:r.randrange(len(f))]
        elif i % 7 == 3:
            f = appended(r, f)
        yield Case(f, **rcfg(r), allow=rallow(r, g), args=dict(want="far", **opt(r, "chunks", "9", .2)), note="thread-safe build")
    yield Case(odd_log(r).file(), **ALLON, args=dict(want="far"), note="odd formats")
    for i in range(quick(tier, 2, 6)):
        yield Case(big_log(r).file(), **ALLON, args=dict(want="far", **opt(r, "chunks", r.choice(["4096", "8192", "5000,3"]), .6)), note="large records")



def C21(r, tier):
    """every kind of message with every kind of value, for its texts and accessors"""
    w = dict(want="vw")
    for i in range(quick(tier, 90, 900)):
        g = tricky_log(r, False) if i % 5 == 4 else Gen(r, nrec=r.choice([10, 30]), canon=False, fmts=r.choice([1, 3]), flags_p=.6)
        f = g.file()
        if i % 6 == 0:
            f, _, _ = with_bad(r, g, .2)
        yield Case(f, **rcfg(r), allow=rallow(r, g) if i % 5 == 0 else None, args=w, note="random log")
    for _ in range(quick(tier, 3, 20)):
        yield Case(odd_log(r).file(), **rcfg(r), args=w, note="odd formats")
    pre = header(255, 2**64 - 1) + fmt("n0", [("int16_t", None, "q"), ("char", 5, "t"), ("char", None, "c")]) \
        + fmt("n1", [("n0", 2, "w"), ("n0", None, "v"), ("double", 2, "d"), ("uint64_t", None, "timestamp")]) + fmt("n2", [])
    # every type with every special value, scalar and array
    recs = []
    for ty in PRIM:
        vs = SPECIAL[W[ty]] + [bytes(r.randrange(256) for _ in range(W[ty])) for _ in range(8)]
        if W[ty] > 1:
            vs += [struct.pack("<Q", 10 ** k + d)[:W[ty]] for k in range(0, 20) for d in (0, -1) if 10 ** k < 256 ** W[ty]]
        if ty in ("char", "uint8_t", "int8_t", "bool"):
            vs = [bytes([x]) for x in range(256)]
        for v in vs:
            recs.append(info(ty + " k", v))
        for n in (0, 1, 2, 3, 7):
            recs.append(minfo(f"{ty}[{n}] k", b"".join(r.choice(vs) for _ in range(n)), r.randrange(3)))
    for k in ("ver_sw_release", "ver_release", "ver_", "_release", "ver_x_release_", "Ver_sw_release", "ver_sw_releas", "xver_sw_release", "ver__release",
              "ver_os_release"):
        for ty in ("uint32_t", "int32_t", "uint64_t", "uint16_t", "uint32_t[2]", "float", "char"):
            for v in (b"\xff\x0a\x0b\x01", bytes(4), b"\0\0\xc0\xab", b"\x10\0\0\0"):
                if ty in ("uint32_t",) or r.random() < .3:
                    recs.append(info(f"{ty} {k}", v + bytes(8)))
                    recs.append(minfo(f"{ty} {k}", v + bytes(8)))
    for ty in ("n0", "n1", "n2"):
        for a in (None, 0, 1, 3):
            recs.append(info(ftext((ty, a, "k")), bytes(r.choice([0, 65, 200, 255]) for _ in range(200))))
    for v in SPECIAL[4] + [struct.pack("<i", x) for x in (-1, -10, 100, -2**31, 2**31 - 1)] + [struct.pack("<f", x) for x in (1.5, -1e-30, 1e38, 16777216.0, .1)]:
        for ty in ("int32_t", "float"):
            recs.append(param(ty + " P_" + ty, v))
            recs.append(dparam(ty + " P_" + ty, v, r.randrange(256)))
    for d in range(256):
        recs.append(dparam("int32_t D", b"\1\0\0\0", d))
    b = b"".join(recs)
    fl = [flags(bytes([c, r.randrange(256)] + [0] * 6), bytes([i]) + bytes(7), (0, 0, 0)) for c in (0, 1, 2, 3, 254, 255) for i in (0, 1)]
    yield Case(pre + b"".join(fl) + b, **ALLON, args=w, note="values of every type")
    yield Case(pre + sub(0, "n1") + b, args=w, note="values of every type, data section")
    # texts in character arrays
    texts = [t.encode() for t in TEXTS] + [text(r).encode() for _ in range(40)] + [bytes(r.choice([0, 65, 0x80, 0xbf, 0xc2, 0xc3, 0xe0, 0xa0, 0xe2, 0x82, 0xac, 0xed, 0xef, 0xf0,
             0x9f, 0x90, 0xf4, 0x8f, 0xf5, 0xff, 0xc0]) for _ in range(r.randrange(9))) for _ in range(quick(tier, 400, 3000))]
    recs = []
    for t in texts:
        t = t[:2000] + r.choice([b"", b"", b"\0", b"\0\0\0"])
        recs.append(info(f"char[{len(t)}] k", t))
    yield Case(pre + b"".join(recs), args=w, note="character arrays")
    # log strings, instances, subscriptions
    recs = [sub(m, "n1", k) for m, k in ((0, 0), (1, 1), (65535, 9), (300, 10), (2, 99), (3, 100), (4, 255))]
    recs += [data(m, bytes(r.randrange(256) for _ in range(90))) for m in (0, 1, 65535, 300, 2, 3, 4)]
    recs += [log(t, 0x30 + i % 8, int.from_bytes(r.choice(SPECIAL[8]), "little")) for i, t in enumerate(TEXTS)]
    recs += [tlog(t, 0x30 + i % 8, r.choice(U16B), int.from_bytes(r.choice(SPECIAL[8]), "little")) for i, t in enumerate(TEXTS)]
    recs += [drop(x) for x in U16B]
    for c in (dict(), ALLON):
        yield Case(pre + b"".join(recs), **c, args=w, note="strings and instances")
    for n, b in sample_logs(quick(tier, 60, 1500)):
        yield Case(b, **rcfg(r), args=w, note="sample " + n)


KINDS = dict(reset="ConnectionReset", block="WouldBlock", invalid="InvalidData", timeout="TimedOut", pipe="BrokenPipe", other="Other")


def failing(r):
    """how the reader fails, and what the error it gives is"""
    k = r.choice(list(KINDS))
    return dict(fail=k), dict(kind=KINDS[k] + " scripted failure")


def spoilt(r, g, data_section):
    """records with one or several defects, of which some name what they miss"""
    F, out = g.F.f, []
    kt = lambda t, n="k": key(f"{t[-240:]} {n}")
    for ty in ["nosuch", "nosuch[2]", "Float", "int32", r.choice(list(F)) + "x", r.choice(list(F)).swapcase() + "_"]:
        out += [rec("I", kt(ty) + bytes(r.randrange(9))), rec("M", b"\1" + kt(ty) + bytes(r.randrange(9))), rec("P", kt(ty) + bytes(4)), rec("Q", b"\1" + kt(ty) + bytes(4))]
        out.append(rec("A", bytes([0]) + struct.pack("<H", r.randrange(65536)) + ty.split("[")[0].encode()))
    for f in list(F)[:4]:
        for a in ("", "[2]", "[0]"):
            body = bytes(r.randrange(0, 60))
            out += [rec("I", kt(f + a) + body), rec("M", b"\0" + kt(f + a) + body), rec("P", kt(f + a) + body)]
    for t in (b"\xff", b"k\xc3", b"\xed\xa0\x80", b"a\x80"):
        p = r.choice([b"", b"abc", "é€".encode()])
        out += [rec("A", b"\0\1\0" + p + t), rec("I", key(b"float k" + t) + bytes(4)), rec("P", key(t + b" x") + bytes(4)), rec("M", b"\0" + key(t) + bytes(4)), rec("Q", b"\0" + key(p + t))]
        if data_section:
            out += [rec("L", bytes([r.choice([0x30, 0x36, 0x2f])]) + bytes(8) + p + t), rec("C", bytes([r.choice([0x37, 0x38])]) + bytes(10) + p + t)]
        else:
            out.append(rec("F", p + b"a:float x;" + t))
    for n in r.sample(odd_names(r, list(F)), 8):
        out.append(rec("A", bytes([0]) + struct.pack("<H", r.randrange(65536)) + n.encode()))
    if data_section:
        for m in list(g.live) + [r.randrange(65536) for _ in range(3)]:
            out += [data(m, bytes(r.randrange(0, 60))), data(m ^ 256, bytes(9)), data(m ^ 1, b"")]
    else:
        for bit in (2, 0x80, 0x10):
            out.append(flags(incompat=bytes([r.choice([0, 1]) | bit]) + bytes(7)))
            out.append(rec("B", (bytes(8) + bytes([bit]) + bytes(31))[:r.choice([8, 9, 15, 16, 17, 39])]))
    return r.choice(out)


def C25(r, tier):
    w = dict(want="err")
    for i in range(quick(tier, 150, 1500)):
        g = Gen(r, nrec=r.choice([6, 16, 30]), canon=False, fmts=r.choice([2, 4])) if i % 6 else tricky_log(r)
        # definitions that use what is not defined, or have no timestamp that is one
        extra = []
        for k in range(r.choice([0, 1, 2, 3])):
            fs = rand_fields(r, list(g.F.f), r.choice(["top", "none"]), nmax=3)
            fs.insert(r.randrange(len(fs) + 1), r.choice([("lost", r.choice([None, 0, 2]), "ll"), ("uint8_t", 2, "u"), ("gone", None, "_padding9"),
                      ("uint32_t", None, "timestamp"), ("uint64_t", 1, "timestamp"), ("uint64_t", None, "Timestamp"), (f"zz{k - 1}", None, "z")]))
            if sum(f[2] == "timestamp" for f in fs) > 1:
                continue
            extra.append((f"zz{k}", fs))
        parts, live, section, saved = [g.hdr], {}, False, g.live
        pre = [fmt(n, fs) for n, fs in extra]
        zid = 40000
        for kind, b, inf in g.recs:
            g.live = live
            if kind == "A":
                if not section:
                    parts += pre
                section = True
                if isinstance(inf, tuple):
                    live[inf[0]] = (inf[1], inf[2])
            elif kind == "R":
                live.pop(inf, None)
            parts.append(b)
            while r.random() < .35:
                parts.append(spoilt(r, g, section) if r.random() < .6 else bad_records(r, g, section))
            if section and extra and r.random() < .4:
                n = r.choice(extra)[0]
                zid += 1
                parts += [sub(zid, n, r.choice([0, 1])), data(zid, bytes(r.randrange(0, 40)))]
        g.live = saved
        f = b"".join(parts)
        if i % 9 == 4:
            f = appended(r, f)
        al = rallow(r, g) if r.random() < .15 else None
        a = dict(w, ids=",".join(str(x) for x in {0, 1, 65535, 40001, *list(g.live)[:3]}), fmts=",".join(map(escaped, ["lost", "zz0", "zz1", *list(g.F.f)[:3], *r.sample(odd_names(r, list(g.F.f)), 2)]))) if i % 3 == 0 else dict(w)
        if i % 4 == 0:
            a["chunks"] = r.choice(["1", "7", "2,3,50"])
        yield Case(f, **rcfg(r), allow=al, args=a, note="records with defects")
        for _ in range(2):
            c = r.choice([r.randrange(len(f) + 1), r.randrange(17)])
            if r.random() < .6:
                x, m = failing(r)
                yield Case(f[:c], **rcfg(r), ending="fail", args=dict(w, **x), meta=m, note=f"read failure at {c}")
            else:
                yield Case(f[:c], **rcfg(r), args=w, note=f"cut at {c}")
        if i % 10 == 0:
            k = r.randrange(7)
            yield Case(f[:k] + bytes([f[k] ^ (1 << r.randrange(8))]) + f[k + 1:], **rcfg(r), args=w, note="another magic number")
