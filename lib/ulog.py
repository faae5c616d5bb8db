"""ULog byte construction and random structured logs (no oracle: nothing here says what a
parser should return; it only makes inputs)."""
import random, struct

MAGIC = b"ULog\x01\x12\x35"
W = dict(uint8_t=1, uint16_t=2, uint32_t=4, uint64_t=8, int8_t=1, int16_t=2, int32_t=4,
         int64_t=8, float=4, double=8, bool=1, char=1)
PRIM = list(W)


def header(ver=1, ts=0, magic=MAGIC):
    return magic + bytes([ver]) + struct.pack("<Q", ts)


def rec(ty, body):
    t = ty if isinstance(ty, int) else ord(ty)
    assert len(body) <= 65535
    return struct.pack("<HB", len(body), t) + body


def ftext(f):
    ty, arr, n = f
    return f"{ty}{'' if arr is None else '[%d]' % arr} {n}"


def fmt(name, fields):
    return rec("F", (name + ":" + "".join(ftext(f) + ";" for f in fields)).encode())


def sub(mid, name, multi=0):
    return rec("A", struct.pack("<BH", multi, mid) + name.encode())


def unsub(mid):
    return rec("R", struct.pack("<H", mid))


def data(mid, body):
    return rec("D", struct.pack("<H", mid) + body)


def key(ktext):
    k = ktext.encode() if isinstance(ktext, str) else ktext
    return bytes([len(k)]) + k


def info(ktext, val):
    return rec("I", key(ktext) + val)


def minfo(ktext, val, cont=0):
    return rec("M", bytes([cont]) + key(ktext) + val)


def param(ktext, val):
    return rec("P", key(ktext) + val)


def dparam(ktext, val, dt=1):
    return rec("Q", bytes([dt]) + key(ktext) + val)


def log(msg, lvl=0x36, ts=0):
    return rec("L", bytes([lvl]) + struct.pack("<Q", ts) + (msg.encode() if isinstance(msg, str) else msg))


def tlog(msg, lvl=0x36, tag=7, ts=0):
    return rec("C", bytes([lvl]) + struct.pack("<HQ", tag, ts) + (msg.encode() if isinstance(msg, str) else msg))


def drop(d):
    return rec("O", struct.pack("<H", d))


def flags(compat=bytes(8), incompat=bytes(8), offs=(0, 0, 0)):
    return rec("B", bytes(compat) + bytes(incompat) + struct.pack("<QQQ", *offs))


U8B = [0, 1, 2, 127, 128, 254, 255]
U16B = [0, 1, 2, 255, 256, 257, 32767, 32768, 65534, 65535]
ASCII = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"
TEXTS = ["", "a", "hello world", "[cmd] Takeoff; alt=1.5:m", "é", "日本語 текст", "\U0001f680 x",
         "tab\there", "nul\0nul", "x" * 127, "y" * 300, "\u2003wide", "~", "\x7f", "end\0", "\0", "two\0\0", " lead", "trail ", "line\n", "\r\n", "\0first", "\ufeffbom",
         "e\u0301", "a\u200b", "\\n \"q\" 'x' %s {}"]


def ident(r, maxlen=12):
    n = r.choice([1, 2, 3, 5, 8, maxlen])
    return r.choice(ASCII[:53]) + "".join(r.choice(ASCII) for _ in range(n - 1))


def text(r):
    c = r.random()
    if c < 0.6:
        return r.choice(TEXTS)
    return "".join(chr(r.choice([r.randrange(32, 127), r.randrange(0x80, 0x800), r.randrange(0x800, 0xd800),
                                 r.randrange(0x10000, 0x110000)])) for _ in range(r.randrange(0, 12)))


SPECIAL = {
    1: [b"\0", b"\1", b"\x7f", b"\x80", b"\xff"],
    2: [b"\0\0", b"\1\0", b"\0\1", b"\xff\x7f", b"\0\x80", b"\xff\xff"],
    4: [bytes(4), b"\1\0\0\0", b"\0\0\x80\x7f", b"\0\0\x80\xff", b"\1\0\x80\x7f", b"\0\0\xc0\x7f",
        b"\0\0\0\x80", b"\xff\xff\xff\xff", b"\1\2\3\4"],
    8: [bytes(8), b"\1" + bytes(7), bytes(6) + b"\xf0\x7f", b"\1" + bytes(5) + b"\xf0\x7f",
        bytes(6) + b"\xf8\xff", bytes(7) + b"\x80", b"\xff" * 8, b"\1\2\3\4\5\6\7\x08"],
}


def prim_bytes(r, ty, canon=True):
    w = W[ty]
    if ty == "bool":
        return bytes([r.randrange(2) if canon else r.choice([0, 1, 2, 128, 255])])
    if r.random() < 0.35:
        return r.choice(SPECIAL[w])
    return bytes(r.randrange(256) for _ in range(w))


class Formats:
    """The formats a generator has defined so far."""

    def __init__(self):
        self.f = {}

    def value(self, r, f, canon=True, depth=0):
        ty, arr, n = f
        cnt = 1 if arr is None else arr
        if ty == "char" and arr and r.random() < .5:  # text, cut or padded to its length
            t = text(r).encode()[:cnt]
            return t + r.choice([b"\0", b"\0", b" ", b"\xff"]) * (cnt - len(t))
        if ty in W:
            return b"".join(prim_bytes(r, ty, canon) for _ in range(cnt))
        return b"".join(self.body(r, ty, canon, depth + 1) for _ in range(cnt))

    def body(self, r, name, canon=True, depth=0):
        return b"".join(self.value(r, f, canon, depth) for f in self.f[name])

    def size(self, name):
        return sum(self.fsize(f) for f in self.f[name])

    def fsize(self, f):
        ty, arr, _ = f
        n = 1 if arr is None else arr
        return n * (W[ty] if ty in W else self.size(ty))


    def pad_cuts(self, name, part=False):
        """numbers of bytes that can be missing at the end of data because they are padding, of nested formats as well"""
        cuts, t = [], 0
        for ty, arr, n in reversed(self.f[name]):
            size = self.fsize((ty, arr, n))
            if n.startswith("_padding"):
                if part and ty == "uint8_t" and arr:
                    cuts += [t + k for k in range(1, size)]
                t += size
                cuts.append(t)
            elif size:
                if ty in self.f:
                    cuts += [t + c for c in self.pad_cuts(ty, part)]
                break
        return [c for c in cuts if c]


ARR = [0, 1, 2, 3, 5, 16]


def rand_fields(r, nested, ts="top", big=False, pads=True, nmax=6):
    """nested: names of formats usable as field types."""
    out, used = [], set()
    dups = r.random() < .12

    def name():
        if dups and used and r.random() < .5:
            return r.choice([out[-1][2], r.choice(sorted(used))]) if not out[-1][2].startswith("_pad") else r.choice(sorted(used))
        while True:
            n = ident(r, 9)
            if n.lower() not in ("timestamp",) and not n.startswith("_padding") and n not in used:
                used.add(n)
                return n
    n = r.randrange(0, nmax + 1)
    for _ in range(n):
        c = r.random()
        if nested and c < 0.3:
            ty = r.choice(nested)
        else:
            ty = r.choice(PRIM)
        arr = None if r.random() < 0.55 else r.choice(ARR)
        if big and arr and r.random() < 0.2 and ty in W:
            arr = r.choice([40, 255, 256, 300])
        out.append((ty, arr, name()))
        if pads and r.random() < 0.15:
            c = r.random()
            k = sum(1 for f in out if f[2].startswith("_padding"))
            pn = f"_padding{k}"
            if c < 0.6:
                out.append(("uint8_t", r.choice([1, 2, 3, 7, 8, 13, 40]), pn))
            elif c < 0.75:
                out.append(("uint8_t", None, pn))
            elif c < 0.9:
                out.append((r.choice(["uint16_t", "char", "uint32_t", "bool"]), r.choice([None, 1, 2]), pn))
            else:
                out.append(("uint8_t", 0, pn))
    if ts == "top":
        pos = 0 if r.random() < 0.6 else r.randrange(0, len(out) + 1)
        out.insert(pos, ("uint64_t", None, "timestamp"))
    elif ts == "maybe" and r.random() < 0.5:
        out.insert(r.randrange(0, len(out) + 1), ("uint64_t", None, "timestamp"))
    if pads and r.random() < 0.3:
        k = sum(1 for f in out if f[2].startswith("_padding"))
        out.append(("uint8_t", r.choice([1, 2, 4, 6, 9, 31]), f"_padding{k}"))
    return out


IDS = [0, 1, 2, 3, 5, 255, 256, 257, 32767, 32768, 65534, 65535]
OPAQUE_DEFS = [ord(c) for c in "SDRLCO"] + [0, 1, 10, 34, 64, 72, 97, 100, 127, 128, 253, 254, 255, 69, 78]
OPAQUE_DATA = [ord(c) for c in "SFB"] + [0, 1, 10, 34, 64, 72, 97, 100, 127, 128, 253, 254, 255, 69, 78]


class Gen:
    """Random well-formed log: self.recs is a list of (kind, bytes, info)."""

    def __init__(self, r, nrec=20, canon=True, big=False, pads=True, fmts=None, flags_p=0.4, defs=None,
                 kinds=None, dead=0, pool=None):
        self.r, self.canon, self.dead = r, canon, dead
        self.F = Formats()
        self.tops = []
        self.recs = []
        self.live = {}
        self.hdr = header(r.choice(U8B), int.from_bytes(r.choice(SPECIAL[8]), "little"))
        nested = []
        if r.random() < flags_p:
            self.add("B", flags(bytes([r.choice([0, 1, 3]), 0, r.choice(U8B)] + [0] * 5), bytes(8),
                                (r.choice([0, 0, 5, 77, 2**63]), 0, 0)))
        nf = fmts if fmts is not None else r.randrange(1, 6)
        names = set()
        for i in range(nf):
            n = r.choice(pool) if pool else ident(r)
            while i == nf - 1 and not self.tops and (n in names or n in W):
                n = r.choice(pool) if pool else ident(r)
            if self.tops and not pool and r.random() < .2:   # nearly the name of another
                o = r.choice(sorted(names))
                n = r.choice([o.swapcase(), o.lower(), o.upper(), o + "0", o + "_", o[:-1] or "q", o + o[-1]])
            if n in names or n in W:
                continue
            names.add(n)
            top = r.random() < 0.7 or i == nf - 1
            usable = [x for x in nested if self.F.size(x) < 400]
            self.F.f[n] = rand_fields(r, usable, "top" if top else "maybe", big=big, pads=pads)
            (self.tops if top else nested).append(n)
            if top and r.random() < 0.3:
                nested.append(n)
        order = list(self.F.f)
        if r.random() < 0.5:
            r.shuffle(order)
        for n in order:
            self.add("F", fmt(n, self.F.f[n]), n)
            while r.random() < 0.35:
                self.meta(defs=True)
            if r.random() < .12:            # defined again, after being used in a message or not
                o = r.choice([x for x in order[:order.index(n) + 1]])
                self.nested_meta()
                self.F.f[o] = rand_fields(r, [], "top" if o in self.tops else "maybe", pads=pads)
                self.add("F", fmt(o, self.F.f[o]), o)
        self.ndefs = len(self.recs)
        kinds = kinds or ["sub"] * 3 + ["data"] * 8 + ["unsub", "I", "M", "P", "Q", "L", "C", "O", "op"]
        self.addsub()
        for _ in range(nrec):
            self.step(r.choice(kinds))

    def add(self, kind, b, info=None):
        self.recs.append((kind, b, info))

    def file(self):
        return self.hdr + b"".join(b for _, b, _ in self.recs)

    def bounds(self):
        """end position of the header and of every record"""
        out, p = [len(self.hdr)], len(self.hdr)
        for _, b, _ in self.recs:
            p += len(b)
            out.append(p)
        return out

    def step(self, k):
        if k == "sub":
            self.addsub()
        elif k == "data" and self.live:
            mid = self.r.choice(list(self.live))
            self.adddata(mid)
        elif k == "unsub" and self.live:
            mid = self.r.choice(list(self.live)) if self.r.random() < 0.7 else self.r.choice(IDS)
            was = self.live.pop(mid, None)
            self.add("R", unsub(mid), mid)
            if was and self.r.random() < self.dead:      # data of what was removed
                self.add("D", data(mid, self.F.body(self.r, was[0], self.canon)))
        else:
            self.meta(defs=False)

    def addsub(self):
        r = self.r
        name = r.choice(self.tops)
        mid = r.choice(IDS)
        multi = r.choice([0, 0, 0, 1, 2, 255])
        self.live[mid] = (name, multi)
        self.add("A", sub(mid, name, multi), (mid, name, multi))

    def adddata(self, mid):
        name, multi = self.live[mid]
        b = self.F.body(self.r, name, self.canon)
        if self.r.random() < 0.5:
            cuts = self.F.pad_cuts(name, not self.canon)
            if cuts:
                b = b[:-self.r.choice(cuts)]
        self.add("D", data(mid, b), (mid, name, multi))

    def keytext(self, types=None, nested_ok=True, maxkey=20):
        r = self.r
        ty = r.choice(types) if types else r.choice(PRIM)
        arr = None
        if not types and r.random() < 0.5:
            arr = r.choice(ARR + [40])
        n = ident(r, maxkey)
        if r.random() < .07:
            n = r.choice(["_padding0", "_padding", "timestamp", "_", "__", "float", "bool", "char", "uint8_t", "ver_sw_release", "F", "ULog"])
        if r.random() < 0.08:
            n = n + "k" * r.choice([100, 127, 128, 200])
        return (ty, arr, n)

    def nested_meta(self):
        """an information record of a nested type"""
        r = self.r
        defd = sorted({inf for k, _, inf in self.recs if k == "F"})
        c = [n for n in defd if self.F.f.get(n) is not None and not self.dangling(n, defd) and self.F.size(n) < 1500]
        if not c:
            return
        f = (r.choice(c), r.choice([None, None, 0, 1, 2, 3]), ident(r))
        if len(ftext(f)) > 255:
            return
        v = self.F.value(r, f, self.canon)
        if r.random() < .5:
            self.add("I", info(ftext(f), v))
        else:
            self.add("M", minfo(ftext(f), v, r.randrange(2)))

    def dangling(self, n, defd):
        return any(f[0] not in W and (f[0] not in defd or self.dangling(f[0], defd)) for f in self.F.f[n])

    def meta(self, defs):
        r = self.r
        if r.random() < .07:
            return self.nested_meta()
        k = r.choice("IMPQ" if defs else "IMPQLCO") if r.random() < 0.85 else "op"
        if k == "op":
            t = r.choice(OPAQUE_DEFS if defs else OPAQUE_DATA)
            n = r.choice([0, 1, 2, 3, 10, 40, 41, 255, 256])
            self.add("op", rec(t, bytes(r.randrange(256) for _ in range(n))), t)
        elif k == "I":
            f = self.keytext()
            self.add("I", info(ftext(f), self.F.value(r, f, self.canon)))
        elif k == "M":
            f = self.keytext()
            self.add("M", minfo(ftext(f), self.F.value(r, f, self.canon), r.randrange(2) if self.canon else r.choice(U8B)))
        elif k == "P":
            f = self.keytext(["int32_t", "float"])
            self.add("P", param(ftext(f), prim_bytes(r, f[0])))
        elif k == "Q":
            f = self.keytext(["int32_t", "float"])
            self.add("Q", dparam(ftext(f), prim_bytes(r, f[0]), r.choice(U8B)))
        elif k == "L":
            self.add("L", log(text(r), r.randrange(0x30, 0x38), int.from_bytes(r.choice(SPECIAL[8]), "little")))
        elif k == "C":
            self.add("C", tlog(text(r), r.randrange(0x30, 0x38), r.choice(U16B),
                               int.from_bytes(r.choice(SPECIAL[8]), "little")))
        else:
            self.add("O", drop(r.choice(U16B)))
