"""Cases: an input file, a parser configuration, a reader script, and what to record."""
import copy, json


def escaped(name):
    """a name in an argument of a scenario"""
    return "".join(c if c.isalnum() and c.isascii() or c == "_" else "".join(f"%{b:02x}" for b in c.encode()) for c in name) or "%"


class Case:
    def __init__(self, file, hdr=None, ts=None, pad=None, allow=None, ending="eof", ref=None, args=None,
                 meta=None, note=""):
        self.file, self.hdr, self.ts, self.pad, self.allow = bytes(file), hdr, ts, pad, allow
        self.ending, self.ref = ending, ref
        self.args, self.meta, self.note = dict(args or {}), dict(meta or {}), note
        self.id = None
        self.result = None

    def line(self):
        a = dict(id=self.id, file=self.file.hex())
        for k in ("hdr", "ts", "pad"):
            v = getattr(self, k)
            if v is not None:
                a[k] = int(v)
        if self.allow is not None:
            a["allow"] = ",".join(map(escaped, self.allow))
        if self.ending == "fail" and "fail" not in self.args:
            a["fail"] = "reset"
        a.update(self.args)
        return " ".join(f"{k}={v}" for k, v in a.items())

    def run(self, prop, ref=None):
        d = dict(id=self.id, prop=prop, file=list(self.file), ending=self.ending,
                 cfg=dict(hdr=bool(self.hdr), ts=bool(self.ts), pad=bool(self.pad),
                          allow=dict(on=self.allow is not None, names=list(self.allow or []))),
                 ev=self.result["ev"])
        if ref is not None:
            d["ref"] = [e["x"] for e in ref.result["ev"]]
        d.update(self.meta)
        return d

    def describe(self):
        return dict(scenario=self.line(), note=self.note, file_len=len(self.file),
                    results=[e["x"]["t"] for e in self.result["ev"]] if self.result else None)


ALLON = dict(hdr=True, ts=True, pad=True)
