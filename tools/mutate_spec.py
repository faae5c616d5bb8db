"""Are the properties checked on the models able to fail?  Each mutation changes one thing in a copy of the
specification; some model must then report a violated invariant.  python3 tools/mutate_spec.py [name-part]"""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import core, schemas

P, C, D, V, F, U, R = ("ULogParser.tla", "ULogCodec.tla", "ULogDerive.tla", "Views.tla", "Flatten.tla", "Cursor.tla", "DeriveDefs.tla")
mc = lambda s, n=2: ("MC", dict(SCEN=s, N=str(n)))
GR = [("MCGrammar", dict(MODE=m, N="6")) for m in ("short", "wide", "key", "keywide")]
FI, ME, HE = [("MCFields", dict(N="2"))], [("MCMeta", dict(BIG="0"))], [("MCHeader", dict(PAIRS="0"))]
EN, FL, VI, TW, ST = [("MCEncode", dict(N="2"))], [("MCFlatten", dict(N="2"))], [("MCViews", dict(N="3"))], [("MCTwin", {})], [("MCStream", dict(N="2"))]
CU = [("MCCursor", dict(KIND=k, N="3")) for k in ("buf", "stream")]
DE = [("MCDerive", dict(N="3", SCEN=s)) for s in ("values", "dispatch1")]
DF = [("MCDefs", dict(N="2"))]
ALL = [mc(s) for s in ("C01", "C02", "C03", "C05", "C06", "C07", "C09", "C10", "C11")]
ER, E = [("MCErrors", dict(BIG="0"))], "ULogErrors.tla"
MUT = [
    ("only the first missing format is looked for", E, "IF n = S THEN S ELSE Reach(F, n)", "n", ER),
    ("errors: types of fields taken for formats", E, "(Reach(F, {ty}) \\ Prim) \\ DOMAIN F", "Reach(F, {ty}) \\ DOMAIN F", ER),
    ("errors: short never noticed beside a missing format", E, "(IF DecVal(Filled(F, U), pad, f, b, p, 0).ok THEN {} ELSE Malformed)", "(IF U # {} \\/ DecVal(F, pad, f, b, p, 0).ok THEN {} ELSE Malformed)", ER),
    ("errors: any timestamp will do", E, "fs[i].ty = \"uint64_t\" /\\ fs[i].arr = \"\"", "TRUE", ER),
    ("errors: flags looked at when cut", E, "Len(b) >= 16 /\\ (b[9]", "Len(b) >= 40 /\\ (b[9]", ER),
    ("errors: text before level", E, "(IF Len(b) < n \\/ (b # <<>> /\\ b[1] \\notin 48..55) THEN", "(IF Len(b) < n THEN", ER),
    ("errors: arrays are parameters", E, "IF f.arr # \"\" \\/ f.ty", "IF f.ty", ER),
    ("errors: names in subscriptions not text", E, "IF ~Utf8(n) THEN NoText(n)", "IF FALSE THEN NoText(n)", ER),
    ("errors: a failing read ends the file", E, "EndCauses(ending, kind) == IF ending = \"fail\"", "EndCauses(ending, kind) == IF FALSE", ER),
    ("errors: key text includes its length", E, "LET t == SubSeq(b, p + 1, p + b[p]) IN", "LET t == SubSeq(b, p, p + b[p]) IN", ER),
    ("errors: removed subscriptions known", P, "subs' = [i \\in DOMAIN subs \\ {id} |-> subs[i]]", "subs' = subs", ER),
    ("unsubscribe ignored", P, "subs' = [i \\in DOMAIN subs \\ {id} |-> subs[i]]", "subs' = subs", [mc("C07", 3)]),
    ("unsubscribe removes all", P, "subs' = [i \\in DOMAIN subs \\ {id} |-> subs[i]]", "subs' = <<>>", [mc("C07", 3)]),
    ("resubscription keeps the first", P, "subs' = (x.id :> [name |-> x.name, multi |-> x.multi]) @@ subs", "subs' = subs @@ (x.id :> [name |-> x.name, multi |-> x.multi])", [mc("C07", 3)]),
    ("instance always shown", P, "IF s.name \\in multi THEN s.multi ELSE -1", "s.multi", [mc("C07", 3)]),
    ("instance mark lost on unsubscription", P, "  /\\ UNCHANGED <<phase, formats, multi, limit>>\nAllowed", "  /\\ multi' = {} /\\ UNCHANGED <<phase, formats, limit>>\nAllowed", [mc("C07", 4)]),
    ("first format stays", P, "formats' = IF x.t = \"fmt\" THEN (x.name :> x.fields) @@ formats", "formats' = IF x.t = \"fmt\" THEN formats @@ (x.name :> x.fields)", [mc("C10", 3)]),
    ("formats accepted late", P, "FormatDef ==\n  /\\ Rec({\"defs\"}, 70)", "FormatDef ==\n  /\\ Rec({\"defs\", \"data\"}, 70)", [mc("C10", 3)]),
    ("data section starts with data", P, "Data ==\n  /\\ Rec({\"data\"}, 68)", "Data ==\n  /\\ Rec({\"defs\", \"data\"}, 68)", [mc("C10", 3)]),
    ("refused subscription starts data", P, "        ELSE UNCHANGED <<phase, subs, multi>>\n  /\\ UNCHANGED <<formats, limit>>", "        ELSE phase' = \"data\" /\\ UNCHANGED <<subs, multi>>\n  /\\ UNCHANGED <<formats, limit>>", [mc("C10", 3)]),
    ("list by prefix", P, "Contains(cfg.allow.names, name)", "(\\E i \\in 1..Len(cfg.allow.names) : IsPrefix(BytesOf(cfg.allow.names[i]), BytesOf(name)))", [mc("C06", 3)]),
    ("empty list means all", P, "Allowed(name) == ~cfg.allow.on", "Allowed(name) == ~cfg.allow.on \\/ cfg.allow.names = <<>>", [mc("C06", 3)]),
    ("limit one byte late", P, "RecEnd > limit)", "RecEnd > limit + 1)", [mc("C11", 3)]),
    ("limit one byte early", P, "RecEnd > limit)", "RecEnd >= limit)", [mc("C11", 3)]),
    ("limit without the flag", P, "FlagsAppended(x) THEN", "TRUE THEN", [mc("C11", 3)]),
    ("last offset taken", C, "LET i == SelectInSeq(f.offs,", "LET i == SelectLastInSeq(f.offs,", [mc("C11", 3)]),
    ("a malformed record ends the log", P, "Dropout ==\n  /\\ Rec({\"data\"}, 79) /\\ out' = DecDropout(Body)\n  /\\ UNCHANGED <<phase, tables>>", "Dropout ==\n  /\\ Rec({\"data\"}, 79) /\\ out' = DecDropout(Body)\n  /\\ phase' = (IF out' = ErrItem THEN \"cut\" ELSE phase) /\\ UNCHANGED tables", [mc("C02", 3)]),
    ("a malformed record forgets subscriptions", P, "Dropout ==\n  /\\ Rec({\"data\"}, 79) /\\ out' = DecDropout(Body)\n  /\\ UNCHANGED <<phase, tables>>", "Dropout ==\n  /\\ Rec({\"data\"}, 79) /\\ out' = DecDropout(Body)\n  /\\ subs' = (IF out' = ErrItem THEN <<>> ELSE subs) /\\ UNCHANGED <<phase, formats, multi, limit>>", [mc("C02", 3)]),
    ("truncation is a clean end", P, "  /\\ phase' = \"cut\" /\\ out' = ErrItem\n  /\\ UNCHANGED <<pos, tables>>\nReadFails", "  /\\ phase' = \"eof\" /\\ out' = EndItem\n  /\\ UNCHANGED <<pos, tables>>\nReadFails", [mc("C03", 2)] + HE),
    ("a read failure is a clean end", P, "  /\\ phase' = \"bad\" /\\ out' = ErrItem\n  /\\ UNCHANGED <<pos, tables>>\n\\* after", "  /\\ phase' = \"eof\" /\\ out' = EndItem\n  /\\ UNCHANGED <<pos, tables>>\n\\* after", [mc("C05")]),
    ("magic checked on six bytes", P, "/\\ IsPrefix(Magic, inp)\n", "/\\ IsPrefix(SubSeq(Magic, 1, 6), inp)\n", HE),
    ("magic: a bad header goes on", P, "  /\\ phase' = \"bad\" /\\ out' = ErrItem\n  /\\ UNCHANGED <<pos, tables>>\nCleanEnd", "  /\\ phase' = \"defs\" /\\ pos' = 16 /\\ out' = ErrItem\n  /\\ UNCHANGED tables\nCleanEnd", HE),
    ("version and timestamp swapped", C, "ver |-> b[8], ts |-> SubSeq(b, 9, 16)", "ver |-> b[16], ts |-> SubSeq(b, 8, 15)", HE),
    ("a second undefined bit let through", C, "b[9] \\notin {0, 1}", "b[9] \\notin {0, 1, 2, 3}", HE),
    ("bits of the last byte not looked at", C, "\\E i \\in 10..16 : b[i] # 0", "\\E i \\in 10..15 : b[i] # 0", HE),
    ("flags of 39 bytes", C, "IF Len(b) < 40 THEN ErrItem", "IF Len(b) < 39 THEN ErrItem", HE),
    ("compat and incompat swapped", C, "compat |-> SubSeq(b, 1, 8), incompat |-> SubSeq(b, 9, 16),", "compat |-> SubSeq(b, 9, 16), incompat |-> SubSeq(b, 1, 8),", HE + ME),
    ("offsets in reverse", C, "<<SubSeq(b, 17, 24), SubSeq(b, 25, 32), SubSeq(b, 33, 40)>>", "<<SubSeq(b, 33, 40), SubSeq(b, 25, 32), SubSeq(b, 17, 24)>>", ME + EN),
    ("info value unbounded", C, "IF Width[f.ty] > left THEN FailV(p)", "IF Width[f.ty] > left + 1 THEN FailV(p)", ME + FI),
    ("array of one too many", C, "LET n == NumVal(f.arr) * Width[f.ty] IN", "LET n == (NumVal(f.arr) + 1) * Width[f.ty] IN", ME + FI),
    ("bool not normalised", C, "Norm(ty, bs) == IF ty = \"bool\" THEN [i \\in 1..Len(bs) |-> IF bs[i] = 0 THEN 0 ELSE 1] ELSE bs", "Norm(ty, bs) == bs", ME + FI),
    ("continued is one", C, "IF b[1] = 0 THEN 0 ELSE 1,", "IF b[1] = 1 THEN 1 ELSE 0,", ME),
    ("default types masked", C, "[t |-> \"dparam\", dt |-> b[1],", "[t |-> \"dparam\", dt |-> b[1] % 4,", ME),
    ("parameter of any type", C, "f.arr # \"\" \\/ f.ty \\notin {\"int32_t\", \"float\"}", "f.arr # \"\" \\/ f.ty \\notin {\"int32_t\", \"float\", \"uint32_t\"}", ME),
    ("parameter arrays", C, "f.arr # \"\" \\/ f.ty", "f.ty", ME),
    ("level 8", C, "IF Len(b) < 9 \\/ b[1] \\notin 48..55", "IF Len(b) < 9 \\/ b[1] \\notin 48..56", ME),
    ("tagged: tag big endian", C, "tag |-> U16At(b, 2), ts |-> SubSeq(b, 4, 11)", "tag |-> b[2] * 256 + b[3], ts |-> SubSeq(b, 4, 11)", ME),
    ("text of bytes", C, "\\/ ~Utf8(Drop(b, 9)) THEN", "THEN", ME),
    ("key length beyond the record", C, "IF Len(b) < p \\/ Len(b) < p + b[p] THEN FailF", "IF Len(b) < p THEN FailF", ME),
    ("surrogates", C, "/\\ (x = 237 => b[i+1] <= 159)", "/\\ TRUE", VI),
    ("timestamp in any place, first u64", C, "IF f.n = \"timestamp\" /\\ r.v.k = \"u64\"", "IF r.v.k = \"u64\"", FI + [mc("C09", 3)]),
    ("timestamp of 32 bits", C, "IF f.n = \"timestamp\" /\\ r.v.k = \"u64\"", "IF f.n = \"timestamp\"", FI),
    ("padding is any underscore", C, "IsPadding(name) == Len(name) >= 8 /\\ SubSeq(name, 1, 8) = \"_padding\"", "IsPadding(name) == Len(name) >= 7 /\\ SubSeq(name, 1, 7) = \"_paddin\"", FI),
    ("padding must be there", C, "IF IsPadding(f.n) /\\ f.ty = \"uint8_t\" /\\ f.arr # \"\" /\\ NumVal(f.arr) > left", "IF FALSE", FI),
    ("other padding must be there", C, "ELSE IF IsPadding(f.n) /\\ left = 0 /\\", "ELSE IF FALSE /\\", FI),
    ("padding of any type may be cut", C, "IF IsPadding(f.n) /\\ f.ty = \"uint8_t\" /\\ f.arr # \"\" /\\", "IF IsPadding(f.n) /\\ f.arr # \"\" /\\", FI),
    ("padding kept", C, "fs |-> IF IsPadding(f.n) /\\ ~pad THEN a.fs", "fs |-> IF FALSE THEN a.fs", FI + [mc("C09", 3)]),
    ("padding not read when not kept", C, "ELSE LET r == DecVal(F, pad, f, b, a.p, d) IN\n             IF", "ELSE LET r == IF IsPadding(f.n) /\\ ~pad THEN [ok |-> TRUE, p |-> a.p, v |-> NoVal] ELSE DecVal(F, pad, f, b, a.p, d) IN\n             IF", FI + [mc("C09", 3)]),
    ("last element of a nested array only", C, "IF r.ok THEN [ok |-> TRUE, p |-> r.p, c |-> Append(a.c, r.o)]", "IF r.ok THEN [ok |-> TRUE, p |-> r.p, c |-> <<r.o>>]", FI + EN),
    ("symbol needs no end", C, "IF r.ok /\\ IsSym(Tok(tk, r.nx), \";\") THEN", "IF r.ok /\\ (r.nx > Len(tk) \\/ IsSym(Tok(tk, r.nx), \";\")) THEN", GR),
    ("empty array length", C, "/\\ Tok(tk, i+2).k = \"num\" /\\ IsSym(Tok(tk, i+3), \"]\") /\\ Tok(tk, i+4).k = \"id\"", "/\\ Tok(tk, i+2).k \\in {\"num\", \"id\"} /\\ IsSym(Tok(tk, i+3), \"]\") /\\ Tok(tk, i+4).k = \"id\"", GR),
    ("numbers start names", C, "IsAlpha(x) == ", "IsAlpha(x) == x = 49 \\/ ", GR),
    ("digits end names", C, "ELSE IF IsDigit(x) THEN\n           IF a.m # \"\" THEN", "ELSE IF IsDigit(x) THEN\n           IF a.m = \"num\" THEN", GR),
    ("vertical tab no space", C, "IsSpace(x) == (x >= 9 /\\ x <= 13)", "IsSpace(x) == (x \\in {9, 10, 12, 13})", GR),
    ("ideographic space no space", C, "  \\/ b[i] = 227 /\\ b[i+1] = 128 /\\ b[i+2] = 128\n", "", GR),
    ("zero-width space a space", C, "b[i+2] \\in 128..138", "b[i+2] \\in 128..139", GR),
    ("key must be whole", C, "ParseKey(b) == IF ~Utf8(b) THEN FailF ELSE FieldAt(Tokens(b), 1)", "ParseKey(b) == IF ~Utf8(b) \\/ Len(Tokens(b)) \\notin {2, 5} THEN FailF ELSE FieldAt(Tokens(b), 1)", GR),
    ("encoding: lengths big endian", C, "LE16(n)     == << n % 256, n \\div 256 >>", "LE16(n)     == << n \\div 256, n % 256 >>", EN + [mc("C01", 2)]),
    ("encoding: no end of field", C, "FieldText(it.fields[i]) \\o <<59>>]", "FieldText(it.fields[i])]", EN),
    ("encoding: only the first nested value", C, "THEN FlattenSeq([i \\in 1..Len(v.c) |-> EncFields(v.c[i].fs)])", "THEN EncFields(v.c[1].fs)", EN),
    ("flattening: same path for all elements", F, "FlatVal(p \\o \".\" \\o Two(i - 1), s[i])", "FlatVal(p, s[i])", FL),
    ("flattening: nested only once", F, "ELSE IF v.k = \"other\" THEN FlatFields(p, v.c[1].fs)", "ELSE IF v.k = \"other\" THEN <<>>", FL),
    ("fault: optional fields are lacking", D, "ToSet(sch.structs[st].fields) : ~f.opt /\\ ~HasName", "ToSet(sch.structs[st].fields) : ~HasName", DE),
    ("fault: a type is a missing field", D, "THEN {} ELSE {Misfit}", "THEN {} ELSE {Unfilled({f.n})}", DE),
    ("fault: no field is named", D, "{Unfilled(Lacking(st, def))}", "{Unfilled({})}", DE),
    ("fault: subscriptions have none", D, "IF v = 0 THEN {} ELSE Absent(", "IF TRUE THEN {} ELSE Absent(", DE),
    ("fault: data has none", D, "THEN Faults(sch.vars[bind[x.id]].st, formats[x.name], x.fs)", "THEN {}", DE),
    ("cursor: a failure moves", U, "ELSE pos' = pos /\\ Fail\nTake", "ELSE pos' = Len(buf) /\\ Fail\nTake", CU),
    ("stream: a value of other bytes", U, "THEN pos' = pos + TypeW[ty] /\\ Done(Canon(ty, Slice(TypeW[ty])))", "THEN pos' = pos + TypeW[ty] /\\ Done(Canon(ty, SubSeq(buf, 1, TypeW[ty])))", CU),
    ("derived: bindings not dropped", D, "LET live == [i \\in (DOMAIN bind) \\cap (DOMAIN subs') |-> bind[i]]", "LET live == bind", DE),
    ("derived: refused subscription stays bound", D, "ELSE [i \\in DOMAIN live \\ {x.id} |-> live[i]]", "ELSE live", DE),
    ("derived: any instance", D, "StructOf(v).sub = name /\\ StructOf(v).multi = m)", "StructOf(v).sub = name)", DE),
    ("derived: wrong type accepted", D, "ELSE [ok |-> v.k = f.k, v |-> v]", "ELSE [ok |-> TRUE, v |-> v]", DE),
    ("derived: mapped subscriptions forwarded", D, "(IF Binds(x) THEN Silent ELSE ErrItem)", "(IF Binds(x) THEN Fwd(x) ELSE ErrItem)", DE),
    ("derived: subscriptions always forwarded", D, "ELSE IF FwdSubs THEN Fwd(x) ELSE Silent", "ELSE Fwd(x)", DE),
    ("derived: builder always obeyed", D, "Refuses(op) == ~HasFwd /\\", "Refuses(op) == FALSE /\\", DE),
    ("stream: subscriptions never dropped by id", P, "subs' = (x.id :> [name |-> x.name, multi |-> x.multi]) @@ subs", "subs' = ((pos :> [name |-> x.name, multi |-> x.multi]) @@ (x.id :> [name |-> x.name, multi |-> x.multi])) @@ subs", ST),
    ("definitions: instance 256", R, "a.n \\in 0..255", "a.n \\in 0..256", DF),
    ("definitions: a name's case kept", R, "\\o Lower(Ch(s, i)))", "\\o Ch(s, i))", DF),
]


def run(d, m, env):
    e = dict(os.environ, **env)
    e.setdefault("SCHEMAS", os.path.join(d, "schemas.json"))
    meta = tempfile.mkdtemp(dir=d)
    p = subprocess.run(["java", "-XX:+UseSerialGC", "-Xmx3g", "-Xss64m", "-cp", core.JARS, "tlc2.TLC", "-workers", "2", "-metadir", meta,
                        "-noGenerateSpecTE", "-config", m + ".cfg", m + ".tla"], cwd=d, env=e, capture_output=True, text=True, timeout=1500)
    o = p.stdout + p.stderr
    if "No error has been found" in o:
        return None
    v = re.search(r"(Invariant \w+ is violated|[Tt]emporal propert\w+ \w+ violated|Action property \w+ is violated|property \w+ is violated|violated)", o)
    return v.group(0) if v else "ERROR " + " ".join(l for l in o.splitlines() if "rror" in l)[:300]


def one(k):
    name, mod, old, new, models = MUT[k]
    if not models:
        return name, "-", "skipped"
    d = tempfile.mkdtemp(prefix="mut")
    try:
        sd = os.path.join(d, "s")
        shutil.copytree(os.path.join(ROOT, "spec"), sd)
        p = os.path.join(sd, mod)
        s = open(p).read()
        if s.count(old) != 1:
            return name, "-", f"BAD MUTATION ({s.count(old)} places)"
        open(p, "w").write(s.replace(old, new))
        if any(m == "MCDerive" for m, _ in models):
            json.dump({n: x for mod in schemas.fixed() for n, x in mod.sets()}, open(os.path.join(sd, "schemas.json"), "w"))
        for m, env in models:
            r = run(sd, m, env)
            if r:
                return name, m + " " + env.get("SCEN", env.get("MODE", env.get("KIND", ""))), r
        return name, "-", "SURVIVED"
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    ks = [k for k in range(len(MUT)) if len(sys.argv) < 2 or sys.argv[1] in MUT[k][0]]
    with cf.ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, ks):
            print("%-48s %-20s %s" % r, flush=True)
