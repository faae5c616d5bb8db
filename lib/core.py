"""Building, executing, validating, reporting."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, "build")
SPEC = os.path.join(ROOT, "spec")
REPO = "/repo"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e.update(CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never",
             CARGO_TARGET_DIR=os.path.join(BUILD, "target"), RUSTC_WRAPPER="")
    e.pop("RUSTFLAGS", None)
    return e


class ToolError(Exception):
    pass


def cargo_build(crate, feature=None):
    """Builds a harness crate against /repo's current tree; returns (path of binary, log)."""
    d = os.path.join(ROOT, "harness", crate)
    cmd = ["cargo", "build", "--offline", "--locked", "--message-format=short"]
    e = env()
    if feature:
        cmd += ["--features", feature]
        e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target-" + feature)
    p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=850)
    return p.returncode, os.path.join(e["CARGO_TARGET_DIR"], "debug", "vh_" + crate), p.stdout + p.stderr


def build(crate, feature=None):
    rc, path, log = cargo_build(crate, feature)
    if rc != 0:
        raise ToolError(f"harness {crate} does not build:\n" + log[-4000:])
    return path


def scratch(prop):
    d = os.path.join(BUILD, "run", prop)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def execute(binary, lines, workdir, per_run_timeout=12, mem_mb=4096, name="scn"):
    """Runs scenario lines (each with its id) and returns {id: parsed output}.  A scenario in
    which the process dies or does not come back is recorded as such."""
    path = os.path.join(workdir, name + ".txt")
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    ids = [int(re.search(r"(?:^| )id=(\d+)", l).group(1)) for l in lines]
    res, done, crashes, hangs = {}, 0, 0, 0

    def limits():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (mem_mb << 20, mem_mb << 20))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    while done < len(lines):
        errf = open(os.path.join(workdir, name + ".err"), "wb")
        p = subprocess.Popen([binary, path, str(done)], stdout=subprocess.PIPE, stderr=errf,
                             preexec_fn=limits, env=env())
        import selectors
        sel = selectors.DefaultSelector()
        sel.register(p.stdout, selectors.EVENT_READ)
        buf = b""
        hang = False
        while True:
            if not sel.select(timeout=per_run_timeout):
                hang = True
                p.kill()
                break
            chunk = os.read(p.stdout.fileno(), 1 << 20)
            if not chunk:
                break
            buf += chunk
            *full, buf = buf.split(b"\n")
            for l in full:
                i = l.find(b"\x01")
                if i < 0:
                    continue
                o = json.loads(l[i + 1:])
                res[o["id"]] = o
                done += 1
        p.stdout.close()
        rc = p.wait()
        errf.close()
        if done < len(lines):
            if rc == 0 and not hang:
                raise ToolError("harness stopped early without a crash")
            if rc == 101:
                raise ToolError("harness itself panicked: " + open(os.path.join(workdir, name + ".err")).read()[-500:]
                                + " at " + lines[done][:300])
            crashes += 1
            hangs += hang
            res[ids[done]] = {"id": ids[done], "crash": "hang" if hang else "abort",
                              "ev": [{"k": "x", "x": {"t": "hang" if hang else "abort"}}]}
            done += 1
            if crashes > 40 or hangs >= 4:
                # enough has been seen; the rest of this batch is not needed to report it
                for i in ids[done:]:
                    res[i] = None
                break
    return res


def tlc(module, workdir, env_extra=None, cfg=None, workers="auto", extra=(), timeout=800, heap="6g"):
    """Runs TLC; returns (output text, stats dict)."""
    e = dict(os.environ)
    e.update(env_extra or {})
    meta = tempfile.mkdtemp(prefix="tlc", dir=workdir)
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfg or module + ".cfg", *extra, module + ".tla"]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC on {module} did not finish in {timeout} s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout + p.stderr
    st = dict(wall=round(time.time() - t, 1), rc=p.returncode)
    m = re.findall(r"^([\d,]+) states generated, ([\d,]+) distinct states found", out, re.M)
    if m:
        init = re.search(r"^Finished computing initial states: ([\d,]+) distinct", out, re.M)
        st["transitions"] = int(m[-1][0].replace(",", "")) - (int(init.group(1).replace(",", "")) if init else 0)
        st["states"] = int(m[-1][1].replace(",", ""))
    st["ok"] = "Model checking completed. No error has been found." in out
    return out, st


def tail(out):
    """the end of what TLC printed, without its chatter"""
    return "\n".join(l[:600] for l in out.splitlines() if not re.match(r'<<"|Parsing file|Semantic processing|\s*$', l))[-2500:]


def dump(runs, path):
    with open(path, "w") as f:
        for r in runs:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")


def validate(runs, workdir, module="Trace", timeout=800, name="trace", env_extra=None):
    """Returns (set of accepted ids, stats).  Raises ToolError when TLC itself failed; an
    invariant violated on a run is returned in stats['inv']."""
    path = os.path.join(workdir, name + ".ndjson")
    dump(runs, path)
    ex = dict(TRACE=path)
    ex.update(env_extra or {})
    out, st = tlc(module, workdir, ex, timeout=timeout)
    acc = set(int(x) for x in re.findall(r'<<"ACCEPTED", (\d+)>>', out))
    if not st["ok"]:
        with open(os.path.join(workdir, name + ".tlc"), "w") as f:
            f.write(out)
        raise ToolError(f"TLC failed on {module}:\n" + tail(out))
    return acc, st


DIAG_BUDGET = [100]     # seconds in all; a verdict does not depend on it


def diagnose(run, workdir, module="Trace"):
    """What the specification expected for a rejected run, step by step."""
    if DIAG_BUDGET[0] <= 5 or len(json.dumps(run)) > 400_000:
        return ""
    t0 = time.time()
    path = os.path.join(workdir, "diag.ndjson")
    dump([run], path)
    try:
        out, st = tlc(module, workdir, dict(TRACE=path, DIAG="1"), workers=1, timeout=min(60, DIAG_BUDGET[0]))
    except ToolError as ex:
        return str(ex)
    finally:
        DIAG_BUDGET[0] -= time.time() - t0
    return "\n".join(l for l in out.splitlines() if l.startswith("<<\"STEP\""))


class Report:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.cov = [], [], {}
        self.viol = []
        self.assumptions = []

    def add_stats(self, st):
        self.states += st.get("states", 0)
        self.transitions += st.get("transitions", 0)

    def violation(self, what, replay):
        """replay: json-able description of the failing case."""
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(json.dumps(replay, sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(d, f"{self.prop}-{h}.json")
        with open(path, "w") as f:
            json.dump(dict(property=self.prop, what=what, case=replay), f, indent=1, default=str)
        self.viol.append((what, path))

    def finish(self):
        ev = os.path.join(ROOT, "evidence")
        os.makedirs(ev, exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples[:6] or ["none"])
        cov.update(self.cov)
        with open(os.path.join(ev, self.prop + ".json"), "w") as f:
            json.dump(dict(property=self.prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED,
                           level=self.level, coverage=cov, assumptions=self.assumptions,
                           wall_s=round(time.time() - self.t0, 1), violations=len(self.viol)), f, indent=1)
        for what, path in self.viol[:5]:
            print(f"VIOLATION property={self.prop} replay={path}")
            print("  " + what)
        if not self.viol:
            print(f"{self.prop}: ok, {self.traces} runs of the real code validated, "
                  f"{self.states} states, {round(time.time() - self.t0, 1)} s")
        return 1 if self.viol else 0
