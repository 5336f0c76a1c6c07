"""Plumbing shared by the checks: build the harness from /repo, run scripts of calls against the
real code, hand the recorded results to the Quint specification, write evidence and verdicts.
It judges nothing: acceptance is decided by the specification (see driver/qdrive.js)."""
import json, math, os, random, shutil, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
# build output of another tree is kept apart: cargo does not tell two trees' shared libraries apart
BUILD = os.path.join(VERIF, ".build") if REPO == "/repo" else os.path.join(VERIF, ".build", "alt")
os.makedirs(BUILD, exist_ok=True)
SPEC = os.path.join(VERIF, "spec")
NODE = shutil.which("node") or "node"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
ONE = 1 << 120
FIN = 1 << 1500
HANG_S = 40


class ToolError(Exception):
    pass


# ------------------------------------------------------------------ numbers
def bits(x):
    return struct.unpack("<Q", struct.pack("<d", float(x)))[0]


def unbits(b):
    return struct.unpack("<d", struct.pack("<Q", b))[0]


def fx(x):
    """A float as the specification's fixed-point integer (codes for the non-finite ones)."""
    x = float(x)
    if math.isnan(x):
        return "#%d" % (1 << 1700)
    if math.isinf(x):
        return "#%d" % ((1 << 1600) if x > 0 else -(1 << 1600))
    n, d = x.as_integer_ratio()
    v = n * ONE
    v = v // d if v >= 0 else -((-v) // d)
    return "#%d" % v


def unfx(s):
    v = int(s[1:]) if isinstance(s, str) else int(s)
    if abs(v) >= FIN:
        return float("nan")
    return float(Fraction(v, ONE))


def f32(x):
    return struct.unpack("<f", struct.pack("<f", float(x)))[0]


# ------------------------------------------------------------------ building
def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_harness(bins=("conform",)):
    """Builds the harness against the current working tree of /repo."""
    tgt = os.path.join(BUILD, "harness")
    os.makedirs(tgt, exist_ok=True)
    src = os.path.join(VERIF, "harness")
    if REPO != "/repo":
        # a scratch copy of the sources whose path dependency is another tree
        src = os.path.join(BUILD, "harness_src")
        shutil.rmtree(src, ignore_errors=True)
        shutil.copytree(os.path.join(VERIF, "harness"), src, ignore=shutil.ignore_patterns("target"))
        p = os.path.join(src, "Cargo.toml")
        t = open(p).read().replace('"/repo"', '"%s"' % REPO)
        open(p, "w").write(t)
    env = dict(os.environ, RUSTFLAGS="-Awarnings", CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE="true")
    out = {}
    for b in bins:
        r = run(["cargo", "build", "--offline", "--quiet", "--bin", b], cwd=src, env=env)
        if r.returncode != 0:
            out[b] = None
            sys.stderr.write(r.stdout[-4000:])
        else:
            out[b] = os.path.join(tgt, "debug", b)
    if "conform" in bins and out["conform"] is None:
        raise ToolError("the harness does not build against " + REPO)
    return out


# ------------------------------------------------------------------ running the real code
_work = None


def work():
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix="vcheck-", dir=os.path.join(BUILD))
    return _work


def _limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def cpu_of(pid):
    """Processor seconds used by a child, so that a busy machine does not make a call look endless."""
    try:
        with open("/proc/%d/stat" % pid) as f:
            t = f.read().rsplit(")", 1)[1].split()
        return (int(t[11]) + int(t[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


def _run_chunk(binary, ops, idx):
    d = work()
    res = {}
    todo = list(ops)
    part = 0
    hangs = 0
    while todo:
        s = os.path.join(d, "s%d_%d.jsonl" % (idx, part))
        o = os.path.join(d, "r%d_%d.jsonl" % (idx, part))
        part += 1
        with open(s, "w") as f:
            for op in todo:
                f.write(json.dumps(op) + "\n")
        open(o, "w").close()
        p = subprocess.Popen([binary, s, o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=_limits)
        last, since, used, hung = -1, time.time(), 0.0, False
        while True:
            try:
                p.wait(timeout=0.25 if last < 0 else 1)
                break
            except subprocess.TimeoutExpired:
                pass
            n = os.path.getsize(o)
            if n != last:
                last, since, used = n, time.time(), cpu_of(p.pid)
                continue
            limit = HANG_S if not hangs else HANG_S / 4
            if cpu_of(p.pid) - used > limit or time.time() - since > 5 * limit:
                hung = True
                p.kill()
                p.wait()
                break
        got = []
        with open(o) as f:
            for line in f:
                if line.endswith("\n"):
                    got.append(json.loads(line))
        for r in got:
            res[r["id"]] = r
        rest = todo[len(got):]
        if not rest:
            break
        # the first operation without a result did not return
        bad = rest[0]
        res[bad["id"]] = {"id": bad["id"], "hang": True} if hung else {"id": bad["id"], "crash": p.returncode}
        todo = rest[1:]
        hangs += hung
        if hangs >= 3 or part > 300:
            # enough: the property is already refuted
            for op in todo:
                res[op["id"]] = {"id": op["id"], "skipped": "the calls before it did not return"}
            break
    return res


def execute(binary, ops):
    """Runs the operations against the real code; returns {id: result}."""
    ids = [o["id"] for o in ops]
    assert len(set(ids)) == len(ids), "duplicate operation ids"
    k = max(1, min(JOBS, len(ops)))
    chunks = [ops[i::k] for i in range(k)]
    out = {}
    with ThreadPoolExecutor(k) as ex:
        for r in ex.map(lambda a: _run_chunk(binary, a[1], a[0]), enumerate(chunks)):
            out.update(r)
    return out


# ------------------------------------------------------------------ the specification's verdict
_ready = {}
_procs = []


def prepare(spec, k=None):
    """Starts the judges of a specification: they compile it while the harness is being built."""
    k = k or JOBS
    d = work()
    out = []
    for i in range(k):
        jf = os.path.join(d, "%s_%d_%d.jobs" % (os.path.basename(spec), len(_procs), i))
        of, ef = jf[:-5] + ".out", open(jf[:-5] + ".err", "w")
        p = subprocess.Popen([NODE, "--stack-size=4000", os.path.join(VERIF, "driver", "qdrive.js"), os.path.join(SPEC, spec), jf, of],
                             stdout=ef, stderr=ef)
        _procs.append(p)
        out.append((p, jf, of))
    _ready.setdefault(spec, []).append(out)


def judge(spec, jobs, tag="j", cost=None):
    """Runs the trace specification on every job; returns {id: verdict}."""
    if not jobs:
        return {}
    if not _ready.get(spec):
        prepare(spec, max(1, min(JOBS, len(jobs))))
    procs = _ready[spec].pop(0)
    k = len(procs)
    order = sorted(jobs, key=lambda j: -cost(j)) if cost else list(jobs)
    for i, (p, jf, of) in enumerate(procs):
        with open(jf + ".part", "w") as f:
            for j in order[i::k]:
                f.write(json.dumps({"id": j["id"], "vars": j["vars"]}) + "\n")
        os.rename(jf + ".part", jf)
    out = {}
    for p, jf, of in procs:
        if p.wait() != 0:
            raise ToolError("qdrive failed on %s: %s" % (spec, open(jf[:-5] + ".err").read()[-2000:]))
        for x in open(of):
            r = json.loads(x)
            if "error" in r:
                raise ToolError("specification error in %s on %s: %s" % (spec, r["id"], r["error"]))
            out[r["id"]] = r
    if len(out) != len(jobs):
        raise ToolError("lost verdicts in " + spec)
    return out


def quint_run(spec, invs, samples, steps, seed, witnesses=(), itf=None, n_traces=0, main=None, extra=()):
    """Random exploration of a specification with `quint run`; returns (ok, text)."""
    cmd = ["quint", "run", os.path.join(SPEC, spec), "--backend", "typescript", "--verbosity=1",
           "--max-samples=%d" % samples, "--max-steps=%d" % steps, "--seed=%d" % seed]
    if invs:
        cmd += ["--invariants"] + list(invs)
    if witnesses:
        cmd += ["--witnesses"] + list(witnesses)
    if itf:
        cmd += ["--out-itf=" + itf, "--n-traces=%d" % n_traces]
    if main:
        cmd += ["--main=" + main]
    cmd += list(extra)
    r = run(cmd)
    ok = "[ok]" in r.stdout
    viol = "[violation]" in r.stdout
    if not ok and not viol:
        raise ToolError("quint run failed on %s: %s" % (spec, r.stdout[-2000:]))
    return ok, r.stdout


# ------------------------------------------------------------------ verdicts
class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.viol = []
        self.assume = []
        self.known = load_known(prop)
        self.rng = random.Random("%s-%d-%s" % (prop, SEED, TIER))

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, x):
        if len(self.cov["samples"]) < 3:
            self.cov["samples"].append(x)

    def violation(self, what, replay):
        self.viol.append((what, replay))

    def judged(self, spec, jobs, verdicts, describe=lambda j: j.get("meta")):
        """Counts the verdicts of a specification and records the rejections."""
        by = {j["id"]: j for j in jobs}
        for i, v in verdicts.items():
            self.count("traces_validated_against_impl")
            self.count("transitions", v["steps"])
            self.count("states", v["steps"] + 1)
            if not v["ok"]:
                self.violation("%s: rejected by %s (%s)" % (i, spec, v.get("why")),
                               {"spec": spec, "job": by[i].get("meta"), "verdict": v,
                                "vars": by[i]["vars"]})

    def finish(self):
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level,
              "coverage": self.cov, "assumptions": self.assume,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for what, _ in self.viol[:8]:
            print("  " + what)
        if self.viol:
            rd = os.path.join(VERIF, ".build", "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%d.json" % (self.prop, SEED))
            with open(path, "w") as f:
                json.dump([{"what": w, "replay": r} for w, r in self.viol[:20]], f, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("%s held: %s" % (self.prop, {k: v for k, v in self.cov.items() if k != "samples"}))
        return 0


def load_known(prop):
    """Findings recorded as not repaired (none of the entries 'fixed:' suppresses anything)."""
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    out = []
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: property=%s " % prop):
                out.append(line.strip())
    return out


def cleanup():
    global _work
    for p in _procs:
        if p.poll() is None:
            p.kill()
            p.wait()
    _procs.clear()
    _ready.clear()
    if _work and os.path.isdir(_work) and not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(_work, ignore_errors=True)
    _work = None
