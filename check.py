#!/usr/bin/env python3
"""One check per property: python3 check.py C01 [--tier thorough] (see DESIGN.md).

Every verdict is the Quint specification's: results recorded from the real code must be steps of the
machines in spec/. Exit 0: held; exit 1 and a VIOLATION line: broken; exit 2: the check failed."""
import os, random, re, subprocess, sys, threading, time, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
if "--tier" in sys.argv:
    os.environ["VERIF_TIER"] = sys.argv[sys.argv.index("--tier") + 1]
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".build"), exist_ok=True)
import vlib
from vlib import THOROUGH, SEED, ToolError
import gen, fits, c06, relations, primitives, hyper, sessions, explored, pyside


class Task:
    """A background task whose failure is raised when its result is needed."""

    def __init__(self, fn, *a):
        self.err, self.val = None, None

        def go():
            try:
                self.val = fn(*a)
            except BaseException as e:
                self.err = e
        self.t = threading.Thread(target=go, daemon=True)
        self.t.start()

    def get(self):
        self.t.join()
        if self.err:
            raise self.err
        return self.val


def traces_cost(j):
    return len(j["vars"]["obs"]) * j["vars"]["P"]["n"] * j["vars"]["P"]["p"] * j["vars"]["P"]["t"]


class Ctx:
    def __init__(self, prop):
        self.ck = vlib.Check(prop)
        self.prop = prop
        self.n = 0
        self.later = []

    def rng(self, part):
        return random.Random("%s/%s/%d/%s" % (self.prop, part, SEED, vlib.TIER))

    def size(self, quick, factor=12):
        return quick * factor if THOROUGH else quick

    # -------------------------------------------------------------- books of calls
    def book(self, part, spec, fill, count, *a, binary="conform", factor=12, **kw):
        b = fits.Book(self.ck)
        fill(self.ck, self.rng(part), b, self.size(count, factor), *a, **kw)
        self.later.append((part, spec, b, binary))

    def specs(self):
        return [s for _, s, _, _ in self.later]


def avg(text):
    m = re.search(r"average=([0-9.]+)", text)
    return float(m.group(1)) if m else 0.0


def apalache(spec, invs, steps, inductive=None):
    """Model checking of a specification: all behaviours up to the given length or, given an inductive
    invariant, all behaviours."""
    import tempfile
    d = tempfile.mkdtemp(prefix="ap-", dir=vlib.work())
    cmd = ["quint", "verify", os.path.join(vlib.SPEC, spec), "--max-steps=%d" % steps, "--verbosity=1", "--invariants"] + invs
    if inductive:
        cmd += ["--inductive-invariant=" + inductive]
    import socket
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    port = s.getsockname()[1]
    s.close()
    cmd += ["--server-endpoint=localhost:%d" % port]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d, timeout=700 if THOROUGH else 150)
    except subprocess.TimeoutExpired:
        return None
    if "[violation]" in r.stdout:
        raise ToolError("the specification %s violates its own invariants:\n%s" % (spec, r.stdout[-2500:]))
    return True if "[ok]" in r.stdout else None


def main(prop):
    t0 = time.time()
    c = Ctx(prop)
    ck = c.ck
    need = {"specs": {}, "bins": ["conform"], "explore": None, "traces": [], "apalache": [], "py": False, "own": False}

    def traces(part, count, accel=None, rel=1e-9, factor=12, **kw):
        need["traces"].append((part, count, accel, rel, factor, kw))

    # ------------------------------------------------------------------ what each property needs
    B = c.book
    certs = lambda fam: lambda k, r, b, n: fits.certs(k, r, b, fam, n)
    R, P, L = "results.qnt", "prims.qnt", "relate.qnt"
    plans = {
        "C01": lambda: (B("certificates", R, certs("C01"), 450), need.update(explore=150), traces("runs", 100, pens=("l1", "en"), df="quad")),
        "C02": lambda: (B("certificates", R, certs("C02"), 450), need.update(explore=150), traces("runs", 100, pens=("l1", "en"), df="quad")),
        "C03": lambda: (B("certificates", R, certs("C03"), 600), need.update(explore=150),
                        traces("runs", 120, pens=("mcp", "l05"), df="quad")),
        "C04": lambda: (B("certificates", R, certs("C04"), 300), B("descent", R, fits.mono, 200, pens=("l1", "en"), df="logit"),
                        need.update(explore=150), traces("runs", 100, pens=("l1", "en"), df="logit")),
        "C05": lambda: (B("descent", R, fits.mono, 500), need.update(explore=200), traces("runs", 150, mix=0.5)),
        "C06": lambda: (need.update(explore=200), traces("plain", 350, False, wide=0.12), traces("mixed", 350, None, mix=0.2), traces("extrapolating", 300, True, mix=1.0)),
        "C07": lambda: (need["bins"].append("lowlevel"), B("working-sets", P, primitives.wsets, 400, binary="lowlevel"),
                        B("violations", P, primitives.kkts, 200, binary="lowlevel"), B("certificates", R, certs("C01"), 150),
                        need["bins"].append("custom"), B("visits", P, primitives.visits, 200, binary="custom"),
                        need.update(explore=150), traces("runs", 250, None, wide=0.25)),
        "C08": lambda: (B("settings", R, fits.settings, 200), B("extremes", R, fits.extremes, 150), need.update(explore=150), traces("runs", 150, True, mix=0.5)),
        "C09": lambda: (need["bins"].append("accel"), B("attempts", "accel.qnt", primitives.accels, 700, binary="accel"), need.update(explore=200), traces("extrapolating", 250, True, mix=1.0), traces("mixed", 150, True, mix=0.3)),
        "C10": lambda: (B("formats", L, relations.storage, 500), traces("runs", 120, None)),
        "C11": lambda: (B("budgets", R, fits.budgets, 300), B("extremes", R, fits.extremes, 150), B("storage", L, relations.storage, 60)),
        "C12": lambda: (B("thresholds", R, fits.thresholds, 500), B("helpers", P, primitives.amax, 600)),
        "C13": lambda: (B("prox", P, primitives.prox, 2000),),
        "C14": lambda: (need["bins"].append("lowlevel"), B("penalties", P, primitives.penalties, 1600),
                        B("violations", P, primitives.kkts, 400, binary="lowlevel")),
        "C15": lambda: (B("losses", P, primitives.losses, 1200),),
        "C16": lambda: (need["apalache"].append(("paramgen.qnt", ["lastWins", "sound"], 6 if THOROUGH else 4)),),
        "C17": lambda: (need["apalache"].append(("paramgen.qnt", ["lastWins", "sound"], 6 if THOROUGH else 4)),),
        "C18": lambda: (need["apalache"].append(("sessiongen.qnt", ["fresh"], 6 if THOROUGH else 4)),),
        "C19": lambda: (B("reductions", L, relations.reductions, 600), B("penalties", P, primitives.coincide, 800)),
        "C20": lambda: (B("symmetries", L, relations.symmetries, 800),),
        "C21": lambda: (B("systems", P, primitives.linsys, 1800), B("orders", P, primitives.orders, 400)),
        "C22": lambda: (B("pairs", L, relations.precision, 250), B("certificates", R, fits.certs32, 200),
                        B("prox", P, primitives.prox, 150, single=True), B("penalties", P, primitives.penalties, 150, single=True),
                        B("losses", P, primitives.losses, 120, single=True), B("helpers", P, primitives.amax, 80, single=True),
                        B("systems", P, primitives.linsys, 150, single=True), B("products", P, primitives.products, 150, single=True),
                        traces("single", 100, None, rel=3e-4, f32=True)),
        "C23": lambda: need.update(py=True),
        "C26": lambda: need.update(py=True),
        "C25": lambda: (need.update(bins=["conform", "custom"], own=True, explore=200), B("own", R, fits.own, 500, binary="custom"), B("visits", P, primitives.visits, 60, binary="custom"),
                        traces("runs", 250, None, own=True)),
        "C27": lambda: (need["bins"].append("testing"), B("testing", P, primitives.testing, 1500, binary="testing")),
        "C24": lambda: (B("products", P, primitives.products, 600), B("views", P, primitives.views, 500)),
    }
    plans[prop]()
    if prop in ("C05", "C07", "C09", "C11"):
        need["apalache"].append(("control.qnt", ["safe"], 3, "inv"))
    if prop in ("C16", "C17"):
        need["apalache"].append(("paramproof.qnt", ["safe"], 3, "inv"))

    # ------------------------------------------------------------------ start everything
    for s in sorted(set(c.specs())):
        vlib.prepare(s)
    if need["traces"] or need["explore"]:
        vlib.prepare("trace.qnt")
    if prop in ("C16", "C17", "C22"):
        vlib.prepare("paramtrace.qnt")
    if prop == "C18":
        vlib.prepare("session.qnt")
    if prop == "C26":
        vlib.prepare("pydata.qnt")
    if prop == "C23":
        vlib.prepare(R)
        vlib.prepare("trace.qnt")
        vlib.prepare(P, 2)
    build = Task(vlib.build_harness, tuple(need["bins"]))
    pkg = Task(pyside.build) if need["py"] else None
    ex = Task(explored.explore, need["explore"] * (10 if THOROUGH else 1), 60, SEED, 400 if THOROUGH else 60, "initOwn" if need["own"] else "init") if need["explore"] else None
    aps = [(a, Task(apalache, *a)) for a in need["apalache"]]
    hist = None
    if prop in ("C16", "C17", "C22"):
        hist = Task(hyper.histories, c.size(60 if prop == "C22" else 300), SEED)
    if prop == "C18":
        hist = Task(sessions.histories, c.size(200), SEED)
    made = []
    for part, count, accel, rel, factor, kw in need["traces"]:
        made.append((part, rel) + c06.make(ck, c.rng(part), c.size(count, factor), accel, **kw))

    bins = build.get()
    exe = bins["conform"]
    if need["own"] and bins["custom"] is None:
        raise ToolError("user-defined components no longer fit the public traits")

    # ------------------------------------------------------------------ run the code, ask the specification
    run_merged(c, bins)
    trace_runs(c, bins["custom"] if need["own"] else exe, made, ex, need["own"])
    if prop in ("C16", "C17", "C22"):
        ok, text, h = hist.get()
        if not ok:
            raise ToolError("paramgen.qnt violates its invariants:\n" + text[-2000:])
        ck.count("states", int(avg(text) * len(h)))
        rng = c.rng("histories")
        groups = [("mbt", h, prop == "C22")]
        if prop == "C16":
            groups.append(("grid", hyper.grid(rng, None if THOROUGH else 1500), False))
        if prop == "C22":
            groups.append(("grid", hyper.grid(rng, 2000 if THOROUGH else 300), True))
        js = []
        for part, hh, single in groups:
            ops, items = hyper.plan(ck, rng, hh, single=single)
            res = vlib.execute(exe, ops)
            ck.count("calls_of_the_code", len(ops))
            for j in hyper.jobs(items, res):
                j["id"] = part + ":" + j["id"]
                js.append(j)
        if prop == "C17":
            sh = hyper.solver_histories(rng, c.size(300))
            ops = hyper.solver_plan(rng, sh)
            js += hyper.solver_jobs(sh, vlib.execute(exe, ops))
            ck.count("calls_of_the_code", len(ops))
        ck.judged("paramtrace.qnt", js, vlib.judge("paramtrace.qnt", js))
        ck.sample({"case": js[0]["meta"]})
    if prop == "C18":
        ok, text, h = hist.get()
        if not ok:
            raise ToolError("sessiongen.qnt violates its invariants:\n" + text[-2000:])
        ck.count("states", int(avg(text) * len(h)))
        ops, items = sessions.plan(c.rng("sessions"), h)
        js = sessions.jobs(items, vlib.execute(exe, ops))
        ck.count("calls_of_the_code", len(ops))
        ck.judged("session.qnt", js, vlib.judge("session.qnt", js))
        ck.sample({"case": js[0]["meta"]})
    if prop == "C26":
        b = pyside.generated(ck, c.rng("generated"), c.size(500))
        js = b.events(pyside.execute(pkg.get(), b.ops))
        ck.count("calls_of_the_code", len(b.ops))
        ck.judged("pydata.qnt", js, vlib.judge("pydata.qnt", js))
        ck.cov["events"] = dict(b.kinds)
        ck.sample({"case": js[0]["meta"]})
    if prop == "C23":
        python_side(c, exe, pkg.get())
    for a, t in aps:
        r = t.get()
        ck.cov.setdefault("apalache", []).append({"spec": a[0], "invariants": a[1], "outcome": "no error" if r else "not finished",
                                                  **({"inductive": a[3], "all_behaviours_up_to_steps": "any number"} if len(a) > 3 else {"all_behaviours_up_to_steps": a[2]})})
    return ck.finish()


def run_merged(c, bins):
    """Books judged by the same specification are judged together."""
    groups = {}
    for part, spec, b, binary in c.later:
        exe = bins.get(binary)
        if exe is None:
            c.ck.cov.setdefault("not_run", []).append(part + ": the " + binary + " harness does not build against this tree")
            continue
        res = vlib.execute(exe, b.ops)
        c.ck.count("calls_of_the_code", len(b.ops))
        js = b.events(res)
        for j in js:
            j["id"] = part + ":" + j["id"]
        groups.setdefault(spec, []).extend(js)
        ev = c.ck.cov.setdefault("events", {})
        for k, x in b.kinds.items():
            ev[k] = ev.get(k, 0) + x
        if js:
            c.ck.sample({"part": part, "case": js[0]["meta"]})
    tasks = [(s, js, Task(vlib.judge, s, js)) for s, js in groups.items()]
    for s, js, t in tasks:
        got = t.get()
        c.ck.judged(s, js, got)
        if s == "accel.qnt":
            tot = c.ck.cov.setdefault("attempts", {})
            for v in got.values():
                for k, x in v["info"].items():
                    tot[k] = tot.get(k, 0) + x


def trace_runs(c, exe, made, ex, own=False):
    ck = c.ck
    js = []
    if ex:
        st, found = ex.get()
        ck.count("states", st["states"])
        ck.count("transitions", st["states"] - st["samples"])
        ck.cov["exploration"] = st
        for I, _ in found:
            I.units(c.rng("units"), 150, 0.5)
        items, ops = c06.make(ck, c.rng("explored"), len(found), None, insts=found, own=own)
        made = made + [("explored", 1e-9, items, ops)]
    for part, rel, items, ops in made:
        res = vlib.execute(exe, ops)
        ck.count("calls_of_the_code", len(ops))
        js += c06.jobs(ck, items, res, rel, prefix=part + ":")
    trace_judge(ck, js)


def trace_judge(ck, js):
    if not js:
        return
    v = vlib.judge("trace.qnt", js, cost=traces_cost)
    ck.judged("trace.qnt", js, v)
    tot = ck.cov.setdefault("solver_traces", {"passes": 0, "outers": 0, "taken": 0, "tried": 0, "stops": 0, "doubt": 0, "inferred": 0})
    for r in v.values():
        for k in tot:
            tot[k] += r["info"][k]
    ck.sample({"case": js[0]["meta"]})


def python_side(c, exe, pkg):
    ck = c.ck
    rng = c.rng("python")
    Y = pyside.Both(ck)
    pyside.fitsplan(rng, Y, c.size(300))
    pyside.refusals(rng, Y, c.size(300))
    lin = pyside.lineages(ck, rng, Y, c.size(100))
    help_ = pyside.helpers(ck, rng, Y, c.size(100))
    res = vlib.execute(exe, Y.book.ops)
    res.update(pyside.execute(pkg, Y.py))
    ck.count("calls_of_the_code", len(Y.book.ops) + len(Y.py))
    js = Y.book.events(res)
    ps = help_.events(res)
    items, new = pyside.lineage_results(lin, res)
    ts = c06.jobs(ck, items, new, 1e-9, prefix="python:")
    a, b = Task(vlib.judge, "results.qnt", js), Task(vlib.judge, "prims.qnt", ps)
    trace_judge(ck, ts)
    ck.judged("results.qnt", js, a.get())
    ck.judged("prims.qnt", ps, b.get())
    ck.cov["events"] = dict(Y.book.kinds)
    ck.sample({"case": js[0]["meta"]})


if __name__ == "__main__":
    code = 2
    try:
        code = main(sys.argv[1])
    except ToolError as e:
        print("check failed: %s" % e)
    except Exception:
        traceback.print_exc()
    finally:
        vlib.cleanup()
    sys.stdout.flush()
    os._exit(code)
