"""Builders and validation (specification: spec/paramgen.qnt generates the histories,
spec/paramtrace.qnt judges what the implementation did with them)."""
import json, os, random, re
import gen
from vlib import bits, unbits, fx, f32, quint_run, work, ONE, ToolError

INTK = {"max_iterations", "max_epochs", "ws_start_size", "K"}
BOOLK = {"use_acceleration", "verbose"}
ESTS = ["l1", "en", "mcp", "l21", "ben", "bmcp"]
ESTPEN = {"l1": "l1", "en": "en", "mcp": "mcp", "l21": "l1", "ben": "en", "bmcp": "mcp"}


def big(v):
    return int(v["#bigint"]) if isinstance(v, dict) else int(v)


def histories(count, seed):
    """Behaviours of paramgen.qnt: (ok, text, [(est, [(setter, value)])])."""
    d = work()
    ok, text = quint_run("paramgen.qnt", ["lastWins", "sound"], count, 10, seed, witnesses=["wOk", "wBad"],
                         itf=os.path.join(d, "pg_{seq}.itf.json"), n_traces=count, extra=["--mbt"])
    out = []
    for f in sorted(os.listdir(d)):
        if f.startswith("pg_") and f.endswith(".itf.json"):
            t = json.load(open(os.path.join(d, f)))
            st = t["states"][-1]
            out.append((st["est"], [(c["k"], concrete(c["k"], big(c["v"]))) for c in st["hist"]]))
    return ok, text, out


def concrete(k, v):
    if k in INTK:
        return v
    if k in BOOLK:
        return bool(v)
    return v / ONE


DEF = {"max_iterations": 50, "max_epochs": 1000, "ws_start_size": 10, "tolerance": 1e-6, "K": 5, "use_acceleration": True, "verbose": True, "alpha": 1.0}


def final(est, calls):
    h = dict(DEF)
    if est == "solver":
        h["tolerance"] = 1e-8
    h["extra"] = {"en": 0.5, "ben": 0.5, "mcp": 3.0, "bmcp": 3.0}.get(est, 1.0)
    for k, v in calls:
        h[k] = v
        if k == "alpha" and est not in ("en", "ben", "mcp", "bmcp"):
            h["extra"] = v
    return h


def hyp(h):
    return {"alpha": fx(h["alpha"]), "extra": fx(h["extra"]), "tol": fx(h["tolerance"]), "it": h["max_iterations"], "ep": h["max_epochs"],
            "ws": h["ws_start_size"], "K": h["K"], "acc": int(h["use_acceleration"]), "verb": int(h["verbose"])}


ZERO = {"alpha": "#0", "extra": "#0", "tol": "#0", "it": 0, "ep": 0, "ws": 0, "K": 0, "acc": 0, "verb": 0}


def parse_err(e):
    m = re.match(r"([A-Za-z0-9]+)(?:\((.*)\))?$", e)
    if not m:
        return e, fx(0)
    try:
        return m.group(1), fx(float(m.group(2))) if m.group(2) else fx(0)
    except (TypeError, ValueError):
        return m.group(1), fx(0)


def got_hyp(g):
    return {"alpha": fx(unbits(g["alpha"])) if "alpha" in g else "#0", "extra": fx(unbits(g["extra"])) if "extra" in g else "#0",
            "tol": fx(unbits(g["tolerance"])), "it": g["max_iterations"], "ep": g["max_epochs"], "ws": g["ws_start_size"], "K": g["K"],
            "acc": int(g["use_acceleration"]), "verb": int(g["verbose"])}


def out(g):
    if "panic" in g:
        return {"ok": False, "g": ZERO, "label": "", "v": "#0", "panic": True}
    if "err" in g:
        lab, v = parse_err(g["err"])
        return {"ok": False, "g": ZERO, "label": lab, "v": v, "panic": False}
    return {"ok": True, "g": got_hyp(g), "label": "", "v": "#0", "panic": False}


def fit(r):
    if "w" in r:
        return {"ok": True, "w": ["#%d" % b for b in r["w"]] + ["#%d" % x for x in r["shape"]], "label": "", "v": "#0", "panic": False}
    if "err" in r:
        lab, v = parse_err(r["err"])
        return {"ok": False, "w": [], "label": lab, "v": v, "panic": False}
    return {"ok": False, "w": [], "label": str(r)[:80], "v": "#0", "panic": True}


def instances(rng, est, f):
    """A dense and a sparse data set on which small budgets and settings make a difference."""
    multi = est in ("l21", "ben", "bmcp")
    out = []
    for _ in range(2):
        I = gen.instance(rng, n=rng.randint(4, 8), p=rng.randint(3, 9), df="quad", multi=multi, pens=(ESTPEN[est],), tmax=3,
                         kind=rng.choice(["corr", "gauss", "const"]), unit=0)
        # scale the targets so that the alphas of the histories are mostly informative
        am = I.alpha_max()
        s = rng.choice([1.5, 3.0, 8.0, 20.0]) / am if am > 0 else 1.0
        I = I.copy(Y=[[gen.q(v * s) for v in r] for r in I.Y])
        out.append(I)
    return out


def plan(ck, rng, hist, single=False):
    """Operations replaying the histories, and the way to turn the results into jobs."""
    ops, items = [], []
    for k, (est, calls) in enumerate(hist):
        cs = calls
        f = single or rng.random() < 0.25
        h = final(est, cs)
        D, S = instances(rng, est, f)
        enc = [[a, v if a in INTK or a in BOOLK else bits(v)] for a, v in cs]
        viadef = rng.random() < 0.3
        dd, ss = D.data(rng.choice(gen.DENSE)), S.data("csc", random.Random(k))
        for x in (dd, ss):
            x["ymat"] = True
        ops.append({"id": "p%d" % k, "op": "params", "est": est, "calls": enc, "default": viadef, "dense": dd, "sparse": ss, "f32": f})
        # the raw solver does not validate: give it something it can run where the set is invalid
        c = {"ws": max(h["ws_start_size"], 1), "it": h["max_iterations"], "ep": h["max_epochs"], "tol": max(h["tolerance"], 0.0), "K": max(h["K"], 1),
             "acc": h["use_acceleration"], "verb": h["verbose"]}
        for nm, I, src in (("d", D, dd), ("s", S, ss)):
            J = I.copy(a=max(h["alpha"], 0.0), g=h["extra"] if est in ("en", "ben", "mcp", "bmcp") else 1.0)
            o = J.op("p%d%s" % (k, nm), c, "c", "solver", None, f32=f)
            o.update(src)
            o["ymat"] = True
            ops.append(o)
        items.append((k, est, cs, h, viadef, f, D, S))
    return ops, items


def jobs(items, res):
    js = []
    for (k, est, cs, h, viadef, f, D, S) in items:
        r, d, s = res["p%d" % k], res["p%dd" % k], res["p%ds" % k]
        meta = {"est": est, "calls": cs, "default": viadef, "f32": f, "dense": D.describe(), "sparse": S.describe()}
        if "ref" not in r:
            rep_out = {"ok": False, "g": ZERO, "label": str(r)[:100], "v": "#0", "panic": True}
            rep = {"full": True, "byRef": rep_out, "byVal": rep_out, "unwrapped": rep_out, "dense": fit(r), "sparse": fit(r), "unchanged": False,
                   "used": hyp(h), "refDense": fit(d), "refSparse": fit(s)}
        else:
            rep = {"full": True, "byRef": out(r["ref"]), "byVal": out(r["val"]), "unwrapped": out(r["unwrap"]), "dense": fit(r["dense"]),
                   "sparse": fit(r["sparse"]), "unchanged": bool(r["unchanged"]), "used": hyp(h), "refDense": fit(d), "refSparse": fit(s)}
        js.append({"id": "params#%d" % k, "meta": meta, "vars": {
            "est": est, "h": hyp(final(est, [])), "calls": [{"k": a, "v": call_fx(a, v)} for a, v in cs], "rep": rep, "l": 0, "fin_": False,
            "rel": fx(1e-6 if f else 1e-14)}})
    return js


def call_fx(k, v):
    return int(v) if k in INTK or k in BOOLK else fx(v)


def solver_histories(rng, count):
    out = []
    for _ in range(count):
        cs = []
        for _ in range(rng.randint(0, 9)):
            k = rng.choice(["max_iterations", "max_epochs", "ws_start_size", "tolerance", "K", "use_acceleration", "verbose"])
            v = rng.random() < 0.5 if k in BOOLK else rng.choice([1e-3, 2.0**-20, 0.0]) if k == "tolerance" else rng.choice([rng.randint(0, 60), rng.randint(0, 60), 10**3, 10**6, 2**31 + 7, 2**40])
            cs.append((k, v))
        out.append(cs)
    return out


def solver_plan(rng, hist):
    ops = []
    for k, cs in enumerate(hist):
        ops.append({"id": "s%d" % k, "op": "solver", "default": rng.random() < 0.5, "f32": False,
                    "calls": [[a, bits(v) if a == "tolerance" else v] for a, v in cs]})
    return ops


def solver_jobs(hist, res):
    js = []
    blank = {"ok": True, "g": ZERO, "label": "", "v": "#0", "panic": False}
    bf = {"ok": True, "w": [], "label": "", "v": "#0", "panic": False}
    for k, cs in enumerate(hist):
        r = res["s%d" % k]
        o = blank
        if "ref" in r:
            g = got_hyp(r["ref"])
            g["alpha"] = g["extra"] = fx(1.0)
            o = {"ok": True, "g": g, "label": "", "v": "#0", "panic": False}
        else:
            o = {"ok": False, "g": ZERO, "label": str(r)[:100], "v": "#0", "panic": True}
        h = final("solver", [])
        js.append({"id": "solver#%d" % k, "meta": {"solver_calls": cs}, "vars": {
            "est": "solver", "h": hyp(h), "calls": [{"k": a, "v": call_fx(a, v)} for a, v in cs],
            "rep": {"full": False, "byRef": o, "byVal": blank, "unwrapped": blank, "dense": bf, "sparse": bf, "unchanged": True, "used": hyp(h),
                    "refDense": bf, "refSparse": bf}, "l": 0, "fin_": False, "rel": fx(1e-14)}})
    return js


def grid(rng, count):
    """All combinations of valid, boundary and invalid hyperparameters, sampled evenly."""
    import itertools
    u = 1 / 1024
    A = [-u, 0.0, 0.25, -1e-9]
    T = [-u, 0.0, u, -1e-12]
    K = [0, 1, 5]
    Wz = [0, 1, 20]
    out = []
    for est in ESTS:
        E = [-u, 0.0, 1.0, 1 + u, 0.5, -1e-9, 1 + 1e-6] if est in ("en", "ben") else [1.0, 1 - u, 0.0, 3.0, -2.0, 1 - 1e-6] if est in ("mcp", "bmcp") else [None]
        for a, e, t, k, w in itertools.product(A, E, T, K, Wz):
            cs = [("alpha", a), ("tolerance", t), ("K", k), ("ws_start_size", w), ("max_iterations", 2), ("verbose", False)] + ([("extra", e)] if e is not None else [])
            rng.shuffle(cs)
            out.append((est, cs))
    rng.shuffle(out)
    return out if count is None else out[:count]
