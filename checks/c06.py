"""Solver traces: recorded iterates at growing budgets against the reference machine."""
import gen
from vlib import fx


def lineage(I, c, E, Tm):
    """The (t, e) budgets observed for one configuration."""
    b = [(1, e) for e in range(1, E + 1)] + [(t, E) for t in range(2, Tm + 1)]
    return b


def extrapolating(rng, pens, df):
    """A run whose extrapolation weights are well conditioned and whose extrapolations matter."""
    K = rng.choice([1, 2, 2, 3, 3, 4, 5])
    p = rng.randint(max(2, K), K + 4)
    I = gen.instance(rng, n=p + rng.randint(0, 4), p=p, kind=rng.choice(["corr", "corr", "gauss", "const"]), pens=pens, df=df, tmax=rng.choice([2, 3, 4, 4]), multi=None if df == "logit" else rng.random() < 0.5,
                     frac=rng.choice([0.0005, 0.005, 0.02, 0.1]))
    c = gen.config(rng, p)
    c["acc"], c["K"], c["ws"], c["tol"] = True, K, rng.choice([p, p + 3, max(2, p - 1), 2, 3]), 1e-10
    m = rng.choice([1, 1, 2, 3])
    return I, c, m * (K + 1) + rng.randint(0, 2)


def late(rng, df):
    """Features driven by one common factor: some enter a few passes after the others, and an
    extrapolation from iterates in which they were still null can make them null again."""
    n, p = rng.randint(5, 11), rng.randint(4, 7)
    multi = df == "quad" and rng.random() < 0.3
    T = rng.randint(1, 4) if multi else 1
    c, s = rng.choice([0.25, 0.5, 0.5, 0.8]), rng.choice([1, -1])
    f = [rng.gauss(0, 1) for _ in range(n)]
    X = [[gen.q(c * rng.gauss(0, 1) + f[i] * (s if j % 2 else 1)) for j in range(p)] for i in range(n)]
    I = gen.Inst(X, gen.targets(rng, X, T, df), df, rng.choice(["l1", "l1", "l1", "mcp", "en"]), 0.0, 1.0, multi)
    I.a = gen.q(I.alpha_max() * rng.choice([0.03, 0.05, 0.05, 0.1, 0.2])) or 0.125
    I.g = {"en": 0.75, "mcp": rng.choice([3.0, 8.0])}.get(I.pen, 1.0)
    k = rng.choice([2, 2, 2, 3, 3])
    return I, dict(gen.config(rng, p), acc=True, K=k, ws=rng.choice([p, p, p, p + 3, 4]), tol=1e-10), rng.randint(3, 5) * (k + 1) + rng.randint(0, 2)


def large(rng, pens, df):
    """More features than the insertion-sort threshold of the standard library's sort. From the null
    vector only: later working sets have ties (active features), whose order is then unspecified."""
    p = rng.choice([rng.randint(21, 45), rng.randint(33, 70)])
    I = gen.instance(rng, n=rng.randint(4, 12), p=p, kind=rng.choice(["gauss", "corr", "sparse"]), pens=pens, df=df, tmax=2,
                     frac=rng.choice([0.1, 0.3, 0.5]))
    c = gen.config(rng, p)
    c["acc"], c["ws"] = rng.random() < 0.3, rng.choice([1, 3, 5, 10, 10, p // 2, p - 1, p])
    return I, c, rng.randint(1, 3)


def make(ck, rng, count, accel, nmax=9, pmax=8, f32=False, pens=("l1", "en", "mcp", "l05"), emax=12, df=None, gamma_lo=0.25, mix=0.0,
         wide=0.0, insts=None, own=False):
    items, ops = [], []
    for k in range(count):
        forced = None
        if insts is not None:
            I, c = insts[k]
        elif own:
            I = gen.own_instance(rng, unit=0, large=0, nmax=nmax, pmax=pmax, tmax=3)
            c = gen.config(rng, I.p)
            if rng.random() < 0.4:
                c["acc"], c["K"] = True, rng.choice([1, 2, 2, 3])
        elif accel is not False and rng.random() < mix:
            I, c, forced = late(rng, df or rng.choice(["quad", "quad", "quad", "logit"])) if rng.random() < 0.4 else extrapolating(rng, pens, df)
        elif rng.random() < wide:
            I, c, forced = large(rng, pens, df)
        else:
            r = rng.random()
            tall = {"n": rng.randint(30, 80), "p": rng.randint(1, 4)} if r < 0.04 else {"tmax": 8, "n": rng.randint(2, 4), "p": rng.randint(1, 4)} if r < 0.08 else {}
            I = gen.instance(rng, **tall, nmax=nmax, pmax=pmax, pens=pens, df=df, gamma_lo=gamma_lo, unit=0, large=0)
            c = gen.config(rng, I.p)
            c["acc"] = accel if accel is not None else c["acc"]
            if c["acc"] and I.p <= 3:
                c["K"] = rng.choice([1, 2, c["K"]])
        if insts is None:
            I.units(rng, 10 if f32 else 150)
        style = rng.random()
        if style < 0.3:
            E, Tm = 1, rng.randint(3, 8)
        elif style < 0.6:
            E, Tm = rng.randint(2, 4), rng.randint(2, 5)
        elif style < 0.9:
            E, Tm = rng.randint(6, emax), rng.randint(1, 3)
        else:
            E, Tm = rng.randint(22, 36), rng.randint(1, 2)
        if insts is not None:
            E, Tm = max(c["ep"], 1), max(c["it"], 1)
        elif forced:
            E, Tm = forced, 1 if I.p > 20 else rng.choice([1, 2]) if forced > 3 else rng.randint(1, 5)
        elif c["acc"]:
            E = max(E, min(c["K"] + 1 + rng.randint(0, 3), emax + 6))
        c["ep"], c["it"] = E, Tm
        fmt = rng.choice(gen.FMTS + ["csc"] * 3)
        api = "solver" if not I.est_ok() or rng.random() < 0.5 else "est"
        if own:
            fmt, api = gen.own_fmt(I, rng), gen.own_api(I, rng)
        seed = rng.random()
        import random
        bs = lineage(I, c, E, Tm)
        for (t, e) in bs:
            ops.append(I.op("%d/%d/%d" % (k, t, e), dict(c, it=t, ep=e), fmt, api, random.Random(seed), f32=f32))
        items.append((k, I, c, bs, fmt, api))
    return items, ops


def jobs(ck, items, res, rel, prefix=""):
    out = []
    for (k, I, c, bs, fmt, api) in items:
        obs, bad = [], None
        for (t, e) in bs:
            r = res["%d/%d/%d" % (k, t, e)]
            w = I.wmat(r)
            if w is None:
                bad = (t, e, {a: b for a, b in r.items() if a != "w"})
                break
            obs.append({"t": t, "e": e, "w": w})
        meta = {"problem": I.describe(), "cfg": c, "fmt": fmt, "api": api, "observed": bs}
        if bad:
            ck.violation("run %d returned no coefficients at budget %s: %s" % (k, bad[:2], bad[2]), {"job": meta, "result": bad[2]})
            continue
        P = I.rec()
        zw = [["#0"] * I.T for _ in range(I.p)]
        zf = [["#0"] * I.n for _ in range(I.T)]
        out.append({"id": prefix + str(k), "meta": meta, "vars": {
            "P": P, "c": gen.cfg_rec(c), "rel": fx(rel), "obs": obs, "l": 0, "s": {"w": zw, "f": zf}, "s0": {"w": zw, "f": zf},
            "ot": 0, "eo": 0, "ord": [], "rows": [], "k0": 0, "mode": "run",
            "cnt": {"passes": 0, "outers": 0, "taken": 0, "tried": 0, "stops": 0, "doubt": 0, "inferred": 0, "why": []}}})
    return out
