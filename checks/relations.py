"""Pairs of fits of related problems (specification: spec/relate.qnt)."""
import math
import random
import gen
from gen import INF
from fits import Book, W, api_for, meta
from vlib import fx, unbits

GENERIC = ["gauss", "corr", "const", "scaled", "sparse", "zero"]


def tr(label, v=None):
    return {"#v": [label, {"#tup": []} if v is None else v]}


def small_budget(rng, p):
    """Budgets without extrapolation: iterates agree to rounding."""
    c = gen.config(rng, p)
    c["tol"] = rng.choice([1e-3, 1e-6, 1e-8])
    c["it"], c["ep"] = rng.choice([(1, 1), (1, 2), (2, 1), (3, 1), (1, rng.randint(3, 11)), (2, 3), (3, 5), (5, 2)])
    if c["acc"]:
        c["K"] = c["ep"] + rng.randint(0, 2)   # the extrapolation is never due
    return c


def precise(rng, p):
    return gen.cfg(ws=rng.choice([1, 2, 3, p, p + 4]), it=4000, ep=4000, tol=1e-10, K=rng.choice([1, 2, 3, 5, p + 1]), acc=rng.random() < 0.6)


def unique(rng, pens=("l1", "en"), df=None, multi=None, tmax=3, unit=150):
    p = rng.randint(1, 8) if rng.random() < 0.96 else rng.randint(25, 36)
    return gen.instance(rng, n=3 * p + rng.randint(2, 8), p=p, kind=rng.choice(["gauss", "gauss", "const", "sparse"]), pens=pens, df=df,
                        multi=multi, tmax=tmax, frac=rng.choice([0.02, 0.1, 0.3, 0.6]), unit=unit)


def generic(rng, pens=("l1", "en", "mcp", "l05"), df=None, multi=None, tmax=3, nmax=9, pmax=9, unit=150):
    return gen.instance(rng, nmax=nmax, pmax=pmax, pens=pens, df=df, multi=multi, tmax=tmax, kind=rng.choice(GENERIC),
                        gamma_lo=rng.choice([0.25, 1.0, 1.0]), unit=unit)


def violators(I):
    """Number of features that violate optimality at the null vector."""
    m = 0
    for j in range(I.p):
        g = math.sqrt(sum((sum(r[j] * y[t] for r, y in zip(I.X, I.Y)) / I.n) ** 2 for t in range(I.T))) * (0.5 if I.df == "logit" else 1.0)
        if I.pen == "l05":
            L = sum(r[j] ** 2 for r in I.X) / I.n * (0.25 if I.df == "logit" else 1.0)
            m += L > 0 and g / L > 1.5 * (I.a / L) ** (2 / 3) + 1e-9
        else:
            m += g > I.a * (I.g if I.pen == "en" else 1.0) + 1e-9
    return m


def pair(I, J, t, r1, r2, rel=1e-9, abs_=0.0, ulabel="Pair"):
    if ulabel == "Columns":
        return ["Columns", {"P": I.rec(), "tr": t, "Q": J.rec(), "u": W(r2, J), "abs": fx(abs_), "rel": fx(rel)}]
    return ["Pair", {"P": I.rec(), "tr": t, "Q": J.rec(), "w": W(r1, I), "u": W(r2, J), "abs": fx(abs_), "rel": fx(rel)}]


def storage(ck, rng, book, count):
    """C10: every storage format gives the same coefficients; inputs stay intact."""
    for k in range(count):
        conv = rng.random() < 0.3
        I = unique(rng) if conv else generic(rng)
        c = precise(rng, I.p) if conv else small_budget(rng, I.p)
        api = api_for(I, rng)
        fm = ["c", "f"] + rng.sample(gen.DENSE[2:], 3) + ["csc", "csc"]
        ids = [book.fit(I, c, f, api, random.Random(rng.random())) for f in fm]
        # a vector of targets given to the multi-task solver
        if I.block and I.T == 1:
            ids.append(book.fit(I, c, "c", api, None, ymat=False))
        rel = 2e-6 if conv else 1e-9

        def mk(rs, I=I, rel=rel):
            evs = [["Intact", {"same": bool(r.get("same"))}] for r in rs]
            evs += [pair(I, I, tr("Same"), rs[0], r, rel, 1e-12) for r in rs[1:]]
            return evs
        book.then("storage", ids, mk, meta(I, c, fm, api, converged=conv))


def reductions(ck, rng, book, count):
    """C19: definitions that coincide."""
    for k in range(count):
        what = rng.choice(["AsBlock", "AsBlock", "RatioOne", "GammaInfinite", "Copies"])
        conv = rng.random() < 0.3
        pens = ("l1", "en", "mcp") if what in ("AsBlock", "Copies") and not conv else ("l1", "en") if what in ("AsBlock", "Copies") else ("l1",)
        kw = dict(pens=pens)
        if what in ("AsBlock", "Copies"):
            kw.update(df="quad", multi=False)
        I = unique(rng, **kw) if conv else generic(rng, **kw)
        c = precise(rng, I.p) if conv else small_budget(rng, I.p)
        if what == "AsBlock":
            J, t = I.copy(block=True), tr("AsBlock")
        elif what == "RatioOne":
            J, t = I.copy(pen="en", g=1.0), tr("RatioOne")
        elif what == "GammaInfinite":
            J, t = I.copy(pen="mcp", g=INF), tr("GammaInfinite")
        else:
            kk = rng.randint(2, 4)
            J, t = I.copy(Y=[r * kk for r in I.Y], block=True), tr("Copies", kk)
        fmt = rng.choice(gen.FMTS)
        ids = [book.fit(I, c, fmt, api_for(I, rng), random.Random(k)),
               book.fit(J, c, rng.choice(gen.FMTS) if conv else fmt, api_for(J, rng), random.Random(k), ymat=rng.random() < 0.5 if J.T == 1 and J.block else None)]
        rel = 2e-6 if conv else 1e-9
        book.then(what, ids, lambda rs, I=I, J=J, t=t, rel=rel, what=what:
                  [pair(I, J, t, rs[0], rs[1], rel, 1e-12, "Columns" if what == "Copies" else "Pair")],
                  meta(I, c, fmt, "", what=what, converged=conv))


def symmetries(ck, rng, book, count):
    """C20: fits follow the symmetries of the problem."""
    for k in range(count):
        what = rng.choice(["PermSamples", "PermFeatures", "PermTasks", "FlipTargets", "FlipColumn", "Repeat", "Scale", "AppendZeros", "Units"])
        conv = what == "PermFeatures" or rng.random() < 0.3
        pens = ("l1", "en") if conv else ("l1", "en", "mcp", "l05")
        kw = {}
        if what == "PermTasks":
            kw.update(df="quad", multi=True)
            pens = tuple(x for x in pens if x != "l05")
        if what == "Scale":
            pens = ("l1",) if conv else ("l1", "mcp")
            kw.update(df="quad")
        I = unique(rng, pens=pens, **kw) if conv else generic(rng, pens=pens, **kw)
        c = precise(rng, I.p) if conv else small_budget(rng, I.p)
        c2 = dict(c)
        sh = lambda m: rng.sample(range(m), m)
        if what == "PermSamples":
            s = sh(I.n)
            J, t = I.copy(X=[I.X[i] for i in s], Y=[I.Y[i] for i in s]), tr(what, s)
        elif what == "PermFeatures":
            s = sh(I.p)
            J, t = I.copy(X=[[r[j] for j in s] for r in I.X]), tr(what, s)
        elif what == "PermTasks":
            s = sh(I.T)
            J, t = I.copy(Y=[[r[j] for j in s] for r in I.Y]), tr(what, s)
        elif what == "FlipTargets":
            J, t = I.copy(Y=[[-v for v in r] for r in I.Y]), tr(what)
        elif what == "FlipColumn":
            j = rng.randrange(I.p)
            J, t = I.copy(X=[[-v if i == j else v for i, v in enumerate(r)] for r in I.X]), tr(what, j)
        elif what == "Units":
            # the same problem measured in other units: the specification sees one problem
            J = I.copy().units(rng, 150, 1.0)
            I.ux = I.uy = 0
            t = tr("Same")
        elif what == "Repeat":
            m = rng.choice([2, 4])
            J, t = I.copy(X=I.X * m, Y=I.Y * m), tr(what, m)
        elif what == "Scale":
            s = 2.0 ** rng.choice([-5, -2, 1, 3, 6])
            J, t = I.copy(Y=[[v * s for v in r] for r in I.Y], a=I.a * s), tr(what, fx(s))
            c2["tol"] = c["tol"] * s
        else:
            z = rng.randint(1, 4)
            if not conv:
                c["it"] = c2["it"] = 1
                c["ep"] = c2["ep"] = min(c["ep"], 8)
                # equal violations may be ordered anyhow, also differently with more columns:
                # the working set holds violating features only
                m = violators(I)
                c["ws"] = c2["ws"] = (rng.choice([rng.randint(1, I.p), I.p + z + rng.randint(0, 3)]) if m == I.p
                                      else rng.randint(1, max(1, m)))
            at = rng.random() < 0.5
            J, t = I.copy(X=[r + [0.0] * z for r in I.X]), tr(what, z)
        fmt = rng.choice(gen.FMTS)
        api = api_for(I, rng) if J.est_ok() else "solver"
        fmt2 = fmt if not conv else rng.choice(gen.FMTS)
        ids = [book.fit(I, c, fmt, api, random.Random(k)), book.fit(J, c2, fmt2, api, random.Random(k))]
        rel = 2e-6 if conv else 1e-9
        # a power of two changes no rounding at all
        exact = what == "Scale" and not conv and I.pen in ("l1", "mcp")
        book.then(what, ids, lambda rs, I=I, J=J, t=t, rel=rel, s=(s if what == "Scale" else 1.0):
                  [pair(I, J, t, rs[0], rs[1], rel, 1e-12 * s)],
                  meta(I, c, fmt, api, what=what, converged=conv))


def precision(ck, rng, book, count):
    """C22: single precision follows double precision."""
    for k in range(count):
        conv = rng.random() < 0.5
        I = unique(rng, unit=10) if conv else generic(rng, pens=("l1", "en", "mcp"), unit=10)
        if I.pen == "en":
            I.g = rng.choice([0.25, 0.5, 0.75, 1.0, 0.0])
        c = precise(rng, I.p) if conv else small_budget(rng, I.p)
        if conv:
            c["tol"] = 1e-5 * max(I.alpha_max(), 1e-3)
            c["it"], c["ep"] = 200, 500
        elif c["it"] > 1:
            c["ep"] = min(c["ep"], 3)
        fmt, api = rng.choice(gen.FMTS), api_for(I, rng)
        sd = rng.random()
        ids = [book.fit(I, dict(c, tol=1e-9 if conv else c["tol"]), fmt, api, random.Random(sd)), book.fit(I, c, fmt, api, random.Random(sd), f32=True)]
        book.then("precision", ids, lambda rs, I=I, conv=conv:
                  [["Intact", {"same": bool(rs[1].get("same"))}],
                   pair(I, I, tr("Same"), rs[0], rs[1], 5e-3 if conv else 1e-3, 1e-4)], meta(I, c, fmt, api, f32=True, converged=conv))
