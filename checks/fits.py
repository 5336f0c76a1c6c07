"""Checks over finished fits (specification: spec/results.qnt)."""
import random
import gen
from gen import INF
from vlib import fx, unbits, bits, f32

MEANT = {"panic": "panicked", "hang": "did not terminate", "crash": "crashed", "err": "returned an error",
         "skipped": "was not run"}


def failed(r):
    for k, m in MEANT.items():
        if k in r:
            return "%s: %s" % (m, r[k])
    return None


class Book:
    """Collects operations, then turns their results into events for results.qnt."""

    def __init__(self, ck):
        self.ck, self.ops, self.later, self.n = ck, [], [], 0
        self.kinds = {}
        self.extra = {}   # further variables of the machine that judges

    def add(self, op):
        op = dict(op)
        op["id"] = "o%d" % self.n
        self.n += 1
        self.ops.append(op)
        return op["id"]

    def fit(self, I, c, fmt="c", api="solver", rng=None, f32=False, ymat=None):
        return self.add(I.op("", c, fmt, api, rng, f32, ymat))

    def then(self, name, ids, make, meta, may_err=False):
        """make(results) -> list of events; a failed call becomes a Fail event."""
        self.later.append((name, ids, make, meta, may_err))

    def events(self, res):
        jobs = []
        for i, (name, ids, make, meta, may_err) in enumerate(self.later):
            rs = [res[k] for k in ids]
            bad = [failed(r) for r in rs if failed(r) and not (may_err and "err" in r)]
            if bad:
                evs = [["Fail", {"what": bad[0][:200]}]]
            else:
                evs = make(rs)
            for e in evs:
                self.kinds[e[0]] = self.kinds.get(e[0], 0) + 1
            jobs.append({"id": "%s#%d" % (name, i), "meta": meta,
                         "vars": dict({"evs": [{"#v": e} for e in evs], "l": 0}, **self.extra)})
        return jobs


def W(r, I):
    return I.wmat(r) or []


def ev_cert(I, r, tol, eps):
    return ["Cert", {"P": I.rec(), "w": W(r, I), "tol": fx(tol), "eps": fx(eps)}]


def api_for(I, rng):
    if not I.est_ok():
        return "solver"
    return rng.choice(["solver", "est", "est"])


def single(c, p, rng):
    """One outer iteration suffices when every feature is in its working set."""
    if c["ws"] >= p and rng.random() < 0.4:
        c["ep"], c["it"] = c["ep"] * c["it"], 1
    return c


def big(rng, p, tol=None, ws=None):
    return single(gen.cfg(ws=ws or rng.choice([1, 1, 2, 3, max(1, p // 2), p, p + 5, 10]), it=3000, ep=4000,
                   tol=tol or rng.choice([1e-4, 1e-6, 1e-6, 1e-8]),
                   K=rng.choice([1, 2, 3, 4, 5, 5, 6, 8, p + 2]), acc=rng.random() < 0.65), p, rng)


def meta(I, c, fmt, api, **kw):
    d = {"problem": I.describe(), "cfg": c, "fmt": fmt, "api": api}
    d.update(kw)
    return d


def pick(rng, family, nmax=24, pmax=30, kinds=None):
    kw = dict(nmax=nmax, pmax=pmax, kind=rng.choice(kinds) if kinds else None)
    r, tall = rng.random(), 5
    if r < 0.25:
        kw["n"], kw["p"] = rng.randint(1, 6), rng.randint(1, 6)
    elif r < 0.29:
        # a larger problem, either way
        kw["n"], kw["p"] = rng.choice([(rng.randint(60, 150), rng.randint(10, 60)), (rng.randint(20, 60), rng.randint(60, 120))])
        kw["kind"] = rng.choice(["gauss", "sparse", "zero", "const"])
        kw["frac"] = rng.choice([0.1, 0.3, 0.6])
        tall = 9
    if family == "C01":
        I = gen.instance(rng, df="quad", multi=False, pens=("l1", "en"), **kw)
    elif family == "C02":
        I = gen.instance(rng, df="quad", multi=True, pens=("l1", "en"), tmax=tall, **kw)
    elif family == "C03":
        if rng.random() < 0.25:
            I = gen.instance(rng, df="quad", multi=False, pens=("l05",), **kw)
        else:
            df = rng.choice(["quad", "quad", "quad", "quad", "logit"])
            if df == "logit":
                # overlapping classes: otherwise the infimum is at infinity
                p = rng.randint(1, 4)
                I = gen.instance(rng, n=8 * p + rng.randint(8, 16), p=p, df=df, pens=("mcp",), kind=rng.choice(["gauss", "const", "zero"]),
                                 gamma_lo=rng.choice([0.25, 1.0, 1.0]))
                I.Y = [[-v if i % 3 == 0 else v for v in r] for i, r in enumerate(I.Y)]
            else:
                I = gen.instance(rng, df=df, pens=("mcp",), gamma_lo=rng.choice([0.25, 1.0, 1.0]), tmax=4, **kw)
    elif family == "C04":
        if r > 0.85:
            # rows far from the boundary on either side
            p = rng.randint(1, 4)
            kw.update(kind="outlier", p=p, n=4 * p + rng.randint(2, 10), frac=rng.choice([0.05, 0.2, 0.5]))
        I = gen.instance(rng, df="logit", pens=("l1", "en"), **kw)
    else:
        I = gen.instance(rng, tmax=4, **kw)
    am = I.alpha_max()
    # keep the conditioning within what a bounded number of passes can reach
    if am > 0 and I.a < 0.02 * am:
        I.a = gen.q(0.02 * am) or I.a
    return gen.reachable(I)


def certs(ck, rng, book, family, count, eps=1e-12, **kw):
    for k in range(count):
        I = pick(rng, family, **kw)
        if rng.random() < 0.05:
            I.a = 0.0 if I.n > I.p + 4 and I.kind in ("gauss", "const") and I.df == "quad" else I.a
        c = big(rng, I.p)
        if I.kind == "outlier":
            c["tol"] = rng.choice([1e-6, 1e-10, 1e-11])
        fmt, api = rng.choice(gen.FMTS), api_for(I, rng)
        i = book.fit(I, c, fmt, api, random.Random(rng.random()))
        others = None
        if I.pen in ("l1", "en"):
            others = [[[fx(0)] * I.T for _ in range(I.p)]]
            others.append([[fx(rng.gauss(0, 1)) for _ in range(I.T)] for _ in range(I.p)])
            sd = rng.random()

        def mk(rs, I=I, c=c, others=others, sd=rng.random()):
            evs = [ev_cert(I, rs[0], c["tol"], eps)]
            w = W(rs[0], I)
            if others is not None and w:
                rr = random.Random(sd)
                wf = I.wfloat(rs[0])
                near = [[fx(wf[j * I.T + t] + (rr.gauss(0, 1e-3) if rr.random() < 0.3 else 0.0))
                         for t in range(I.T)] for j in range(I.p)]
                evs.append(["Best", {"P": I.rec(), "w": w, "tol": fx(c["tol"]), "eps": fx(eps), "others": others + [near]}])
            return evs
        book.then("cert", [i], mk, meta(I, c, fmt, api))


def certs32(ck, rng, book, count, eps=2e-3):
    """Single-precision fits reach single-precision optimality."""
    for k in range(count):
        p = rng.randint(1, 8)
        I = gen.instance(rng, n=3 * p + rng.randint(2, 8), p=p, kind=rng.choice(["gauss", "const", "sparse", "zero"]), pens=("l1", "en", "mcp"), tmax=3,
                         df=rng.choice(["quad", "quad", "logit"]), frac=rng.choice([0.05, 0.2, 0.5]), unit=10)
        if I.df == "logit" and I.pen == "mcp":
            I.pen, I.g = "l1", 1.0
        c = gen.cfg(ws=rng.choice([1, 2, p, 10]), it=100, ep=300, tol=1e-3 * max(I.alpha_max(), 1e-3), K=rng.choice([1, 3, 5]), acc=rng.random() < 0.6)
        fmt, api = rng.choice(gen.FMTS), api_for(I, rng)
        i = book.fit(I, c, fmt, api, random.Random(k), f32=True)
        book.then("cert32", [i], lambda rs, I=I, c=c: [ev_cert(I, rs[0], c["tol"], eps)], meta(I, c, fmt, api, f32=True))


def mono(ck, rng, book, count, pens=("l1", "en", "mcp", "l05"), eps=1e-12, df=None):
    for k in range(count):
        I = gen.instance(rng, nmax=12, pmax=14, pens=pens, df=df, gamma_lo=rng.choice([0.25, 1.0]), tmax=3,
                         kind=rng.choice(gen.KINDS + ["corr", "corr", "gauss"]))
        c = gen.config(rng, I.p)
        c["tol"] = rng.choice([1e-12, 1e-6])
        c["acc"] = rng.random() < 0.75
        if rng.random() < 0.1:
            # many passes without convergence
            n, p = rng.randint(4, 10), rng.randint(3, 7)
            f = [rng.gauss(0, 1) for _ in range(n)]
            s = rng.choice([0.05, 0.1, 0.2, 0.4])
            I.pen, I.g = rng.choice([(I.pen, I.g), ("l1", 1.0), ("mcp", 3.0)])
            I = I.copy(X=[[gen.q(f[i] + s * rng.gauss(0, 1)) for _ in range(p)] for i in range(n)], Y=[[gen.q(rng.gauss(0, 1)) for _ in range(I.T)] for _ in range(n)])
            if I.df == "logit":
                I.Y = [[1.0 if r[0] > 0 else -1.0] for r in I.Y]
            I.a = gen.q(I.alpha_max() * rng.choice([0.001, 0.01, 0.05])) or 0.125
            I.units(rng, 150, 0.8)
            # (also where coefficients are far below the tolerance)
            if I.ux < 0:
                I.ux = -I.ux
                I.uy = I.ux if I.pen == "en" and I.df == "quad" else I.uy
            c["acc"], c["tol"], c["ws"] = rng.random() < 0.3, 1e-13, rng.choice([2, p, p, p + 3])
            k = rng.choice([50, 64, 100, 100])
            bs = [(1, e) for e in sorted({0, 1, 2, 9, 10, 11, 19, 20, 21, 32, 33} | {m * k + d for m in (1, 2, 3) for d in (-1, 0, 1, 2)})]
            if rng.random() < 0.3:
                bs = [(e, 1) for _, e in bs]
        elif rng.random() < 0.55:
            E = rng.choice([8, 14, 25])
            bs = [(1, e) for e in range(0, E + 1)]
        else:
            e = rng.choice([1, 1, 2, 3, 5, c["K"] + 1, 12])
            bs = [(t, e) for t in range(0, rng.choice([6, 10, 16]))]
        fmt, api = rng.choice(gen.FMTS), api_for(I, rng)
        sd = rng.random()
        ids = [book.fit(I, dict(c, it=t, ep=e), fmt, api, random.Random(sd)) for t, e in bs]
        book.then("mono", ids, lambda rs, I=I: [["Mono", {"P": I.rec(), "ws": [W(r, I) for r in rs], "eps": fx(eps)}]],
                  meta(I, c, fmt, api, budgets=bs))


def own(ck, rng, book, count, eps=1e-12):
    """C25: losses, penalties, designs and targets of the user's."""
    for k in range(count):
        r = rng.random()
        if r < 0.55:
            # enough budget: optimal
            p = rng.randint(1, 10)
            I = gen.own_instance(rng, n=rng.choice([2 * p + rng.randint(1, 8), rng.randint(1, 8)]), p=p, tmax=4, pens=["nn", "ridge", "el1", "tgt", "tgt", "l1", "en", "mcp"])
            I.a = max(I.a, gen.q(0.02 * I.alpha_max()))
            gen.reachable(I)
            if I.pen == "mcp" and (I.df == "logit" or I.n <= I.p):
                I.pen, I.g = "el1", 1.0
            if I.pen == "tgt" and 0.0 in I.lips():
                # features that are never updated stay at zero, away from the anchor
                I.pen, I.g = "el1", 1.0
            c = big(rng, I.p)
            fmt, api = gen.own_fmt(I, rng), gen.own_api(I, rng)
            i = book.fit(I, c, fmt, api, random.Random(rng.random()))

            def mk(rs, I=I, c=c, sd=rng.random()):
                evs = [ev_cert(I, rs[0], c["tol"], eps)]
                w = W(rs[0], I)
                if w and I.pen not in ("mcp",):
                    rr = random.Random(sd)
                    wf = I.wfloat(rs[0])
                    pos = (lambda v: max(v, 0.0)) if I.pen == "nn" else (lambda v: v)
                    others = [[["#0"] * I.T for _ in range(I.p)],
                              [[fx(pos(rr.gauss(0, 1))) for _ in range(I.T)] for _ in range(I.p)],
                              [[fx(pos(wf[j * I.T + t] + (rr.gauss(0, 1e-3) if rr.random() < 0.3 else 0.0))) for t in range(I.T)] for j in range(I.p)]]
                    evs.append(["Best", {"P": I.rec(), "w": w, "tol": fx(c["tol"]), "eps": fx(eps), "others": others}])
                return evs
            book.then("own-cert", [i], mk, meta(I, c, fmt, api))
            continue
        I = gen.own_instance(rng, nmax=10, pmax=10, tmax=3)
        c = gen.config(rng, I.p)
        c["acc"] = rng.random() < 0.75
        fmt, api = gen.own_fmt(I, rng), gen.own_api(I, rng)
        bs = [(1, e) for e in range(0, rng.choice([6, 12, 24]))] if r < 0.8 else [(t, rng.choice([1, 2, 3, c["K"] + 1])) for t in range(0, 8)]
        if r >= 0.8:
            bs = [(t, bs[0][1]) for t, _ in bs]
        sd = rng.random()
        ids = [book.fit(I, dict(c, it=t, ep=e), fmt, api, random.Random(sd)) for t, e in bs]
        book.then("own-mono", ids, lambda rs, I=I: [["Mono", {"P": I.rec(), "ws": [W(r, I) for r in rs], "eps": fx(eps)}]],
                  meta(I, c, fmt, api, budgets=bs))


def degenerate(rng):
    """Shapes and data at the edges of the domain."""
    what = rng.choice(["n1", "p1", "n1p1", "zeroX", "zeroY", "dup", "const", "wide", "T1", "zerocols", "tiny", "huge"])
    n, p = rng.randint(1, 6), rng.randint(1, 8)
    kind = "gauss"
    if what == "n1":
        n = 1
    elif what == "p1":
        p = 1
    elif what == "n1p1":
        n = p = 1
    elif what == "wide":
        n, p = rng.randint(1, 3), rng.randint(12, 28)
    elif what == "dup":
        kind = "dup"
    elif what == "zerocols":
        kind = "zero"
    elif what == "const":
        kind = "const"
    multi = True if what == "T1" else None
    I = gen.instance(rng, n=n, p=p, kind=kind, pens=("l1", "en", "mcp", "l05"), multi=multi, tmax=1 if what == "T1" else 3,
                     gamma_lo=rng.choice([0.25, 1.0]))
    if what == "zeroX":
        I = I.copy(X=[[0.0] * p for _ in range(n)])
    elif what == "zeroY" and I.df == "quad":
        I = I.copy(Y=[[0.0] * I.T for _ in range(n)])
    elif what in ("tiny", "huge"):
        s = 2.0 ** (-12 if what == "tiny" else 12)
        I = I.copy(X=[[v * s for v in r] for r in I.X])
        I.a = I.alpha_max() * 0.3 or 0.5
    I.kind = "dup" if kind == "dup" else what
    return I


def extremes(ck, rng, book, count):
    """C08, C11: near the ends of the range of doubles, squares overflow or vanish; no setting may
    turn that into coefficients that are not numbers."""
    for k in range(count):
        p = rng.randint(1, 5)
        I = gen.instance(rng, n=p + rng.randint(0, 4), p=p, df="quad", pens=("l1", "en"), tmax=3, unit=0, kind=rng.choice(["gauss", "corr", "const", "dup", "zero"]))
        if I.pen == "en":
            I.g = 1.0
        if rng.random() < 0.4:
            I.a = 0.0
        I.uy = rng.choice([1, -1]) * rng.randint(420, 545)
        I.ux = rng.choice([0, 0, rng.randint(-20, 20)])
        fmt, api = rng.choice(gen.FMTS), api_for(I, rng)
        vs = [gen.cfg(ws=rng.choice([1, 2, p, 10]), it=rng.randint(1, 3), ep=rng.choice([5, 20, 60]), tol=rng.choice([0.0, 1e-6]), K=kk, acc=True)
              for kk in rng.sample([1, 2, 3, 4, 5, 6], 3)]
        sd = rng.random()
        ids = [book.fit(I, v, fmt, api, random.Random(sd)) for v in vs]
        book.then("extreme", ids, lambda rs, I=I: [["Sane", {"P": I.rec(), "w": W(r, I)}] for r in rs], meta(I, vs, fmt, api))


def budgets(ck, rng, book, count):
    """C11: zero budgets, degenerate data, more budget after convergence."""
    for k in range(count):
        I = gen.reachable(degenerate(rng))
        c = gen.config(rng, I.p)
        c["tol"] = rng.choice([1e-6, 1e-8, 1e-4])
        fmt, api = rng.choice(gen.FMTS), api_for(I, rng)
        sd = rng.random()
        R = lambda: random.Random(sd)
        verb = rng.random() < 0.3
        c["verb"] = verb
        m = meta(I, c, fmt, api, edge=I.kind)
        z1 = book.fit(I, dict(c, it=0), fmt, api, R())
        z2 = book.fit(I, dict(c, ep=0, it=rng.choice([1, 3, 50])), fmt, api, R())
        z3 = book.fit(I, dict(c, ep=0, it=0), fmt, api, R())
        book.then("zero-budget", [z1, z2, z3], lambda rs, I=I: [["Null", {"P": I.rec(), "w": W(r, I)}] for r in rs], m)
        few = [book.fit(I, dict(c, it=rng.randint(1, 4), ep=rng.randint(1, 13)), fmt, api, R()) for _ in range(3)]
        book.then("few", few, lambda rs, I=I: [["Sane", {"P": I.rec(), "w": W(r, I)}] for r in rs], m)
        if I.df == "logit" and I.pen in ("mcp", "l05"):
            # the infimum may be at infinity: no convergence to wait for
            a = book.fit(I, dict(c, it=20, ep=50, verb=False), fmt, api, R())
            book.then("unbounded", [a], lambda rs, I=I: [["Sane", {"P": I.rec(), "w": W(rs[0], I)}]], m)
            continue
        a = book.fit(I, dict(c, it=2000, ep=2000, verb=False), fmt, api, R())
        b = book.fit(I, dict(c, it=2001, ep=2000, verb=False), fmt, api, R())
        d = book.fit(I, dict(c, it=9000, ep=2000, verb=False), fmt, api, R())

        def mk(rs, I=I, c=c):
            evs = [["Sane", {"P": I.rec(), "w": W(rs[0], I)}]]
            evs.append(ev_cert(I, rs[0], c["tol"], 1e-12))
            for r in rs[1:]:
                evs.append(["Same", {"a": ["#%d" % v for v in rs[0]["w"]], "b": ["#%d" % v for v in r["w"]]}])
            return evs
        book.then("after-convergence", [a, b, d], mk, m)


def settings(ck, rng, book, count):
    """C08: settings that must not change the answer."""
    for k in range(count):
        # a unique, well-conditioned optimum
        p = rng.randint(1, 10) if rng.random() < 0.94 else rng.randint(25, 40)
        n = 3 * p + rng.randint(2, 10)
        I = gen.instance(rng, n=n, p=p, kind=rng.choice(["gauss", "gauss", "const", "sparse", "corr"]), pens=("l1", "en"), tmax=3,
                         frac=rng.choice([0.02, 0.1, 0.3, 0.6]))
        base = gen.cfg(ws=10, it=4000, ep=4000, tol=1e-10, K=5, acc=True)
        fmt, api = rng.choice(gen.FMTS), api_for(I, rng)
        sd = rng.random()
        R = lambda: random.Random(sd)
        var = [base, dict(base, acc=False)]
        for _ in range(5):
            var.append(single(dict(base, ws=rng.choice([1, 2, 3, p, p + 1, p + 7]), K=rng.choice([1, 2, 3, 4, 5, p, p + 1, p + 3, 12]),
                            acc=rng.random() < 0.7), p, rng))
        ids = [book.fit(I, v, fmt, api, R()) for v in var]

        def mk(rs, I=I):
            w0 = W(rs[0], I)
            sc = max([abs(v) for v in I.wfloat(rs[0])] + [1e-3])
            evs = [["Sane", {"P": I.rec(), "w": W(r, I)}] for r in rs]
            evs += [["Close", {"a": w0, "b": W(r, I), "abs": fx(2e-6 * sc), "rel": fx(0)}] for r in rs[1:]]
            return evs
        book.then("settings", ids, mk, meta(I, var, fmt, api))
        # verbosity never changes a bit, at any budget
        c = gen.config(rng, I.p)
        pr = [book.fit(I, dict(c, verb=v), fmt, api, R()) for v in (False, True)]
        book.then("verbosity", pr, lambda rs: [["Same", {"a": ["#%d" % v for v in rs[0]["w"]], "b": ["#%d" % v for v in rs[1]["w"]]}]],
                  meta(I, c, fmt, api))
        # no setting makes a degenerate problem fail
        J = degenerate(rng)
        vs = [gen.cfg(ws=rng.choice([1, 2, J.p, J.p + 9]), it=rng.randint(1, 6), ep=rng.randint(1, 40), tol=rng.choice([1e-4, 1e-10]),
                      K=kk, acc=True, verb=rng.random() < 0.3) for kk in (1, 2, 3, 5, J.p, J.p + 1, J.p + 6)]
        api2 = api_for(J, rng)
        ids = [book.fit(J, v, fmt, api2, R()) for v in vs]
        book.then("robust", ids, lambda rs, J=J: [["Sane", {"P": J.rec(), "w": W(r, J)}] for r in rs], meta(J, vs, fmt, api2))


def thresholds(ck, rng, book, count):
    """C12: null at and above the helper's value, not null below."""
    for k in range(count):
        df = rng.choice(["quad", "quad", "quad", "quad", "logit"])
        I = gen.instance(rng, nmax=14, pmax=12, df=df, pens=("l1", "en", "mcp"), tmax=4)
        if I.pen == "en" and I.g == 0:
            I.g = 0.5
        am = I.alpha_max()
        if am == 0:
            continue
        ratio = I.g if I.pen == "en" else 1.0
        fmt, api = rng.choice(gen.FMTS), api_for(I, rng)
        tol = rng.choice([1e-6, 1e-8, 1e-10])
        c = gen.cfg(ws=rng.choice([1, 3, 10]), it=rng.choice([1, 3, 50]), ep=rng.choice([1, 5, 200]), tol=tol, K=rng.choice([1, 2, 5]),
                    acc=rng.random() < 0.5)
        fr = [1.0 + 1e-9, 1.0 + rng.random(), 50.0, 1.0 - 1e-3, rng.uniform(0.3, 0.99), rng.uniform(0.001, 0.3)]
        ids, Js = [], []
        for f in fr:
            J = I.copy(a=am / ratio * f)
            Js.append(J)
            ids.append(book.fit(J, dict(c, tol=min(tol, am * 1e-5)), fmt, api, random.Random(k)))

        def mk(rs, Js=Js, c=c, fr=fr, tol=tol, am=am):
            evs = []
            for J, r, f in zip(Js, rs, fr):
                if f >= 1:
                    evs.append(["Null", {"P": J.rec(), "w": W(r, J)}])
                elif J.pen in ("l1", "en") or J.g >= 1:
                    # one pass is enough to leave the null vector
                    evs.append(["Threshold", {"P": J.rec(), "w": W(r, J), "tol": fx(min(tol, am * 1e-5)), "eps": fx(1e-11)}])
            return evs
        book.then("threshold", ids, mk, meta(I, c, fmt, api, alpha_max=am, factors=fr))
