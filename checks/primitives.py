"""Calls of the building blocks (specification: spec/prims.qnt)."""
import math, random
import gen
from gen import INF, BLOCK, Inst, up
from vlib import bits, unbits, fx, f32

E64, E32 = 1e-13, 2e-6


def F(b, I=None, q=None):
    return fx(I.spec(unbits(b), q) if I else unbits(b))


def prec(f):
    return E32 if f else E64


def pen_rec(name, a, g, t=1):
    return {"n": 1, "p": 1, "t": t, "x": [[fx(1.0)]], "y": [[fx(0.0)]] * t, "df": "quad", "pen": name, "a": fx(a), "g": fx(g)}


SEPS = ["l1", "en", "mcp", "l05"]


def tasks(rng):
    return rng.randint(1, 4) if rng.random() < 0.85 else rng.randint(5, 12)


def hyper(rng, name):
    a = rng.choice([0.0, 1.0, 0.5, 2.0**-10, 8.0, gen.q(abs(rng.gauss(0, 1)))])
    if name == "en":
        return a, rng.choice([0.0, 1.0, 0.5, 0.25, 0.75, gen.q(rng.random()), gen.q(rng.random()), rng.choice([2.0**-7, 2.0**-10, 2.0**-20, 1 - 2.0**-10])])
    if name == "mcp":
        if a == 0.0:
            return a, rng.choice([1.0, 3.0, 2.0**10])   # (alpha, gamma) = (0, inf) is 0 * inf
        return a, rng.choice([1.0, 1.5, 3.0, 2.0, 8.0, INF, 1.0 + 2.0**-8, rng.choice([1.25, 100.0, 2.0**10, 2.0**20])])
    return a, 1.0


def threshold(name, a, g, step):
    if name == "l1" or (name == "mcp" and g == INF):
        return step * a
    if name == "en":
        return step * a * g
    if name == "mcp":
        return step * a if step < g else a * math.sqrt(g * step)
    return 1.5 * (step * a) ** (2 / 3)


def value_for(rng, name, a, g, step, T):
    """Rows around the interesting radii."""
    th = threshold(name, a, g, step)
    r = rng.choice([0.0, th, th * (1 - 1e-3), th * (1 + 1e-3), th * rng.random(), th * (1 + 3 * rng.random()),
                    (a * g if name == "mcp" and g < 1e9 else 1.0) * rng.choice([1.0, 0.999, 1.001, 0.5, 2.0]),
                    abs(rng.gauss(0, 3)), 1e3, 1e-4])
    if T == 1:
        return [gen.q(r * rng.choice([1, -1]))]
    d = [rng.choice([0.0, rng.gauss(0, 1), rng.gauss(0, 1)]) for _ in range(T)]
    nd = math.sqrt(sum(x * x for x in d))
    if nd == 0:
        d, nd = [1.0] + [0.0] * (T - 1), 1.0
    return [gen.q(x * r / nd) for x in d]


def prox_units(rng, name, g, top):
    """Exponents of a value and a step, and those of alpha and gamma that follow."""
    if rng.random() < 0.7:
        return 0, 0, 0, 0
    b, c = (rng.choice([0, 1, -1]) * rng.choice([top, rng.randint(1, top)]) for _ in range(2))
    if name == "en" and g != 1.0:
        b = 0
    if name == "l05":
        b -= b % 2
        return b, c, b + b // 2 - c, 0
    return b, c, b - c, c if name == "mcp" else 0


def prox(ck, rng, book, count, single=False):
    for k in range(count):
        name = rng.choice(SEPS)
        a, g = hyper(rng, name)
        f = single and rng.random() < 0.9
        block = name != "l05" and rng.random() < 0.5
        T = tasks(rng) if block else 1
        step = rng.choice([1.0, 0.5, 2.0, 0.125, 7.0, 16.0, rng.choice([128.0, 1024.0]), gen.q(abs(rng.gauss(0, 2)) + 2.0**-6)] + ([g, g * 2, gen.q(g * 0.9)] if name == "mcp" and g < 1e9 else []))
        vs = [value_for(rng, name, a, g, step, T) for _ in range(6)]
        if f and name == "en":
            g = f32(g)
        e = prec(f)
        pn = BLOCK[name] if block else name
        P = pen_rec(name, a, g, T)
        ub, uc, ua, ug = prox_units(rng, name, g, 8 if f else 150)
        base = {"op": "pen", "what": "prox", "pen": [pn, bits(up(a, ua)), bits(up(g, ug))], "step": bits(up(step, uc)), "f32": f}
        ids = []
        if block:
            for v in vs:
                ids.append(book.add(dict(base, v=[bits(up(x, ub)) for x in v])))
        else:
            ids.append(book.add(dict(base, v=[bits(up(v[0], ub)) for v in vs])))
        cs = [[[fx(v[i] * s) for i in range(T)] for s in (0.0, 1.0, 0.5, 0.9, rng.random(), 1.1)] for v in vs]

        def mk(rs, vs=vs, P=P, step=step, e=e, block=block, cs=cs, ub=ub):
            evs = []
            for i, v in enumerate(vs):
                u = rs[i]["u"] if block else [rs[0]["u"][i]]
                evs.append(["Prox", {"P": P, "v": [fx(x) for x in v], "step": fx(step), "u": [fx(up(unbits(x), -ub)) for x in u], "eps": fx(e), "cands": cs[i]}])
            return evs
        book.then("prox", ids, mk, {"pen": pn, "a": a, "g": g, "step": step, "v": vs, "f32": f, "units": [ub, uc]})
        # the free-standing operators
        what = rng.choice(["soft", "bsoft", "prox05"])
        t = rng.choice([0.0, 0.0, 1.0, gen.q(abs(rng.gauss(0, 1))), 0.25])
        nm = "l05" if what == "prox05" else "l1"
        TT = tasks(rng) if what == "bsoft" else 1
        v = rng.choice([[0.0] * TT, value_for(rng, nm, 1.0, 1.0, t, TT), value_for(rng, nm, 1.0, 1.0, t, TT)])
        ub, _, ut, _ = prox_units(rng, nm, 1.0, 8 if f else 150)
        ut = ub + ub // 2 if nm == "l05" else ub
        op = {"op": "prim", "what": what, "t": bits(up(t, ut)), "f32": f, "x": [bits(up(x, ub)) for x in v] if what == "bsoft" else bits(up(v[0], ub))}
        i = book.add(op)
        Q = pen_rec(nm, 1.0, 1.0, TT)
        book.then(what, [i], lambda rs, Q=Q, v=v, t=t, e=e, ub=ub: [["Prox", {
            "P": Q, "v": [fx(x) for x in v], "step": fx(t), "u": [fx(up(unbits(x), -ub)) for x in (rs[0]["u"] if isinstance(rs[0]["u"], list) else [rs[0]["u"]])],
            "eps": fx(e), "cands": []}]], {"what": what, "v": v, "t": t, "f32": f, "unit": ub})


def rows(rng, p, T, a, g):
    out = []
    for _ in range(p):
        r = rng.choice([0.0, 0.0, a * g if g < 1e9 else 1.0, a * (g if g < 1e9 else 1.0) * rng.random(), abs(rng.gauss(0, 2)), 3 * a * (g if g < 1e9 else 1.0)])
        if T == 1:
            out.append([gen.q(r * rng.choice([1, -1]))])
        else:
            d = [rng.choice([0.0, rng.gauss(0, 1), rng.gauss(0, 1)]) for _ in range(T)]
            n = math.sqrt(sum(x * x for x in d)) or 1.0
            out.append([gen.q(x * r / n) for x in d])
    return out


def penalties(ck, rng, book, count, single=False):
    """C14: values and optimality distances."""
    for k in range(count):
        name = rng.choice(SEPS)
        a, g = hyper(rng, name)
        f = single
        if f:
            a, g = f32(a), f32(g)
        block = name != "l05" and rng.random() < 0.5
        T = tasks(rng) if block else 1
        p = rng.randint(1, 9) if rng.random() < 0.95 else rng.randint(33, 70)
        w = rows(rng, p, T, a, g)
        e = prec(f)
        pn = BLOCK[name] if block else name
        P = pen_rec(name, a, g, T)
        ws = rng.sample(range(p), rng.randint(1, p))
        gr = [[gen.q(rng.choice([0.0, a, -a, rng.gauss(0, 1), rng.gauss(0, 1) * a])) for _ in range(T)] for _ in ws]
        ua, ub = ((rng.choice([0, 1, -1]) * rng.choice([(8 if f else 150), rng.randint(1, 8 if f else 150)]) for _ in range(2))
                  if rng.random() < 0.3 else (0, 0))
        if name == "en" and g != 1.0:
            ub = 0
        if name == "l05":
            ub -= ub % 2
        ug = ub - ua if name == "mcp" else 0
        uv = ua + (ub // 2 if name == "l05" else ub)
        wb = [bits(up(x, ub)) for r in w for x in r]
        base = {"op": "pen", "pen": [pn, bits(up(a, ua)), bits(up(g, ug))], "w": wb, "p": p, "T": T, "f32": f}
        i1 = book.add(dict(base, what="value"))
        wf = [[fx(x) for x in r] for r in w]
        m = {"pen": pn, "a": a, "g": g, "w": w, "ws": ws, "grad": gr, "f32": f, "units": [ua, ub]}
        book.then("value", [i1], lambda rs, P=P, wf=wf, e=e, uv=uv: [["Value", {"P": P, "w": wf, "got": fx(up(unbits(rs[0]["val"]), -uv)), "eps": fx(e)}]], m)
        if name != "l05":
            i2 = book.add(dict(base, what="dist", ws=ws, grad=[bits(up(x, ua)) for r in gr for x in r]))
            gf = [[fx(x) for x in r] for r in gr]
            book.then("dist", [i2], lambda rs, P=P, wf=wf, gf=gf, ws=ws, e=e, ua=ua: [["Dist", {
                "P": P, "w": wf, "g": gf, "ws": ws, "d": [fx(up(unbits(x), -ua)) for x in rs[0]["dist"]], "top": fx(up(unbits(rs[0]["max"]), -ua)), "eps": fx(e)}]], m)


def coincide(ck, rng, book, count):
    """C19: penalties whose definitions coincide agree with each other."""
    for k in range(count):
        what = rng.choice(["one-task", "ratio-one", "gamma-inf"])
        a = rng.choice([1.0, 0.5, gen.q(abs(rng.gauss(0, 1)) + 0.01)])
        block = rng.random() < 0.5
        T = rng.randint(1, 3) if block else 1
        if what == "one-task":
            nm = rng.choice(["l1", "en", "mcp"])
            aa, g = hyper(rng, nm)
            A, B, T = [nm, bits(aa), bits(g)], [BLOCK[nm], bits(aa), bits(g)], 1
            a = aa
        elif what == "ratio-one":
            g = 1.0
            A, B = (["l21" if block else "l1", bits(a), bits(1.0)], ["ben" if block else "en", bits(a), bits(1.0)])
        else:
            g = INF
            A, B = (["l21" if block else "l1", bits(a), bits(1.0)], ["bmcp" if block else "mcp", bits(a), bits(INF)])
        p = rng.randint(1, 6)
        w = rows(rng, p, T, a, g)
        ws = rng.sample(range(p), rng.randint(1, p))
        gr = [[gen.q(rng.gauss(0, 1)) for _ in range(T)] for _ in ws]
        step = rng.choice([1.0, 0.5, 3.0])
        ids = []
        for pn in (A, B):
            b = {"op": "pen", "pen": pn, "w": [bits(x) for r in w for x in r], "p": p, "T": T, "ws": ws, "grad": [bits(x) for r in gr for x in r], "step": bits(step)}
            ids += [book.add(dict(b, what="value")), book.add(dict(b, what="dist")), book.add(dict(b, what="prox", v=[bits(x) for x in w[0]]))]
        book.then(what, ids, lambda rs: [
            ["Agree", {"a": [F(rs[0]["val"])], "b": [F(rs[3]["val"])], "eps": fx(1e-13)}],
            ["Agree", {"a": [F(x) for x in rs[1]["dist"]], "b": [F(x) for x in rs[4]["dist"]], "eps": fx(1e-12)}],
            ["Agree", {"a": [F(x) for x in rs[2]["u"]], "b": [F(x) for x in rs[5]["u"]], "eps": fx(1e-12)}]],
            {"what": what, "A": A, "B": B, "w": w, "ws": ws, "grad": gr, "step": step})


def fits_for(rng, I, big):
    out = []
    for _ in range(2):
        s = rng.choice([0.0, 1.0, 1.0, 30.0] + ([1000.0, 5000.0] if big else []))
        out.append([[gen.q(rng.gauss(0, 1) * s) for _ in range(I.T)] for _ in range(I.n)])
    # where exponentials overflow, in single or in double precision, and short of it
    m = rng.choice([15.0, 16.5, 18.0, 36.0, 40.0, 85.0, 88.5, 90.0, 95.0, 100.0, 104.0] + ([700.0, 709.5, 712.0, 740.0, 746.0, 800.0] if big else []))
    out.append([[gen.q(rng.choice([1, -1]) * (m + rng.uniform(-1, 1) * 4)) for _ in range(I.T)] for _ in range(I.n)])
    # a fit that almost reproduces the targets
    tiny = 2.0 ** (-30 if big else -11)
    out.append([[v + rng.randint(-9, 9) * tiny for v in r] for r in I.Y])
    # fits with structure: cancelling rows, equal or empty tasks, the targets themselves
    f = [[float(rng.randint(-2, 2)) for _ in range(I.T)] for _ in range(I.n)]
    what = rng.choice(["ints", "cancel", "cancel", "equal", "task", "row", "y", "-y", "one"])
    for i, r in enumerate(f):
        if what == "cancel":
            r[-1] = -sum(r[:-1])
        elif what == "equal":
            r[:] = [r[0]] * I.T
        elif what == "task":
            r[i % I.T if rng.random() < 0.2 else 0] = 0.0
        elif what == "row" and rng.random() < 0.5:
            r[:] = [0.0] * I.T
        elif what in ("y", "-y"):
            r[:] = [v if what == "y" else -v for v in I.Y[i]]
        elif what == "one":
            r[:] = [1.0 if i == 0 and t == 0 else 0.0 for t in range(I.T)]
    out.append(f)
    return out


def losses(ck, rng, book, count, single=False):
    """C15: values, gradients and curvature bounds, one loss object over several data sets."""
    for k in range(count):
        df = rng.choice(["quad", "logit", "mt"])
        ds, Is = [], []
        for _ in range(rng.choice([1, 2, 3])):
            I = gen.instance(rng, nmax=7, pmax=6, df="logit" if df == "logit" else "quad", multi=df == "mt", pens=("l1",), tmax=4,
                             unit=10 if single else 150)
            I.fits = fits_for(rng, I, not single)
            d = I.data(rng.choice(gen.FMTS), random.Random(rng.random()))
            d["ymat"] = True if df == "mt" and (I.T > 1 or rng.random() < 0.5) else I.T > 1
            d["fits"] = [[bits(I.real(x, "f")) for r in f for x in r] for f in I.fits]
            ds.append(d)
            Is.append(I)
        e = prec(single)
        i = book.add({"op": "df", "df": df, "datasets": ds, "f32": single})

        def mk(rs, Is=Is, df=df, e=e):
            evs = []
            if len(rs[0]["results"]) != len(Is):
                return [["Fail", {"what": "missing results"}]]
            for I, r in zip(Is, rs[0]["results"]):
                if df == "mt":
                    k = r["rhs"]
                    if k["shape"] != [I.p, I.T]:
                        return [["Fail", {"what": "right-hand sides of shape %s" % k["shape"]}]]
                    evs.append(["Rhs", {"P": I.rec(), "got": [[F(k["g"][j * I.T + t], I, "d") for t in range(I.T)] for j in range(I.p)], "eps": fx(e)}])
                for q, f in enumerate(I.fits):
                    cols = [[fx(f[i][t]) for i in range(I.n)] for t in range(I.T)]
                    if df == "mt":
                        gs = r["grads"][q]
                        fu = r["full"][q]
                        if fu["shape"] != [I.p, I.T] or len(gs) != I.p * I.T:
                            return [["Fail", {"what": "full gradient of shape %s" % fu["shape"]}]]
                        G = [[F(gs[j * I.T + t], I, "d") for t in range(I.T)] for j in range(I.p)]
                        H = [[F(fu["g"][j * I.T + t], I, "d") for t in range(I.T)] for j in range(I.p)]
                    else:
                        G = [[F(x, I, "d")] for x in r["grads"][q]]
                        H = [[F(x, I, "d")] for x in r["full"][q]]
                    evs.append(["Loss", {"P": I.rec(), "f": cols, "got": F(r["vals"][q], I, "v"), "grads": G, "full": H,
                                         "steps": [F(x, I, "s") for x in r["steps"]], "eps": fx(e)}])
            return evs
        book.then("loss", [i], mk, {"df": df, "datasets": [dict(I.describe(), fits=I.fits) for I in Is], "fmts": [d["fmt"] for d in ds], "f32": single})
        x = rng.choice([0.0, gen.q(rng.gauss(0, 3)), 40.0, -40.0, 700.0, -700.0, 1e-5] + ([] if single else [1e5, -1e5]))
        j = book.add({"op": "prim", "what": "sigmoid", "x": bits(x), "f32": single})
        book.then("sigmoid", [j], lambda rs, x=x, e=e: [["Sigmoid", {"x": fx(x), "got": F(rs[0]["u"]), "eps": fx(e)}]], {"sigmoid": x, "f32": single})


def amax(ck, rng, book, count, single=False):
    """C12: the helpers for the maximal regularization."""
    for k in range(count):
        I = gen.instance(rng, nmax=9, pmax=8, df="quad", pens=("l1",), tmax=4, unit=10 if single else 150)
        ids, ms = [], []
        for fmt, ymat in (("c", True), ("f", True), (rng.choice(gen.DENSE[2:]), True)) + ((("c", False), ("f", False), (rng.choice(gen.DENSE[2:]), False), ("csc", False)) if I.T == 1 else ()):
            d = I.data(fmt, random.Random(k))
            d.update({"op": "prim", "what": "amax", "ymat": ymat, "f32": single})
            ids.append(book.add(d))
            ms.append((fmt, ymat))
        e = prec(single)
        book.then("amax", ids, lambda rs, I=I, e=e: [["AMax", {"P": I.rec(), "got": F(r["u"], I, "a"), "eps": fx(e * 10)}] for r in rs],
                  {"problem": I.describe(), "calls": ms, "f32": single})


def matrix(rng, n):
    kind = rng.choice(["gauss", "gauss", "int", "perm", "zerolead", "zerorow", "zerocol", "dup", "scaled", "tri", "zero", "spd", "int"])
    A = [[gen.q(rng.gauss(0, 1)) for _ in range(n)] for _ in range(n)]
    if kind == "int":
        A = [[float(rng.randint(-2, 2)) for _ in range(n)] for _ in range(n)]
    elif kind == "perm":
        s = rng.sample(range(n), n)
        A = [[float(rng.choice([1, 2, -1])) if s[i] == j else 0.0 for j in range(n)] for i in range(n)]
    elif kind == "zerolead":
        for i in range(rng.randint(1, n)):
            A[i][i] = 0.0
        A[0][0] = 0.0
    elif kind == "zerorow":
        A[rng.randrange(n)] = [0.0] * n
    elif kind == "zerocol":
        j = rng.randrange(n)
        for r in A:
            r[j] = 0.0
    elif kind == "dup" and n > 1:
        i, k = rng.sample(range(n), 2)
        s = rng.choice([1.0, -1.0, 2.0, 0.5])
        A = [[float(rng.randint(-3, 3)) for _ in range(n)] for _ in range(n)] if rng.random() < 0.5 else A
        A[i] = [s * v for v in A[k]]
    elif kind == "scaled":
        for i in range(n):
            s = 2.0 ** rng.randint(-12, 12)
            A[i] = [v * s for v in A[i]]
    elif kind == "tri":
        A = [[A[i][j] if i + j >= n - 1 else 0.0 for j in range(n)] for i in range(n)]
    elif kind == "zero":
        A = [[0.0] * n for _ in range(n)]
    elif kind == "spd":
        B = A
        A = [[sum(B[i][k] * B[j][k] for k in range(n)) for j in range(n)] for i in range(n)]
    return A


def graded(rng, n, single):
    """A row diagonally dominant matrix and scales that fall from row to row: the pivots are the
    diagonal entries, so scaling the rows by powers of two changes no rounding error."""
    A = [[gen.q(rng.gauss(0, 1)) if rng.random() < 0.8 else 0.0 for _ in range(n)] for _ in range(n)]
    for i in range(n):
        A[i][i] = float(math.ceil(1 + 2 * sum(abs(v) for v in A[i]))) * rng.choice([1, -1])
        m = 2.0 ** -math.floor(math.log2(abs(A[i][i])))
        A[i] = [v * m for v in A[i]]
    top, s = (100, 0) if single else (900, 0)
    sc = []
    for i in range(n):
        sc.append(s)
        s = max(-top, s - rng.choice([3, 8, 30, 60, 120]))
    s = rng.choice([0, -min(sc) // 2])
    if len(set(sc)) < n:
        sc = [-3 * i for i in range(n)]
    return A, [v + s for v in sc]


def linsys(ck, rng, book, count, single=False):
    for k in range(count):
        n = rng.randint(1, 8)
        A = matrix(rng, n)
        if rng.random() < 0.12:
            A, sc = graded(rng, n, single)
            b = [gen.q(rng.gauss(0, 1)) for _ in range(n)]
            if single:
                A = [[f32(v) for v in r] for r in A]
            i = book.add({"op": "prim", "what": "linsys", "n": n, "A": [bits(up(v, sc[i])) for i in range(n) for v in A[i]],
                          "b": [bits(up(v, sc[i])) for i, v in enumerate(b)], "f32": single})

            def mk(rs, A=A, b=b, single=single):
                r = rs[0]
                return [["LinSys", {"a": [[fx(v) for v in q] for q in A], "b": [fx(v) for v in b], "ok": "x" in r,
                                    "x": [fx(unbits(v)) for v in r.get("x", [])], "same": bool(r["same"]), "eps": fx(1e-4 if single else 1e-12)}]]
            book.then("linsys", [i], mk, {"A": A, "b": b, "f32": single, "rows": sc}, may_err=True)
            continue
        b = [gen.q(rng.choice([0.0, 1.0, rng.gauss(0, 1), 1.0])) for _ in range(n)]
        if single:
            A = [[f32(v) for v in r] for r in A]
        ua, ub = ((rng.choice([0, 1, -1]) * rng.randint(1, 10 if single else 300) for _ in range(2)) if rng.random() < 0.35 else (0, 0))
        i = book.add({"op": "prim", "what": "linsys", "n": n, "A": [bits(up(v, ua)) for r in A for v in r], "b": [bits(up(v, ub)) for v in b],
                      "f32": single})
        e = 1e-4 if single else 1e-12

        def mk(rs, A=A, b=b, e=e, ux=ub - ua):
            r = rs[0]
            return [["LinSys", {"a": [[fx(v) for v in q] for q in A], "b": [fx(v) for v in b], "ok": "x" in r,
                                "x": [fx(up(unbits(v), -ux)) for v in r.get("x", [])], "same": bool(r["same"]), "eps": fx(e)}]]
        # a reported error is an answer here, not a failed call
        book.then("linsys", [i], mk, {"A": A, "b": b, "f32": single, "units": [ua, ub]}, may_err=True)


def orders(ck, rng, book, count):
    for k in range(count):
        n = rng.choice([1, 2, 3, 7, 15, 25, 40, rng.randint(33, 150)])
        x = [rng.choice([0.0, 1.0, gen.q(rng.gauss(0, 1)), gen.q(rng.gauss(0, 1))]) for _ in range(n)]
        d = rng.random() < 0.5
        i = book.add({"op": "prim", "what": "argsort", "x": [bits(v) for v in x], "desc": d})
        book.then("order", [i], lambda rs, x=x, d=d: [["Order", {"x": [fx(v) for v in x], "desc": d, "idx": rs[0]["idx"]}]], {"x": x, "desc": d})


def iterates(rng, m, K):
    """m-dimensional iterates, as descent or anything else may leave them."""
    g = lambda s=1.0: gen.q(rng.gauss(0, s))
    kind = rng.choice(["modes", "modes", "random", "far", "far", "ints", "stuck", "line", "mixed"])
    k = rng.choice([K + 1, 2 * (K + 1), 2 * K + 1, 3 * (K + 1) + 1])
    if kind in ("modes", "mixed"):
        star = [g(2) for _ in range(m)]
        vs = [[g() for _ in range(m)] for _ in range(min(m, K))]
        ls = [rng.choice([0.9, 0.7, 0.4, -0.3, 0.1, rng.uniform(-0.6, 0.95)]) for _ in vs]
        out = [[gen.q(star[i] + sum(l ** q * v[i] for l, v in zip(ls, vs))) for i in range(m)] for q in range(k)]
        if kind == "mixed":
            out = [[v if rng.random() < 0.8 else 0.0 for v in r] for r in out]
        return out
    if kind == "ints":
        return [[float(rng.randint(-2, 2)) for _ in range(m)] for _ in range(k)]
    if kind == "stuck":
        r = [g() for _ in range(m)]
        return [list(r) if rng.random() < 0.7 else [g() for _ in range(m)] for _ in range(k)]
    if kind == "line":
        r, d = [g() for _ in range(m)], [float(rng.randint(-2, 2)) for _ in range(m)]
        return [[gen.q(a + q * b) for a, b in zip(r, d)] for q in range(k)]
    out = [[g() for _ in range(m)] for _ in range(k)]
    if kind == "far":
        for q in range(K, k, K + 1):
            out[q] = [v * rng.choice([4.0, 8.0, 32.0]) for v in out[q]]
    return out


def accels(ck, rng, book, count):
    """C09 (low level): extrapolation from given iterates."""
    book.extra = {"at": 0, "buf": [], "cnt": {"quiet": 0, "tried": 0, "taken": 0, "doubt": 0}}
    for k in range(count):
        df = rng.choice(["quad", "quad", "quad", "logit"])
        I = gen.instance(rng, nmax=9, pmax=9, df=df, pens=("l1", "en") if df == "logit" else ("l1", "en", "mcp", "l05"), tmax=3)
        K = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
        ws = rng.sample(range(I.p), rng.choice([I.p, I.p, rng.randint(1, I.p)]))
        its = []
        for v in iterates(rng, len(ws) * I.T, K):
            w = [[0.0] * I.T for _ in range(I.p)]
            for q, j in enumerate(ws):
                w[j] = v[q * I.T:(q + 1) * I.T]
            its.append(w)
        d = I.data("c")
        d.update(I.csc(random.Random(k)))
        d.update({"op": "accel", "df": df, "pen": I.penop(), "K": K, "ws": ws, "sparse": rng.random() < 0.5,
                  "iterates": [[bits(I.real(v, "w")) for r in w for v in r] for w in its]})
        i = book.add(d)

        def mk(rs, I=I, K=K, ws=ws, its=its):
            calls = []
            for w, r in zip(its, rs[0]["calls"]):
                u = [F(v, I, "w") for v in r["w"]]
                f = [F(v, I, "f") for v in r["f"]]
                calls.append({"w": [[fx(v) for v in q] for q in w], "u": [u[j * I.T:(j + 1) * I.T] for j in range(I.p)],
                              "g": [[f[q * I.T + t] for q in range(I.n)] for t in range(I.T)], "same": bool(r["same"])})
            return [["Calls", {"P": I.rec(), "K": K, "rel": fx(1e-9), "ws": ws, "calls": calls}]]
        book.then("accel", [i], mk, {"problem": I.describe(), "K": K, "ws": ws, "iterates": its, "sparse": d["sparse"]})


def wsets(ck, rng, book, count):
    """C07 (low level): construction of the working set, optimality violations."""
    for k in range(count):
        p = rng.choice([1, 2, 3, 5, 8, 13, 30, rng.randint(21, 90)])
        T = rng.randint(1, 3)
        block = T > 1 or rng.random() < 0.3
        w = [[gen.q(rng.gauss(0, 1)) if rng.random() < 0.3 else 0.0 for _ in range(T)] for _ in range(p)]
        if rng.random() < 0.15:
            w = [[0.0] * T for _ in range(p)]
        kk = [rng.choice([0.0, 0.0, gen.q(abs(rng.gauss(0, 1))), gen.q(abs(rng.gauss(0, 1)))]) for _ in range(p)]
        s = min(p, rng.choice([1, 2, 3, max(1, p // 2), p, p, 10]))  # callers clamp it
        i = book.add({"op": "ws", "kkt": [bits(v) for v in kk], "w": [bits(v) for r in w for v in r], "T": T, "block": block, "start": s})
        book.then("ws", [i], lambda rs, kk=kk, w=w, s=s: [["WsOf", {"kkt": [fx(v) for v in kk], "w": [[fx(v) for v in r] for r in w],
                                                                    "start": s, "ws": rs[0]["ws"], "n": rs[0]["n"]}]], {"kkt": kk, "w": w, "start": s, "block": block})


def kkts(ck, rng, book, count):
    for k in range(count):
        df = rng.choice(["quad", "quad", "logit"])
        I = gen.instance(rng, nmax=7, pmax=7, df=df, pens=("l1",) if df == "logit" else ("l1", "en", "mcp", "l05"), tmax=3)
        w = rows(rng, I.p, I.T, I.a, I.g if I.pen == "mcp" else 1.0)
        ws = rng.sample(range(I.p), rng.randint(1, I.p))
        d = I.data("c")
        d.update(I.csc(random.Random(k)))
        d.update({"op": "kkt", "df": df, "pen": I.penop(), "w": [bits(I.real(v, "w")) for r in w for v in r], "ws": ws,
                  "sparse": rng.random() < 0.5})
        i = book.add(d)

        def mk(rs, I=I, w=w, ws=ws):
            r = rs[0]
            return [["Kkt", {"P": I.rec(), "w": [[fx(v) for v in q] for q in w], "ws": ws,
                             "g": [[F(v, I, "d") for v in r["grad"][q * I.T:(q + 1) * I.T]] for q in range(len(ws))],
                             "k": [F(v, I, "t") for v in r["kkt"]], "top": F(r["max"], I, "t"), "eps": fx(1e-12)}]]
        book.then("kkt", [i], mk, {"problem": I.describe(), "w": w, "ws": ws, "sparse": d["sparse"]})


def visits(ck, rng, book, count):
    """C07: which features every pass of every outer iteration updates, as a penalty of the user's sees it."""
    k = 0
    while k < count:
        kw = {"n": rng.randint(2, 6), "p": rng.randint(14, 34)} if rng.random() < 0.15 else {"nmax": 9, "pmax": 13, "large": 0.0}
        kind = rng.choice(["gauss", "corr", "scaled", "sparse", "outlier", "gauss", "corr"])
        I = gen.own_instance(rng, kind=kind, **kw) if rng.random() < 0.4 else gen.instance(
            rng, kind=kind, pens=("l1", "en", "mcp", "l05") if rng.random() < 0.8 else ("l1", "en"), **kw)
        L = sorted(I.lips())
        if I.pen == "l0" or L[0] <= 0 or any(b < a * (1 + 1e-4) for a, b in zip(L, L[1:])):
            continue   # a step has to tell its feature
        if I.df == "logit" and I.pen in ("mcp", "l05"):
            continue
        k += 1
        steps = [1 / v for v in I.lips()]
        c = gen.config(rng, I.p, it=rng.choice([2, 4, 6, rng.randint(8, 14)]), ep=rng.choice([0, 1, 1, 2, 3, rng.randint(1, 10)]))
        if rng.random() < 0.5:
            c["ws"] = rng.choice([1, 1, 2, 3])
        if rng.random() < 0.3:
            c["tol"] = I.alpha_max() * rng.choice([0.3, 0.1, 0.03, 1e-2])
        d = I.op("", c, rng.choice(gen.FMTS), "solver", rng)
        del d["id"]
        d.update({"op": "visits", "steps": [bits(up(s, -I.unit("s"))) for s in steps]})
        i = book.add(d)

        def mk(rs, I=I, c=c):
            runs, evs, last = rs[0]["runs"], [], []
            for r, q in zip(runs, runs[1:]):
                w = I.wmat(r)
                if w is None:
                    return [["Fail", {"what": "coefficients of another shape"}]]
                if q["log"][:len(r["log"])] != r["log"]:
                    return [["Fail", {"what": "a larger budget does not continue the run of a smaller one"}]]
                calls = q["log"][len(r["log"]):]
                evs.append(["Visits", {"P": I.rec(), "w": w, "start": c["ws"], "ep": c["ep"], "tol": fx(c["tol"]), "calls": calls, "eps": fx(1e-9)}])
                if not calls:
                    break
            return evs
        book.then("visits", [i], mk, {"problem": I.describe(), "cfg": c, "fmt": d["fmt"]})


def products(ck, rng, book, count, single=False):
    """C24: rank-one updates and products of the model fit."""
    for k in range(count):
        wide = {"n": rng.randint(1, 5), "p": rng.randint(60, 140)} if rng.random() < 0.08 else {}
        I = gen.instance(rng, nmax=8, pmax=7, df="quad", multi=True, pens=("l1",), tmax=4, unit=10 if single else 150, **wide)
        d = I.data(rng.choice(gen.FMTS + ["csc"]), random.Random(rng.random()))
        f0 = [[gen.q(rng.gauss(0, 1)) for _ in range(I.T)] for _ in range(I.n)]
        ups = [(rng.randrange(I.p), [gen.q(rng.choice([0.0, rng.gauss(0, 1)])) for _ in range(I.T)]) for _ in range(rng.randint(0, 5))]
        ws = rng.sample(range(I.p), I.p - rng.randint(0, 5) if wide else rng.randint(0, I.p))
        acc = [[gen.q(rng.gauss(0, 1)) for _ in range(I.T)] if j in ws or rng.random() < 0.3 else [0.0] * I.T for j in range(I.p)]
        if rng.random() < 0.5:
            # null in some tasks only
            z = rng.choice([0.2, 0.5, 0.8])
            acc = [[0.0 if rng.random() < z else v for v in r] for r in acc]
        if rng.random() < 0.4:
            # coefficients of very different sizes, features to match: every term counts
            J = I
            sc = [2.0 ** (rng.choice([0, 0, 1, -1]) * rng.randint(1, 14 if single else 30)) for _ in range(I.p)]
            I = I.copy(X=[[v * s for v, s in zip(r, sc)] for r in I.X])
            d = I.data(d["fmt"], random.Random(rng.random()))
            acc = [[v / s for v in r] for r, s in zip(acc, sc)]
            ups = [(j, [v / sc[j] for v in u]) for j, u in ups]
        d.update({"op": "fit", "fit0": [bits(I.real(v, "f")) for r in f0 for v in r], "ups": [[j, [bits(I.real(v, "w")) for v in u]] for j, u in ups], "ws": ws,
                  "wacc": [bits(I.real(v, "w")) for r in acc for v in r], "byref": rng.random() < 0.5, "f32": single})
        i = book.add(d)
        e = prec(single)

        def mk(rs, I=I, f0=f0, ups=ups, ws=ws, acc=acc, e=e):
            r = rs[0]
            if r["shape"] != [I.n, I.T]:
                return [["Fail", {"what": "product of shape %s" % r["shape"]}]]
            cols = lambda m: [[F(m[q * I.T + t], I, "f") for q in range(I.n)] for t in range(I.T)]
            return [["Products", {"P": I.rec(), "f0": [[fx(f0[q][t]) for q in range(I.n)] for t in range(I.T)],
                                  "ups": [{"j": j, "d": [fx(v) for v in u]} for j, u in ups], "ws": ws,
                                  "acc": [[fx(v) for v in q] for q in acc], "f": cols(r["XW"]), "f1": [F(v, I, "f") for v in r["Xw"]],
                                  "e": cols(r["eXW"]), "e1": [F(v, I, "f") for v in r["eXw"]], "eps": fx(e)}]]
        book.then("products", [i], mk, {"problem": I.describe(), "fit0": f0, "updates": ups, "ws": ws, "acc": acc, "fmt": d["fmt"], "f32": single})


def _pair(rng, single):
    """Two arrays that differ by exactly representable amounts, and a tolerance around them."""
    two = rng.random() < 0.6
    ra, ca = rng.choice([0, 1, 2, 3, 5, rng.randint(1, 40)]), (rng.choice([0, 1, 2, 3, rng.randint(1, 12)]) if two else 1)
    rb, cb = ra, ca
    if rng.random() < 0.2:
        kind = rng.choice(["rows", "cols", "swap", "both"] if two else ["rows"])
        if kind in ("rows", "both"):
            rb = max(0, ra + rng.choice([1, -1, 2]))
        if kind in ("cols", "both"):
            cb = max(0, ca + rng.choice([1, -1, 2]))
        if kind == "swap":
            rb, cb = ca, ra
    h = 2.0 ** -rng.choice([4, 8, 12])
    a = [rng.randint(-999, 999) * h for _ in range(ra * ca)]
    delta = rng.choice([0.0, 1.0, rng.randint(1, 50)]) * h
    slack = lambda: rng.choice([0, 0, 0, delta, -delta, delta / 2, -delta / 2])
    if rng.random() < 0.25:
        a = [abs(v) for v in a]
    b = [v + slack() for v in a][:rb * cb]
    b += [0.0] * (rb * cb - len(b))
    if b and rng.random() < 0.45:
        # one entry decides
        i = rng.choice([0, len(b) - 1, rng.randrange(len(b))])
        x = b[i] if i < len(a) else 0.0
        w = rng.choice(["over", "over", "over", "nan", "nan2", "inf", "flip", "far", "bothnan"])
        if w == "over":
            b[i] = (a[i] if i < len(a) else x) + rng.choice([1, -1]) * (delta + h)
        elif w == "nan":
            b[i] = math.nan
        elif w == "nan2" and i < len(a):
            a[i] = math.nan
        elif w == "inf":
            b[i] = rng.choice([INF, -INF])
        elif w == "flip" and i < len(a):
            b[i] = -a[i]
        elif w == "far":
            b[i] = x + rng.choice([1, -1]) * 2.0 ** (6 if single else 30)
        elif w == "bothnan" and i < len(a):
            a[i] = b[i] = math.nan
    return two, ra, ca, rb, cb, a, b, delta


def testing(ck, rng, book, count):
    """C27: comparison of arrays, generated numbers and data."""
    for k in range(count):
        f = rng.random() < 0.3
        two, ra, ca, rb, cb, a, b, delta = _pair(rng, f)
        op = {"op": "close", "two": two, "ra": ra, "ca": ca, "rb": rb, "cb": cb, "a": [bits(v) for v in a], "b": [bits(v) for v in b],
              "fa": rng.choice(["c", "f", "step"]), "fb": rng.choice(["c", "f", "step"]), "delta": bits(delta), "f32": f}
        i = book.add(op)

        def mk(rs, op=op, a=a, b=b, delta=delta):
            return [["Close", {"ra": op["ra"], "ca": op["ca"], "rb": op["rb"], "cb": op["cb"], "a": [fx(v) for v in a], "b": [fx(v) for v in b],
                               "delta": fx(delta), "panicked": bool(rs[0]["panicked"])}]]
        book.then("close", [i], mk, {"two": two, "shapes": [ra, ca, rb, cb], "a": a, "b": b, "delta": delta, "f32": f, "stored": [op["fa"], op["fb"]]})
        if k % 8 == 0:
            top = rng.choice([1200, rng.randint(200, 1500), rng.randint(0, 150)])
            lens = [top] + [rng.choice([0, 1, rng.randint(0, top), top]) for _ in range(3)]
            i = book.add({"op": "stream", "lens": lens})
            book.then("stream", [i], lambda rs, lens=lens: [["Stream", {"lens": lens, "got": [[fx(unbits(v)) for v in r] for r in rs[0]["all"]]}]], {"lens": lens})
        if k % 3 == 0:
            n, p = rng.choice([1, 2, 3, rng.randint(1, 30)]), rng.choice([1, 2, 3, rng.randint(1, 30)])
            multi = rng.random() < 0.5
            T = rng.randint(1, 6) if multi else 1
            need = max(n * p, p * T, n * T)
            i = book.add({"op": "data", "n": n, "p": p, "T": T, "multi": multi, "need": need})
            book.then("data", [i], lambda rs, n=n, p=p, T=T: [["Data", {
                "n": n, "p": p, "t": T, "s": [fx(unbits(v)) for v in rs[0]["s"]], "x": [fx(unbits(v)) for v in rs[0]["x"]],
                "y": [fx(unbits(v)) for v in rs[0]["y"]], "xs": rs[0]["xs"], "ys": rs[0]["ys"], "eps": fx(E64)}]], {"n": n, "p": p, "T": T, "multi": multi})


def views(ck, rng, book, count):
    """C24: shapes, kinds and target views."""
    for k in range(count):
        I = gen.instance(rng, nmax=7, pmax=6, df="quad", multi=True, pens=("l1",), tmax=4, unit=0)
        fmt = rng.choice(gen.FMTS)
        d = I.data(fmt, random.Random(k))
        d.update({"op": "dataset"})
        if fmt == "csc":
            d["X"] = [bits(v) for r in I.X for v in r]
        i = book.add(d)

        def mk(rs, I=I, fmt=fmt):
            r = rs[0]
            Y = ["#%d" % bits(v) for q in I.Y for v in q]
            y1 = ["#%d" % bits(q[0]) for q in I.Y]
            view = lambda v: {"n": v["n"], "t": v["T"], "rows": v["shape"][0], "cols": v["shape"][1], "y": ["#%d" % b for b in v["Y"]]}
            evs = []
            for v in (r["t2"], r["t2"]["ref"], r["t2"]["view"], r["t2"]["f"]):
                evs.append(["TargetView", {"n": I.n, "t": I.T, "y": Y, "got": view(v)}])
            for v in (r["t1"], r["t1"]["ref"], r["t1"]["view"]):
                evs.append(["TargetView", {"n": I.n, "t": 1, "y": y1, "got": view(v)}])
            for v in r["seen1"]:
                evs += [["TargetView", {"n": I.n, "t": 1, "y": y1, "got": view(q)}] for q in (v, v["ds"])]
            for v in r["seen2"]:
                evs += [["TargetView", {"n": I.n, "t": I.T, "y": Y, "got": view(q)}] for q in (v, v["ds"])]
            cast = lambda t, c: ["Cast", {"n": I.n, "t": t, "y": Y if t > 1 else y1, "ok": "ok" in c, "col": ["#%d" % b for b in c.get("ok", [])],
                                          "err": c.get("err", "").split("(")[0].split(" ")[0]}]
            evs += [cast(I.T, r["t2"]["mine"]), cast(1, r["t1"]["single"]), cast(1, r["t1"]["single_view"])]
            evs += [cast(1, v["single"]) for v in r["seen1"]]
            g = r["design"]
            evs.append(["Design", {"p": I.p, "sparse": fmt == "csc", "x": ["#%d" % bits(v) for q in I.X for v in q], "gotP": g["p"], "refP": g["rp"],
                                   "kind": g["kind"], "refKind": g["rkind"], "same": bool(g["same"]), "back": ["#%d" % b for b in r["back"]]}])
            return evs
        book.then("views", [i], mk, {"problem": I.describe(), "fmt": fmt})
