"""Problem instances and the operations that run them. All randomness comes from the check's rng."""
import math
from vlib import bits, fx, f32, unbits

BLOCK = {"l1": "l21", "en": "ben", "mcp": "bmcp", "nn": "nn", "ridge": "ridge", "el1": "el1", "tgt": "tgt"}
# what the harness plugs into the solvers itself
OWN = ("nn", "ridge", "l0", "el1", "tgt")
INF = float("inf")


def q(x):
    """A double with a short mantissa, exactly representable in single precision too."""
    return f32(round(x * 4096) / 4096) if abs(x) >= 2**-6 else f32(x)


class Inst:
    """A sparse GLM problem. X: n rows of p; Y: n rows of T."""

    def __init__(self, X, Y, df="quad", pen="l1", a=0.1, g=3.0, block=None):
        self.X, self.Y, self.df, self.pen, self.a, self.g = X, Y, df, pen, a, g
        self.n, self.p, self.T = len(X), len(X[0]), len(Y[0])
        self.block = self.T > 1 if block is None else block
        # units: the code is given X 2^ux and Y 2^uy (and the penalty in the matching units); the
        # specification is given the problem above and the results divided by their exact units
        self.ux = self.uy = 0

    def copy(self, **kw):
        i = Inst(self.X, self.Y, self.df, self.pen, self.a, self.g, self.block)
        i.ux, i.uy = self.ux, self.uy
        for k, v in kw.items():
            setattr(i, k, v)
        i.n, i.p, i.T = len(i.X), len(i.X[0]), len(i.Y[0])
        return i

    def units(self, rng, top, chance=0.25):
        """Moves the problem to other units of measurement, exactly (powers of two)."""
        self.ux = self.uy = 0
        if not top or rng.random() >= chance:
            return self
        d = lambda: rng.choice([0, 1, -1]) * rng.choice([top, rng.randint(1, top), rng.randint(1, top), min(top, 12)])
        ux, uy = d(), d()
        if top <= 10 and rng.random() < 0.4:
            # single precision: further out where the coefficients keep their size
            ux = uy = rng.choice([1, -1]) * rng.randint(top, 26)
        if self.df == "logit":
            uy = 0
            if self.pen == "en":
                ux = 0
            if self.pen in ("l05", "ridge"):
                ux -= ux % 2
        elif self.pen == "en":
            uy = ux
        elif self.pen == "l05":
            ux -= (3 * uy + ux) % 2
        self.ux, self.uy = ux, uy
        return self

    def fine(self, rng):
        """Gives the data full double-precision mantissas (ties, zeros and labels stay)."""
        if getattr(self, "kind", None) not in ("gauss", "corr", "const", "sparse", "scaled", "zero", "outlier"):
            return self
        e = lambda v: v if v in (0.0, 1.0) else v * (1 + rng.uniform(-1, 1) * 2.0**-20)
        self.X = [[e(v) for v in r] for r in self.X]
        if self.df != "logit":
            self.Y = [[e(v) for v in r] for r in self.Y]
        self.a = e(self.a)
        return self

    def unit(self, q):
        """Exponent of the unit of a quantity: x, y, w, f (model fit), v (objective), d (gradients,
        alpha), a (strength), g (gamma), s (curvature), t (tolerance, violations)."""
        ux, uy = self.ux, self.uy
        logit = self.df == "logit"
        if q in "xy":
            return ux if q == "x" else uy
        if q == "w":
            return (0 if logit else uy) - ux
        if q == "f":
            return 0 if logit else uy
        if q == "v":
            return 0 if logit else 2 * uy
        if q == "s":
            return 2 * ux
        if q == "d":
            return ux + (0 if logit else uy)
        if q == "a":
            # alpha sqrt|w| is an objective
            v, w = self.unit("v"), self.unit("w")
            return {"l05": v - w // 2, "l0": v, "ridge": v - 2 * w}.get(self.pen, self.unit("d"))
        if q == "g":
            return -2 * ux if self.pen == "mcp" else self.unit("w") if self.pen == "tgt" else 0
        if q == "t":
            return self.unit("w") if self.pen in ("l05", "l0") else self.unit("d")
        raise KeyError(q)

    def real(self, v, q):
        """A quantity in the units the code works in."""
        return up(v, self.unit(q))

    def spec(self, v, q):
        """A quantity of the code in the units of the specification."""
        return up(v, -self.unit(q))

    def est_ok(self):
        """Within what the estimators accept."""
        return self.df == "quad" and self.pen in ("l1", "en", "mcp") and (self.pen != "mcp" or self.real(self.g, "g") >= 1)

    def realX(self):
        return [[up(v, self.ux) for v in r] for r in self.X]

    def realY(self):
        return [[up(v, self.uy) for v in r] for r in self.Y]

    def wmat(self, res, key="w", q="w"):
        return wmat(res, self.p, self.T, -self.unit(q))

    def wfloat(self, res):
        return [self.spec(unbits(b), "w") for b in res["w"]] if "w" in res else None

    def col(self, j):
        return [r[j] for r in self.X]

    def grad0(self):
        if self.df == "logit":
            s = [[-y / 2 for y in r] for r in self.Y]
        elif self.df == "huber":
            s = [[-max(-1.0, min(1.0, y)) for y in r] for r in self.Y]
        else:
            s = [[-y for y in r] for r in self.Y]
        return [math.sqrt(sum(sum(self.X[i][j] * s[i][k] for i in range(self.n)) ** 2 for k in range(self.T))) / self.n
                for j in range(self.p)]

    def alpha_max(self):
        return max(self.grad0())

    def lips(self):
        d = self.n * (4 if self.df == "logit" else 1)
        k = 2 if self.df == "huber" else 1
        return [k * sum(x * x for x in self.col(j)) / d for j in range(self.p)]

    def penname(self):
        return BLOCK[self.pen] if self.block else self.pen

    def rec(self):
        """The problem as the specification's record."""
        return {"n": self.n, "p": self.p, "t": self.T,
                "x": [[fx(v) for v in self.col(j)] for j in range(self.p)],
                "y": [[fx(r[k]) for r in self.Y] for k in range(self.T)],
                "df": self.df, "pen": self.pen, "a": fx(self.a), "g": fx(self.g)}

    def csc(self, rng=None, explicit=True):
        data, idx, ptr = [], [], [0]
        for j in range(self.p):
            ent = [(i, self.X[i][j]) for i in range(self.n)
                   if self.X[i][j] != 0 or (explicit and rng and rng.random() < 0.2)]
            if rng:
                rng.shuffle(ent)
            for i, v in ent:
                data.append(bits(up(v, self.ux)))
                idx.append(i)
            ptr.append(len(idx))
        if rng and rng.random() < 0.2:
            # a window of the columns of a wider matrix: other entries before and after
            before, after = rng.randint(0, 4), rng.randint(0, 3)
            more = lambda m: ([bits(up(q(rng.gauss(0, 2)), self.ux)) for _ in range(m)], [rng.randrange(self.n) for _ in range(m)])
            (d0, i0), (d1, i1) = more(before), more(after)
            data, idx, ptr = d0 + data + d1, i0 + idx + i1, [v + before for v in ptr]
        return {"data": data, "indices": idx, "indptr": ptr}

    def data(self, fmt="c", rng=None):
        d = {"n": self.n, "p": self.p, "T": self.T, "fmt": fmt,
             "Y": [bits(v) for r in self.realY() for v in r]}
        if fmt == "csc":
            d.update(self.csc(rng))
        else:
            d["X"] = [bits(v) for r in self.realX() for v in r]
        return d

    def penop(self):
        return [self.penname(), bits(self.real(self.a, "a")), bits(self.real(self.g, "g"))]

    def op(self, id, cfg, fmt="c", api="solver", rng=None, f32=False, ymat=None):
        d = self.data(fmt, rng)
        d.update({"op": "solve", "id": id, "df": "mt" if self.block and self.df == "quad" else self.df, "api": api,
                  "pen": self.penop(), "pen0": self.penname(), "block": self.block, "delta": bits(self.real(1.0, "y")),
                  "cfg": {"ws": cfg["ws"], "it": cfg["it"], "ep": cfg["ep"], "tol": bits(self.real(cfg["tol"], "t")), "K": cfg["K"],
                          "acc": cfg["acc"], "verb": cfg.get("verb", False)},
                  "f32": f32, "ymat": True if ymat is None else ymat})
        return d

    def describe(self):
        return {"n": self.n, "p": self.p, "T": self.T, "X": self.X, "Y": self.Y, "df": self.df,
                "pen": self.penname(), "a": self.a, "g": self.g, "units": [self.ux, self.uy]}


def cfg(ws=10, it=50, ep=1000, tol=1e-6, K=5, acc=True, verb=False):
    return {"ws": ws, "it": it, "ep": ep, "tol": tol, "K": K, "acc": acc, "verb": verb}


def cfg_rec(c):
    return {"ws": c["ws"], "it": c["it"], "ep": c["ep"], "tol": fx(c["tol"]), "K": c["K"], "acc": c["acc"]}


def up(v, e):
    """v 2^e, exactly unless it leaves the range of a double."""
    if e == 0 or v == 0 or math.isinf(v) or math.isnan(v):
        return v
    try:
        return math.ldexp(v, e)
    except OverflowError:
        return math.copysign(INF, v)


def wmat(res, p, T, e=0):
    """Coefficients of a result as rows of fixed-point integers (or None)."""
    if "w" not in res or len(res["w"]) != p * T or res.get("shape") != [p, T]:
        return None
    w = [fx(up(unbits(b), e)) for b in res["w"]]
    return [w[j * T:(j + 1) * T] for j in range(p)]


KINDS = ["gauss", "corr", "ints", "dup", "zero", "scaled", "const", "sparse", "ortho", "paired"]


def exact(rng, pens=("l1", "en", "mcp"), multi=None, pmax=5):
    """Columns of signs with products of powers of two, dyadic targets and strengths: arithmetic is
    exact, and gradients, residuals and steps vanish exactly."""
    n = rng.choice([4, 8, 8])
    p = rng.randint(2, pmax)
    cols = []
    base = [[(-1.0) ** bin(i & m).count("1") for i in range(n)] for m in range(n)]
    for _ in range(p):
        if cols and rng.random() < 0.6:
            # correlation a half with an earlier column
            c = list(rng.choice(cols))
            for i in rng.sample(range(n), n // 4):
                c[i] = -c[i]
        else:
            c = list(rng.choice(base))
        cols.append(c)
    s = 2.0 ** rng.randint(-3, 3)
    X = [[cols[j][i] * s for j in range(p)] for i in range(n)]
    pen = rng.choice(list(pens))
    block = rng.random() < 0.4 if multi is None else multi
    T = rng.randint(1, 3) if block else 1
    h = 2.0 ** -rng.randint(0, 6)
    W = [[rng.choice([0, 0, 10, 5, 3, 20, -10, -5, 1, rng.randint(-40, 40)]) * h for _ in range(T)] for _ in range(p)]
    if block and rng.random() < 0.5:
        W = [[r[0]] + [0.0] * (T - 1) for r in W]
    Y = [[sum(cols[j][i] * W[j][k] for j in range(p)) for k in range(T)] for i in range(n)]
    I = Inst(X, Y, "quad", pen, rng.choice([3, 3, 1, 2, 4, 5, 6]) * h * s, 1.0, block)
    if pen == "en":
        I.g = rng.choice([1.0, 0.5])
    elif pen == "mcp":
        I.g = rng.choice([3.0, 2.0, INF, INF])
        if I.g * s * s <= 1:
            I.g = INF
    I.kind = "exact"
    return I


def design(rng, n, p, kind):
    g = lambda: q(rng.gauss(0, 1))
    X = [[g() for _ in range(p)] for _ in range(n)]
    if kind == "corr":
        rho = rng.choice([0.7, 0.9, 0.97])
        for i in range(n):
            z = rng.gauss(0, 1)
            X[i] = [q(rho * z + math.sqrt(1 - rho * rho) * rng.gauss(0, 1)) for _ in range(p)]
    elif kind == "ints":
        X = [[float(rng.randint(-3, 3)) for _ in range(p)] for _ in range(n)]
    elif kind == "dup":
        for _ in range(max(1, p // 3)):
            a, b = rng.randrange(p), rng.randrange(p)
            s = rng.choice([1.0, -1.0, 2.0])
            for i in range(n):
                X[i][a] = s * X[i][b]
    elif kind == "zero":
        for j in rng.sample(range(p), max(1, p // 3)):
            for i in range(n):
                X[i][j] = 0.0
    elif kind == "scaled":
        sc = [2.0 ** rng.randint(-7, 7) for _ in range(p)]
        X = [[X[i][j] * sc[j] for j in range(p)] for i in range(n)]
    elif kind == "outlier":
        for i in rng.sample(range(n), max(1, n // 8)):
            s = rng.choice([8.0, 16.0, 32.0])
            X[i] = [s * v for v in X[i]]
    elif kind == "const":
        j = rng.randrange(p)
        for i in range(n):
            X[i][j] = 1.0
    elif kind == "sparse":
        X = [[v if rng.random() < 0.35 else 0.0 for v in r] for r in X]
    elif kind == "ortho":
        X = [[(float(rng.choice([1, 2, -1])) if i % p == j else 0.0) for j in range(p)] for i in range(n)]
    return X


def targets(rng, X, T, df, kind="signal"):
    n, p = len(X), len(X[0])
    if df == "logit":
        w = [rng.gauss(0, 1) for _ in range(p)]
        y = [1.0 if sum(a * b for a, b in zip(r, w)) + rng.gauss(0, 0.7) > 0 else -1.0 for r in X]
        if kind == "sep":
            y = [1.0 if sum(a * b for a, b in zip(r, w)) > 0 else -1.0 for r in X]
        if kind == "one":
            y = [1.0] * n
        return [[v] for v in y]
    if kind == "zero":
        return [[0.0] * T for _ in range(n)]
    W = [[rng.choice([0.0, rng.gauss(0, 2)]) for _ in range(T)] for _ in range(p)]
    sc = rng.choice([1.0, 1.0, 0.05, 20.0])
    return [[q(sc * (sum(r[j] * W[j][k] for j in range(p)) + rng.gauss(0, 0.5))) for k in range(T)] for r in X]


def twist(rng, X, Y, df):
    """Structure that random numbers do not have: null targets, tasks or samples, disjoint supports, perfect fits."""
    n, p, T = len(X), len(X[0]), len(Y[0])
    logit = df == "logit"
    what = rng.choice(["samples", "supports"] + ([] if logit else ["null", "task", "targets", "fit", "supports"]))
    if what == "null":
        for r in Y:
            r[:] = [0.0] * T
    elif what == "task":
        k = rng.choice([0, T - 1, rng.randrange(T)])
        for r in Y:
            r[k] = 0.0
    elif what == "targets":
        for i in rng.sample(range(n), max(1, n // 3)):
            Y[i][:] = [0.0] * T
    elif what == "samples":
        for i in rng.sample(range(n), max(1, n // 3)) + rng.choice([[], [0], [n - 1]]):
            X[i][:] = [0.0] * p
    elif what == "fit":
        j, s = rng.randrange(p), rng.choice([1.0, -2.0])
        for i in range(n):
            Y[i][:] = [s * X[i][j]] * T
    elif what == "supports":
        # features (and tasks) living on samples of their own
        m = rng.choice([2, 2, 3])
        f, t = [rng.randrange(m + 1) for _ in range(p)], [rng.randrange(m + 1) for _ in range(T)]
        for i in range(n):
            for j in range(p):
                if f[j] < m and i % m != f[j]:
                    X[i][j] = 0.0
            for k in range(T):
                if not logit and t[k] < m and i % m != t[k]:
                    Y[i][k] = 0.0


def instance(rng, nmax=9, pmax=8, tmax=3, df=None, pens=("l1", "en", "mcp"), multi=None, kind=None, frac=None, n=None, p=None,
             gamma_lo=1.0, unit=150, large=0.05):
    if not (n or p or kind or frac) and df in (None, "quad") and multi is None and pmax >= 5 and tmax >= 3 and set(pens) != {"l05"} and rng.random() < 0.07:
        I = exact(rng, [x for x in pens if x != "l05"], multi)
        return I.units(rng, unit)
    if not (n or p) and rng.random() < large:
        # beyond the block lengths of unrolled loops and of the standard library's sort
        n, p = rng.choice([(rng.randint(65, 90), rng.randint(1, 4)), (rng.randint(2, 7), rng.randint(33, 70)), (rng.randint(1, 6), rng.randint(1, 6)),
                           (rng.randint(17, 40), rng.randint(17, 40))])
        tmax, wide = rng.randint(5, 9), True
    else:
        wide = False
    n = n or rng.randint(1, nmax)
    p = p or rng.randint(1, pmax)
    df = df or rng.choice(["quad", "quad", "quad", "logit"])
    kind = kind or rng.choice(KINDS)
    pen = rng.choice(list(pens))
    block = False
    T = 1
    if df == "quad" and pen != "l05":
        block = rng.random() < 0.45 if multi is None else multi
        if block:
            T = tmax if wide else rng.choice([1] + list(range(1, tmax + 1)))
    X = design(rng, n, p, kind)
    Y = targets(rng, X, T, df)
    if kind == "paired":
        # some or all features orthogonal to the targets, exactly
        every = rng.random() < 0.4
        for j in range(p):
            if every or rng.random() < 0.5:
                for i in range(0, n, 2):
                    if i + 1 < n:
                        X[i + 1][j] = -X[i][j]
                    else:
                        X[i][j] = 0.0
        for i in range(0, n - 1, 2):
            Y[i + 1] = list(Y[i])
    if rng.random() < 0.22:
        twist(rng, X, Y, df)
    I = Inst(X, Y, df, pen, 0.0, 0.0, block)
    am = I.alpha_max()
    fr = frac if frac is not None else rng.choice([0.002, 0.02, 0.1, 0.3, 0.6, 0.9])
    I.a = q(am * fr) if am > 0 else 0.125
    if pen == "en":
        I.g = rng.choice([0.5, 0.9, 0.25, 1.0, 0.0, 0.75, 0.5, 0.25, 0.75, 2.0**-7, 2.0**-10, 2.0**-20, 1 - 2.0**-10])
        if I.g > 0:
            I.a = q(I.a / max(I.g, 0.25))
    elif pen == "mcp":
        L = [l for l in I.lips() if l > 0]
        lo = gamma_lo
        I.g = rng.choice([3.0, 1.0, 1.5, 8.0, INF, rng.choice([1 + 2.0**-8, 1.25, 100.0, 2.0**20])] + ([lo] if lo > 1 else []) + ([0.5, 0.25] if gamma_lo < 1 else []))
        I.g = max(I.g, gamma_lo)
    else:
        I.g = 1.0
    I.kind = kind
    if unit > 10 and rng.random() < 0.4:
        I.fine(rng)
    return I.units(rng, unit)


def reachable(I):
    """A nearly flat direction (duplicated columns, hardly any quadratic term) takes more passes than
    any budget: exactly flat ones do not."""
    if I.pen == "en" and I.g < 1 and not (I.n > I.p and I.kind in ("gauss", "const", "outlier")) and I.a * (1 - I.g) < 1e-4 * max(I.lips()):
        I.g = 1.0
    return I


def own_instance(rng, unit=150, **kw):
    """A problem with a loss or a penalty of the user's, or targets of the user's own type."""
    what = rng.random()
    pens = kw.pop("pens", None)
    df = kw.pop("df", None) or rng.choice(["quad", "quad", "logit"])
    multi = kw.pop("multi", None)
    if multi is None:
        multi = df == "quad" and rng.random() < 0.4
    if df == "logit":
        multi = False
    I = instance(rng, df=df, pens=("l1", "en", "mcp"), multi=multi, unit=0, **kw)
    if df == "quad" and what < 0.7:
        I.df = "huber"
        m = max(abs(v) for r in I.Y for v in r) or 1.0
        # residuals on both sides of the threshold
        s = 2.0 ** round(math.log2(rng.choice([0.5, 2.0, 4.0, 8.0]) / m))
        I.Y = [[v * s for v in r] for r in I.Y]
        am = I.alpha_max()
        I.a = q(am * rng.choice([0.02, 0.1, 0.3, 0.6, 0.9])) or 0.125
        if I.pen == "en" and I.g > 0:
            I.a = q(I.a / max(I.g, 0.25))
    pool = pens or ["nn", "ridge", "el1", "l0", "tgt", I.pen, "l05"]
    pool = [x for x in pool if not (I.block and x in ("l0", "l05"))]
    if what > 0.15 or I.df == "huber":
        x = rng.choice(pool)
        am = I.alpha_max() or 1.0
        if x != I.pen:
            I.g = 1.0
            I.a = q(am * rng.choice([0.01, 0.1, 0.3, 0.6])) or 0.125
        I.pen = x
        if x == "tgt":
            I.g = q(rng.choice([1.0, -0.5, 0.0, rng.gauss(0, 1), rng.gauss(0, 1)]))
    return I.units(rng, unit)


def own_api(I, rng):
    """Estimators take targets of the user's type too."""
    return "est" if I.est_ok() and rng.random() < 0.5 else "solver"


def own_fmt(I, rng):
    return rng.choice(FMTS + ["own"] * 6) if I.df == "huber" else rng.choice(FMTS)


def config(rng, p, it=None, ep=None):
    return cfg(ws=rng.choice([1, 1, 2, 3, max(1, p // 2), p, p + 5, 10]),
               it=it if it is not None else rng.randint(1, 4),
               ep=ep if ep is not None else rng.randint(1, 12),
               tol=rng.choice([1e-3, 1e-6, 1e-8, 1e-12, 0.0]),
               K=rng.choice([1, 2, 3, 4, 5, 7, p + 2]),
               acc=rng.random() < 0.6)


FMTS = ["c", "f", "view", "strided", "csc", "rev", "revrows", "window", "csc"]
DENSE = [f for f in FMTS if f != "csc"]
