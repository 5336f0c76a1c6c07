"""The Python estimators (specification: spec/results.qnt, spec/prims.qnt)."""
import json, math, os, random, shutil, subprocess
import gen, vlib
from gen import INF
from fits import Book, meta
from vlib import bits, unbits, fx, run, BUILD, REPO, VERIF, ToolError

CLS = {("l1", False): "Lasso", ("en", False): "ElasticNet", ("mcp", False): "MCPRegressor",
       ("l1", True): "MultiTaskLasso", ("en", True): "MultiTaskElasticNet", ("mcp", True): "BlockMCPRegressor"}
PY = "/opt/vp/venv/bin/python"
XDENSE = ["c", "f", "list", "strided", "reversed", "readonly"]
XSPARSE = ["csc", "csr", "coo", "csc_unsorted", "csc_zeros", "csr_zeros"]


def build():
    """Builds the extension of the current tree into a private copy of the package."""
    tgt, pkg = os.path.join(BUILD, "pyext"), os.path.join(BUILD, "pypkg")
    env = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE="true", PYO3_PYTHON="/usr/bin/python3.12", RUSTFLAGS="-Awarnings",
               CARGO_PROFILE_DEV_DEBUG="0", CARGO_INCREMENTAL="0")
    r = run(["cargo", "build", "--offline", "--quiet", "-p", "sparseglmpy", "--features", "pyo3/abi3-py37"], cwd=REPO, env=env)
    if r.returncode != 0:
        raise ToolError("the Python extension does not build: " + r.stdout[-2000:])
    shutil.rmtree(pkg, ignore_errors=True)
    os.makedirs(pkg)
    shutil.copytree(os.path.join(REPO, "python", "sparseglm"), os.path.join(pkg, "sparseglm"),
                    ignore=shutil.ignore_patterns("*.so", "__pycache__", "tests"))
    shutil.copy(os.path.join(tgt, "debug", "libsparseglmpy.so"), os.path.join(pkg, "sparseglm", "_lib.abi3.so"))
    return pkg


def execute(pkg, ops):
    """Runs the calls, several interpreters at a time; a crashed interpreter is a result."""
    from concurrent.futures import ThreadPoolExecutor
    d = vlib.work()
    k = max(1, min(vlib.JOBS, len(ops) // 20 + 1))

    def chunk(a):
        i, todo = a
        res, part = {}, 0
        while todo:
            s, o = os.path.join(d, "py%d_%d.ops" % (i, part)), os.path.join(d, "py%d_%d.out" % (i, part))
            part += 1
            with open(s, "w") as f:
                for op in todo:
                    f.write(json.dumps(op) + "\n")
            open(o, "w").close()
            env = dict(os.environ, PYTHONPATH=pkg, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
                       PYTHONWARNINGS="ignore")
            err = open(os.path.join(d, "py%d.err" % i), "w")
            hung = False
            p = subprocess.Popen([PY, os.path.join(VERIF, "driver", "pydriver.py"), s, o], stdout=subprocess.DEVNULL, stderr=err, cwd=d, env=env)
            try:
                p.wait(timeout=240)
            except subprocess.TimeoutExpired:
                hung = True
                p.kill()
                p.wait()
            got = [json.loads(x) for x in open(o) if x.endswith("\n")]
            for r in got:
                res[r["id"]] = r
            rest = todo[len(got):]
            if not rest:
                break
            if not got and part == 1 and p.returncode != 0 and not hung and "Error" in open(err.name).read():
                # the package does not even import
                msg = open(err.name).read()[-300:]
                for op in rest:
                    res[op["id"]] = {"id": op["id"], "crash": msg}
                break
            res[rest[0]["id"]] = {"id": rest[0]["id"], "hang" if hung else "crash": p.returncode}
            todo = rest[1:]
            if hung or part > 50:
                for op in todo:
                    res[op["id"]] = {"id": op["id"], "skipped": "the calls before it did not return"}
                break
        return res
    out = {}
    with ThreadPoolExecutor(k) as ex:
        for r in ex.map(chunk, enumerate(ops[i::k] for i in range(k))):
            out.update(r)
    return out


class Both:
    """Calls of the Python side (py) and of the Rust side (rust) of one plan."""

    def __init__(self, ck):
        self.ck, self.book, self.py, self.n = ck, Book(ck), [], 0

    def add(self, op):
        op = dict(op, id="y%d" % self.n)
        self.n += 1
        self.py.append(op)
        return op["id"]


def F(v):
    return {"f": bits(v)}


def call(rng, I, c, xhow, yhow, xtype, ytype, ymat=None, defaults=False, **kw):
    k = {"alpha": F(I.real(I.a, "a"))}
    if I.pen == "en":
        k["l1_ratio"] = F(I.g)
    if I.pen == "mcp":
        k["gamma"] = F(I.real(I.g, "g") if I.g < INF else 3.0)
    if not defaults:
        k.update({"max_iter": c["it"], "max_epochs": c["ep"], "tol": F(I.real(c["tol"], "t")), "p0": c["ws"], "use_accel": c["acc"], "K": c["K"],
                  "verbose": c.get("verb", False)})
    d = {"op": "fit", "cls": CLS[(I.pen, I.block)], "n": I.n, "p": I.p, "T": I.T, "X": [bits(v) for r in I.realX() for v in r],
         "Y": [bits(v) for r in I.realY() for v in r], "xhow": xhow, "yhow": yhow, "xtype": xtype, "ytype": ytype, "ymat": I.block if ymat is None else ymat,
         "kw": k, "inf": I.pen == "mcp" and I.g == INF}
    d.update(kw)
    return d


def rowsof(r, I):
    """Coefficients as rows per feature, if the shape is the documented one."""
    want = [I.T, I.p] if I.block else [I.p]
    if r.get("shape") != want:
        return []
    w = [fx(I.spec(unbits(b), "w")) for b in r["w"]]
    if not I.block:
        return [[v] for v in w]
    return [w[j * I.T:(j + 1) * I.T] for j in range(I.p)]


def predof(r, I):
    want = [I.n, I.T] if I.block else [I.n]
    if r.get("pshape") != want:
        return []
    v = [fx(I.spec(unbits(b), "f")) for b in r["pred"]]
    return [[v[i * I.T + k] for i in range(I.n)] for k in range(I.T)]


def alike(a, b):
    x, y = [int(v[1:]) if isinstance(v, str) else v for r in a for v in r], [int(v[1:]) if isinstance(v, str) else v for r in b for v in r]
    return len(x) == len(y) and all(abs(p - q) <= 1e-9 * max([abs(v) for v in x] + [1e-3 * 2**120]) for p, q in zip(x, y))


def twins(I):
    """Proportional columns: after some passes rounding alone ranks one of them."""
    cols = [I.col(j) for j in range(I.p)]
    for a in range(I.p):
        for b in range(a):
            u, v = cols[a], cols[b]
            if any(u) and any(v) and all(u[i] * v[k] == u[k] * v[i] for i in range(I.n) for k in range(i)):
                return True
    return False


def related(rng, I, op, xhow):
    """A previous use of the estimator: data that share parts with the present ones."""
    ident = lambda m: list(range(m))
    mix = lambda m: rng.choice([ident(m), ident(m), ident(m)[::-1], rng.sample(range(m), m), [(i + 1) % m for i in range(m)]])
    kind = rng.choice(["same", "cols", "rows", "yrows", "any", "any", "shape", "moved", "moved"])
    rows, cols, ycols = ident(I.n), ident(I.p), ident(I.T)
    yrows = rows
    if kind == "cols":
        cols = mix(I.p)
    elif kind == "rows":
        rows = mix(I.n)
    elif kind == "yrows":
        yrows = mix(I.n)
    elif kind == "any":
        rows, cols, yrows = mix(I.n), mix(I.p), mix(I.n)
    elif kind == "shape":
        rows = [rng.randrange(I.n) for _ in range(rng.randint(1, I.n + 3))]
        yrows, cols = rows, [rng.randrange(I.p) for _ in range(rng.randint(1, I.p + 3))]
        ycols = [rng.randrange(I.T) for _ in range(rng.randint(1, I.T + 1))] if I.block else ycols
    kw = {}
    for k, v in op["kw"].items():
        if rng.random() < 0.2:
            kw[k] = {"alpha": lambda: F(unbits(v["f"]) * rng.choice([0.5, 2.0, 0.0])), "l1_ratio": lambda: F(rng.choice([0.0, 1.0, 0.5])),
                     "gamma": lambda: F(rng.choice([1.0, 3.0, 7.0])), "max_iter": lambda: rng.randint(0, 5), "max_epochs": lambda: rng.randint(0, 5),
                     "tol": lambda: F(rng.choice([0.0, 1e-3, 1.0])), "p0": lambda: rng.randint(1, 12), "use_accel": lambda: rng.random() < 0.5,
                     "K": lambda: rng.randint(1, 7), "verbose": lambda: False}[k]()
    if op["kw"].get("max_iter", 50) * op["kw"].get("max_epochs", 1000) > 10**5:
        # earlier fits need not converge
        kw.setdefault("max_iter", rng.randint(1, 20))
        kw.setdefault("max_epochs", rng.randint(1, 60))
    if kind == "moved":
        # the same entries, in the same order, at other places
        X = op["X"]
        vals = [X[i * I.p + j] for j in range(I.p) for i in range(I.n) if unbits(X[i * I.p + j]) != 0]
        at = sorted(rng.sample(range(I.n * I.p), len(vals)))
        new = [bits(0.0)] * (I.n * I.p)
        for a, v in zip(at, vals):
            new[(a % I.n) * I.p + a // I.n] = v
        return {"X": new, "rows": rows, "cols": cols, "yrows": yrows, "ycols": ycols, "sx": 1, "sy": 1, "kw": {k: kw[k] for k in ("max_iter", "max_epochs") if k in kw},
                "xhow": xhow, "predict": False}
    return {"rows": rows, "cols": cols, "yrows": yrows, "ycols": ycols, "sx": rng.choice([1, 1, 1, -1, 2]), "sy": rng.choice([1, 1, 1, -1, 2]), "kw": kw,
            "xhow": rng.choice([xhow, xhow, "f", "csc", "c"]), "predict": rng.random() < 0.4}


def fitsplan(rng, B, count):
    for k in range(count):
        ints = rng.random() < 0.3
        small = rng.random() < 0.5
        I = gen.instance(rng, nmax=12, pmax=12, df="quad", pens=("l1", "en", "mcp"), tmax=3, kind="ints" if ints else None, unit=0)
        if ints:
            I.Y = [[float(round(v)) for v in r] for r in I.Y]
        am = I.alpha_max()
        if am > 0 and I.a < 0.02 * am:
            I.a = gen.q(0.02 * am) or I.a
        defaults = rng.random() < 0.15
        if defaults:
            c = gen.cfg(ws=10, it=50, ep=1000, tol=1e-9, K=5, acc=True)
        elif small:
            c = gen.config(rng, I.p)
            c["tol"] = rng.choice([1e-3, 1e-6, 1e-8, 0.0])
            if rng.random() < 0.25:
                # small budgets that a tolerance far below the default still ends
                c["tol"] = rng.choice([1e-10, 1e-12, 1e-9, 1e-7])
                c["ep"], c["it"], c["ws"] = rng.choice([200, 1000]), rng.choice([5, 20, 100]), rng.choice([1, 2, I.p])
            if rng.random() < 0.6:
                c["acc"] = False
        else:
            c = gen.cfg(ws=rng.choice([1, 2, I.p, I.p + 4, 10]), it=2000, ep=3000, tol=rng.choice([1e-5, 1e-8, 1e-10]), K=rng.choice([1, 3, 5, I.p + 2]),
                        acc=rng.random() < 0.6)
        if not small and not defaults:
            # out of reach of rounding otherwise
            top = max(sum(abs(I.X[i][j]) * max(map(abs, I.Y[i])) for i in range(I.n)) for j in range(I.p)) / I.n
            c["tol"] *= max(1.0, 2.0 ** math.ceil(math.log2(top or 1.0)))
        xtype = rng.choice(["float64", "float64", "float32"] + (["int64", "int32", "int64"] if ints else []))
        ytype = rng.choice(["float64", "float64", "float32"] + (["int64", "int32"] if ints else []))
        if xtype == ytype == "float64" and not ints:
            I.fine(rng)
        if xtype == ytype == "float64" and not defaults:
            I.units(rng, 150)
            if not I.est_ok():
                I.units(rng, 0)
        xhow = rng.choice(XDENSE + XSPARSE + XSPARSE)
        yhow = rng.choice(["c", "f", "list", "strided", "reversed"])
        one = call(rng, I, c, xhow, yhow, xtype, ytype, defaults=defaults, times=rng.choice([1, 1, 2]))
        if rng.random() < 0.5:
            one["history"] = [related(rng, I, one, xhow) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        i = B.add(one)
        j = B.book.fit(I, c, "csc" if xhow in XSPARSE else "f", "est", None, ymat=True)
        j2 = [B.book.fit(I, c, "c" if xhow in XSPARSE else "csc", "est", random.Random(k), ymat=True),
              B.book.fit(I, c, "csc", "est", random.Random(k + 1), ymat=True)]
        m = meta(I, c, xhow, "python", y=yhow, xtype=xtype, ytype=ytype, defaults=defaults)
        conv = not small and not defaults

        def mk(rs, I=I, c=c, conv=conv):
            r, q = rs[:2]
            w = rowsof(r, I)
            u = I.wmat(q) or []
            others = [I.wmat(x) or [] for x in rs[2:]]
            evs = [["Sane", {"P": I.rec(), "w": w}],
                   ["Holds", {"ok": bool(r["same"]), "what": "inputs left as they were"}],
                   ["Holds", {"ok": bool(r["self"]) and r["dtype"] == "float64", "what": "fit returns the estimator, coefficients are doubles"}],
                   ["Predicted", {"P": I.rec(), "w": w, "got": predof(r, I), "rel": fx(1e-9)}]]
            if "fresh" in r:
                evs.append(["Same", {"a": ["#%d" % v for v in r["w"]], "b": ["#%d" % v for v in r["fresh"]]}])
            if (not c["acc"] or c["K"] >= c["ep"]) and (c["it"] <= 1 or not twins(I)) and all(alike(u, v) for v in others):
                # nothing amplifies rounding: the Rust estimator returns the same coefficients
                # (unless those depend on the storage already: ties that rounding decides)
                evs.append(["Close", {"a": u, "b": w, "abs": fx(1e-10), "rel": fx(1e-9)}])
            if conv:
                evs.append(["Cert", {"P": I.rec(), "w": w, "tol": fx(c["tol"]), "eps": fx(1e-12)}])
            return evs
        B.book.then("python", [i, j] + j2, mk, m)


def refusals(rng, B, count):
    """Invalid hyperparameters, targets and calls must raise; each valid one is accepted."""
    for k in range(count):
        pen, block = rng.choice(sorted(CLS))
        I = gen.instance(rng, nmax=6, pmax=6, df="quad", pens=(pen,), multi=block, tmax=3, unit=0)
        I.block = block
        if pen == "mcp":
            I.g = rng.choice([1.0, 3.0, INF])
        if pen == "en":
            I.g = rng.choice([0.0, 1.0, 0.5])
        I.a = rng.choice([I.a, 0.0])
        c = gen.cfg(ws=rng.choice([1, 3]), it=rng.choice([0, 1, 2]), ep=rng.choice([0, 1, 3]), tol=rng.choice([0.0, 1e-6]), K=rng.choice([1, 4]), acc=True)
        what = rng.choice(["ok", "alpha", "tol", "K0", "Kneg", "p0", "p0neg", "extra", "iter", "epochs", "first", "alphatype", "samples", "samples", "finite"] + (["y1d"] if block else []))
        good = call(rng, I, c, rng.choice(["c", "f", "csc"]), "f", "float64", "float64")
        op = json.loads(json.dumps(good))
        kw = op["kw"]
        if what == "alpha":
            kw["alpha"] = F(rng.choice([-1.0, -1e-9]))
        elif what == "tol":
            kw["tol"] = F(rng.choice([-1.0, -1e-12]))
        elif what in ("K0", "Kneg"):
            kw["K"] = 0 if what == "K0" else -1
        elif what in ("p0", "p0neg"):
            kw["p0"] = 0 if what == "p0" else -2
        elif what == "extra":
            if pen == "l1":
                what = "ok"
            elif pen == "en":
                kw["l1_ratio"] = F(rng.choice([-0.5, 1.5, 1.0 + 1e-9, -1e-9]))
            else:
                kw["gamma"] = F(rng.choice([0.5, 0.0, -1.0, 1 - 1e-9]))
                op["inf"] = False
        elif what == "iter":
            kw["max_iter"] = -1
        elif what == "epochs":
            kw["max_epochs"] = -3
        elif what == "alphatype":
            kw["alpha"] = "much"
        elif what == "first":
            op["what"] = "predict_first"
        elif what == "samples":
            # fewer or more targets than rows of the design
            m = rng.choice([k for k in (I.n - 1, I.n + 1, 2 * I.n, I.n + 3) if k > 0])
            op["yn"], op["Y"] = m, (op["Y"] * (m // I.n + 1))[:m * I.T]
        elif what == "finite":
            a = rng.choice(["X", "Y"])
            op[a] = list(op[a])
            op[a][rng.randrange(len(op[a]))] = bits(rng.choice([math.nan, INF, -INF]))
        elif what == "y1d":
            op["ymat"] = False
        i = B.add(op)
        m = meta(I, c, op["xhow"], "python", refused=what, call={"cls": op["cls"], "kw": {k: unbits(v["f"]) if isinstance(v, dict) else v for k, v in kw.items()}})
        if what == "ok":
            B.book.then("accepted", [i], lambda rs, I=I: [["Sane", {"P": I.rec(), "w": rowsof(rs[0], I)}]], m)
        elif what == "first":
            B.book.then("predict-first", [i], lambda rs: [["MustFail", {"failed": "err" in rs[0] and bool(rs[0]["plain"]), "what": "predict before fit"}]], m, True)
        else:
            B.book.then("refused", [i], lambda rs, what=what: [["MustFail", {"failed": "err" in rs[0] and bool(rs[0]["valueerror"]),
                                                                            "what": "ValueError for " + what}]], m, True)


def lineages(ck, rng, B, count):
    """Python fits at growing budgets, for the reference machine (spec/trace.qnt)."""
    import c06
    items, _ = c06.make(ck, rng, count, None, pens=("l1", "en", "mcp"), df="quad", gamma_lo=1.0, mix=0.4)
    out = []
    for (k, I, c, bs, fmt, api) in items:
        if not I.est_ok():
            I.units(rng, 0)
        xhow, yhow = rng.choice(XDENSE + XSPARSE), rng.choice(["c", "f"])
        ids = [B.add(call(rng, I, dict(c, it=t, ep=e), xhow, yhow, "float64", "float64")) for t, e in bs]
        out.append(((k, I, c, bs, xhow, "python"), ids))
    return out


def lineage_results(items, res):
    new = {}
    for ((k, I, c, bs, fmt, api), ids) in items:
        for (t, e), i in zip(bs, ids):
            r = dict(res[i])
            want = [I.T, I.p] if I.block else [I.p]
            if "w" in r and r["shape"] == want:
                r["shape"] = [I.p, I.T]
            new["%d/%d/%d" % (k, t, e)] = r
    return [a for a, _ in items], new


def helpers(ck, rng, B, count):
    """The Python helpers: maximal regularization and generated data."""
    b = Book(ck)
    for k in range(count):
        I = gen.instance(rng, nmax=9, pmax=8, df="quad", pens=("l1",), tmax=4)
        i = B.add({"op": "amax", "n": I.n, "p": I.p, "T": I.T, "X": [bits(v) for r in I.realX() for v in r], "Y": [bits(v) for r in I.realY() for v in r],
                   "ymat": I.T > 1 or rng.random() < 0.5, "xhow": rng.choice(["c", "f", "strided"])})
        b.then("py-amax", [i], lambda rs, I=I: [["AMax", {"P": I.rec(), "got": fx(I.spec(unbits(rs[0]["u"]), "a")), "eps": fx(1e-12)}]], {"problem": I.describe()})
    return b


def mrec(m):
    return [[fx(unbits(v)) for v in r] for r in m]


def generated(ck, rng, count):
    """C26: generated problems, refused requests, maximal regularization, sums of squares."""
    b = Book(ck)
    for k in range(count):
        n, p, T = rng.randint(1, 9), rng.choice([1, 2, 3, 5, 8, 13]), rng.choice([1, 1, 1, 2, 3])
        den = rng.choice([1, 2, 4, 8, 16])
        num = rng.randint(1, den)
        snr = rng.choice([INF, 3.0, 1.0, 0.25, 10.0, gen.q(rng.uniform(0.1, 20))])
        corr = rng.choice([0.0, 0.0, 0.6, 0.5, 0.99, 2.0**-8, 1 - 2.0**-20, gen.q(rng.random() * 0.99)])
        given = rng.random() < 0.35
        op = {"op": "data", "n": n, "p": p, "T": T, "corr": bits(corr), "density": bits(num / den), "snr": bits(snr), "seed": rng.choice([0, 1, rng.randrange(10**6)]),
              "how": rng.choice(["int", "instance"])}
        w0 = []
        if given:
            w0 = [[gen.q(rng.gauss(0, 1)) if rng.random() < 0.6 else 0.0 for _ in range(T)] for _ in range(p)]
            op["w0"] = [bits(v) for r in w0 for v in r]
            op["w0shape"] = rng.choice([[p], [p, 1]]) if T == 1 else [p, T]
        bad = None if rng.random() < 0.85 else rng.choice(["corr", "density"])
        if bad == "corr":
            op["corr"] = bits(rng.choice([1.0, 1.5, -0.1, -2.0**-30, 7.0]))
        if bad == "density":
            op["density"] = bits(rng.choice([0.0, -0.5, 1.0 + 2.0**-30, 2.0]))
        i = b.add(op)
        m = {"call": {k: (unbits(v) if k in ("corr", "density", "snr") else v) for k, v in op.items()}}
        if bad:
            b.then("data-refused", [i], lambda rs, bad=bad: [["Refused", {"failed": "err" in rs[0] and bool(rs[0]["valueerror"]), "what": "ValueError for " + bad}]], m, True)
            continue

        def mk(rs, n=n, p=p, T=T, num=num, den=den, snr=snr, given=given, w0=w0):
            r = rs[0]
            return [["Generated", {"n": n, "p": p, "t": T, "xs": r["xs"], "ys": r["ys"], "ws": r["ws"], "x": mrec(r["x"]), "w": mrec(r["w"]), "y": mrec(r["y"]),
                                   "num": num, "den": den, "snr": fx(snr), "given": given, "w0": [[fx(v) for v in q] for q in w0], "again": r["again"],
                                   "intact": r["intact"], "eps": fx(1e-13)}]]
        b.then("data", [i], mk, m)
        # another seed gives other numbers
        if n * p > 1 and rng.random() < 0.3:
            j = b.add(dict(op, seed=op["seed"] + 1 + rng.randrange(9)))
            def two(rs, snr=snr, n=n, T=T):
                evs = [["Differ", {"a": [v for c in mrec(rs[0]["x"]) for v in c], "b": [v for c in mrec(rs[1]["x"]) for v in c]}]]
                if snr < INF and n * T >= 3:
                    evs.append(["Noises", {"n": n, "t": T, "runs": [{"x": mrec(r["x"]), "w": mrec(r["w"]), "y": mrec(r["y"])} for r in rs]}])
                return evs
            b.then("seeds", [i, j], two, m)
    for k in range(max(6, count // 60)):
        # statistics of long columns: seven standard deviations
        rho = rng.choice([0.0, 0.6, 0.9, 0.3])
        i = b.add({"op": "data", "n": 1500, "p": 5, "T": 1, "corr": bits(rho), "density": bits(1.0), "snr": bits(1.0), "seed": rng.randrange(10**6)})

        def mk(rs, rho=rho):
            r = rs[0]
            return [["Moments", {"cols": mrec(r["x"]), "rho": fx(rho), "k": 7}]]
        b.then("moments", [i], mk, {"n": 1500, "p": 5, "corr": rho})
        i = b.add({"op": "data", "n": 700, "p": 3, "T": 2, "corr": bits(rho), "density": bits(1.0), "snr": bits(1.0), "seed": rng.randrange(10**6)})
        b.then("noise", [i], lambda rs: [["NoiseOf", {"n": 700, "t": 2, "one": {"x": mrec(rs[0]["x"]), "w": mrec(rs[0]["w"]), "y": mrec(rs[0]["y"])}, "k": 7}]],
               {"n": 700, "p": 3, "T": 2, "corr": rho})
        i = b.add({"op": "data", "n": 1, "p": 1600, "T": 2, "corr": bits(0.5), "density": bits(0.5), "snr": bits(INF), "seed": rng.randrange(10**6)})
        j = b.add({"op": "data", "n": 1, "p": 1600, "T": 2, "corr": bits(0.5), "density": bits(0.5), "snr": bits(INF), "seed": rng.randrange(10**6)})

        def mkw(rs):
            ws = [mrec(r["w"]) for r in rs]
            sup = [[1 if any(int(v[1:]) for v in q) else 0 for q in w] for w in ws]
            cols = [[q[t] for q in ws[0] if any(int(v[1:]) for v in q)] for t in range(2)]
            return [["Moments", {"cols": cols, "rho": fx(0.0), "k": 7}], ["Differ", {"a": sup[0], "b": sup[1]}]]
        b.then("coefficients", [i, j], mkw, {"p": 1600, "T": 2})
    for k in range(count // 2):
        I = gen.instance(rng, nmax=9, pmax=8, df="quad", pens=("l1",), tmax=4)
        i = b.add({"op": "amax", "n": I.n, "p": I.p, "T": I.T, "X": [bits(v) for r in I.realX() for v in r], "Y": [bits(v) for r in I.realY() for v in r],
                   "ymat": I.T > 1 or rng.random() < 0.5, "xhow": rng.choice(["c", "f", "strided", "reversed", "readonly"] + XSPARSE),
                   "yhow": rng.choice(["c", "f", "strided", "reversed"])})
        b.then("py-amax", [i], lambda rs, I=I: [["AMax", {"P": I.rec(), "got": fx(I.spec(unbits(rs[0]["u"]), "a")), "eps": fx(1e-12)}]]
               + ([] if rs[0]["same"] else [["Fail", {"what": "modified its inputs"}]]), {"problem": I.describe()})
        shape = rng.choice([[rng.randint(1, 6)], [rng.randint(1, 5), rng.randint(1, 5)]])
        x = [gen.q(rng.gauss(0, 1) * 2.0 ** rng.randint(-8, 8)) for _ in range(math.prod(shape))]
        i = b.add({"op": "sumsq", "shape": shape, "X": [bits(v) for v in x], "xhow": rng.choice(["c", "f", "strided", "reversed", "readonly"])})
        b.then("sumsq", [i], lambda rs, x=x: [["SumSq", {"x": [fx(v) for v in x], "got": fx(unbits(rs[0]["u"])), "eps": fx(1e-13)}]]
               + ([] if rs[0]["same"] else [["Fail", {"what": "modified its inputs"}]]), {"shape": shape, "x": x})
    return b
