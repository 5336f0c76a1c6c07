"""Runs scripted calls of the Python estimators. It judges nothing.

    PYTHONPATH=<directory of the package> python pydriver.py OPS.jsonl OUT.jsonl
"""
import json, struct, sys
import numpy as np
import scipy.sparse as sp

import sparseglm.estimators as E
import sparseglm.utils as U


def unbits(b):
    return struct.unpack("<d", struct.pack("<Q", b))[0]


def bits(x):
    return struct.unpack("<Q", struct.pack("<d", float(x)))[0]


def arr(v, shape):
    return np.array([unbits(b) for b in v], dtype=np.float64).reshape(shape)


def dress(a, how, dtype):
    """The same numbers in another container, layout or numeric type."""
    a = a.astype(dtype)
    if how == "c":
        return np.ascontiguousarray(a)
    if how == "f":
        return np.asfortranarray(a)
    if how == "list":
        return a.tolist()
    if how == "strided":
        big = np.full(tuple(2 * k + 1 for k in a.shape), 77, dtype=a.dtype)
        v = big[tuple(slice(0, 2 * k, 2) for k in a.shape)]
        v[...] = a
        return v
    if how == "reversed":
        return np.ascontiguousarray(a[::-1])[::-1]
    if how == "readonly":
        a = np.asfortranarray(a)
        a.setflags(write=False)
        return a
    if how in ("csc", "csr", "coo", "lil"):
        return {"csc": sp.csc_matrix, "csr": sp.csr_matrix, "coo": sp.coo_matrix, "lil": sp.lil_matrix}[how](a)
    if how in ("csc_zeros", "csr_zeros"):
        # some of the zeros are stored
        keep = (a != 0) | (np.arange(a.size).reshape(a.shape) % 3 == 0)
        i, j = np.nonzero(keep)
        m = sp.coo_matrix((a[i, j], (i, j)), shape=a.shape)
        return m.tocsc() if how == "csc_zeros" else m.tocsr()
    if how == "csc_unsorted":
        m = sp.csc_matrix(a)
        for j in range(m.shape[1]):
            s = slice(m.indptr[j], m.indptr[j + 1])
            m.indices[s] = m.indices[s][::-1].copy()
            m.data[s] = m.data[s][::-1].copy()
        m.has_sorted_indices = False
        return m
    raise KeyError(how)


def snapshot(x):
    if sp.issparse(x):
        c = x.tocoo(copy=True)
        # the arrays themselves too: nothing moves inside the matrix of the caller
        parts = [np.asarray(getattr(x, k)).tobytes() for k in ("data", "indices", "indptr", "row", "col", "offsets") if hasattr(x, k)]
        return x.toarray().tobytes(), x.format, str(x.dtype), x.nnz, sorted(zip(c.row.tolist(), c.col.tolist())), parts
    if isinstance(x, list):
        return repr(x)
    return np.array(x).tobytes(), str(x.dtype), x.shape, x.strides, bool(x.flags.writeable)


def fit(op):
    X = dress(arr(op["X"], (op["n"], op["p"])), op["xhow"], op["xtype"])
    Y = arr(op["Y"], (op.get("yn", op["n"]), op["T"]))
    y = dress(Y if op["ymat"] else Y[:, 0], op["yhow"], op["ytype"])
    before = snapshot(X), snapshot(y)
    kw = {k: (unbits(v["f"]) if isinstance(v, dict) else v) for k, v in op["kw"].items()}
    if op.get("inf") and "gamma" in kw:
        kw["gamma"] = np.inf
    e = getattr(E, op["cls"])(**kw)
    if op.get("what") == "predict_first":
        e.predict(X)
        return {"w": []}
    r = e
    for h in op.get("history", []):
        # the estimator was used before: on related data, with other settings
        e.set_params(**{k: (unbits(v["f"]) if isinstance(v, dict) else v) for k, v in h["kw"].items()})
        Z = dress(arr(h.get("X", op["X"]), (op["n"], op["p"]))[np.ix_(h["rows"], h["cols"])] * h["sx"], h["xhow"], op["xtype"])
        V = Y[h["yrows"]][:, h["ycols"]] * h["sy"]
        e.fit(Z, dress(V if op["ymat"] else V[:, 0], op["yhow"], op["ytype"]))
        if h["predict"]:
            e.predict(Z if not isinstance(Z, list) else np.array(Z))
        e.set_params(**kw)
    for _ in range(op.get("times", 1)):
        r = e.fit(X, y)
    c = np.asarray(e.coef_)
    out = {"shape": list(c.shape), "w": [bits(v) for v in np.ravel(c.T, order="C")], "dtype": str(c.dtype), "self": r is e,
           "same": (snapshot(X), snapshot(y)) == before}
    if op.get("history"):
        f = np.asarray(getattr(E, op["cls"])(**kw).fit(X, y).coef_)
        out["fresh"] = [bits(v) for v in np.ravel(f.T, order="C")]
    Z = X if not isinstance(X, list) else np.array(X)
    pr = e.predict(Z)
    pr = np.asarray(pr.todense() if sp.issparse(pr) else pr)
    out["pshape"] = list(pr.shape)
    out["pred"] = [bits(v) for v in np.ravel(pr, order="C")]
    return out


def amax(op):
    X = dress(arr(op["X"], (op["n"], op["p"])), op["xhow"], op.get("xtype", "float64"))
    Y = arr(op["Y"], (op["n"], op["T"]))
    Y = dress(Y if op["ymat"] else Y[:, 0], op.get("yhow", "c"), "float64")
    before = snapshot(X), snapshot(Y)
    u = U.compute_alpha_max(X, Y)
    return {"u": bits(u), "same": (snapshot(X), snapshot(Y)) == before}


def sumsq(op):
    X = dress(arr(op["X"], tuple(op["shape"])), op["xhow"], "float64")
    before = snapshot(X)
    u = U.sum_squared(X)
    return {"u": bits(u), "same": snapshot(X) == before}


def data(op):
    k = dict(n_samples=op["n"], n_features=op["p"], n_tasks=op["T"], corr=unbits(op["corr"]), density=unbits(op["density"]), snr=unbits(op["snr"]))
    w0 = None
    if op.get("w0") is not None:
        w0 = arr(op["w0"], tuple(op["w0shape"]))
        k["w_true"] = w0
    before = None if w0 is None else snapshot(w0)
    seed = op["seed"]
    how = lambda: np.random.RandomState(seed) if op.get("how") == "instance" else seed
    X, y, w = U.make_correlated_data(random_state=how(), **k)
    X2, y2, w2 = U.make_correlated_data(random_state=seed, **k)
    same = all(np.array_equal(a, b) for a, b in ((X, X2), (y, y2), (w, w2)))
    W = np.asarray(w).reshape(op["p"], -1) if np.size(w) == op["p"] * op["T"] else np.zeros((0, 0))
    Y = np.asarray(y).reshape(op["n"], -1) if np.size(y) == op["n"] * op["T"] else np.zeros((0, 0))
    return {"xs": list(np.shape(X)), "ys": list(np.shape(y)), "ws": list(np.shape(w)), "again": bool(same),
            "intact": w0 is None or snapshot(w0) == before,
            "x": [[bits(v) for v in c] for c in X.T], "w": [[bits(v) for v in r] for r in W], "y": [[bits(v) for v in c] for c in Y.T]}


def main():
    ops, out = sys.argv[1:]
    with open(out, "w") as f:
        for line in open(ops):
            op = json.loads(line)
            try:
                r = {"fit": fit, "amax": amax, "data": data, "sumsq": sumsq}[op["op"]](op)
            except BaseException as e:
                r = {"err": type(e).__name__, "valueerror": isinstance(e, ValueError), "plain": isinstance(e, Exception), "text": str(e)[:300]}
            r["id"] = op["id"]
            f.write(json.dumps(r) + "\n")
            f.flush()


main()
