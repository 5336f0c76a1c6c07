"""Sessions of fits on shared objects (histories: spec/sessiongen.qnt; verdicts: spec/session.qnt)."""
import json, os, random
import gen
from vlib import bits, quint_run, work


def histories(count, seed):
    d = work()
    ok, text = quint_run("sessiongen.qnt", ["fresh"], count, 12, seed, witnesses=["wReuse"],
                         itf=os.path.join(d, "sg_{seq}.itf.json"), n_traces=count)
    out = []
    num = lambda v: int(v["#bigint"]) if isinstance(v, dict) else v
    for f in sorted(os.listdir(d)):
        if f.startswith("sg_") and f.endswith(".itf.json"):
            st = json.load(open(os.path.join(d, f)))["states"][-1]
            out.append([(num(h["#tup"][0]), num(h["#tup"][1])) for h in st["hist"]])
    return ok, text, out


def dataset(rng, df, multi, T=None):
    I = gen.instance(rng, nmax=9, pmax=9, df=df, multi=multi, pens=("l1",), tmax=3, unit=0)
    d = I.data(rng.choice(gen.FMTS), random.Random(rng.random()))
    d["ymat"] = True
    return I, d


def plan(rng, hist):
    """Four objects and four data sets per history; every pair is also run on fresh objects."""
    ops, items = [], []
    for k, h in enumerate(hist):
        df = rng.choice(["quad", "quad", "quad", "logit", "mt", "mt", "mt"])
        multi = df == "mt"
        ds = [dataset(rng, "logit" if df == "logit" else "quad", multi) for _ in range(4)]
        if rng.random() < 0.4:
            # same shape, other values: stale quantities would go unnoticed by shapes
            J = ds[0][0].copy(X=[[v * 2 + 1 for v in r] for r in ds[0][0].X])
            d = J.data(ds[0][1]["fmt"], random.Random(k))
            d["ymat"] = True
            ds[1] = (J, d)
        if rng.random() < 0.3:
            # same design, other targets
            J = ds[0][0].copy(Y=[[-v for v in r] for r in reversed(ds[0][0].Y)])
            d = J.data(ds[0][1]["fmt"], random.Random(k))
            d["ymat"] = True
            ds[2] = (J, d)
        objs = []
        for o in range(4):
            pen = rng.choice(["l1", "en", "mcp", "l05"] if df != "mt" else ["l1", "en", "mcp"])
            c = gen.config(rng, 6, it=rng.choice([1, 2, 5, 50]), ep=rng.choice([1, 3, 7, 100]))
            c["tol"] = rng.choice([1e-4, 1e-8])
            a = rng.choice([0.01, 0.05, 0.2])
            kind = "solver" if pen == "l05" or df == "logit" or rng.random() < 0.5 else "est"
            nm = gen.BLOCK.get(pen, pen) if multi else pen
            objs.append({"kind": kind, "pen": [nm, bits(a), bits(0.5 if pen == "en" else 3.0)], "df": df,
                         "cfg": {"ws": c["ws"], "it": c["it"], "ep": c["ep"], "tol": bits(c["tol"]), "K": c["K"], "acc": c["acc"], "verb": False}})
        # two objects with one configuration: independent histories, same answers
        objs[3] = dict(objs[0])
        conf = [0, 1, 2, 0]
        ops.append({"id": "h%d" % k, "op": "session", "datasets": [d for _, d in ds], "objs": objs, "acts": [list(a) for a in h], "f32": False})
        fresh = sorted(set(h))
        for (o, d) in fresh:
            ops.append({"id": "h%d/%d/%d" % (k, o, d), "op": "session", "datasets": [ds[d][1]], "objs": [objs[o]], "acts": [[0, 0]], "f32": False})
        items.append((k, h, conf, fresh, objs, ds))
    return ops, items


def jobs(items, res):
    js = []

    def act(o, c, d, r):
        b = ["#%d" % x for x in r["w"]] + ["#%d" % x for x in r["shape"]] if "w" in r else []
        return {"o": o, "c": c, "d": d, "bits": b, "failed": "" if "w" in r else str({a: v for a, v in r.items()})[:120]}
    for (k, h, conf, fresh, objs, ds) in items:
        r = res["h%d" % k]
        meta = {"history": h, "objects": objs, "data": [I.describe() for I, _ in ds], "fmts": [d["fmt"] for _, d in ds]}
        if "results" not in r:
            acts = [act(0, 0, 0, r)]
            same = False
        else:
            acts, same = [], bool(r["same"])
            for (o, d) in fresh:
                q = res["h%d/%d/%d" % (k, o, d)]
                q = q["results"][0] if "results" in q else q
                acts.append(act(10 + o, conf[o], d, q))
            for (o, d), q in zip(h, r["results"]):
                acts.append(act(o, conf[o], d, q))
                if "same" in q and not q["same"]:
                    same = False
        js.append({"id": "session#%d" % k, "meta": meta, "vars": {"acts": acts, "l": 0, "memo": {"#map": []}, "intact": same, "busy": {"#map": []}}})
    return js
