"""Behaviours explored in the specification (spec/explore.qnt): invariants in every state met, and
the problems and configurations of the behaviours found, replayed against the real code."""
import glob, json, os, re
import gen
from gen import Inst, INF
from vlib import ONE, quint_run, work, ToolError

INVS = ["fitConsistent", "descent", "belowNull", "wsLawful", "wsConfines", "zeroColumns", "doneMeansOptimal", "strictAccept", "inBudget"]
WITS = ["wTook", "wDone", "wGrow", "wStop", "wZero"]


def num(v):
    if isinstance(v, dict):
        return int(v["#bigint"])
    return int(v)


def fl(v):
    v = num(v)
    return INF if v > 1 << 1500 else v / ONE


def instance(st):
    P, c = st["prob"], st["cfg"]
    n, p, T = num(P["n"]), num(P["p"]), num(P["t"])
    X = [[fl(P["x"][j][i]) for j in range(p)] for i in range(n)]
    Y = [[fl(P["y"][k][i]) for k in range(T)] for i in range(n)]
    I = Inst(X, Y, P["df"], P["pen"], fl(P["a"]), fl(P["g"]))
    I.kind = "explored"
    cfg = {"ws": num(c["ws"]), "it": num(c["it"]), "ep": num(c["ep"]), "tol": fl(c["tol"]), "K": num(c["K"]), "acc": bool(c["acc"]), "verb": False}
    return I, cfg


def explore(samples, steps, seed, n_traces, init="init"):
    """(statistics, [(Inst, cfg)])"""
    d = os.path.join(work(), "explore")
    os.makedirs(d, exist_ok=True)
    ok, text = quint_run("explore.qnt", INVS, samples, steps, seed, witnesses=WITS, itf=os.path.join(d, "x_{seq}.itf.json"), n_traces=n_traces, extra=("--init=" + init,))
    if not ok:
        raise ToolError("the specification violates its own invariants:\n" + text[-3000:])
    found, states, edges = [], 0, 0
    for f in sorted(glob.glob(os.path.join(d, "x_*.itf.json"))):
        ss = json.load(open(f))["states"]
        states += len(ss)
        edges += len(ss) - 1
        found.append(instance(ss[0]))
    wit = {m.group(1): int(m.group(2)) for m in re.finditer(r"(\w+) was witnessed in (\d+) trace", text)}
    m = re.search(r"average=([0-9.]+)", text)
    return {"samples": samples, "steps": steps, "states": int(float(m.group(1)) * samples) if m else states, "invariants": INVS, "witnessed": wit,
            "replayed": len(found)}, found
