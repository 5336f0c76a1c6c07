// Hyperparameter sets: defaults, setters, validation. Pure definitions shared by the generator of
// histories (paramgen) and by the validation of what the implementation did (paramtrace).
module params {
  import fx.* from "./fx"

  // extra: mixing ratio or gamma; acc, verb: 0 or 1; alpha, extra, tol are fixed-point numbers
  type Hyp = { alpha: int, extra: int, it: int, ep: int, ws: int, tol: int, K: int, acc: int, verb: int }
  type Call = { k: str, v: int }
  type Verdict = { ok: bool, label: str, v: int }

  pure def hasRatio(est: str): bool = est == "en" or est == "ben"
  pure def hasGamma(est: str): bool = est == "mcp" or est == "bmcp"
  pure def defaults(est: str): Hyp = {
    alpha: ONE, extra: if (hasRatio(est)) ONE / 2 else if (hasGamma(est)) 3 * ONE else ONE,
    it: 50, ep: 1000, ws: 10, tol: ONE / (if (est == "solver") 10^8 else 10^6), K: 5, acc: 1, verb: 1 }
  pure def apply(est: str, h: Hyp, c: Call): Hyp =
    if (c.k == "alpha") { ...h, alpha: c.v, extra: if (hasRatio(est) or hasGamma(est)) h.extra else c.v }
    else if (c.k == "extra") { ...h, extra: c.v }
    else if (c.k == "max_iterations") { ...h, it: c.v }
    else if (c.k == "max_epochs") { ...h, ep: c.v }
    else if (c.k == "ws_start_size") { ...h, ws: c.v }
    else if (c.k == "tolerance") { ...h, tol: c.v }
    else if (c.k == "K") { ...h, K: c.v }
    else if (c.k == "use_acceleration") { ...h, acc: c.v }
    else { ...h, verb: c.v }
  // the first offending hyperparameter and its value
  // (a raw solver accepts anything)
  pure def verdict(est: str, h: Hyp): Verdict =
    if (est == "solver") { ok: true, label: "", v: 0 }
    else if (h.alpha < 0) { ok: false, label: "InvalidRegularization", v: h.alpha }
    else if (hasRatio(est) and (h.extra < 0 or h.extra > ONE)) { ok: false, label: "InvalidL1Ratio", v: h.extra }
    else if (hasGamma(est) and h.extra < ONE) { ok: false, label: "InvalidGamma", v: h.extra }
    else if (h.tol < 0) { ok: false, label: "InvalidTolerance", v: h.tol }
    else if (h.K == 0) { ok: false, label: "InvalidK", v: 0 }
    else if (h.ws == 0) { ok: false, label: "InvalidWSSize", v: 0 }
    else { ok: true, label: "", v: 0 }
  pure def valid(est: str, h: Hyp): bool = est == "solver" or and {
    h.alpha >= 0, h.tol >= 0, h.K >= 1, h.ws >= 1,
    not(hasRatio(est)) or (0 <= h.extra and h.extra <= ONE),
    not(hasGamma(est)) or h.extra >= ONE }
  // value read back for a setter
  pure def read(h: Hyp, k: str): int =
    if (k == "alpha") h.alpha else if (k == "extra") h.extra else if (k == "max_iterations") h.it
    else if (k == "max_epochs") h.ep else if (k == "ws_start_size") h.ws else if (k == "tolerance") h.tol
    else if (k == "K") h.K else if (k == "use_acceleration") h.acc else h.verb
}
