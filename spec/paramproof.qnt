// Setter histories of any length, for arbitrary values: an inductive proof (Apalache) that every
// setter is remembered, that none touches another hyperparameter, and that validation names an
// offending hyperparameter exactly when there is one. `key` is an arbitrary, fixed setter.
module paramproof {
  import fx.* from "./fx"
  import params.* from "./params"

  var est: str
  var key: str
  var given: bool
  var lastV: int              // last value given to `key`
  var alpha: int
  var extra: int
  var its: int
  var eps: int
  var wss: int
  var tol: int
  var K: int
  var acc: int
  var verb: int
  pure val KEYS = Set("alpha", "extra", "max_iterations", "max_epochs", "ws_start_size", "tolerance", "K", "use_acceleration", "verbose")
  pure val ESTS = Set("l1", "en", "mcp", "l21", "ben", "bmcp", "solver")
  pure def ownExtra(e: str): bool = hasRatio(e) or hasGamma(e)
  val h: Hyp = { alpha: alpha, extra: extra, it: its, ep: eps, ws: wss, tol: tol, K: K, acc: acc, verb: verb }
  action keepAs(x: Hyp): bool = all {
    alpha' = x.alpha, extra' = x.extra, its' = x.it, eps' = x.ep, wss' = x.ws, tol' = x.tol, K' = x.K, acc' = x.acc, verb' = x.verb }
  action init = {
    nondet e = ESTS.oneOf()
    nondet k = KEYS.oneOf()
    all { est' = e, key' = k, given' = false, lastV' = 0, keepAs(defaults(e)) }
  }
  action step = {
    nondet k = KEYS.oneOf()
    nondet v = Int.oneOf()
    all {
      // estimators without a second hyperparameter have no setter for it
      k != "extra" or ownExtra(est),
      est' = est, key' = key, given' = (given or k == key), lastV' = if (k == key) v else lastV,
      keepAs(apply(est, h, { k: k, v: v })),
    }
  }
  val domain: bool = and {
    est.in(ESTS), key.in(KEYS), given.in(Bool), lastV.in(Int), alpha.in(Int), extra.in(Int), its.in(Int), eps.in(Int),
    wss.in(Int), tol.in(Int), K.in(Int), acc.in(Int), verb.in(Int),
  }
  val remembered: bool =
    if (key == "extra" and not(ownExtra(est))) not(given) and extra == alpha
    else read(h, key) == (if (given) lastV else read(defaults(est), key))
  val sound: bool = (wss >= 0 and K >= 0) implies verdict(est, h).ok == valid(est, h)
  val inv: bool = and { domain, remembered, ownExtra(est) or extra == alpha }
  val safe: bool = remembered and sound
}
