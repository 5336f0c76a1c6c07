// Histories of setter calls: explored at random to generate behaviours for the implementation,
// and checked exhaustively up to a bound (Apalache).
module paramgen {
  import fx.* from "./fx"
  import params.* from "./params"

  var est: str
  var h: Hyp
  var hist: List[Call]
  // last value given to each setter (ghost), or -1 000 000 units when never given
  var last: str -> int
  pure val NEVER = -1000000 * ONE
  pure val KEYS = Set("alpha", "extra", "max_iterations", "max_epochs", "ws_start_size", "tolerance", "K", "use_acceleration", "verbose")
  pure val unit = ONE / 1024
  pure def choices(e: str, k: str): Set[int] =
    if (k == "alpha") Set(-unit, 0, ONE / 64, ONE / 8, ONE / 4, 2 * ONE)
    else if (k == "extra") (
      if (hasRatio(e)) Set(-unit, 0, ONE / 4, 3 * ONE / 4, ONE, ONE + unit)
      else if (hasGamma(e)) Set(ONE - unit, ONE, 3 * ONE / 2, 8 * ONE)
      else Set(ONE / 8, ONE / 2))
    else if (k == "max_iterations") Set(0, 1, 2, 7, 80)
    else if (k == "max_epochs") Set(0, 1, 3, 12, 500)
    else if (k == "ws_start_size") Set(0, 1, 2, 30, 1000)
    else if (k == "tolerance") Set(-unit, 0, ONE / 16, ONE / 1024, ONE / 1048576, ONE / 2^50)
    else if (k == "K") Set(0, 1, 2, 6, 11, 40)
    else Set(0, 1)
  action init = {
    nondet e = Set("l1", "en", "mcp", "l21", "ben", "bmcp").oneOf()
    all { est' = e, h' = defaults(e), hist' = [], last' = KEYS.mapBy(_ => NEVER) }
  }
  action call(k: str, v: int): bool = all {
    est' = est, h' = apply(est, h, { k: k, v: v }), hist' = hist.append({ k: k, v: v }), last' = last.set(k, v) }
  action step = {
    nondet k = KEYS.oneOf()
    nondet v = choices(est, k).oneOf()
    all { hist.length() < 10, not(k == "extra" and not(hasRatio(est) or hasGamma(est))), call(k, v) }
  }
  // every setter is remembered, none touches another hyperparameter
  val lastWins: bool = KEYS.forall(k =>
    if (k == "extra" and not(hasRatio(est) or hasGamma(est))) h.extra == h.alpha
    else read(h, k) == (if (last.get(k) == NEVER) read(defaults(est), k) else last.get(k)))
  val sound: bool = verdict(est, h).ok == valid(est, h)
  val allInv: bool = lastWins and sound
  val wOk: bool = hist.length() > 5 and verdict(est, h).ok
  val wBad: bool = not(verdict(est, h).ok)
}
