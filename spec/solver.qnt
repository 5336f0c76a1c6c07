// The solver as a state machine: outer iterations, passes, extrapolation attempts, stopping.
module solver {
  import fx.* from "./fx"
  import glm.* from "./glm"
  import cd.* from "./cd"
  import decisions.* from "./control"

  var prob: Prob
  var cfg: Cfg
  var pt: Point
  var t: int                  // outer iterations started
  var e: int                  // epochs completed in the current outer iteration
  var ws: List[int]           // working set, in the order of the pass
  var buf: List[List[int]]
  var kkt0: int               // largest violation when the outer iteration started
  var pc: str                 // "outer", "pass", "accel", "check", "done"
  var lastObj: int            // objective before the last action
  var start: Point            // point at which the outer iteration started
  var tookLast: bool          // the last action moved to an extrapolated point

  action boot(P: Prob, c: Cfg): bool = all {
    prob' = P, cfg' = c, pt' = zeroPoint(P), t' = 0, e' = 0, ws' = [], buf' = [], kkt0' = 0,
    pc' = "outer", lastObj' = obj(P, zeroPoint(P)), start' = zeroPoint(P), tookLast' = false,
  }
  action same: bool = all { prob' = prob, cfg' = cfg }
  action beginOuter: bool = all {
    pc == "outer", not(runEnds(t, cfg.it, maxViol(prob, pt.w, pt.f) <= cfg.tol)),
    nondet o = Set(orderAsc(prob, cfg, pt), orderDesc(prob, cfg, pt)).oneOf()
    ws' = o,
    kkt0' = maxViol(prob, pt.w, pt.f), start' = pt, t' = t + 1, e' = 0, buf' = [],
    pc' = if (cfg.ep == 0) "outer" else "pass",
    pt' = pt, lastObj' = obj(prob, pt), tookLast' = false, same,
  }
  action finish: bool = all {
    pc == "outer", runEnds(t, cfg.it, maxViol(prob, pt.w, pt.f) <= cfg.tol),
    pc' = "done", pt' = pt, t' = t, e' = e, ws' = ws, buf' = buf, kkt0' = kkt0,
    lastObj' = obj(prob, pt), start' = start, tookLast' = false, same,
  }
  action onePass: bool = all {
    pc == "pass",
    pt' = pass(prob, pt, ws), lastObj' = obj(prob, pt), pc' = "accel",
    t' = t, e' = e, ws' = ws, buf' = buf, kkt0' = kkt0, start' = start, tookLast' = false, same,
  }
  action accelerate: bool = {
    val r = afterPass(prob, cfg, pt, buf)
    all {
      pc == "accel",
      pt' = r.s, buf' = r.buf, tookLast' = r.took, lastObj' = obj(prob, pt), pc' = "check",
      t' = t, e' = e, ws' = ws, kkt0' = kkt0, start' = start, same,
    }
  }
  action checkStop: bool = all {
    pc == "check",
    e' = e + 1,
    pc' = if (innerEnds(e, cfg.ep, stopAfter(prob, cfg, pt, ws, kkt0, e))) "outer" else "pass",
    pt' = pt, lastObj' = obj(prob, pt), t' = t, ws' = ws, buf' = buf, kkt0' = kkt0,
    start' = start, tookLast' = false, same,
  }
  action advance: bool = any { beginOuter, finish, onePass, accelerate, checkStop }

  // ------------------------------------------------------------------ properties of the machine
  pure val SLACK = ONE / 10^24
  // the maintained model fit is the product of the design and the coefficients
  val fitConsistent: bool = nearM(pt.f, fit(prob, pt.w), SLACK, 0)
  // no action increases the objective, and it never exceeds that of the null vector
  val descent: bool = obj(prob, pt) <= lastObj + SLACK
  val belowNull: bool = obj(prob, pt) <= obj(prob, zeroPoint(prob)) + SLACK
  // working sets obey their law and confine the changes of an outer iteration
  val wsLawful: bool = pc == "outer" or pc == "done" or lawful(prob, cfg, start, ws)
  val wsConfines: bool = pc == "outer" or pc == "done" or
    0.to(prob.p - 1).forall(j => member(ws, j) or pt.w[j] == start.w[j])
  // features with a zero column stay at zero
  val zeroColumns: bool = 0.to(prob.p - 1).forall(j => not(zeroCol(prob, j)) or isZero(pt.w[j]))
  // a run that stops before its budget has reached the tolerance
  val doneMeansOptimal: bool = not(pc == "done" and t < cfg.it and cfg.ep > 0) or
    maxViol(prob, pt.w, pt.f) <= cfg.tol
  // extrapolated points are strict improvements
  val strictAccept: bool = not(tookLast) or obj(prob, pt) < lastObj
  val inBudget: bool = t <= cfg.it and e <= cfg.ep
  val inv: bool = and { fitConsistent, descent, belowNull, wsLawful, wsConfines, zeroColumns,
                        doneMeansOptimal, strictAccept, inBudget }
}
