// What finished fits must look like: certificates of optimality, null-solution thresholds,
// monotonicity over budgets, repeatability, agreement. The state is the position in a list of
// observed results; a result that breaks its obligation is not a step of this machine.
module results {
  import fx.* from "./fx"
  import glm.* from "./glm"
  import cd.* from "./cd"

  type Ev =
    // a fit with enough budget: first-order optimality within tol (eps: rounding, relative)
      Cert({ P: Prob, w: Mat, tol: int, eps: int })
    // a convex fit: no other candidate has a meaningfully lower objective
    | Best({ P: Prob, w: Mat, tol: int, eps: int, others: List[Mat] })
    // exactly the null coefficients / at least one non-zero coefficient
    | Null({ P: Prob, w: Mat })
    | NonNull({ P: Prob, w: Mat })
    // at or above the threshold: null; clearly below it: not null
    | Threshold({ P: Prob, w: Mat, tol: int, eps: int })
    // finite, right shape, zero columns at zero, zero or joint rows
    | Sane({ P: Prob, w: Mat })
    // objectives over growing budgets; eps relative
    | Mono({ P: Prob, ws: List[Mat], eps: int })
    // identical bits
    | Same({ a: List[int], b: List[int] })
    // equal up to absolute and relative precision
    | Close({ a: Mat, b: Mat, abs: int, rel: int })
    // predictions: the product of the design and the coefficients
    | Predicted({ P: Prob, w: Mat, got: Mat, rel: int })
    // the call panicked, hung, crashed or returned an error although it must succeed
    | Fail({ what: str })
    // the call must fail (predict before fit, ...)
    | MustFail({ failed: bool, what: str })
    | Holds({ ok: bool, what: str })

  pure def shaped(P: Prob, w: Mat): bool = w.length() == P.p and 0.to(P.p - 1).forall(j => w[j].length() == P.t)
  // magnitude of the terms entering the optimality conditions
  pure def gscale(P: Prob): int = fmax(maxOf(range(0, P.p).foldl([], (l, j) =>
    l.append(norm(grad(P, zeroF(P), j))))), P.a)
  pure def effAlpha(P: Prob): int = if (P.pen == "en") fmul(P.a, P.g) else P.a
  pure def nullGrad(P: Prob): int = maxOf(range(0, P.p).foldl([], (l, j) => l.append(norm(grad(P, zeroF(P), j)))))
  pure def sane(P: Prob, w: Mat): bool = and {
    shaped(P, w), allFinM(w), 0.to(P.p - 1).forall(j => not(zeroCol(P, j)) or isZero(w[j])) }
  pure def slackOf(P: Prob, tol: int, eps: int): int = tol + fmul(eps, gscale(P))
  pure def certified(P: Prob, w: Mat, tol: int, eps: int): bool = and {
    sane(P, w),
    maxViol(P, w, fit(P, w)) <= slackOf(P, tol, eps),
    objAt(P, w) <= objective(P, zeroW(P), zeroF(P)) + fmul(eps, ONE + loss(P, zeroF(P))) }
  pure def l1dist(a: Mat, b: Mat): int =
    range(0, a.length()).foldl(0, (s, j) => s + norm(range(0, a[j].length()).foldl([], (l, k) => l.append(a[j][k] - b[j][k]))))

  pure def accepts(v: Ev): bool = match v {
    | Cert(x) => certified(x.P, x.w, x.tol, x.eps)
    // convexity: F(u) >= F(w) - violation * |u - w|
    | Best(x) => and {
        sane(x.P, x.w),
        0.to(x.others.length() - 1).forall(i =>
          objAt(x.P, x.w) <= objAt(x.P, x.others[i]) + fmul(slackOf(x.P, x.tol, x.eps), l1dist(x.w, x.others[i]))
            + fmul(x.eps, fabs(objAt(x.P, x.w)))) }
    | Null(x) => shaped(x.P, x.w) and 0.to(x.P.p - 1).forall(j => isZero(x.w[j]))
    | NonNull(x) => sane(x.P, x.w) and 0.to(x.P.p - 1).exists(j => not(isZero(x.w[j])))
    | Threshold(x) => sane(x.P, x.w) and {
        val g = nullGrad(x.P)
        val m = fmul(x.eps, g)
        and { effAlpha(x.P) < g + m or 0.to(x.P.p - 1).forall(j => isZero(x.w[j])),
              effAlpha(x.P) > g - x.tol - m or 0.to(x.P.p - 1).exists(j => not(isZero(x.w[j]))) } }
    | Sane(x) => sane(x.P, x.w)
    | Mono(x) => {
        val os = x.ws.foldl([], (l, w) => l.append(if (sane(x.P, w)) objAt(x.P, w) else INF))
        val o0 = objective(x.P, zeroW(x.P), zeroF(x.P))
        0.to(os.length() - 1).forall(i =>
          os[i] <= (if (i == 0) o0 else os[i - 1]) + fmul(x.eps, fabs(o0))) }
    | Same(x) => x.a == x.b
    | Close(x) => nearM(x.a, x.b, x.abs, x.rel)
    | Predicted(x) => sane(x.P, x.w) and {
        val f = fit(x.P, x.w)
        nearM(f, x.got, fmul(x.rel, maxAbsM(f) + ONE / 10^3), 0) }
    | Fail(x) => false
    | MustFail(x) => x.failed
    | Holds(x) => x.ok
  }
  pure def measure(v: Ev): { kind: str, viol: int, limit: int, note: str } = match v {
    | Cert(x) => { kind: "cert", viol: if (shaped(x.P, x.w) and allFinM(x.w)) maxViol(x.P, x.w, fit(x.P, x.w)) else NAN,
                   limit: slackOf(x.P, x.tol, x.eps), note: "optimality violation" }
    | Best(x) => { kind: "best", viol: if (shaped(x.P, x.w) and allFinM(x.w)) objAt(x.P, x.w) else NAN, limit: 0, note: "objective" }
    | Null(x) => { kind: "null", viol: maxAbsM(x.w), limit: 0, note: "largest coefficient" }
    | NonNull(x) => { kind: "nonnull", viol: maxAbsM(x.w), limit: 0, note: "largest coefficient" }
    | Threshold(x) => { kind: "threshold", viol: maxAbsM(x.w), limit: nullGrad(x.P), note: "largest coefficient / threshold" }
    | Sane(x) => { kind: "sane", viol: if (allFinM(x.w)) maxAbsM(x.w) else NAN, limit: 0, note: "largest coefficient" }
    | Mono(x) => {
        val os = x.ws.foldl([], (l, w) => l.append(if (sane(x.P, w)) objAt(x.P, w) else INF))
        val worst = range(1, os.length()).foldl(0, (m, i) => fmax(m, os[i] - os[i - 1]))
        { kind: "mono", viol: worst, limit: fmul(x.eps, fabs(objective(x.P, zeroW(x.P), zeroF(x.P)))), note: "largest increase" } }
    | Same(x) => { kind: "same", viol: 0, limit: 0, note: "bits differ" }
    | Close(x) => { kind: "close", viol: if (x.a.length() == x.b.length() and allFinM(x.a) and allFinM(x.b)) distM(x.a, x.b) else NAN,
                    limit: x.abs, note: "distance" }
    | Predicted(x) => { kind: "predict", viol: maxAbsM(x.got), limit: 0, note: "prediction" }
    | Fail(x) => { kind: "fail", viol: 0, limit: 0, note: x.what }
    | MustFail(x) => { kind: "mustfail", viol: 0, limit: 0, note: x.what }
    | Holds(x) => { kind: "holds", viol: 0, limit: 0, note: x.what }
  }

  var evs: List[Ev]
  var l: int
  action init = all { evs' = [], l' = 0 }
  action step = all { l < evs.length(), accepts(evs[l]), evs' = evs, l' = l + 1 }
  val accepted: bool = l == evs.length()
  val inv: bool = l <= evs.length()
  val diag = if (l < evs.length()) { at: l, m: measure(evs[l]) } else { at: l, m: { kind: "", viol: 0, limit: 0, note: "" } }
  val info = { seen: l }
}
