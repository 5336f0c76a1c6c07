// The building blocks: proximal operators, penalty values and optimality distances, losses and
// their derivatives, thresholds, linear systems, orderings, working-set construction, products
// of the model fit, data-set and target views. One recorded call per event; a call whose result
// differs from the definitions of fx/glm/cd is not a step of this machine.
module prims {
  import fx.* from "./fx"
  import glm.* from "./glm"

  type Upd = { j: int, d: List[int] }
  type View = { n: int, t: int, rows: int, cols: int, y: List[int] }
  type Ev =
      // proximal operator of penalty P at v with the given step; cands: competitors
      Prox({ P: Prob, v: List[int], step: int, u: List[int], eps: int, cands: List[List[int]] })
    | Value({ P: Prob, w: Mat, got: int, eps: int })
    | Dist({ P: Prob, w: Mat, g: Mat, ws: List[int], d: List[int], top: int, eps: int })
    // two implementations of one definition (a block penalty with one task, ratio one, ...)
    | Agree({ a: List[int], b: List[int], eps: int })
    | Loss({ P: Prob, f: Mat, got: int, grads: Mat, full: Mat, steps: List[int], eps: int })
    | AMax({ P: Prob, got: int, eps: int })
    | Sigmoid({ x: int, got: int, eps: int })
    | LinSys({ a: Mat, b: List[int], ok: bool, x: List[int], same: bool, eps: int })
    | Order({ x: List[int], desc: bool, idx: List[int] })
    | WsOf({ kkt: List[int], w: Mat, start: int, ws: List[int], n: int })
    | Kkt({ P: Prob, w: Mat, ws: List[int], g: Mat, k: List[int], top: int, eps: int })
    | Products({ P: Prob, f0: Mat, ups: List[Upd], ws: List[int], acc: Mat, f: Mat, f1: List[int], e: Mat, e1: List[int], eps: int })
    | TargetView({ n: int, t: int, y: List[int], got: View })
    // castable: the single column, or a refusal
    | Cast({ n: int, t: int, y: List[int], ok: bool, col: List[int], err: str })
    | Design({ p: int, sparse: bool, x: List[int], gotP: int, refP: int, kind: str, refKind: str, same: bool, back: List[int] })
    // comparison of two arrays: whether it panicked
    | Close({ ra: int, ca: int, rb: int, cb: int, a: List[int], b: List[int], delta: int, panicked: bool })
    // several requests of random numbers; the longest first
    | Stream({ lens: List[int], got: List[List[int]] })
    // a generated design (row by row), targets, and the numbers they are drawn from
    | Data({ n: int, p: int, t: int, s: List[int], x: List[int], y: List[int], xs: List[int], ys: List[int], eps: int })
    // right-hand sides a loss keeps
    | Rhs({ P: Prob, got: Mat, eps: int })
    // the updates made during one outer iteration started from w, by feature
    | Visits({ P: Prob, w: Mat, start: int, ep: int, tol: int, calls: List[int], eps: int })
    | Fail({ what: str })

  // ------------------------------------------------------------------ proximal operators
  // distance to the threshold below which the minimiser is zero, relative to that threshold
  pure def atThreshold(P: Prob, r: int, step: int, eps: int): bool =
    if (isLasso(P)) fabs(r - fmul(step, P.a)) <= fmul(eps, r)
    else if (P.pen == "en") fabs(r - fmul(step, fmul(P.a, P.g))) <= fmul(eps, r)
    else if (P.pen == "mcp") (
      if (step < P.g) fabs(r - fmul(step, P.a)) <= fmul(eps, r)
      else { val t2 = fmul(fmul(P.a, P.a), fmul(P.g, step))
             fabs(fmul(r, r) - t2) <= fmul(2 * eps, t2) })
    else { val u2 = 27 * fmul(fmul(step, P.a), fmul(step, P.a))
           fabs(8 * fmul(fmul(r, r), r) - u2) <= fmul(3 * eps, u2) }
  // amplification of rounding by the slope of the operator
  pure def gain(P: Prob, step: int): int =
    if (P.pen == "mcp" and not(isLasso(P)) and step != P.g) fmin(fmax(fabs(fdiv(fmax(P.g, step), P.g - step)), ONE), FIN) else ONE
  pure def proxOk(P: Prob, v: List[int], step: int, u: List[int], eps: int, cands: List[List[int]]): bool = and {
    u.length() == v.length(), allFin(u),
    {
      val r = norm(v)
      val z = prox(P, v, step)
      val slack = fmul(eps, fmul(r, r)) + fmul(eps, fmul(step, penOf(P, r))) + 2
      and {
        // a minimiser: no worse than the reference, zero, the value itself and the competitors
        proxObj(P, v, step, u) <= proxObj(P, v, step, z) + slack,
        0.to(cands.length() - 1).forall(i => proxObj(P, v, step, u) <= proxObj(P, v, step, cands[i]) + slack),
        if (atThreshold(P, r, step, 8 * eps)) true
        else if (isZero(z)) isZero(u)
        else if (P.pen == "mcp" and not(isLasso(P)) and gain(P, step) > ONE * 10^6) true
        else nearL(u, z, fmul(fmul(eps, r), gain(P, step)), 0) and not(isZero(u)),
        // sign and direction are preserved
        0.to(v.length() - 1).forall(i => sgn(u[i]) == 0 or sgn(u[i]) == sgn(v[i])),
      }
    } }

  // ------------------------------------------------------------------ penalties
  pure def penScale(P: Prob, w: Mat): int = w.foldl(0, (s, r) => s + fabs(penOf(P, norm(r))) + fmul(P.a, norm(r)))
  pure def distScale(P: Prob, w: Mat, g: Mat): int = maxAbsM(g) + P.a + (if (P.pen == "en") fmul(P.a, maxAbsM(w)) else 0)
  pure def distOk(P: Prob, w: Mat, g: Mat, ws: List[int], d: List[int], top: int, eps: int): bool = and {
    d.length() == ws.length(), g.length() == ws.length(), allFin(d),
    0.to(ws.length() - 1).forall(i => near(d[i], subdist(P, w[ws[i]], g[i]), fmul(eps, distScale(P, w, g)), 0)),
    top == maxOf(d),
  }

  // ------------------------------------------------------------------ losses
  pure def lossScale(P: Prob, f: Mat): int =
    if (P.df == "logit") ONE + loss(P, f)
    else loss(P, f)   // the residuals are squared, not expanded: the error is relative
  pure def lossOk(P: Prob, f: Mat, got: int, grads: Mat, full: Mat, steps: List[int], eps: int): bool = and {
    near(got, loss(P, f), fmul(eps, lossScale(P, f)), 0),
    grads.length() == P.p, full.length() == P.p, steps.length() == P.p,
    0.to(P.p - 1).forall(j => and {
      nearL(grads[j], grad(P, f, j), fmul(eps, gradScale(P, f, j)), 0),
      nearL(full[j], grads[j], fmul(eps, gradScale(P, f, j)), 0),
      near(steps[j], lips(P, j), 2, eps) }) }

  // ------------------------------------------------------------------ linear systems
  pure def row1(v: List[int]): int = v.foldl(0, (s, x) => s + fabs(x))
  pure def normInf(a: Mat): int = maxOf(a.foldl([], (l, r) => l.append(row1(r))))
  pure def zeroColumn(a: Mat): bool = 0.to(a.length() - 1).exists(j => 0.to(a.length() - 1).forall(i => a[i][j] == 0))
  pure def multiple(u: List[int], v: List[int]): bool = or {
    u == v, 0.to(u.length() - 1).forall(i => u[i] == -v[i]),
    0.to(u.length() - 1).forall(i => u[i] == 2 * v[i]), 0.to(u.length() - 1).forall(i => u[i] == -2 * v[i]),
    0.to(u.length() - 1).forall(i => 2 * u[i] == v[i]), 0.to(u.length() - 1).forall(i => -2 * u[i] == v[i]) }
  // singular in a way that no rounding of an elimination can hide
  pure def plainlySingular(a: Mat): bool = or {
    0.to(a.length() - 1).exists(i => isZero(a[i])), zeroColumn(a),
    0.to(a.length() - 1).exists(i => 0.to(i - 1).exists(k => multiple(a[i], a[k]))) }
  // |det| relative to the product of the row norms, in [0, 1]
  pure def hadamard(a: Mat, b: List[int]): int = {
    val s = solveInt(a, b)
    if (s.den == 0) 0
    else range(0, a.length()).foldl(fabs(s.den) * ONE, (r, i) => r / norm(a[i])) }
  pure def linOk(a: Mat, b: List[int], ok: bool, x: List[int], same: bool, eps: int): bool = and {
    same,
    if (not(ok)) hadamard(a, b) < ONE / 10^9
    else and {
      not(plainlySingular(a)), x.length() == b.length(), allFin(x),
      // the residual is at rounding level, relative to the conditioning (elimination without
      // back-substitution is not backward stable: a nearly singular system may leave more)
      val h = fmax(hadamard(a, b), ONE / 10^9)
      val tol = eps + fdiv(eps / 1000, h)
      0.to(b.length() - 1).forall(i =>
        fabs(dot(a[i], x) - b[i]) <= fmul(tol, fmul(normInf(a), maxAbs(x)) + maxAbs(b))) } }

  // ------------------------------------------------------------------ orders and working sets
  pure def isPerm(l: List[int], n: int): bool = l.length() == n and 0.to(n - 1).forall(j => member(l, j))
  pure def orderOk(x: List[int], desc: bool, idx: List[int]): bool = and {
    isPerm(idx, x.length()),
    1.to(idx.length() - 1).forall(i => if (desc) x[idx[i - 1]] >= x[idx[i]] else x[idx[i - 1]] <= x[idx[i]]) }
  pure def distinct(l: List[int]): bool = 0.to(l.length() - 1).forall(i => 0.to(i - 1).forall(h => l[h] != l[i]))
  pure def wsOk(kkt: List[int], w: Mat, start: int, ws: List[int], n: int): bool = {
    val p = kkt.length()
    val act = range(0, p).select(j => not(isZero(w[j])))
    val want = fmax(fmin(start, p), fmin(2 * act.length(), p))
    and {
      ws.length() == want, n == want, distinct(ws),
      0.to(ws.length() - 1).forall(i => 0 <= ws[i] and ws[i] < p),
      act.foldl(true, (b, j) => b and member(ws, j)),
      0.to(ws.length() - 1).forall(i => not(isZero(w[ws[i]])) or
        0.to(p - 1).forall(j => member(ws, j) or kkt[j] <= kkt[ws[i]])) } }
  pure def kktOk(P: Prob, w: Mat, ws: List[int], g: Mat, k: List[int], top: int, eps: int): bool = {
    val f = fit(P, w)
    and {
      g.length() == ws.length(), k.length() == ws.length(), allFin(k),
      0.to(ws.length() - 1).forall(i => {
        val j = ws[i]
        val ex = grad(P, f, j)
        val sc = gradScale(P, f, j) + P.a + (if (P.pen == "en") fmul(P.a, maxAbsM(w)) else 0)
        and { nearL(g[i], ex, fmul(eps, sc), 0),
              near(k[i], violRow(P, w[j], ex, lips(P, j)), fmul(eps, sc) + (if (P.pen == "l05") fmul(1000 * eps, maxAbsM(w) + ONE) else 0), 0) }
      }),
      top == maxOf(k) } }

  // No update once the largest violation is within the tolerance; otherwise as many passes as
  // epochs, each updating every feature of one lawful working set once, in any order.
  pure def visitsOk(P: Prob, w: Mat, start: int, ep: int, tol: int, calls: List[int], eps: int): bool = {
    val f = fit(P, w)
    val js = range(0, P.p)
    val v = js.foldl([], (l, j) => l.append(violRow(P, w[j], grad(P, f, j), lips(P, j))))
    val slack = js.foldl([], (l, j) => l.append(fmul(eps, gradScale(P, f, j) + P.a + fmul(P.a, maxAbsM(w)))
      + (if (P.pen == "l05" or P.pen == "l0") fmul(eps, fmul(1000 * ONE, maxAbsM(w) + ONE)) else 0)))
    if (calls.length() == 0) ep == 0 or 0.to(P.p - 1).forall(j => v[j] <= tol + slack[j])
    else {
      val m = calls.length() / ep
      val ws = calls.slice(0, m)
      val act = js.select(j => not(isZero(w[j])))
      and {
        0.to(P.p - 1).exists(j => v[j] > tol - slack[j]),
        m == fmax(fmin(start, P.p), fmin(2 * act.length(), P.p)), calls.length() == m * ep,
        distinct(ws), 0.to(m - 1).forall(i => 0 <= ws[i] and ws[i] < P.p),
        0.to(P.p - 1).forall(j => isZero(w[j]) or member(ws, j)),
        0.to(ep - 1).forall(e => { val pass = calls.slice(e * m, (e + 1) * m)
                                   0.to(m - 1).forall(i => member(pass, ws[i])) }),
        0.to(m - 1).forall(i => not(isZero(w[ws[i]])) or
          0.to(P.p - 1).forall(j => member(ws, j) or v[j] <= v[ws[i]] + slack[ws[i]] + slack[j])) } } }

  // ------------------------------------------------------------------ products
  pure def applyUpd(P: Prob, f: Mat, u: Upd): Mat =
    range(0, P.t).foldl([], (l, k) => l.append(range(0, P.n).foldl([], (q, i) => q.append(f[k][i] + fmul(P.x[u.j][i], u.d[k])))))
  pure def onSet(P: Prob, ws: List[int], acc: Mat): Mat =
    range(0, P.t).foldl([], (l, k) => l.append(range(0, P.n).foldl([], (q, i) =>
      q.append(ws.foldl(0, (s, j) => s + P.x[j][i] * acc[j][k]) / ONE))))

  pure def absL(v: List[int]): List[int] = v.foldl([], (l, x) => l.append(fabs(x)))
  pure def absM(m: Mat): Mat = m.foldl([], (l, r) => l.append(absL(r)))
  pure def withinL(a: List[int], b: List[int], sc: List[int], eps: int): bool = and {
    a.length() == b.length(), allFin(a), 0.to(a.length() - 1).forall(i => fabs(a[i] - b[i]) <= fmul(eps, sc[i]) + 64) }
  pure def withinM(a: Mat, b: Mat, sc: Mat, eps: int): bool = and {
    a.length() == b.length(), 0.to(a.length() - 1).forall(k => withinL(a[k], b[k], sc[k], eps)) }

  pure def viewOk(n: int, t: int, y: List[int], got: View): bool = and {
    got.n == n, got.t == t, got.rows == n, got.cols == t, got.y == y }

  // ------------------------------------------------------------------ helpers for tests
  pure def differ(a: int, b: int, delta: int): bool = not(fin(a)) or not(fin(b)) or fabs(a - b) > delta
  pure def shouldPanic(ra: int, ca: int, rb: int, cb: int, a: List[int], b: List[int], delta: int): bool =
    ra != rb or ca != cb or 0.to(a.length() - 1).exists(i => differ(a[i], b[i], delta))
  pure def prefixOf(v: List[int], s: List[int]): bool =
    v.length() <= s.length() and 0.to(v.length() - 1).forall(i => v[i] == s[i])
  pure def sq(x: int): int = fmul(x, x)
  pure def sumL(v: List[int]): int = v.foldl(0, (s, x) => s + x)
  // mean 0 and variance 1 to seven standard deviations, most of the numbers distinct
  pure def normalLike(v: List[int]): bool = {
    val n = v.length()
    val mean = sumL(v) / n
    val dev = v.foldl(0, (s, x) => s + sq(x)) / n - ONE
    and { allFin(v), sq(mean) <= 49 * ONE / n, sq(dev) <= 98 * ONE / n, maxAbs(v) < 40 * ONE } }
  pure def streamOk(lens: List[int], got: List[List[int]]): bool = and {
    got.length() == lens.length(),
    0.to(lens.length() - 1).forall(i => got[i].length() == lens[i] and prefixOf(got[i], got[0])),
    lens[0] < 200 or normalLike(got[0]),
    // neighbours are not correlated
    lens[0] < 200 or sq(range(1, lens[0]).foldl(0, (s, i) => s + fmul(got[0][i - 1], got[0][i])) / lens[0]) <= 49 * ONE / lens[0] }
  // the design filled column by column, the coefficients and the noise row by row, all from the
  // start of the one sequence of numbers
  pure def dataOk(n: int, p: int, t: int, s: List[int], x: List[int], y: List[int], xs: List[int], ys: List[int], eps: int): bool = and {
    xs == [n, p], ys == [n, t], x.length() == n * p, y.length() == n * t,
    0.to(n - 1).forall(i => 0.to(p - 1).forall(j => x[i * p + j] == s[j * n + i])),
    0.to(n - 1).forall(i => 0.to(t - 1).forall(k => {
      val terms = range(0, p).foldl([s[i * t + k]], (l, j) => l.append(fmul(s[j * n + i], s[j * t + k])))
      fabs(y[i * t + k] - sumL(terms)) <= fmul(eps, terms.foldl(0, (q, v) => q + fabs(v))) + 2 * (p + 1) })) }
  pure def rhs(P: Prob): Mat = range(0, P.p).foldl([], (l, j) => l.append(range(0, P.t).foldl([], (q, k) => q.append(dot(P.x[j], P.y[k])))))
  pure def rhsOk(P: Prob, got: Mat, eps: int): bool = {
    val ex = rhs(P)
    val Q = { ...P, x: absM(P.x), y: absM(P.y) }
    withinM(got, ex, rhs(Q), eps) }

  pure def accepts(v: Ev): bool = match v {
    | Prox(e) => proxOk(e.P, e.v, e.step, e.u, e.eps, e.cands)
    | Value(e) => near(e.got, pen(e.P, e.w), fmul(e.eps, penScale(e.P, e.w)) + 2, 0)
    | Dist(e) => distOk(e.P, e.w, e.g, e.ws, e.d, e.top, e.eps)
    | Agree(e) => allFin(e.a) and nearL(e.a, e.b, fmul(e.eps, fmax(maxAbs(e.a), maxAbs(e.b))) + 2, 0)
    | Loss(e) => lossOk(e.P, e.f, e.got, e.grads, e.full, e.steps, e.eps)
    | AMax(e) => {
        // rounding at the level of the terms of the products, which may cancel
        val sc = range(0, e.P.p).foldl(0, (m, j) => fmax(m, gradScale(e.P, zeroF(e.P), j)))
        near(e.got, alphaMax(e.P), fmul(e.eps, sc) + 2, 0) }
    | Sigmoid(e) => near(e.got, sigmoid(e.x), ONE / 10^30, e.eps)
    | LinSys(e) => linOk(e.a, e.b, e.ok, e.x, e.same, e.eps)
    | Order(e) => orderOk(e.x, e.desc, e.idx)
    | WsOf(e) => wsOk(e.kkt, e.w, e.start, e.ws, e.n)
    | Kkt(e) => kktOk(e.P, e.w, e.ws, e.g, e.k, e.top, e.eps)
    | Products(e) => {
        val f = e.ups.foldl(e.f0, (m, u) => applyUpd(e.P, m, u))
        val ex = onSet(e.P, e.ws, e.acc)
        // entry by entry, rounding at the level of the terms summed up in it
        val Q = { ...e.P, x: absM(e.P.x) }
        val fs = e.ups.foldl(absM(e.f0), (m, u) => applyUpd(Q, m, { j: u.j, d: absL(u.d) }))
        val es = onSet(Q, e.ws, absM(e.acc))
        and { withinM(e.f, f, fs, e.eps), withinL(e.f1, f[0], fs[0], e.eps), withinM(e.e, ex, es, e.eps), withinL(e.e1, ex[0], es[0], e.eps) } }
    | TargetView(e) => viewOk(e.n, e.t, e.y, e.got)
    | Cast(e) => if (e.t == 1) e.ok and e.col == e.y else not(e.ok) and e.err == "NonCastableSingleTargets"
    | Design(e) => and {
        e.gotP == e.p, e.refP == e.p, e.same, e.back == e.x,
        e.kind == (if (e.sparse) "Sparse" else "Dense"), e.refKind == e.kind }
    | Close(e) => e.panicked == shouldPanic(e.ra, e.ca, e.rb, e.cb, e.a, e.b, e.delta)
    | Stream(e) => streamOk(e.lens, e.got)
    | Data(e) => dataOk(e.n, e.p, e.t, e.s, e.x, e.y, e.xs, e.ys, e.eps)
    | Rhs(e) => rhsOk(e.P, e.got, e.eps)
    | Visits(e) => visitsOk(e.P, e.w, e.start, e.ep, e.tol, e.calls, e.eps)
    | Fail(e) => false
  }
  type M = { kind: str, got: List[int], want: List[int] }
  pure def measure(v: Ev): M = match v {
    | Prox(e) => { kind: "prox", got: e.u, want: prox(e.P, e.v, e.step) }
    | Value(e) => { kind: "value", got: [e.got], want: [pen(e.P, e.w)] }
    | Dist(e) => { kind: "dist", got: e.d.append(e.top), want: range(0, e.ws.length()).foldl([], (l, i) => l.append(subdist(e.P, e.w[e.ws[i]], e.g[i]))) }
    | Agree(e) => { kind: "agree", got: e.a, want: e.b }
    | Loss(e) => { kind: "loss", got: [e.got].concat(flat(e.grads)).concat(flat(e.full)).concat(e.steps),
                   want: [loss(e.P, e.f)].concat(range(0, e.P.p).foldl([], (l, j) => l.concat(grad(e.P, e.f, j)))).concat(lipsAll(e.P)) }
    | AMax(e) => { kind: "alpha_max", got: [e.got], want: [alphaMax(e.P)] }
    | Sigmoid(e) => { kind: "sigmoid", got: [e.got], want: [sigmoid(e.x)] }
    | LinSys(e) => { kind: if (e.ok) "linsys" else "linsys-error", got: e.x, want: [hadamard(e.a, e.b)] }
    | Order(e) => { kind: "order", got: e.idx, want: e.x }
    | WsOf(e) => { kind: "ws", got: e.ws, want: e.kkt }
    | Kkt(e) => { kind: "kkt", got: e.k, want: e.ws.foldl([], (l, j) => l.append(violRow(e.P, e.w[j], grad(e.P, fit(e.P, e.w), j), lips(e.P, j)))) }
    | Products(e) => { kind: "products", got: flat(e.f).concat(flat(e.e)), want: flat(e.ups.foldl(e.f0, (m, u) => applyUpd(e.P, m, u))).concat(flat(onSet(e.P, e.ws, e.acc))) }
    | TargetView(e) => { kind: "view", got: [e.got.n, e.got.t, e.got.rows, e.got.cols], want: [e.n, e.t] }
    | Cast(e) => { kind: "cast", got: e.col, want: e.y }
    | Design(e) => { kind: "design", got: [e.gotP, e.refP], want: [e.p] }
    | Close(e) => { kind: if (e.panicked) "panicked" else "accepted", got: e.a, want: e.b }
    | Stream(e) => { kind: "stream", got: e.lens, want: [] }
    | Data(e) => { kind: "data", got: e.y, want: e.s }
    | Rhs(e) => { kind: "rhs", got: flat(e.got), want: flat(rhs(e.P)) }
    | Visits(e) => { kind: "visits", got: e.calls, want: range(0, e.P.p).foldl([], (l, j) => l.append(violRow(e.P, e.w[j], grad(e.P, fit(e.P, e.w), j), lips(e.P, j)))) }
    | Fail(e) => { kind: e.what, got: [], want: [] }
  }

  var evs: List[Ev]
  var l: int
  action init = all { evs' = [], l' = 0 }
  action step = all { l < evs.length(), accepts(evs[l]), evs' = evs, l' = l + 1 }
  val accepted: bool = l == evs.length()
  val inv: bool = l <= evs.length()
  val diag = if (l < evs.length()) { at: l, m: measure(evs[l]) } else { at: l, m: { kind: "", got: [], want: [] } }
  val info = { seen: l }
}
