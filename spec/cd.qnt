// Working-set proximal coordinate descent with affine extrapolation: the steps of the
// reference machine, one description for single-task and multi-task problems.
module cd {
  import fx.* from "./fx"
  import glm.* from "./glm"
  import decisions.* from "./control"

  // ws: starting working-set size; it, ep: outer and inner budgets; tol: tolerance;
  // K: extrapolation depth; acc: acceleration on.
  type Cfg = { ws: int, it: int, ep: int, tol: int, K: int, acc: bool }
  type Point = { w: Mat, f: Mat }

  pure def zeroPoint(P: Prob): Point = { w: zeroW(P), f: zeroF(P) }
  pure def pointAt(P: Prob, w: Mat): Point = { w: w, f: fit(P, w) }
  pure def obj(P: Prob, s: Point): int = objective(P, s.w, s.f)

  // ------------------------------------------------------------------ one coordinate update
  pure def gradAt(P: Prob, f: Mat, j: int): List[int] =
    if (P.df != "quad") grad(P, f, j)
    else {
      val xj = P.x[j]
      range(0, P.t).foldl([], (l41, k) => l41.append({
        val fk = f[k]
        val yk = P.y[k]
        range(0, P.n).foldl(0, (s, i) => s + xj[i] * (fk[i] - yk[i])) / (ONE * P.n)
      }))
    }
  pure def newRow(P: Prob, s: Point, j: int, l: int): List[int] = target(P, s.w[j], gradAt(P, s.f, j), l)
  pure def moveRow(P: Prob, s: Point, j: int, row: List[int]): Point = {
    val old = s.w[j]
    if (row == old) s else {
      val xj = P.x[j]
      { w: s.w.replaceAt(j, row),
        f: range(0, P.t).foldl([], (l42, k) => l42.append({
             val fk = s.f[k]
             val d = row[k] - old[k]
             range(0, P.n).foldl([], (l43, i) => l43.append(fk[i] + fmul(xj[i], d)))
           })) }
    }
  }
  pure def updateOne(P: Prob, s: Point, j: int): Point = {
    val l = lips(P, j)
    if (l == 0) s else moveRow(P, s, j, newRow(P, s, j, l))
  }
  pure def pass(P: Prob, s: Point, order: List[int]): Point =
    order.foldl(s, (q, j) => updateOne(P, q, j))

  // ------------------------------------------------------------------ working sets
  // priority of each feature: active features first, then by violation
  pure def prio(P: Prob, s: Point): List[int] = {
    val v = viols(P, s.w, s.f)
    range(0, P.p).foldl([], (l44, j) => l44.append(if (isZero(s.w[j])) v[j] else INF))
  }
  pure def wsSize(P: Prob, c: Cfg, w: Mat): int =
    wsSizeOf(c.ws, P.p, support(P, w).length())
  // the two canonical orders: ties by increasing or decreasing index
  pure def orderAsc(P: Prob, c: Cfg, s: Point): List[int] =
    sortDesc(range(0, P.p), prio(P, s)).slice(0, wsSize(P, c, s.w))
  pure def orderDesc(P: Prob, c: Cfg, s: Point): List[int] =
    sortDesc(rev(range(0, P.p)), prio(P, s)).slice(0, wsSize(P, c, s.w))
  // what every working set must contain, and what it may contain (equal priority at the cut)
  // ---- what rounding can do to the violation of each feature, in arithmetic that keeps `rel`
  // (1e-9 double, 3e-4 single, with room) of the quantities it returns: a gradient is the sum of
  // terms of which a few units in the last place are lost, and the fit itself is such a sum
  pure def noises(P: Prob, s: Point, rel: int): List[int] = {
    val u = if (rel > ONE / 10^6) rel / 100 else rel / 10^4
    val mag = range(0, P.n).foldl([], (l, i) => l.append(range(0, P.t).foldl(0, (m, k) =>
      fmax(m, fabs(P.y[k][i]) + range(0, P.p).foldl(0, (q, j) => q + fabs(P.x[j][i] * s.w[j][k])) / ONE))))
    range(0, P.p).foldl([], (l, j) => l.append({
      val g = fmul(u, range(0, P.n).foldl(0, (q, i) => q + fabs(P.x[j][i]) * mag[i]) / (ONE * P.n) + fabs(P.a))
      if (not(steep(P))) g else {
        val L = lips(P, j)
        if (L == 0) 0 else fdiv(g, L) + fmul(u, maxAbs(s.w[j]))
      }
    }))
  }
  pure def noiseOn(P: Prob, s: Point, js: List[int], rel: int): int = {
    val z = noises(P, s, rel)
    js.foldl(0, (m, j) => fmax(m, z[j]))
  }
  type WsLaw = { size: int, must: List[int], may: List[int] }
  pure def wsLaw(P: Prob, c: Cfg, s: Point, rel: int): WsLaw = {
    val key = prio(P, s)
    val k = wsSize(P, c, s.w)
    val last = sortDesc(range(0, P.p), key)[k - 1]
    val cut = key[last]
    val z = noises(P, s, rel)
    pure def slack(j: int): int = z[j] + z[last] + fmul(10 * rel, fmin(cut, FIN)) + ONE / 10^15
    { size: k,
      must: range(0, P.p).select(j => key[j] > cut + slack(j)),
      may: range(0, P.p).select(j => fabs(key[j] - cut) <= slack(j)) }
  }
  pure def lawful(P: Prob, c: Cfg, s: Point, ws: List[int]): bool = {
    val law = wsLaw(P, c, s, ONE / 10^9)
    and {
      ws.length() == law.size,
      0.to(ws.length() - 1).forall(i => 0.to(i - 1).forall(h => ws[h] != ws[i])),
      law.must.foldl(true, (b45, j) => b45 and member(ws, j)),
      ws.foldl(true, (b46, j) => b46 and member(law.must, j) or member(law.may, j)),
    }
  }

  // ------------------------------------------------------------------ one epoch
  // buf: iterates recorded since the last extrapolation attempt (flattened)
  type Ep = { s: Point, buf: List[List[int]], tried: bool, took: bool, plain: Point, x: Extra }
  pure val noExtra: Extra = { ok: false, w: [], c: [], hadamard: 0 }
  pure def afterPass(P: Prob, c: Cfg, q: Point, buf: List[List[int]]): Ep =
    if (not(c.acc)) { s: q, buf: buf, tried: false, took: false, plain: q, x: noExtra }
    else {
      val rows = buf.append(flat(q.w))
      if (not(attempts(rows.length(), c.K))) { s: q, buf: rows, tried: false, took: false, plain: q, x: noExtra }
      else {
        val x = extrapolate(P, rows)
        if (not(x.ok)) { s: q, buf: [], tried: true, took: false, plain: q, x: x }
        else {
          val r = pointAt(P, x.w)
          if (obj(P, r) < obj(P, q)) { s: r, buf: [], tried: true, took: true, plain: q, x: x }
          else { s: q, buf: [], tried: true, took: false, plain: q, x: x }
        }
      }
    }
  pure def maxViolOn(P: Prob, s: Point, ws: List[int]): int = {
    val r = resid(P, s.f)
    maxOf(ws.foldl([], (l47, j) => l47.append(violRow(P, s.w[j], gradOf(P, r, j), lips(P, j)))))
  }
  // epoch number e (from 0) has just been completed: is the inner loop abandoned?
  pure def stopLimit(P: Prob, c: Cfg, ws: List[int], kkt0: int): int =
    if (ws.length() == P.p) c.tol else (3 * kkt0) / 10
  pure def stopAfter(P: Prob, c: Cfg, s: Point, ws: List[int], kkt0: int, e: int): bool =
    if (checkDue(e)) {
      val v = maxViolOn(P, s, ws)
      if (ws.length() == P.p) v <= c.tol else v < (3 * kkt0) / 10
    } else false
}
