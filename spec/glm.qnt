// The mathematics of sparse generalized linear models: losses, penalties, proximal operators,
// optimality violations, objective, regularization threshold, affine extrapolation weights.
// A single-task problem is a problem with one task: every formula works on rows of tasks.
module glm {
  import fx.* from "./fx"

  // x: p columns of n entries; y: t columns of n entries; df: "quad", "logit" or "huber";
  // pen: "l1" "en" "mcp" "l05", or a user's: "ridge", "l0", and entry by entry "nn" (not negative),
  // "el1" and "tgt" (a |w - g|); a: regularization; g: mixing ratio (en), gamma (mcp) or anchor (tgt).
  type Prob = { n: int, p: int, t: int, x: List[List[int]], y: List[List[int]],
                df: str, pen: str, a: int, g: int }
  type Mat = List[List[int]]

  pure def zeroW(P: Prob): Mat = range(0, P.p).foldl([], (l6, _) => l6.append(zeros(P.t)))
  pure def zeroF(P: Prob): Mat = range(0, P.t).foldl([], (l7, _) => l7.append(zeros(P.n)))
  // model fit: one column of n entries per task
  pure def fit(P: Prob, w: Mat): Mat =
    range(0, P.t).foldl([], (l8, k) => l8.append(range(0, P.n).foldl([], (l9, i) => l9.append(range(0, P.p).foldl(0, (s10, j) => s10 + P.x[j][i] * w[j][k]) / ONE))))
  pure def isZero(r: List[int]): bool = r.foldl(true, (b11, v) => b11 and v == 0)
  pure def support(P: Prob, w: Mat): List[int] = range(0, P.p).select(j => not(isZero(w[j])))

  // ------------------------------------------------------------------ losses
  // Huber's function with threshold 1: quadratic near zero, then linear
  pure def hub(r: int): int = if (fabs(r) <= ONE) (r * r) / (2 * ONE) else fabs(r) - ONE / 2
  pure def loss(P: Prob, f: Mat): int =
    if (P.df == "logit")
      range(0, P.n).foldl(0, (s12, i) => s12 + softplusNeg(fmul(P.y[0][i], f[0][i]))) / P.n
    else if (P.df == "huber")
      range(0, P.t).foldl(0, (s13, k) => s13 + range(0, P.n).foldl(0, (s14, i) => s14 + hub(P.y[k][i] - f[k][i]))) / P.n
    else
      range(0, P.t).foldl(0, (s13, k) => s13 + range(0, P.n).foldl(0, (s14, i) => s14 + {
        val r = P.y[k][i] - f[k][i]
        r * r
      })) / (2 * P.n * ONE)
  // derivative of the loss with respect to the fit, times n
  pure def resid(P: Prob, f: Mat): Mat =
    if (P.df == "logit")
      [range(0, P.n).foldl([], (l15, i) => l15.append(-fmul(P.y[0][i], sigmoid(-fmul(P.y[0][i], f[0][i])))))]
    else if (P.df == "huber")
      range(0, P.t).foldl([], (l16, k) => l16.append(range(0, P.n).foldl([], (l17, i) => l17.append(fmax(-ONE, fmin(ONE, f[k][i] - P.y[k][i]))))))
    else
      range(0, P.t).foldl([], (l16, k) => l16.append(range(0, P.n).foldl([], (l17, i) => l17.append(f[k][i] - P.y[k][i]))))
  pure def gradOf(P: Prob, r: Mat, j: int): List[int] =
    range(0, P.t).foldl([], (l18, k) => l18.append(dot2(P.x[j], r[k]) / (ONE * P.n)))
  pure def grad(P: Prob, f: Mat, j: int): List[int] = gradOf(P, resid(P, f), j)
  // curvature bound of a coordinate; the user's Huber loss announces twice what it needs
  pure def lips(P: Prob, j: int): int =
    (dot2(P.x[j], P.x[j]) * (if (P.df == "huber") 2 else 1)) / (ONE * P.n * (if (P.df == "logit") 4 else 1))
  pure def lipsAll(P: Prob): List[int] = range(0, P.p).foldl([], (l19, j) => l19.append(lips(P, j)))
  pure def zeroCol(P: Prob, j: int): bool = isZero(P.x[j])

  // ------------------------------------------------------------------ penalties
  pure def isLasso(P: Prob): bool = P.pen == "l1" or (P.pen == "mcp" and P.g >= FIN)
  // penalty of one row, a function of its norm
  pure def penOf(P: Prob, r: int): int =
    if (isLasso(P)) fmul(P.a, r)
    else if (P.pen == "en") fmul(P.a, fmul(P.g, r) + fmul(ONE - P.g, fmul(r, r)) / 2)
    else if (P.pen == "mcp")
      (if (r < fmul(P.a, P.g)) fmul(P.a, r) - fdiv(fmul(r, r), 2 * P.g)
       else fmul(P.g, fmul(P.a, P.a)) / 2)
    else if (P.pen == "ridge") fmul(P.a, fmul(r, r)) / 2
    else if (P.pen == "l0") (if (r == 0) 0 else P.a)
    else fmul(P.a, fsqrt(r))
  // penalties that treat each entry of a row by itself
  pure def isEntry(P: Prob): bool = P.pen == "nn" or P.pen == "el1" or P.pen == "tgt"
  pure def penRow(P: Prob, v: List[int]): int =
    if (isEntry(P)) v.foldl(0, (s, x) => s + (if (P.pen == "nn" and x < 0) INF else fmul(P.a, fabs(if (P.pen == "tgt") x - P.g else x))))
    else penOf(P, norm(v))
  pure def pen(P: Prob, w: Mat): int = w.foldl(0, (s, r) => s + penRow(P, r))
  pure def objective(P: Prob, w: Mat, f: Mat): int = loss(P, f) + pen(P, w)
  pure def objAt(P: Prob, w: Mat): int = objective(P, w, fit(P, w))

  // Largest root of s^3 - r s + u/2 = 0, s the square root of the shrunk norm (u > 0)
  pure def cubicRoot(r: int, u: int): int =
    range(0, 40).foldl(fsqrt(r), (s, _) => {
      val s2 = fmul(s, s)
      val d = 3 * s2 - r
      if (d <= 0) s else s - fdiv(fmul(s, s2) - fmul(r, s) + u / 2, d)
    })
  // Norm of a global minimiser of (z - r)^2 / 2 + step * penOf(z) over z >= 0
  pure def proxNorm(P: Prob, r: int, step: int): int =
    if (isLasso(P)) fmax(r - fmul(step, P.a), 0)
    else if (P.pen == "en")
      fdiv(fmax(r - fmul(step, fmul(P.a, P.g)), 0), ONE + fmul(step, fmul(P.a, ONE - P.g)))
    else if (P.pen == "mcp") {
      if (step < P.g) {
        val tau = fmul(step, P.a)
        if (r <= tau) 0
        else if (r > fmul(P.g, P.a)) r
        else fdiv(fmul(r - tau, P.g), P.g - step)
      } else if (fmul(r, r) <= fmul(fmul(P.a, P.a), fmul(P.g, step))) 0 else r
    }
    else if (P.pen == "ridge") fdiv(r, ONE + fmul(step, P.a))
    else if (P.pen == "l0") (if (r * r <= 2 * P.a * step) 0 else r)
    else {
      val u = fmul(step, P.a)
      if (u == 0) r
      else if (8 * fmul(fmul(r, r), r) <= 27 * fmul(u, u)) 0
      else {
        val s = cubicRoot(r, u)
        fmul(s, s)
      }
    }
  pure def scaleRow(v: List[int], num: int, den: int): List[int] = v.foldl([], (l20, x) => l20.append((x * num) / den))
  pure def proxEntry(P: Prob, x: int, u: int): int =
    if (P.pen == "nn") fmax(x - u, 0)
    else if (P.pen == "tgt") P.g + sgn(x - P.g) * fmax(fabs(x - P.g) - u, 0)
    else sgn(x) * fmax(fabs(x) - u, 0)
  pure def prox(P: Prob, v: List[int], step: int): List[int] = {
    val r = norm(v)
    if (isEntry(P)) v.foldl([], (l, x) => l.append(proxEntry(P, x, fmul(step, P.a))))
    else if (r == 0) v else {
      val z = proxNorm(P, r, step)
      if (z == 0) zeros(v.length()) else scaleRow(v, z, r)
    }
  }
  // Objective of the proximal problem, to compare candidate minimisers
  pure def proxObj(P: Prob, v: List[int], step: int, z: List[int]): int = {
    val d = range(0, v.length()).foldl([], (l21, i) => l21.append(v[i] - z[i]))
    dot(d, d) / 2 + fmul(step, penRow(P, z))
  }
  // derivative of penOf at r > 0
  pure def penSlope(P: Prob, r: int): int =
    if (isLasso(P)) P.a
    else if (P.pen == "en") fmul(P.a, P.g) + fmul(fmul(P.a, ONE - P.g), r)
    else if (P.pen == "mcp") (if (r < fmul(P.a, P.g)) P.a - fdiv(r, P.g) else 0)
    else if (P.pen == "ridge") fmul(P.a, r)
    else if (P.pen == "l0") 0
    else fdiv(P.a, 2 * fsqrt(r))
  // Distance of -g to the subdifferential of the penalty at the row w
  pure def distEntry(P: Prob, w: int, g: int): int =
    if (P.pen == "nn") (if (w == 0) fmax(-g - P.a, 0) else if (w > 0) fabs(g + P.a) else INF)
    else {
      val d = if (P.pen == "tgt") w - P.g else w
      if (d == 0) fmax(fabs(g) - P.a, 0) else fabs(g + sgn(d) * P.a)
    }
  // penalties steep at zero: every null row satisfies the first-order conditions
  pure def steep(P: Prob): bool = P.pen == "l05" or P.pen == "l0"
  pure def subdist(P: Prob, w: List[int], g: List[int]): int =
    if (isEntry(P)) norm(range(0, w.length()).foldl([], (l, k) => l.append(distEntry(P, w[k], g[k]))))
    else if (isZero(w)) (if (steep(P)) 0
                    else if (P.pen == "ridge") norm(g)
                    else fmax(norm(g) - (if (P.pen == "en") fmul(P.a, P.g) else P.a), 0))
    else {
      val r = norm(w)
      val s = penSlope(P, r)
      norm(range(0, w.length()).foldl([], (l22, k) => l22.append(g[k] + (s * w[k]) / r)))
    }
  // Target of the coordinate update of feature j (curvature bound l > 0)
  pure def target(P: Prob, w: List[int], g: List[int], l: int): List[int] =
    prox(P, range(0, w.length()).foldl([], (l23, k) => l23.append(w[k] - fdiv(g[k], l))), ONE2 / l)
  // Violation used by the solver: subdifferential distance, or the fixed-point gap of steep penalties
  pure def violRow(P: Prob, w: List[int], g: List[int], l: int): int =
    if (steep(P)) {
      if (l == 0) 0 else {
        val z = target(P, w, g, l)
        norm(range(0, w.length()).foldl([], (l24, k) => l24.append(w[k] - z[k])))
      }
    } else subdist(P, w, g)
  pure def viols(P: Prob, w: Mat, f: Mat): List[int] = {
    val r = resid(P, f)
    range(0, P.p).foldl([], (l25, j) => l25.append(violRow(P, w[j], gradOf(P, r, j), lips(P, j))))
  }
  pure def maxViol(P: Prob, w: Mat, f: Mat): int = maxOf(viols(P, w, f))

  // ------------------------------------------------------------------ thresholds
  pure def alphaMax(P: Prob): int =
    range(0, P.p).foldl(0, (m26, j) => fmax(m26, norm(range(0, P.t).foldl([], (l27, k) => l27.append(dot2(P.x[j], P.y[k]) / (ONE * P.n))))))

  // ------------------------------------------------------------------ linear systems
  // Exact elimination on integers (fraction-free); rows have length m + 1. Returns the
  // numerators and the common denominator of the solution; denominator 0: singular.
  type Elim = { m: List[List[int]], prev: int, sing: bool, sgn: int }
  pure def swapRows(m: List[List[int]], i: int, k: int): List[List[int]] =
    if (i == k) m else m.replaceAt(i, m[k]).replaceAt(k, m[i])
  pure def bareiss(m0: List[List[int]]): Elim = {
    val n = m0.length()
    range(0, n).foldl({ m: m0, prev: 1, sing: false, sgn: 1 }, (s, i) =>
      if (s.sing) s else {
        val piv = range(i, n).foldl(-1, (b, k) =>
          if (s.m[k][i] == 0) b else if (b < 0) k else b)
        if (piv < 0) { ...s, sing: true } else {
          val m1 = swapRows(s.m, i, piv)
          val d = m1[i][i]
          val m2 = range(0, n).foldl([], (l28, k) => l28.append(if (k == i) m1[k]
            else range(0, n + 1).foldl([], (l29, c) => l29.append((m1[k][c] * d - m1[k][i] * m1[i][c]) / s.prev))))
          { m: m2, prev: d, sing: false, sgn: if (piv == i) s.sgn else -s.sgn }
        }
      })
  }
  type Sol = { num: List[int], den: int }
  pure def solveInt(a: List[List[int]], b: List[int]): Sol = {
    val n = b.length()
    val e = bareiss(range(0, n).foldl([], (l30, i) => l30.append(a[i].append(b[i]))))
    if (e.sing) { num: zeros(n), den: 0 }
    else { num: range(0, n).foldl([], (l31, i) => l31.append(e.m[i][n])), den: e.prev }
  }

  // ------------------------------------------------------------------ extrapolation
  pure def flat(w: Mat): List[int] = w.foldl([], (a, r) => a.concat(r))
  pure def diffs(rows: List[List[int]]): List[List[int]] =
    range(0, rows.length() - 1).foldl([], (l32, k) => l32.append(range(0, rows[k].length()).foldl([], (l33, i) => l33.append(rows[k + 1][i] - rows[k][i]))))
  pure def gram(u: List[List[int]]): List[List[int]] =
    range(0, u.length()).foldl([], (l34, k) => l34.append(range(0, u.length()).foldl([], (l35, l) => l35.append(dot2(u[k], u[l])))))
  type Extra = { ok: bool, w: Mat, c: List[int], hadamard: int }
  // rows: the K + 1 last iterates (flattened), oldest first. Affine weights of the K oldest
  // whose combined successive differences have minimal norm.
  pure def extrapolate(P: Prob, rows: List[List[int]]): Extra = {
    val K = rows.length() - 1
    val C = gram(diffs(rows))
    val s = solveInt(C, range(0, K).foldl([], (l36, _) => l36.append(1)))
    val tot = sum(s.num)
    if (s.den == 0 or tot == 0) { ok: false, w: zeroW(P), c: [], hadamard: 0 }
    else {
      val c = range(0, K).foldl([], (l37, k) => l37.append(fdiv(s.num[k], tot)))
      // Hadamard ratio det(C) / prod diag(C), in [0, 1]: 1 well conditioned, 0 singular
      val h = range(0, K).foldl(fabs(s.den) * ONE, (r, k) => r / fmax(C[k][k], 1))
      { ok: true, c: c, hadamard: h,
        w: range(0, P.p).foldl([], (l38, j) => l38.append(range(0, P.t).foldl([], (l39, l) => l39.append(range(0, K).foldl(0, (s40, k) => s40 + s.num[k] * rows[k][j * P.t + l]) / tot)))) }
    }
  }
  // magnitude of the terms a gradient sums up
  pure def gradScale(P: Prob, f: Mat, j: int): int =
    range(0, P.t).foldl(0, (s, k) => s + range(0, P.n).foldl(0, (m, i) =>
      m + fmul(fabs(P.x[j][i]), if (P.df == "logit") ONE else fabs(f[k][i]) + fabs(P.y[k][i]))) / P.n)
}
