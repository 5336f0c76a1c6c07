// Which outcomes of an extrapolation attempt are allowed, given the recorded iterates: shared by
// the machine of whole fits (trace.qnt) and the machine of the attempts alone (accel.qnt).
module extrap {
  import fx.* from "./fx"
  import glm.* from "./glm"
  import cd.* from "./cd"

  pure def tolFor(a: Mat, b: Mat, r: int): int =
    fmul(r, fmax(maxAbsM(a), maxAbsM(b))) + fmul(r, ONE / 10^6)
  pure def close(a: Mat, b: Mat, r: int): bool = allFinM(b) and nearM(a, b, tolFor(a, b, r), 0)

  // ---- extrapolated epochs: which results are allowed, given the recorded rows
  // size of the perturbation that rounding can cause in the extrapolated point
  pure def doubtOf(rws: List[List[int]], x: Extra, r: int): int =
    if (not(x.ok)) ONE else {
      val u = diffs(rws)
      val umin = u.foldl(INF, (m, d) => fmin(m, maxAbs(d)))
      val wmax = rws.foldl(0, (m, d) => fmax(m, maxAbs(d)))
      if (umin == 0 or x.hadamard <= 0) FIN
      else {
        // relative error of the differences, amplified by the conditioning, times the spread
        val ru = fmul(r / 10^6, ONE + fdiv(wmax, umin))
        val amp = fdiv(fmul(ru, maxAbs(x.c) + ONE), x.hadamard)
        val spread = u.foldl(0, (m, d) => m + maxAbs(d))
        fmul(8 * x.c.length() * ONE, fmul(amp, spread))
      }
    }
  type Verdict = { ok: bool, took: bool, doubt: bool, why: int }
  pure def accelVerdict(Q: Prob, q: Point, rws: List[List[int]], w: Mat, r: int): Verdict = {
    val x = extrapolate(Q, rws)
    val scale = fmax(maxAbsM(q.w), maxAbsM(w))
    val db = doubtOf(rws, x, r)
    val isPlain = close(q.w, w, r)
    if (not(x.ok) or db > fmul(scale, ONE / 10^4)) {
      // ill-conditioned weights: only the guarantee that survives is demanded
      val slack = fmul(r, fabs(obj(Q, q)) + ONE / 10^6)
      { ok: isPlain or (allFinM(w) and objAt(Q, w) <= obj(Q, q) + slack), took: false, doubt: true, why: if (not(x.ok)) 1 else if (x.hadamard < ONE/10^14) 2 else 3 }
    } else {
      val xs = pointAt(Q, x.w)
      val dobj = obj(Q, xs) - obj(Q, q)
      // a few units in the last place of the recorded arithmetic (rel: 1e-9 double, 3e-4 single)
      val slack = fmul(if (r > ONE / 10^6) r / 100 else r / 10^4, fabs(obj(Q, q))) + fmul(db, db) + fmul(r, ONE / 10^12)
      val isX = allFinM(w) and nearM(xs.w, w, tolFor(xs.w, w, r) + db, 0)
      if (dobj < -slack) { ok: isX, took: true, doubt: false, why: 4 }
      else if (dobj > slack) { ok: isPlain, took: false, doubt: false, why: 5 }
      else { ok: isX or isPlain, took: isX and not(isPlain), doubt: true, why: 6 }
    }
  }
}
