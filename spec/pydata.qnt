// The Python helpers: generated problems, maximal regularization, sums of squares. A result that
// differs from what was asked for is not a step of this machine.
module pydata {
  import fx.* from "./fx"
  import glm.* from "./glm"

  type Mat2 = List[List[int]]
  type Run = { x: Mat2, w: Mat2, y: Mat2 }
  type Ev =
    // x: columns; w: one row per feature; y: one list per task; snr: INF when there is no noise;
    // density, a fraction num / den; given: w was supplied as w0
      Generated({ n: int, p: int, t: int, xs: List[int], ys: List[int], ws: List[int], x: Mat2, w: Mat2, y: Mat2,
                  num: int, den: int, snr: int, given: bool, w0: Mat2, again: bool, intact: bool, eps: int })
    // standardized columns of which adjacent ones have the given correlation (k: width of the band)
    | Moments({ cols: Mat2, rho: int, k: int })
    // the generated numbers depend on the seed
    | Differ({ a: List[int], b: List[int] })
    // the noise of two seeds points in two directions
    | Noises({ n: int, t: int, runs: List[Run] })
    // noise is drawn independently of the design, sample by sample and task by task
    | NoiseOf({ n: int, t: int, one: Run, k: int })
    | AMax({ P: Prob, got: int, eps: int })
    | SumSq({ x: List[int], got: int, eps: int })
    | Refused({ failed: bool, what: str })
    | Fail({ what: str })

  pure def rowsOf(w: Mat2): int = w.foldl(0, (c, r) => if (isZero(r)) c else c + 1)
  pure def product(x: Mat2, w: Mat2, n: int, t: int): Mat2 =
    range(0, t).foldl([], (l, k) => l.append(range(0, n).foldl([], (q, i) =>
      q.append(range(0, x.length()).foldl(0, (s, j) => s + x[j][i] * w[j][k]) / ONE))))
  pure def flatM(m: Mat2): List[int] = m.foldl([], (l, r) => l.concat(r))
  pure def minusM(a: Mat2, b: Mat2): Mat2 =
    range(0, a.length()).foldl([], (l, k) => l.append(range(0, a[k].length()).foldl([], (q, i) => q.append(a[k][i] - b[k][i]))))
  pure def sized(m: Mat2, rows: int, cols: int): bool =
    m.length() == rows and m.foldl(true, (b, r) => b and r.length() == cols and allFin(r))

  pure def generated(e: { n: int, p: int, t: int, xs: List[int], ys: List[int], ws: List[int], x: Mat2, w: Mat2, y: Mat2,
                  num: int, den: int, snr: int, given: bool, w0: Mat2, again: bool, intact: bool, eps: int }): bool = and {
    e.xs == [e.n, e.p], e.ys == (if (e.t == 1) [e.n] else [e.n, e.t]), e.ws == (if (e.t == 1) [e.p] else [e.p, e.t]),
    e.again, e.intact,
    sized(e.x, e.p, e.n), sized(e.w, e.p, e.t), sized(e.y, e.t, e.n),
    if (e.given) e.w == e.w0 else and {
      rowsOf(e.w) == (e.num * e.p) / e.den,
      e.w.foldl(true, (b, r) => b and (isZero(r) or r.foldl(true, (c, v) => c and v != 0))) },
    {
      val f = product(e.x, e.w, e.n, e.t)
      val signal = norm(flatM(f))
      val noise = norm(flatM(minusM(e.y, f)))
      val sc = fmul(e.eps, fmul(maxAbsM(e.x), e.w.foldl(0, (s, r) => s + maxAbs(r))) + ONE / 10^9) * (e.n * e.t)
      if (e.snr == INF) noise <= sc
      else fabs(fmul(e.snr, noise) - signal) <= fmul(e.eps * 1000, signal) + fmul(e.snr, sc)
    } }

  // within k standard deviations (bounds of the standard deviations of the three sums)
  pure def moments(cols: Mat2, rho: int, k: int): bool = {
    val n = cols[0].length() * ONE
    val s = k * fsqrt(2 * n)
    0.to(cols.length() - 1).forall(j => and {
      allFin(cols[j]),
      fabs(sum(cols[j])) <= s,
      fabs(dot(cols[j], cols[j]) - n) <= s,
      j == 0 or fabs(dot(cols[j], cols[j - 1]) - fmul(n, rho)) <= s,
      j < 2 or fabs(dot(cols[j], cols[j - 2]) - fmul(n, fmul(rho, rho))) <= s }) }

  pure def noiseCols(r: Run, n: int, t: int): Mat2 = minusM(r.y, product(r.x, r.w, n, t))
  pure def noises(a: Run, b: Run, n: int, t: int): bool = {
    val u = flatM(noiseCols(a, n, t))
    val v = flatM(noiseCols(b, n, t))
    // (a . b)^2 < |a|^2 |b|^2, by more than rounding; no noise at all where there is no signal
    val uu = dot(u, u)
    val vv = dot(v, v)
    // null signals have null noise
    uu <= ONE / 10^9 or vv <= ONE / 10^9 or fabs(dot(u, v)) <= fsqrt(fmul(uu, vv)) - fsqrt(fmul(uu, vv)) / 10^9 }
  pure def noiseOf(r: Run, n: int, t: int, k: int): bool = {
    val e = noiseCols(r, n, t)
    val len = norm(flatM(e))
    // standardized: of mean square one
    val z = e.foldl([], (l, c) => l.append(c.foldl([], (q, v) => q.append(fdiv(v, len) * isqrt(n * t * 10^12) / 10^6))))
    val s = k * fsqrt(n * ONE)
    0.to(t - 1).forall(a => and {
      fabs(dot(z[a], z[a]) - n * ONE) <= k * fsqrt(2 * n * ONE),
      fabs(sum(z[a])) <= s,
      fabs(dot(z[a].slice(0, n - 1), z[a].slice(1, n))) <= s,
      r.x.foldl(true, (b, c) => b and fabs(dot(c, z[a])) <= s),
      0.to(t - 1).forall(b => b >= a or fabs(dot(z[a], z[b])) <= s) }) }

  pure def accepts(v: Ev): bool = match v {
    | Generated(e) => generated(e)
    | Moments(e) => moments(e.cols, e.rho, e.k)
    | Differ(e) => e.a != e.b
    | Noises(e) => noises(e.runs[0], e.runs[1], e.n, e.t)
    | NoiseOf(e) => noiseOf(e.one, e.n, e.t, e.k)
    | AMax(e) => {
        val sc = range(0, e.P.p).foldl(0, (m, j) => fmax(m, gradScale(e.P, zeroF(e.P), j)))
        near(e.got, alphaMax(e.P), fmul(e.eps, sc) + 2, 0) }
    | SumSq(e) => near(e.got, dot(e.x, e.x), 2, e.eps)
    | Refused(e) => e.failed
    | Fail(e) => false
  }
  type M = { kind: str, got: List[int], want: List[int] }
  pure def measure(v: Ev): M = match v {
    | Generated(e) => { kind: "generated", got: e.xs.concat(e.ys).concat(e.ws), want: [e.n, e.p, e.t, rowsOf(e.w), (e.num * e.p) / e.den] }
    | Moments(e) => { kind: "moments", got: e.cols.foldl([], (l, c) => l.append(sum(c)).append(dot(c, c))), want: [e.rho] }
    | Differ(e) => { kind: "differ", got: [], want: [] }
    | Noises(e) => { kind: "noises", got: flatM(noiseCols(e.runs[0], e.n, e.t)), want: flatM(noiseCols(e.runs[1], e.n, e.t)) }
    | NoiseOf(e) => { kind: "noise", got: [], want: [] }
    | AMax(e) => { kind: "alpha_max", got: [e.got], want: [alphaMax(e.P)] }
    | SumSq(e) => { kind: "sumsq", got: [e.got], want: [dot(e.x, e.x)] }
    | Refused(e) => { kind: e.what, got: [], want: [] }
    | Fail(e) => { kind: e.what, got: [], want: [] }
  }

  var evs: List[Ev]
  var l: int
  action init = all { evs' = [], l' = 0 }
  action step = all { l < evs.length(), accepts(evs[l]), evs' = evs, l' = l + 1 }
  val accepted: bool = l == evs.length()
  val inv: bool = l <= evs.length()
  val diag = if (l < evs.length()) { at: l, m: measure(evs[l]) } else { at: l, m: { kind: "", got: [], want: [] } }
  val info = { seen: l }
}
