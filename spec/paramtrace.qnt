// Validation of recorded builder histories: the machine applies the recorded setter calls; the
// reports of the implementation must be those of the resulting hyperparameters.
module paramtrace {
  import fx.* from "./fx"
  import params.* from "./params"

  // outcome of a check: the hyperparameters read back, or the error
  type Out = { ok: bool, g: Hyp, label: str, v: int, panic: bool }
  // outcome of a fit: coefficients (bits), or the error
  type Fit = { ok: bool, w: List[int], label: str, v: int, panic: bool }
  // used: what the reference solver was configured with
  type Rep = { full: bool, byRef: Out, byVal: Out, unwrapped: Out, dense: Fit, sparse: Fit, unchanged: bool,
               used: Hyp, refDense: Fit, refSparse: Fit }
  var est: str
  var h: Hyp
  var calls: List[Call]
  var rep: Rep
  var l: int
  var fin_: bool
  var rel: int

  pure def nearHyp(a: Hyp, b: Hyp, r: int): bool = and {
    near(a.alpha, b.alpha, 0, r), near(a.extra, b.extra, 0, r), near(a.tol, b.tol, 0, r),
    a.it == b.it, a.ep == b.ep, a.ws == b.ws, a.K == b.K, a.acc == b.acc, a.verb == b.verb }
  // error values are reported in single precision
  pure def nearVal(a: int, b: int): bool = near(a, b, 0, ONE / 10^6)
  pure def outOk(e: str, x: Hyp, o: Out, r: int): bool = {
    val d = verdict(e, x)
    not(o.panic) and (if (d.ok) o.ok and nearHyp(o.g, x, r) else not(o.ok) and o.label == d.label and nearVal(o.v, d.v)) }
  pure def unwrapOk(e: str, x: Hyp, o: Out, r: int): bool =
    if (verdict(e, x).ok) not(o.panic) and o.ok and nearHyp(o.g, x, r) else o.panic
  pure def fitOk(e: str, x: Hyp, f: Fit, ref: Fit): bool = {
    val d = verdict(e, x)
    not(f.panic) and (if (d.ok) f.ok and ref.ok and f.w.length() > 0 and f.w == ref.w else not(f.ok) and f.w == [] and f.label == d.label and nearVal(f.v, d.v)) }
  val usedOk: bool = nearHyp(rep.used, h, rel)
  val good: bool = if (not(rep.full)) outOk(est, h, rep.byRef, rel) else and {
    outOk(est, h, rep.byRef, rel), outOk(est, h, rep.byVal, rel), unwrapOk(est, h, rep.unwrapped, rel),
    not(verdict(est, h).ok) or usedOk, fitOk(est, h, rep.dense, rep.refDense), fitOk(est, h, rep.sparse, rep.refSparse), rep.unchanged }

  action keep = all { est' = est, calls' = calls, rep' = rep, rel' = rel }
  action setter = all { l < calls.length(), h' = apply(est, h, calls[l]), l' = l + 1, fin_' = false, keep }
  action report = all { l == calls.length(), not(fin_), good, h' = h, l' = l, fin_' = true, keep }
  action step = any { setter, report }
  action init = all {
    est' = "l1", h' = defaults("l1"), calls' = [], l' = 0, fin_' = false, rel' = 0,
    rep' = { full: false, byRef: { ok: true, g: defaults("l1"), label: "", v: 0, panic: false }, byVal: { ok: true, g: defaults("l1"), label: "", v: 0, panic: false },
             unwrapped: { ok: true, g: defaults("l1"), label: "", v: 0, panic: false },
             dense: { ok: true, w: [], label: "", v: 0, panic: false }, sparse: { ok: true, w: [], label: "", v: 0, panic: false }, unchanged: true,
             used: defaults("l1"), refDense: { ok: true, w: [], label: "", v: 0, panic: false }, refSparse: { ok: true, w: [], label: "", v: 0, panic: false } } }
  val accepted: bool = fin_
  val inv: bool = verdict(est, h).ok == valid(est, h)
  val diag = { h: h, verdict: verdict(est, h), ref: outOk(est, h, rep.byRef, rel), byVal: outOk(est, h, rep.byVal, rel), unwrapped: unwrapOk(est, h, rep.unwrapped, rel),
               used: usedOk, dense: fitOk(est, h, rep.dense, rep.refDense), sparse: fitOk(est, h, rep.sparse, rep.refSparse), rep: rep }
  val info = { seen: l }
}
