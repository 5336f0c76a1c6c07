// Extrapolation on its own: a circular buffer of iterates and the attempt that falls due when it is
// full. The iterates come from anywhere, not only from descent: those are inputs of the machine.
module accel {
  import fx.* from "./fx"
  import glm.* from "./glm"
  import cd.* from "./cd"
  import decisions.* from "./control"
  import extrap.* from "./extrap"

  // one call: with the iterate w (and its model fit), returning u (and the model fit g)
  type Call = { w: Mat, u: Mat, g: Mat, same: bool }
  type Ev = Calls({ P: Prob, K: int, rel: int, ws: List[int], calls: List[Call] })
          | Fail({ what: str })
  pure def rowOf(w: Mat, ws: List[int]): List[int] = ws.foldl([], (l, j) => l.concat(w[j]))

  var evs: List[Ev]
  var l: int
  var at: int                  // next call of the current sequence
  var buf: List[List[int]]     // iterates since the last attempt, oldest first
  var cnt: { quiet: int, tried: int, taken: int, doubt: int }

  pure def outside(w: Mat, ws: List[int]): bool =
    0.to(w.length() - 1).forall(j => member(ws, j) or isZero(w[j]))
  // a call that only records
  pure def records(c: Call): bool = c.same and c.u == c.w
  pure def tries(P: Prob, rws: List[List[int]], ws: List[int], c: Call, rel: int): Verdict = {
    val v = accelVerdict(P, pointAt(P, c.w), rws, c.u, rel)
    { ...v, ok: and { v.ok, outside(c.u, ws),
        // the maintained model fit stays the product with the coefficients
        { val f = fit(P, c.u)
          nearM(c.g, f, fmul(rel, maxAbsM(f) + P.x.foldl(0, (m, x) => fmax(m, fmul(maxAbs(x), maxAbsM(c.u))))) + rel / 10^9, 0) } } }
  }
  action skip = all {
    l < evs.length(),
    match evs[l] {
      | Fail(e) => false
      | Calls(e) => at == e.calls.length()
    },
    evs' = evs, l' = l + 1, at' = 0, buf' = [], cnt' = cnt,
  }
  action call = all {
    l < evs.length(),
    match evs[l] {
      | Fail(e) => all { false, evs' = evs, l' = l, at' = at, buf' = buf, cnt' = cnt }
      | Calls(e) => all {
          at < e.calls.length(),
          val c = e.calls[at]
          val full = buf.append(flat(c.w))
          if (not(attempts(full.length(), e.K))) all {
            records(c),
            evs' = evs, l' = l, at' = at + 1, buf' = full, cnt' = { ...cnt, quiet: cnt.quiet + 1 },
          } else {
            val v = tries(e.P, full, e.ws, c, e.rel)
            all {
              v.ok,
              evs' = evs, l' = l, at' = at + 1, buf' = [],
              cnt' = { ...cnt, tried: cnt.tried + 1, taken: cnt.taken + (if (v.took) 1 else 0), doubt: cnt.doubt + (if (v.doubt) 1 else 0) },
            }
          },
        }
    },
  }
  action init = all { evs' = [], l' = 0, at' = 0, buf' = [], cnt' = { quiet: 0, tried: 0, taken: 0, doubt: 0 } }
  action step = any { skip, call }
  val accepted: bool = l == evs.length()
  val inv: bool = l <= evs.length()
  val diag = if (l < evs.length()) match evs[l] {
      | Fail(e) => { at: at, got: [], want: [], c: [], what: e.what }
      | Calls(e) => {
          val x = extrapolate(e.P, buf.append(flat(e.calls[at].w)))
          { at: at, got: flat(e.calls[at].u), want: flat(x.w), c: x.c.append(x.hadamard), what: "call" } }
    } else { at: at, got: [], want: [], c: [], what: "" }
  val info = cnt
}
