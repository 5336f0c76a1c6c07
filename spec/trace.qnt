// Trace validation of the solver: iterates recorded from the implementation, at growing
// budgets, must be a behaviour of the reference machine. After every observed iterate the
// machine continues from the observed point, so rounding never accumulates.
module trace {
  import fx.* from "./fx"
  import glm.* from "./glm"
  import cd.* from "./cd"
  import decisions.* from "./control"
  import extrap.* from "./extrap"

  // the iterate returned with `t` outer iterations and `e` epochs allowed
  type Obs = { t: int, e: int, w: Mat }
  // one recorded lineage; rel: relative precision of the recorded arithmetic
  var P: Prob
  var c: Cfg
  var rel: int
  var obs: List[Obs]
  var l: int                // next observation
  var s: Point              // current point (synchronised on the last observation)
  var s0: Point             // point at the start of the current outer iteration
  var ot: int               // outer iteration of the last observation
  var eo: int               // epochs completed in it
  var ord: List[int]        // working set of the current outer iteration, in pass order
  var rows: List[List[int]] // iterates recorded for extrapolation
  var k0: int               // violation at the start of the outer iteration
  var mode: str             // "run", "stopped" (inner loop left), "done", "unsure"
  var cnt: { passes: int, outers: int, taken: int, tried: int, stops: int, doubt: int, inferred: int, why: List[int] }

  // ---- a lawful pass: some sequence over some lawful working set explains the observation
  type Infer = { ok: bool, order: List[int], s: Point, rem: List[int] }
  pure def inferPass(Q: Prob, q: Point, law: WsLaw, canon: List[int], w: Mat, r: int): Infer = {
    val cand = canon.concat(range(0, Q.p).select(j => not(member(canon, j)) and (member(law.must, j) or member(law.may, j))))
    val tl = tolFor(q.w, w, r)
    val res = range(0, cand.length()).foldl({ ok: true, order: [], s: q, rem: cand }, (st, _) =>
      if (not(st.ok)) st else {
        val hit = st.rem.foldl(-1, (h, j) =>
          if (h >= 0) h
          else if (nearL(updateOne(Q, st.s, j).w[j], w[j], tl, 0)) j else h)
        if (hit < 0) { ...st, ok: false }
        else { ok: true, order: st.order.append(hit), s: updateOne(Q, st.s, hit),
               rem: st.rem.select(j => j != hit) }
      })
    val changed = law.may.select(j => res.order.foldl(false, (b, i) => b or i == j) and not(nearL(q.w[j], w[j], tl, 0)))
    val slots = law.size - law.must.length()
    { ...res, ok: and {
        res.rem.foldl(true, (b, j) => b and member(law.may, j)),
        res.rem.length() <= law.may.length() - slots,
        changed.length() <= slots,
        0.to(Q.p - 1).forall(j => member(cand, j) or nearL(q.w[j], w[j], tl, 0)),
        0.to(res.rem.length() - 1).forall(i => nearL(q.w[res.rem[i]], w[res.rem[i]], tl, 0)) } }
  }
  // first pass of an outer iteration: canonical orders, then inference
  type First = { ok: bool, order: List[int], inferred: bool }
  pure def firstPass(Q: Prob, d: Cfg, q: Point, w: Mat, r: int): First = {
    val o1 = orderAsc(Q, d, q)
    if (close(pass(Q, q, o1).w, w, r)) { ok: true, order: o1, inferred: false }
    else {
      val o2 = orderDesc(Q, d, q)
      if (o2 != o1 and close(pass(Q, q, o2).w, w, r)) { ok: true, order: o2, inferred: false }
      else {
        val i = inferPass(Q, q, wsLaw(Q, d, q, r), o1, w, r)
        { ok: i.ok, order: i.order, inferred: true }
      }
    }
  }

  // ---- a whole outer iteration run silently
  type Run = { s: Point, buf: List[List[int]], stopped: bool, unsure: bool, passes: int, took: int, tried: int }
  pure def epochsFrom(Q: Prob, d: Cfg, q: Point, order: List[int], kk: int, r: int): Run =
    range(0, d.ep).foldl({ s: q, buf: [], stopped: false, unsure: false, passes: 0, took: 0, tried: 0 }, (st, i) =>
      if (st.stopped or st.unsure) st else {
        val plain = pass(Q, st.s, order)
        val a = afterPass(Q, d, plain, st.buf)
        val full = st.buf.append(flat(plain.w))
        val scale = fmax(maxAbsM(plain.w), maxAbsM(a.s.w))
        val shaky = a.tried and {
          val db = doubtOf(full, a.x, r)
          or { db > fmul(scale, r),
               not(a.x.ok),
               // an extrapolated point meets the anchor only up to rounding
               Q.pen == "tgt" and a.took,
               fabs(objAt(Q, a.x.w) - obj(Q, plain)) <= fmul(r / 10, fabs(obj(Q, plain))) + fmul(r, ONE / 10^6) }
        }
        val due = checkDue(i)
        val v = if (due) maxViolOn(Q, a.s, order) else 0
        val lim = stopLimit(Q, d, order, kk)
        val margin = fmul(1000 * r, lim) + fmul(r, ONE / 10^3) + (if (due) noiseOn(Q, a.s, order, r) else 0)
        { s: a.s, buf: a.buf, stopped: due and v <= lim, unsure: shaky or (due and fabs(v - lim) <= margin),
          passes: st.passes + 1, took: st.took + (if (a.took) 1 else 0), tried: st.tried + (if (a.tried) 1 else 0) }
      })

  // ================================================================== actions
  val o: Obs = obs[l]
  val kNow: int = maxViol(P, s.w, s.f)
  pure def margin(lim: int, r: int): int = fmul(1000 * r, lim) + fmul(r, ONE / 10^3)
  val outerMargin: int = margin(c.tol, rel) + noiseOn(P, s, range(0, P.p), rel)
  val surelyConverged: bool = kNow < c.tol - outerMargin
  val surelyNot: bool = kNow > c.tol + outerMargin
  val stutters: bool = close(s.w, o.w, rel)
  action keep = all { P' = P, c' = c, rel' = rel, obs' = obs }
  action stay = all { s' = s, s0' = s0, ord' = ord, rows' = rows, k0' = k0 }

  // the run had already converged: every larger budget returns the same point
  action converged = all {
    l < obs.length(), mode == "run" or mode == "stopped", o.t > ot, not(surelyNot), stutters,
    l' = l + 1, ot' = o.t, eo' = o.e, mode' = "done", cnt' = cnt, stay, keep,
  }
  action afterDone = all {
    l < obs.length(), mode == "done", stutters,
    l' = l + 1, ot' = o.t, eo' = o.e, mode' = mode, cnt' = cnt, stay, keep,
  }
  // first epoch of a new outer iteration
  val beginNew: First = firstPass(P, c, s, o.w, rel)
  action firstEpoch = all {
    l < obs.length(), mode == "run" or mode == "stopped", o.t == ot + 1, o.e == 1, not(surelyConverged),
    or { not(c.acc), c.K >= 1 },
    beginNew.ok,
    s' = pointAt(P, o.w), s0' = s, ord' = beginNew.order, k0' = kNow, mode' = "run",
    rows' = if (c.acc) [flat(o.w)] else [],
    l' = l + 1, ot' = o.t, eo' = 1, keep,
    cnt' = { ...cnt, passes: cnt.passes + 1, outers: cnt.outers + 1, inferred: cnt.inferred + (if (beginNew.inferred) 1 else 0) },
  }
  // was the inner loop left after the last observed epoch?
  val lastEpoch: int = eo - 1
  val due: bool = checkDue(lastEpoch)
  val vNow: int = maxViolOn(P, s, ord)
  val lim: int = stopLimit(P, c, ord, k0)
  val innerMargin: int = margin(lim, rel) + noiseOn(P, s, ord, rel)
  val surelyStop: bool = due and vNow < lim - innerMargin
  val surelyGo: bool = not(due) or vNow > lim + innerMargin
  // one more epoch of the same outer iteration, without extrapolation
  val plainNext: Point = pass(P, s, ord)
  val accelDue: bool = c.acc and attempts(rows.length() + 1, c.K)
  val reorder: Infer = inferPass(P, s, { size: ord.length(), must: ord, may: [] }, ord, o.w, rel)
  action nextEpoch = all {
    l < obs.length(), mode == "run", o.t == ot, o.e == eo + 1, not(surelyStop), not(accelDue),
    close(plainNext.w, o.w, rel) or reorder.ok,
    s' = pointAt(P, o.w), s0' = s0, ord' = ord, k0' = k0, mode' = "run",
    rows' = if (c.acc) rows.append(flat(o.w)) else [],
    l' = l + 1, ot' = ot, eo' = o.e, cnt' = { ...cnt, passes: cnt.passes + 1 }, keep,
  }
  val verdict: Verdict = accelVerdict(P, plainNext, rows.append(flat(plainNext.w)), o.w, rel)
  action accelEpoch = all {
    l < obs.length(), mode == "run", o.t == ot, o.e == eo + 1, not(surelyStop), accelDue,
    verdict.ok,
    s' = pointAt(P, o.w), s0' = s0, ord' = ord, k0' = k0, mode' = "run", rows' = [],
    l' = l + 1, ot' = ot, eo' = o.e, keep,
    cnt' = { ...cnt, passes: cnt.passes + 1, tried: cnt.tried + 1,
             taken: cnt.taken + (if (verdict.took) 1 else 0), doubt: cnt.doubt + (if (verdict.doubt) 1 else 0), why: cnt.why.append(verdict.why) },
  }
  // the inner loop was left early: larger epoch budgets return the same point
  action innerStop = all {
    l < obs.length(), or { mode == "run" and not(surelyGo), mode == "stopped" }, o.t == ot, o.e > eo, stutters,
    l' = l + 1, ot' = ot, eo' = eo, mode' = "stopped", stay, keep,
    cnt' = { ...cnt, stops: cnt.stops + 1 },
  }
  // a whole outer iteration of c.ep epochs observed only at its end
  val asc: List[int] = orderAsc(P, c, s)
  val desc: List[int] = orderDesc(P, c, s)
  val runAsc: Run = epochsFrom(P, c, s, asc, kNow, rel)
  val runDesc: Run = if (asc == desc) runAsc else epochsFrom(P, c, s, desc, kNow, rel)
  // active features all have infinite priority: any order of a few of them is tried
  pure def insertions(j: int, l: List[int]): List[List[int]] =
    range(0, l.length() + 1).foldl([], (q, i) => q.append(l.slice(0, i).append(j).concat(l.slice(i, l.length()))))
  pure def arrangements(l: List[int]): List[List[int]] =
    l.foldl([[]], (q, j) => q.foldl([], (m, a) => m.concat(insertions(j, a))))
  val actives: List[int] = asc.select(j => not(isZero(s.w[j])))
  val otherOrder: List[int] =
    if (actives.length() < 2 or actives.length() > 4) []
    else arrangements(actives).foldl([], (h, a) => if (h != []) h else {
      val cand = a.concat(asc.select(j => isZero(s.w[j])))
      val r = epochsFrom(P, c, s, cand, kNow, rel)
      if (not(r.unsure) and close(r.s.w, o.w, rel)) cand else [] })
  action otherOuter = all {
    l < obs.length(), mode == "run" or mode == "stopped", o.t == ot + 1, o.e == c.ep, c.ep > 1, not(surelyConverged),
    not(close(runAsc.s.w, o.w, rel)), not(close(runDesc.s.w, o.w, rel)),
    otherOrder != [],
    s' = pointAt(P, o.w), s0' = s, ord' = otherOrder, k0' = kNow, mode' = "run", rows' = [],
    l' = l + 1, ot' = o.t, eo' = o.e, keep,
    cnt' = { ...cnt, passes: cnt.passes + runAsc.passes, outers: cnt.outers + 1, inferred: cnt.inferred + 1 },
  }
  action wholeOuter = all {
    l < obs.length(), mode == "run" or mode == "stopped", o.t == ot + 1, o.e == c.ep, c.ep > 1, not(surelyConverged),
    not(runAsc.unsure) and not(runDesc.unsure),
    close(runAsc.s.w, o.w, rel) or close(runDesc.s.w, o.w, rel),
    s' = pointAt(P, o.w), s0' = s, ord' = if (close(runAsc.s.w, o.w, rel)) asc else desc, k0' = kNow, mode' = "run", rows' = [],
    l' = l + 1, ot' = o.t, eo' = o.e, keep,
    cnt' = { ...cnt, passes: cnt.passes + runAsc.passes, outers: cnt.outers + 1,
             taken: cnt.taken + runAsc.took, tried: cnt.tried + runAsc.tried },
  }
  // an outer iteration whose branches or working set rounding could decide either way:
  // resynchronise, demanding that only lawful features moved and only that the objective did not increase
  val lawNow: WsLaw = wsLaw(P, c, s, rel)
  // a feature moved that one of the ways to break the ties leaves out of the working set
  // or whose rank among nearly equal violations is a matter of rounding
  val keysNow: List[int] = prio(P, s)
  val roundingTies: bool = lawNow.may.foldl(false, (b, j) => b or keysNow[j] != keysNow[lawNow.may[0]])
  val tieMoved: bool = lawNow.may.foldl(false, (b, j) => b or
    if (roundingTies) not(close([s.w[j]], [o.w[j]], rel) and close([s.w[j]], [runAsc.s.w[j]], rel) and close([s.w[j]], [runDesc.s.w[j]], rel))
    else not(member(asc, j) and member(desc, j)) and not(close([s.w[j]], [o.w[j]], rel)))
  action unsureOuter = all {
    l < obs.length(), mode == "run" or mode == "stopped", o.t == ot + 1, o.e == c.ep, c.ep > 1, not(surelyConverged),
    runAsc.unsure or runDesc.unsure or tieMoved,
    0.to(P.p - 1).forall(j => member(lawNow.must, j) or member(lawNow.may, j) or close([s.w[j]], [o.w[j]], rel)),
    allFinM(o.w), objAt(P, o.w) <= obj(P, s) + fmul(rel, fabs(obj(P, s)) + ONE / 10^6),
    s' = pointAt(P, o.w), s0' = s, ord' = [], k0' = kNow, mode' = "run", rows' = [],
    l' = l + 1, ot' = o.t, eo' = o.e, keep,
    cnt' = { ...cnt, outers: cnt.outers + 1, doubt: cnt.doubt + 1 },
  }
  action step = any { converged, afterDone, firstEpoch, nextEpoch, accelEpoch, innerStop, wholeOuter, otherOuter, unsureOuter }
  action init = all {
    P' = { n: 1, p: 1, t: 1, x: [[ONE]], y: [[ONE]], df: "quad", pen: "l1", a: 0, g: 0 },
    c' = { ws: 1, it: 1, ep: 1, tol: 0, K: 1, acc: false }, rel' = ONE / 10^9, obs' = [], l' = 0,
    s' = { w: [[0]], f: [[0]] }, s0' = { w: [[0]], f: [[0]] }, ot' = 0, eo' = 0, ord' = [], rows' = [],
    k0' = 0, mode' = "run", cnt' = { passes: 0, outers: 0, taken: 0, tried: 0, stops: 0, doubt: 0, inferred: 0, why: [] },
  }
  val accepted: bool = l == obs.length()
  // ---- what every state along the recorded run satisfies
  val finite: bool = allFinM(s.w)
  val zeroCols: bool = 0.to(P.p - 1).forall(j => not(zeroCol(P, j)) or isZero(s.w[j]))
  val outside: bool = mode != "run" or 0.to(P.p - 1).forall(j => member(ord, j) or ord == [] or
    close([s0.w[j]], [s.w[j]], rel))
  val descending: bool = obj(P, s) <= obj(P, s0) + fmul(rel, fabs(obj(P, s0)) + ONE / 10^6)
  val inv: bool = and { finite, zeroCols, outside, descending }
  val diag = { l: l, t: if (accepted) 0 else o.t, e: if (accepted) 0 else o.e, mode: mode, ord: ord,
               kkt: kNow, obsW: if (accepted) [] else o.w, expW: if (accepted or ord == []) [] else plainNext.w, w: s.w,
               finite: finite, zeroCols: zeroCols, outside: outside, descending: descending }
  val info = cnt
}
