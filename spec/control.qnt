// The control of the solver, without its numbers: budgets, working-set sizes, the iterates kept
// for extrapolation, stopping. The decisions below are the ones cd.qnt and trace.qnt take; here
// they are verified for every budget, every run length and every outcome of the arithmetic.
module decisions {
  // size of the working set, from the configured start and the number of active features
  pure def wsSizeOf(start: int, p: int, active: int): int = {
    val a = if (start < p) start else p
    val b = if (2 * active < p) 2 * active else p
    if (a < b) b else a
  }
  // after which epochs (from 0) the inner loop looks at the violation on the working set
  pure def checkDue(e: int): bool = e > 0 and e % 10 == 0
  // an extrapolation is attempted once K + 1 iterates have been kept
  pure def attempts(kept: int, K: int): bool = kept > K
  // the inner loop ends: at the budget, or on a violation small enough
  pure def innerEnds(e: int, ep: int, small: bool): bool = e + 1 >= ep or (checkDue(e) and small)
  // the run ends: at the budget, or within the tolerance
  pure def runEnds(t: int, it: int, within: bool): bool = t >= it or within
}

module control {
  import decisions.*
  pure val FEATS = Set(0, 1, 2, 3, 4)

  var p: int                 // features
  var start: int
  var it: int
  var ep: int
  var K: int
  var acc: bool
  var t: int                 // outer iterations started
  var e: int                 // epochs completed in the current one
  var kept: int              // iterates kept for extrapolation
  var from: int              // the outer iteration they come from
  var active: Set[int]       // features with non-zero coefficients
  var ws: Set[int]
  var within: bool           // the violation at the current point is within the tolerance
  var pc: str                // "outer" "pass" "accel" "check" "done"
  // the work left before the last step: outer iterations, epochs, phases
  var left1: int
  var left2: int
  var left3: int

  pure def feats(q: int): Set[int] = FEATS.filter(j => j < q)
  // decreases in lexicographic order at every step
  val work1: int = if (pc == "done") -1 else it - t
  val work2: int = if (pc == "done" or pc == "outer") 0 else ep - e + 1
  val work3: int = if (pc == "pass") 3 else if (pc == "accel") 2 else if (pc == "check") 1 else 0
  action keep = all {
    p' = p, start' = start, it' = it, ep' = ep, K' = K, acc' = acc,
    left1' = work1, left2' = work2, left3' = work3,
  }

  action init = {
    nondet q = 1.to(5).oneOf()
    nondet s = Nat.oneOf()
    nondet i = Nat.oneOf()
    nondet n = Nat.oneOf()
    nondet k = Nat.oneOf()
    nondet a = Bool.oneOf()
    nondet c = Bool.oneOf()
    all {
      p' = q, start' = s, it' = i, ep' = n, K' = k, acc' = a, k >= 1,
      t' = 0, e' = 0, kept' = 0, from' = 0, active' = Set(), ws' = Set(), within' = c, pc' = "outer",
      left1' = i + 1, left2' = 0, left3' = 0,
    }
  }
  action finish = all {
    pc == "outer", runEnds(t, it, within),
    pc' = "done", t' = t, e' = e, kept' = kept, from' = from, active' = active, ws' = ws, within' = within, keep,
  }
  // any set of the lawful size that keeps the active features
  action beginOuter = {
    nondet s = feats(p).powerset().oneOf()
    all {
      pc == "outer", not(runEnds(t, it, within)),
      s.size() == wsSizeOf(start, p, active.size()), active.subseteq(s),
      ws' = s, t' = t + 1, e' = 0, kept' = 0, from' = t + 1,
      pc' = if (ep == 0) "outer" else "pass", active' = active, within' = within, keep,
    }
  }
  // a pass moves coefficients of the working set only
  action onePass = {
    nondet a = ws.powerset().oneOf()
    nondet c = Bool.oneOf()
    all {
      pc == "pass",
      active' = active.exclude(ws).union(a), within' = c, kept' = if (acc) kept + 1 else 0,
      pc' = "accel", t' = t, e' = e, from' = from, ws' = ws, keep,
    }
  }
  // the extrapolated point is a combination of the kept iterates
  action accelerate = {
    nondet a = ws.powerset().oneOf()
    nondet took = Bool.oneOf()
    nondet c = Bool.oneOf()
    val due = acc and attempts(kept, K)
    all {
      pc == "accel",
      active' = if (due and took) a else active,
      within' = if (due and took) c else within,
      kept' = if (due) 0 else kept,
      pc' = "check", t' = t, e' = e, from' = from, ws' = ws, keep,
    }
  }
  action checkStop = {
    nondet small = Bool.oneOf()
    all {
      pc == "check",
      e' = e + 1, pc' = if (innerEnds(e, ep, small)) "outer" else "pass",
      t' = t, kept' = kept, from' = from, active' = active, ws' = ws, within' = within, keep,
    }
  }
  action step = any { finish, beginOuter, onePass, accelerate, checkStop }

  // ---------------------------------------------------------------- invariants
  val inner: bool = Set("pass", "accel", "check").contains(pc)
  val domain: bool = and {
    p.in(1.to(5)), start.in(Nat), it.in(Nat), ep.in(Nat), K.in(Nat), acc.in(Bool), t.in(Nat), e.in(Nat), kept.in(Nat), from.in(Nat),
    active.in(FEATS.powerset()), ws.in(FEATS.powerset()), within.in(Bool), pc.in(Set("outer", "pass", "accel", "check", "done")),
    left1.in(Int), left2.in(Int), left3.in(Int),
    K >= 1, active.subseteq(feats(p)), ws.subseteq(feats(p)),
  }
  val inBudget: bool = t <= it and e <= ep and (inner implies e < ep) and (inner implies t >= 1)
  // the working set holds every active feature: the extrapolated point (zero outside of it) and the
  // maintained model fit never lose a coefficient
  val wsHolds: bool = inner implies active.subseteq(ws)
  val wsSized: bool = inner implies and {
    ws.size() <= p, start >= p implies ws.size() == p, start < p implies ws.size() >= start }
  // extrapolations mix K + 1 iterates of one working set
  val keptLaw: bool = and { kept <= K + 1, (kept > 0 or inner) implies from == t,
    pc == "pass" implies kept <= K, kept <= e + 1, not(acc) implies kept == 0,
    (pc == "check" or pc == "pass") implies kept <= K, pc == "pass" implies kept <= e }
  // a run that ends either spent its budget or is within the tolerance
  val endsWell: bool = pc == "done" implies (t == it or within)
  // without budget nothing ever moves
  val nothing: bool = (it == 0 or ep == 0) implies active == Set()
  // every step leaves less work than before, so every run ends
  val decreasing: bool = and { work1 >= -1, work2 >= 0, work3 >= 0,
    work1 < left1 or (work1 == left1 and (work2 < left2 or (work2 == left2 and work3 < left3))) }
  val inv: bool = and { domain, inBudget, wsHolds, wsSized, keptLaw, endsWell, nothing, decreasing }
  val safe: bool = and { inBudget, wsHolds, wsSized, keptLaw, endsWell, nothing, decreasing }
}
