// Random exploration of the solver machine over small problems: its invariants are checked in
// every reachable state met, and the behaviours found are replayed against the implementation.
module explore {
  import fx.* from "./fx"
  import glm.* from "./glm"
  import cd.* from "./cd"
  import solver.* from "./solver"

  var fuel: int
  pure def half(k: int): int = k * ONE / 2
  pure def cell(bits: int, i: int): int = half(((bits / 7^(i % 24)) % 7) - 3)
  // design and targets from three random words; column `z` is null when z < p
  pure def mkProb(n: int, p: int, tasks: int, df: str, pen: str, a: int, g: int,
                  b1: int, b2: int, b3: int, z: int): Prob = {
    val T = if (df == "logit") 1 else tasks
    { n: n, p: p, t: T,
      x: range(0, p).foldl([], (l48, j) => l48.append(range(0, n).foldl([], (l49, i) => l49.append(if (j == z) 0 else cell(if ((i + j) % 2 == 0) b1 else b2, 5 * j + 3 * i))))),
      y: range(0, T).foldl([], (l50, k) => l50.append(range(0, n).foldl([], (l51, i) => l51.append(if (df == "logit") (if ((b3 / 2^i) % 2 == 0) ONE else -ONE) else 2 * cell(b3, 7 * k + i))))),
      df: df, pen: pen, a: (a * ONE) / 16,
      g: if (pen == "en") (g * ONE) / 8 else if (pen == "tgt") ((g - 4) * ONE) / 4 else if (g == 8) INF else ONE + (g * ONE) / 2 }
  }
  action init = {
    nondet n = 1.to(5).oneOf()
    nondet p = 1.to(5).oneOf()
    nondet T = 1.to(3).oneOf()
    nondet df = Set("quad", "quad", "logit").oneOf()
    nondet pn = Set("l1", "en", "mcp", "l05").oneOf()
    nondet a = 0.to(20).oneOf()
    nondet g = 0.to(8).oneOf()
    nondet b1 = 0.to(7^24).oneOf()
    nondet b2 = 0.to(7^24).oneOf()
    nondet b3 = 0.to(7^24).oneOf()
    nondet z = 0.to(9).oneOf()
    nondet w = 1.to(6).oneOf()
    nondet it = 0.to(4).oneOf()
    nondet ep = 0.to(14).oneOf()
    nondet K = 1.to(4).oneOf()
    nondet ac = Set(true, false).oneOf()
    nondet tl = Set(2, 4, 6).oneOf()
    all {
      boot(mkProb(n, p, if (pn == "l05") 1 else T, df, pn, a, g, b1, b2, b3, z),
           { ws: w, it: it, ep: ep, tol: ONE / 10^tl, K: K, acc: ac }),
      fuel' = 0,
    }
  }
  // the same machine under losses and penalties of the user's
  action initOwn = {
    nondet n = 1.to(5).oneOf()
    nondet p = 1.to(5).oneOf()
    nondet T = 1.to(3).oneOf()
    nondet df = Set("huber", "huber", "quad", "logit").oneOf()
    nondet pn = Set("nn", "ridge", "el1", "l0", "tgt", "l1", "mcp").oneOf()
    nondet a = 0.to(20).oneOf()
    nondet g = 0.to(8).oneOf()
    nondet b1 = 0.to(7^24).oneOf()
    nondet b2 = 0.to(7^24).oneOf()
    nondet b3 = 0.to(7^24).oneOf()
    nondet z = 0.to(9).oneOf()
    nondet w = 1.to(6).oneOf()
    nondet it = 0.to(4).oneOf()
    nondet ep = 0.to(14).oneOf()
    nondet K = 1.to(4).oneOf()
    nondet ac = Set(true, false).oneOf()
    nondet tl = Set(2, 4, 6).oneOf()
    all {
      boot(mkProb(n, p, if (pn == "l0") 1 else T, df, pn, a, g, b1, b2, b3, z),
           { ws: w, it: it, ep: ep, tol: ONE / 10^tl, K: K, acc: ac }),
      fuel' = 0,
    }
  }
  action step = all { fuel' = fuel + 1, advance }
  val allInv: bool = inv
  // witnesses: every interesting situation is really reached
  val wTook: bool = tookLast
  val wDone: bool = pc == "done" and t < cfg.it and t > 0
  val wGrow: bool = t > 1 and pc == "pass" and ws.length() > cfg.ws
  val wStop: bool = pc == "outer" and e > 0 and e < cfg.ep
  val wZero: bool = pc == "done" and 0.to(prob.p - 1).exists(j => zeroCol(prob, j))
}
