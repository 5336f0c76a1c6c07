// Relations between fits of related problems: the specification derives the second problem
// from the first by the named transformation, checks that this is the problem that was run, and
// demands that the coefficients of the second fit are the transformed coefficients of the first.
module relate {
  import fx.* from "./fx"
  import glm.* from "./glm"

  type Tr =
      // the same problem (another storage format, another settings, another object)
      Same
    | PermSamples(List[int])
    | PermFeatures(List[int])
    | PermTasks(List[int])
    | FlipTargets
    | FlipColumn(int)
    // the whole sample repeated
    | Repeat(int)
    // targets multiplied by c; regularization with them
    | Scale(int)
    | AppendZeros(int)
    // definitions that coincide
    | AsBlock          // a vector target as a matrix with one column
    | RatioOne         // elastic net without its quadratic term
    | GammaInfinite    // minimax concave without its concave part
    | Copies(int)      // several tasks with the same targets

  pure def permuted(l: List[List[int]], q: List[int]): List[List[int]] = q.foldl([], (o, i) => o.append(l[i]))
  pure def permEach(l: List[List[int]], q: List[int]): List[List[int]] =
    l.foldl([], (o, c) => o.append(q.foldl([], (r, i) => r.append(c[i]))))
  pure def negated(l: List[List[int]]): List[List[int]] = l.foldl([], (o, c) => o.append(c.foldl([], (r, v) => r.append(-v))))
  pure def timesEach(l: List[List[int]], k: int): List[List[int]] =
    l.foldl([], (o, c) => o.append(range(0, k).foldl([], (r, _) => r.concat(c))))
  pure def transform(P: Prob, tr: Tr): Prob = match tr {
    | Same => P
    | PermSamples(q) => { ...P, x: permEach(P.x, q), y: permEach(P.y, q) }
    | PermFeatures(q) => { ...P, x: permuted(P.x, q) }
    | PermTasks(q) => { ...P, y: permuted(P.y, q) }
    | FlipTargets => { ...P, y: negated(P.y) }
    | FlipColumn(j) => { ...P, x: P.x.replaceAt(j, P.x[j].foldl([], (r, v) => r.append(-v))) }
    | Repeat(k) => { ...P, n: k * P.n, x: timesEach(P.x, k), y: timesEach(P.y, k) }
    | Scale(c) => { ...P, a: fmul(P.a, c), y: P.y.foldl([], (o, r) => o.append(r.foldl([], (s, v) => s.append(fmul(v, c))))) }
    | AppendZeros(z) => { ...P, p: P.p + z, x: P.x.concat(range(0, z).foldl([], (o, _) => o.append(zeros(P.n)))) }
    | AsBlock => P
    | RatioOne => { ...P, pen: "en", g: ONE }
    | GammaInfinite => { ...P, pen: "mcp", g: INF }
    | Copies(k) => { ...P, t: k, y: range(0, k).foldl([], (o, _) => o.append(P.y[0])) }
  }
  // is the transformation a symmetry of this problem?
  pure def applies(P: Prob, tr: Tr): bool = match tr {
    | Scale(c) => P.df == "quad" and (P.pen == "l1" or P.pen == "mcp") and c > 0
    | RatioOne => P.pen == "l1"
    | GammaInfinite => P.pen == "l1"
    | AsBlock => P.t == 1 and P.df == "quad"
    | Copies(k) => P.t == 1 and P.df == "quad"
    | _ => true
  }
  // the coefficients expected from the transformed problem
  pure def carry(P: Prob, w: Mat, tr: Tr): Mat = match tr {
    | PermFeatures(q) => permuted(w, q)
    | PermTasks(q) => permEach(w, q)
    | FlipTargets => negated(w)
    | FlipColumn(j) => w.replaceAt(j, w[j].foldl([], (r, v) => r.append(-v)))
    | Scale(c) => w.foldl([], (o, r) => o.append(r.foldl([], (s, v) => s.append(fmul(v, c)))))
    | AppendZeros(z) => w.concat(range(0, z).foldl([], (o, _) => o.append(zeros(P.t))))
    | _ => w
  }
  pure def shaped(P: Prob, w: Mat): bool = w.length() == P.p and 0.to(P.p - 1).forall(j => w[j].length() == P.t)

  type Ev =
      // equal (transformed) coefficients, within abs and rel
      Pair({ P: Prob, tr: Tr, Q: Prob, w: Mat, u: Mat, abs: int, rel: int })
    // the tasks of a fit on copies of one target agree
    | Columns({ P: Prob, tr: Tr, Q: Prob, u: Mat, abs: int, rel: int })
    // the data were not modified
    | Intact({ same: bool })
    | Bits({ a: List[int], b: List[int] })
    | Fail({ what: str })
  pure def precision(w: Mat, u: Mat, rel: int): int = fmul(rel, fmax(maxAbsM(w), maxAbsM(u)))
  pure def accepts(v: Ev): bool = match v {
    | Pair(e) => and {
        applies(e.P, e.tr), e.Q == transform(e.P, e.tr),
        shaped(e.P, e.w), shaped(e.Q, e.u), allFinM(e.w), allFinM(e.u),
        nearM(carry(e.P, e.w, e.tr), e.u, e.abs + precision(e.w, e.u, e.rel), 0) }
    | Columns(e) => and {
        applies(e.P, e.tr), e.Q == transform(e.P, e.tr), shaped(e.Q, e.u), allFinM(e.u),
        e.u.foldl(true, (b, r) => b and r.foldl(true, (c, v) => c and near(v, r[0], e.abs + precision(e.u, e.u, e.rel), 0))) }
    | Intact(e) => e.same
    | Bits(e) => e.a == e.b
    | Fail(e) => false
  }
  type M = { kind: str, got: Mat, want: Mat, dist: int }
  pure def safeDist(a: Mat, b: Mat): int = if (a.length() == b.length() and allFinM(a) and allFinM(b)) distM(a, b) else NAN
  pure def measure(v: Ev): M = match v {
    | Pair(e) => { kind: if (e.Q == transform(e.P, e.tr)) "pair" else "not the transformed problem", got: e.u, want: carry(e.P, e.w, e.tr), dist: safeDist(carry(e.P, e.w, e.tr), e.u) }
    | Columns(e) => { kind: "columns", got: e.u, want: [], dist: 0 }
    | Intact(e) => { kind: "data modified", got: [], want: [], dist: 0 }
    | Bits(e) => { kind: "bits", got: [e.a], want: [e.b], dist: 0 }
    | Fail(e) => { kind: e.what, got: [], want: [], dist: 0 }
  }
  var evs: List[Ev]
  var l: int
  action init = all { evs' = [], l' = 0 }
  action step = all { l < evs.length(), accepts(evs[l]), evs' = evs, l' = l + 1 }
  val accepted: bool = l == evs.length()
  val inv: bool = l <= evs.length()
  val diag = if (l < evs.length()) { at: l, m: measure(evs[l]) } else { at: l, m: { kind: "", got: [], want: [], dist: 0 } }
  val info = { seen: l }
}
