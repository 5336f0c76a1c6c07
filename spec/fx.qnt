// Fixed-point real arithmetic on unbounded integers: the value x stands for x / ONE.
// Used by every numeric part of the specification; precise to about 36 decimal digits,
// far beyond the double precision of the implementation it judges.
module fx {
  pure val ONE = 1329227995784915872903807060280344576 // 2^120
  pure val ONE2 = 1766847064778384329583297500742918515827483896875618958121606201292619776 // 2^240
  // Codes for the non-finite floats; every finite value is below FIN in absolute value.
  pure val FIN = 2^1500
  pure val INF = 2^1600
  pure val NAN = 2^1700

  pure def fin(x: int): bool = -FIN < x and x < FIN
  pure def fabs(x: int): int = if (x < 0) -x else x
  pure def fmax(a: int, b: int): int = if (a < b) b else a
  pure def fmin(a: int, b: int): int = if (a < b) a else b
  pure def sgn(x: int): int = if (x < 0) -1 else if (x > 0) 1 else 0
  pure def fmul(a: int, b: int): int = (a * b) / ONE
  pure def fdiv(a: int, b: int): int = (a * ONE) / b
  // m * 10^-k as a fixed-point number
  pure def dec(m: int, k: int): int = (m * ONE) / 10^k

  pure def sum(l: List[int]): int = l.foldl(0, (s, x) => s + x)
  pure def maxOf(l: List[int]): int = l.foldl(0, (s, x) => if (s < x) x else s)
  pure def maxAbs(l: List[int]): int = l.foldl(0, (s, x) => fmax(s, fabs(x)))
  pure def zeros(n: int): List[int] = range(0, n).foldl([], (l1, _) => l1.append(0))
  // exact product sum, one rounding at the end
  pure def dot2(u: List[int], v: List[int]): int =
    range(0, u.length()).foldl(0, (s, i) => s + u[i] * v[i])
  pure def dot(u: List[int], v: List[int]): int = dot2(u, v) / ONE
  pure def allFin(l: List[int]): bool = l.foldl(true, (b2, x) => b2 and fin(x))
  pure def allFinM(l: List[List[int]]): bool = l.foldl(true, (a, r) => a and allFin(r))

  // position of the highest set bit, plus one
  pure def bits(a: int): int = {
    val r = [2048, 1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1].foldl((a, 0), (s, k) =>
      if (s._1 >= 2^k) (s._1 / 2^k, s._2 + k) else s)
    r._2 + 1
  }
  pure def isqrt(m: int): int =
    if (m <= 0) 0 else {
      val x0 = 2^((bits(m) + 1) / 2)
      range(0, 9).foldl(x0, (x, _) => (x + m / x) / 2)
    }
  pure def fsqrt(a: int): int = isqrt(a * ONE)
  // Euclidean norm of a row
  pure def norm(v: List[int]): int =
    if (v.length() == 1) fabs(v[0]) else isqrt(dot2(v, v))

  // exp(-m) for m >= 0: argument reduction by 2^7, 26 Taylor terms, 7 squarings
  pure def expNeg(m: int): int =
    if (m > 85 * ONE) 0 else {
      val x = -m / 128
      val s = range(1, 27).foldl((ONE, ONE), (a, k) => {
        val t = fmul(a._1, x) / k
        (t, a._2 + t)
      })
      range(0, 7).foldl(s._2, (e, _) => fmul(e, e))
    }
  // ln(1 + u) for 0 <= u <= 1, by 2 atanh(u / (2 + u))
  pure def ln1p(u: int): int =
    if (u == 0) 0 else {
      val s = fdiv(u, 2 * ONE + u)
      val s2 = fmul(s, s)
      val r = range(0, 28).foldl((s, 0), (a, k) => (fmul(a._1, s2), a._2 + a._1 / (2 * k + 1)))
      2 * r._2
    }
  // ln(1 + exp(-m)), any m
  pure def softplusNeg(m: int): int =
    if (m >= 0) ln1p(expNeg(m)) else ln1p(expNeg(-m)) - m
  pure def sigmoid(z: int): int =
    if (z >= 0) fdiv(ONE, ONE + expNeg(z)) else {
      val e = expNeg(-z)
      fdiv(e, ONE + e)
    }

  // |a - b| <= abs + rel * max(|a|, |b|), both finite
  pure def near(a: int, b: int, absT: int, relT: int): bool =
    fin(a) and fin(b) and fabs(a - b) <= absT + fmul(relT, fmax(fabs(a), fabs(b)))
  pure def nearL(a: List[int], b: List[int], absT: int, relT: int): bool =
    a.length() == b.length() and 0.to(a.length() - 1).forall(i => near(a[i], b[i], absT, relT))
  pure def nearM(a: List[List[int]], b: List[List[int]], absT: int, relT: int): bool =
    a.length() == b.length() and 0.to(a.length() - 1).forall(i => nearL(a[i], b[i], absT, relT))
  pure def distM(a: List[List[int]], b: List[List[int]]): int =
    range(0, a.length()).foldl(0, (m3, i) => fmax(m3, range(0, a[i].length()).foldl(0, (m4, k) => fmax(m4, fabs(a[i][k] - b[i][k])))))
  pure def maxAbsM(a: List[List[int]]): int = a.foldl(0, (s, r) => fmax(s, maxAbs(r)))

  // descending insertion sort of feature indices by key; ties in the order met
  pure def insertDesc(l: List[int], j: int, key: List[int]): List[int] = {
    val pos = l.foldl(0, (c, i) => if (key[i] >= key[j]) c + 1 else c)
    l.slice(0, pos).append(j).concat(l.slice(pos, l.length()))
  }
  pure def sortDesc(js: List[int], key: List[int]): List[int] =
    js.foldl([], (l, j) => insertDesc(l, j, key))
  pure def member(l: List[int], j: int): bool = l.foldl(false, (b5, i) => b5 or i == j)
  pure def rev(l: List[int]): List[int] = l.foldl([], (a, x) => [x].concat(a))
  pure def perms(l: List[int]): List[List[int]] =
    l.foldl([[]], (acc, x) =>
      acc.foldl([], (out, q) =>
        range(0, q.length() + 1).foldl(out, (o, i) =>
          o.append(q.slice(0, i).append(x).concat(q.slice(i, q.length()))))))
}
