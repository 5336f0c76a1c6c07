// Histories of fits on shared objects, for replay. Each object caches what its loss computed on
// the last data set it was initialised with; a fit must depend on the present data set only.
module sessiongen {
  pure val OBJS = 0.to(3)
  pure val SETS = 0.to(3)
  var cache: int -> int       // object -> data set of the cached quantities (-1: none)
  var hist: List[(int, int)]  // (object, data set)
  var seen: List[int]         // data set whose quantities each fit used
  action init = all { cache' = OBJS.mapBy(_ => -1), hist' = [], seen' = [] }
  action fit(o: int, d: int): bool = {
    // initialise, then solve with the cached quantities
    val c = cache.set(o, d)
    all { cache' = c, hist' = hist.append((o, d)), seen' = seen.append(c.get(o)) }
  }
  action step = {
    nondet o = OBJS.oneOf()
    nondet d = SETS.oneOf()
    all { hist.length() < 12, fit(o, d) }
  }
  val fresh: bool = 0.to(hist.length() - 1).forall(i => seen[i] == hist[i]._2)
  val wReuse: bool = 1.to(hist.length() - 1).exists(i => 0.to(i - 1).exists(j => hist[i] == hist[j]))
}
