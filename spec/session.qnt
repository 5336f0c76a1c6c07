// Sessions of fits on shared objects and shared data. The machine remembers the first result of
// every (configuration, data set) pair: whatever happened in between, each later fit of the same
// pair must return the same bits, and no data or configuration may change.
module session {
  // o: object used; cfg: its configuration (several objects may share one); d: data set
  type Act = { o: int, c: int, d: int, bits: List[int], failed: str }
  var acts: List[Act]
  var l: int
  var memo: (int, int) -> List[int]
  var intact: bool
  var busy: int -> int          // data set last seen by each object
  pure def ok(m: (int, int) -> List[int], a: Act): bool =
    a.failed == "" and a.bits.length() > 0 and (not(m.keys().contains((a.c, a.d))) or m.get((a.c, a.d)) == a.bits)
  action init = all { acts' = [], l' = 0, memo' = Map(), intact' = true, busy' = Map() }
  action step = all {
    l < acts.length(), ok(memo, acts[l]),
    memo' = memo.put((acts[l].c, acts[l].d), acts[l].bits), busy' = busy.put(acts[l].o, acts[l].d),
    acts' = acts, l' = l + 1, intact' = intact,
  }
  val accepted: bool = l == acts.length() and intact
  val inv: bool = intact
  val diag = { at: l, act: if (l < acts.length()) acts[l] else { o: -1, c: -1, d: -1, bits: [], failed: "" }, intact: intact }
  val info = { seen: l, pairs: memo.keys().size() }
}
