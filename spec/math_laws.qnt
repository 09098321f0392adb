// Laws of ntt_math for all 64-bit values, discharged symbolically (`quint verify`, one state).
module math_laws {
  import ntt_math.* from "./ntt_math"
  var amt: int
  var own: int
  var peer: int
  var r: RL
  var now: int
  var x: int

  action initTrim: bool = {
    nondet a = Int.oneOf()
    nondet o = 0.to(12).oneOf()
    nondet p = 0.to(12).oneOf()
    all { 0 <= a, a <= U64MAX, amt' = a, own' = o, peer' = p, r' = rlNew(0), now' = 0, x' = 0 }
  }
  action initRate: bool = {
    nondet l = Int.oneOf()
    nondet c = Int.oneOf()
    nondet dt = Int.oneOf()
    nondet a = Int.oneOf()
    nondet l2 = Int.oneOf()
    all { 0 <= l, l <= U64MAX, 0 <= c, c <= l, 0 <= dt, dt <= 2 * DAY, 0 <= a, a <= U64MAX, 0 <= l2, l2 <= U64MAX,
          amt' = a, own' = 0, peer' = 0, r' = { limit: l, cap: c, last: 0 }, now' = dt, x' = l2 }
  }
  action step: bool = all { amt' = amt, own' = own, peer' = peer, r' = r, now' = now, x' = x }

  // the sender pays at most what was asked for, less than one wire unit less, and the wire says exactly that
  val trimExact: bool = {
    val t = trim(amt, own, peer)
    val unit = 10^(own - t.dec)
    t.ok implies and { t.moved <= amt, amt - t.moved < unit, t.wire * unit == t.moved, t.dec <= 8, t.dec <= own, t.dec <= peer }
  }
  val capBounded: bool = and { 0 <= rlCap(r, now), rlCap(r, now) <= r.limit, now >= DAY implies rlCap(r, now) == r.limit }
  val consumeExact: bool = rlFits(r, now, amt) implies {
    val z = rlConsume(r, now, amt)
    and { rlCap(z, now) == rlCap(r, now) - amt, rlWellFormed(z, now) } }
  val refillExact: bool = {
    val z = rlRefill(r, now, amt)
    and { rlCap(z, now) == min2(r.limit, rlCap(r, now) + amt), rlWellFormed(z, now) } }
  val setLimitExact: bool = {
    val z = rlSetLimit(r, now, x)
    and { rlCap(z, now) == min2(x, max2(0, rlCap(r, now) + x - r.limit)), rlWellFormed(z, now) } }
}
