// Arithmetic of Native Token Transfers: decimal trimming and the rate limiter.
// Everything here is exact (unbounded integers); machine widths appear as explicit
// guards, so "overflow is rejected, never wrapped" is part of the specification.
module ntt_math {
  pure val U64MAX: int = 2^64 - 1
  pure val DAY: int = 86400
  pure val MAX_WIRE_DECIMALS: int = 8

  pure def min2(a: int, b: int): int = if (a < b) a else b
  pure def max2(a: int, b: int): int = if (a > b) a else b

  // --- scaling -----------------------------------------------------------------
  type Scaled = { ok: bool, v: int }

  // amount expressed with `fromDec` decimals, re-expressed with `toDec` decimals.
  // The scaling factor and the result have to fit 64 bits.
  pure def scale(amt: int, fromDec: int, toDec: int): Scaled =
    if (fromDec == toDec) { ok: true, v: amt }
    else if (fromDec > toDec) {
      val p = fromDec - toDec
      if (p > 19) { ok: false, v: 0 } else { ok: true, v: amt / 10^p }
    } else {
      val p = toDec - fromDec
      if (p > 19) { ok: false, v: 0 }
      else {
        val r = amt * 10^p
        if (r > U64MAX) { ok: false, v: 0 } else { ok: true, v: r }
      }
    }

  // What an outbound transfer of `amt` moves and what it says on the wire.
  //   wire  : amount on the wire, in `dec` decimals
  //   moved : the same value in the token's own decimals (amount without dust)
  type Trim = { ok: bool, wire: int, dec: int, moved: int }
  pure def trim(amt: int, tokenDec: int, peerDec: int): Trim = {
    val d = min2(MAX_WIRE_DECIMALS, min2(tokenDec, peerDec))
    val w = scale(amt, tokenDec, d)
    val m = scale(w.v, d, tokenDec)
    { ok: w.ok and m.ok, wire: w.v, dec: d, moved: m.v }
  }

  // --- rate limiter -------------------------------------------------------------
  type RL = { limit: int, cap: int, last: int }

  pure def rlNew(limit: int): RL = { limit: limit, cap: limit, last: 0 }

  pure def rlCap(r: RL, now: int): int =
    min2(r.limit, r.cap + ((now - r.last) * r.limit) / DAY)

  pure def rlFits(r: RL, now: int, amt: int): bool = rlCap(r, now) >= amt

  pure def rlConsume(r: RL, now: int, amt: int): RL =
    { limit: r.limit, cap: rlCap(r, now) - amt, last: now }

  pure def rlRefill(r: RL, now: int, amt: int): RL =
    { limit: r.limit, cap: min2(r.limit, min2(U64MAX, rlCap(r, now) + amt)), last: now }

  // Changing the limit moves the available capacity by the same difference,
  // bounded by 0 and the new limit.
  pure def rlSetLimit(r: RL, now: int, limit: int): RL = {
    val c = rlCap(r, now)
    val nc = if (r.limit > limit) max2(0, c - (r.limit - limit)) else c + (limit - r.limit)
    { limit: limit, cap: min2(nc, limit), last: now }
  }

  pure def rlWellFormed(r: RL, now: int): bool =
    and { 0 <= r.cap, r.cap <= r.limit, r.limit <= U64MAX, r.last <= now }

  // ceil(amt * bps / 10000): the fee a fee-bearing token would withhold
  pure def tokenFee(amt: int, bps: int): int = (amt * bps + 9999) / 10000
}
