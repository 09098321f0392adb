// The libraries everything else rests on, called directly: decimal scaling, the rate
// limiter's refill, the transceiver bitmap and the wire codec (including the parts no
// Solana instruction exercises: payloads, and decoding of broadcasts).
// A behaviour is a sequence of calls; each call and its specified result are one step.
module lib {
  import ntt_math.* from "./ntt_math"
  import ntt_wire.* from "./ntt_wire"

  // n: numeric arguments; ks: seeds of the 32-byte fields; x: what happened to the bytes
  type Act = { name: str, n: List[int], ks: List[int], x: str, at: int }
  type Res = { ok: bool, n: List[int], bytes: List[int] }
  pure val R0: Res = { ok: false, n: [], bytes: [] }

  var act: Act
  var errs: Set[str]
  var res: Res
  var s: int
  var broken: Set[str]

  // ------------------------------------------------------------- bytes
  // `len` bytes determined by the seed k; distinct seeds give distinct fields
  pure def fill(k: int, len: int): List[int] =
    range(0, len).foldl([], (acc, i) => acc.append((k + i * (1 + 2 * (k / 256))) % 256))
  pure def addr(k: int): List[int] = fill(k, 32)

  pure def num(b: List[int]): int = b.foldl(0, (acc, d) => acc * 256 + d)

  // ------------------------------------------------------------- codec
  type Tm = { src: List[int], rcpt: List[int], id: List[int], sender: List[int],
              dec: int, amt: int, tok: List[int], to: List[int], chain: int,
              extra: bool, add: List[int], pl: List[int] }

  pure def bNtt(m: Tm): List[int] =
    NTT_PREFIX.concat(be(m.dec, 1)).concat(be(m.amt, 8)).concat(m.tok).concat(m.to).concat(be(m.chain, 2))
      .concat(if (m.extra) be(m.add.length(), 2).concat(m.add) else [])
  pure def bMgr(m: Tm): List[int] = {
    val p = bNtt(m)
    m.id.concat(m.sender).concat(be(p.length(), 2)).concat(p)
  }
  pure def bTm(m: Tm): List[int] = {
    val p = bMgr(m)
    TM_PREFIX.concat(m.src).concat(m.rcpt).concat(be(p.length(), 2)).concat(p)
      .concat(be(m.pl.length(), 2)).concat(m.pl)
  }
  // the decoder, as a specification of its own
  type Dec = { ok: bool, m: Tm }
  pure val NO_TM: Tm = { src: [], rcpt: [], id: [], sender: [], dec: 0, amt: 0, tok: [], to: [], chain: 0,
                         extra: false, add: [], pl: [] }
  pure def sub(b: List[int], i: int, n: int): List[int] = b.slice(i, i + n)
  pure def dTm(b: List[int], extra: bool): Dec = {
    val L = b.length()
    val addLen = if (extra and L >= 217) num(sub(b, 215, 2)) + 2 else 0   // with its length field
    val plAt = 215 + addLen
    if (L < plAt + 2) { ok: false, m: NO_TM }
    else {
      val plLen = num(sub(b, plAt, 2))
      if (or { L < plAt + 2 + plLen, sub(b, 0, 4) != TM_PREFIX, sub(b, 136, 4) != NTT_PREFIX })
        { ok: false, m: NO_TM }
      else { ok: true, m: {
        src: sub(b, 4, 32), rcpt: sub(b, 36, 32), id: sub(b, 70, 32), sender: sub(b, 102, 32),
        dec: num(sub(b, 140, 1)), amt: num(sub(b, 141, 8)), tok: sub(b, 149, 32), to: sub(b, 181, 32),
        chain: num(sub(b, 213, 2)), extra: extra, add: if (extra) sub(b, 217, addLen - 2) else [],
        pl: sub(b, plAt + 2, plLen) } }
    }
  }

  // seeds and numbers to a message; n = [dec, amt, chain, extra, addLen, plLen]
  pure def mkTm(n: List[int], ks: List[int]): Tm = {
    src: addr(ks[0]), rcpt: addr(ks[1]), id: addr(ks[2]), sender: addr(ks[3]),
    dec: n[0], amt: n[1], tok: addr(ks[4]), to: addr(ks[5]), chain: n[2],
    extra: n[3] == 1, add: if (n[3] == 1) fill(ks[6], n[4]) else [], pl: fill(ks[7], n[5]) }

  // n = [mode, dec]
  pure def bInfo(n: List[int], ks: List[int]): List[int] =
    INFO_PREFIX.concat(addr(ks[0])).concat([n[0]]).concat(addr(ks[1])).concat([n[1]])
  // n = [chain]
  pure def bReg(n: List[int], ks: List[int]): List[int] =
    PEER_PREFIX.concat(be(n[0], 2)).concat(addr(ks[0]))

  // what is done to the bytes before decoding: "" | "cut" (keep the first `at`) | "flip" (byte `at`)
  pure def damage(b: List[int], x: str, at: int): List[int] =
    if (x == "cut") b.slice(0, at)
    else if (x == "flip") b.replaceAt(at, (b[at] + 1) % 256)
    else b

  // ------------------------------------------------------------- bitmap: [hi, lo] of 64 bits each
  pure def bit(hi: int, lo: int, i: int): bool =
    if (i < 64) (lo / 2^i) % 2 == 1 else (hi / 2^(i - 64)) % 2 == 1
  pure def bits(hi: int, lo: int): Set[int] = 0.to(127).filter(i => bit(hi, lo, i))
  pure def unbits(b: Set[int]): List[int] =
    [b.filter(i => i >= 64).fold(0, (a, i) => a + 2^(i - 64)), b.filter(i => i < 64).fold(0, (a, i) => a + 2^i)]

  // ------------------------------------------------------------- results
  pure def eval(a: Act): Res =
    if (a.name == "Rescale") {          // n = [amount, from, to]
      val r = scale(a.n[0], a.n[1], a.n[2])
      { ok: r.ok, n: [r.v], bytes: [] }
    } else if (a.name == "Trim") {      // n = [amount, token decimals, peer decimals]
      val d = min2(MAX_WIRE_DECIMALS, min2(a.n[1], a.n[2]))
      val r = scale(a.n[0], a.n[1], d)
      { ok: r.ok, n: [r.v, d], bytes: [] }
    } else if (a.name == "RemoveDust") {
      val r = trim(a.n[0], a.n[1], a.n[2])
      { ok: r.ok, n: [r.wire, r.dec, r.moved], bytes: [] }
    } else if (a.name == "Capacity") {  // n = [limit, capacity, last, now]
      { ok: true, n: [rlCap({ limit: a.n[0], cap: a.n[1], last: a.n[2] }, a.n[3])], bytes: [] }
    } else if (a.name == "BitSet") {    // n = [hi, lo, index, value]
      val b = bits(a.n[0], a.n[1])
      { ok: a.n[2] < 128,
        n: if (a.n[2] >= 128) [] else unbits(if (a.n[3] == 1) b.union(Set(a.n[2])) else b.exclude(Set(a.n[2]))),
        bytes: [] }
    } else if (a.name == "BitGet") {
      { ok: a.n[2] < 128, n: [if (a.n[2] < 128 and bit(a.n[0], a.n[1], a.n[2])) 1 else 0], bytes: [] }
    } else if (a.name == "BitCount") {  // n = [hi, lo, hi', lo']: size, emptiness, common members
      val b = bits(a.n[0], a.n[1])
      { ok: true, n: [b.size(), if (b == Set()) 1 else 0, b.intersect(bits(a.n[2], a.n[3])).size()], bytes: [] }
    } else if (a.name == "Message") {
      { ok: a.x == "", n: [], bytes: damage(bTm(mkTm(a.n, a.ks)), a.x, a.at) }
    } else if (a.name == "Info") {
      { ok: a.x == "" and a.n[0] < 2, n: [], bytes: damage(bInfo(a.n, a.ks), a.x, a.at) }
    } else if (a.name == "Registration") {
      { ok: a.x == "", n: [], bytes: damage(bReg(a.n, a.ks), a.x, a.at) }
    } else R0

  // ------------------------------------------------------------- laws of the specification itself
  pure def laws(a: Act, r: Res): Set[str] =
    if (a.name == "RemoveDust" and r.ok) {
      val unit = 10^(a.n[1] - r.n[1])
      if (and { r.n[1] <= 8, r.n[1] <= a.n[1], r.n[1] <= a.n[2], r.n[2] <= a.n[0], a.n[0] - r.n[2] < unit,
                r.n[0] * unit == r.n[2] }) Set() else Set("C02")
    } else if (a.name == "Rescale" and r.ok and a.n[1] <= a.n[2]) {
      if (r.n[0] == a.n[0] * 10^(a.n[2] - a.n[1]) and r.n[0] <= U64MAX) Set() else Set("C02")
    } else if (a.name == "Capacity") {
      if (and { r.n[0] <= a.n[0], r.n[0] >= min2(a.n[0], a.n[1]),
                a.n[3] - a.n[2] < DAY or r.n[0] == a.n[0] }) Set() else Set("C05")
    } else if (a.name == "BitCount") {
      if (r.n[2] <= r.n[0] and (r.n[1] == 1) == (r.n[0] == 0)) Set() else Set("C09")
    } else if (a.name == "Message") {
      val d = dTm(r.bytes, a.n[3] == 1)
      if (d.ok == r.ok and (not(r.ok) or d.m == mkTm(a.n, a.ks))) Set() else Set("C15")
    } else Set()

  // ------------------------------------------------------------- behaviours
  action call(a: Act): bool = {
    val r = eval(a)
    all {
      act' = a,
      errs' = if (r.ok) Set() else Set("refused"),
      res' = r,
      s' = s + 1,
      broken' = broken.union(laws(a, r))
    }
  }
  pure val A0: Act = { name: "", n: [], ks: [], x: "", at: 0 }

  action init = all { act' = A0, errs' = Set(), res' = R0, s' = 0, broken' = Set() }


  action stepScale = {
    nondet raw = 0.to(U64MAX).oneOf()
    nondet shrink = 0.to(20).oneOf()
    nondet near = Set(-1, 0, 1, 7).oneOf()
    nondet shape = 0.to(3).oneOf()
    nondet f = 0.to(26).union(Set(100, 255)).oneOf()
    nondet t = 0.to(26).union(Set(100, 255)).oneOf()
    nondet fn = Set("Rescale", "Trim", "RemoveDust").oneOf()
    val p = 10^shrink
    val amt =
      if (shape == 0) raw
      else if (shape == 1) raw / p
      else if (shape == 2) min2(U64MAX, max2(0, p + near))
      else min2(U64MAX, max2(0, U64MAX / p + near))
    call({ ...A0, name: fn, n: [amt, f, t] })
  }

  action stepCap = {
    nondet limit = Set(0, 1, 86399, 86400, 86401, 10^12, 10^18, 2^63, U64MAX).oneOf()
    nondet l2 = 0.to(U64MAX).oneOf()
    nondet own = Set(true, false).oneOf()
    nondet frac = 0.to(8).oneOf()
    nondet last = Set(0, 1, 1700000000, 4102444800).oneOf()
    nondet d = Set(0, 1, 2, 43199, 43200, 86399, 86400, 86401, 10^7, 3 * 10^9, 9 * 10^12).oneOf()
    nondet d2 = 0.to(90000).oneOf()
    nondet dd = Set(true, false).oneOf()
    val lim = if (own) l2 else limit
    call({ ...A0, name: "Capacity", n: [lim, (lim * frac) / 8, last, last + (if (dd) d2 else d)] })
  }

  action stepBits = {
    nondet a = 0.to(U64MAX).oneOf()
    nondet b = 0.to(U64MAX).oneOf()
    nondet c = 0.to(U64MAX).oneOf()
    nondet d = 0.to(U64MAX).oneOf()
    nondet sparse = 0.to(3).oneOf()
    nondet i = 0.to(131).union(Set(255)).oneOf()
    nondet v = Set(0, 1).oneOf()
    nondet fn = Set("BitSet", "BitGet", "BitCount").oneOf()
    val hi = if (sparse == 0) 0 else if (sparse == 1) U64MAX else a
    val lo = if (sparse == 0) 0 else if (sparse == 1) U64MAX else b
    val k = if (i < 64) [0, 2^i] else if (i < 128) [2^(i - 64), 0] else [U64MAX, U64MAX]
    if (fn == "BitCount") call({ ...A0, name: fn, n: if (v == 0) [hi, lo, c, d] else [hi, lo, k[0], k[1]] })
    else call({ ...A0, name: fn, n: [if (v == 1 and i >= 64) hi else a, lo, i, v] })
  }

  pure val LENS = Set(0, 1, 2, 31, 32, 33, 127, 128, 255, 256, 257, 700)

  action stepMsg = {
    nondet k0 = 0.to(65535).oneOf()
    nondet k1 = 0.to(65535).oneOf()
    nondet k2 = 0.to(65535).oneOf()
    nondet k3 = 0.to(65535).oneOf()
    nondet k4 = 0.to(65535).oneOf()
    nondet k5 = 0.to(65535).oneOf()
    nondet k6 = 0.to(65535).oneOf()
    nondet k7 = 0.to(65535).oneOf()
    nondet dec = Set(0, 1, 7, 8, 9, 18, 127, 128, 255).oneOf()
    nondet amt = 0.to(U64MAX).oneOf()
    nondet chain = Set(0, 1, 2, 255, 256, 641, 32770, 65535).oneOf()
    nondet extra = Set(0, 1).oneOf()
    nondet al = LENS.oneOf()
    nondet pl = LENS.oneOf()
    nondet x = Set("", "", "cut", "flip").oneOf()
    nondet where = 0.to(10000).oneOf()
    nondet pre = Set(0, 1, 2, 3, 136, 137, 138, 139).oneOf()
    val total = 217 + (if (extra == 1) 2 + al else 0) + pl
    val at = if (x == "cut") (if (where % 2 == 0) total - 1 - where % 3 else where % total)
             else if (x == "flip") pre else 0
    call({ ...A0, name: "Message", n: [dec, amt, chain, extra, al, pl],
           ks: [k0, k1, k2, k3, k4, k5, k6, k7], x: x, at: at })
  }

  action stepInfo = {
    nondet k0 = 0.to(65535).oneOf()
    nondet k1 = 0.to(65535).oneOf()
    nondet fn = Set("Info", "Registration").oneOf()
    nondet mode = Set(0, 1, 2, 255).oneOf()
    nondet dec = 0.to(255).oneOf()
    nondet chain = 0.to(65535).oneOf()
    nondet x = Set("", "cut", "flip").oneOf()
    nondet where = 0.to(10000).oneOf()
    val total = if (fn == "Info") 70 else 38
    val at = if (x == "cut") where % total else if (x == "flip") where % 4 else 0
    call({ ...A0, name: fn, n: if (fn == "Info") [mode, dec] else [chain], ks: [k0, k1], x: x, at: at })
  }

  action stepLib = any { stepScale, stepCap, stepBits, stepMsg, stepInfo }
  action stepWire = any { stepMsg, stepInfo }

  val propertiesHold = broken == Set()
}
