// Specification of the relay quoter: prices, registrations, relay requests.
// Same shape as ntt.qnt: a pure `qapply(state, action)`, properties on its steps, generators.
module quoter {
  pure val U64MAX: int = 2^64 - 1
  pure val GWEI: int = 10^9
  pure val SOL: int = 10^9
  pure val RENT: int = 1002240          // rent-exempt minimum of a relay request (16 bytes)
  pure val DISABLED: int = U64MAX       // base price of a chain that is registered but not enabled

  type Chain = { maxDrop: int, base: int, native: int, gas: int }
  type Ntt = { idx: int, gas: int }
  type Item = { owner: str, chain: int, released: Set[int] }
  type Req = { drop: int, lam: int }    // lam: what its account holds

  type State = {
    inited: bool, up: str, owner: str, asst: str, fee: str, sol: int,
    chains: int -> Chain, ntts: str -> Ntt, items: str -> Item,
    reqs: str -> Req, gifts: str -> int, lam: str -> int
  }

  type Tamper = { kind: str, slot: str, arg: str }
  pure val CLEAN: Tamper = { kind: "none", slot: "", arg: "" }
  type Act = {
    name: str, who: str, to: str, item: str, prog: str,
    chain: int, x: int, y: int, tamper: Tamper
  }
  pure val A0: Act = { name: "", who: "", to: "", item: "", prog: "", chain: 0, x: 0, y: 0, tamper: CLEAN }
  type Out = { errs: Set[str], s: State }

  pure def viol(gs: List[(str, bool)]): Set[str] =
    gs.foldl(Set(), (acc, g) => if (g._2) acc.union(Set(g._1)) else acc)
  pure def getOr(m: a -> b, k: a, d: b): b = if (m.keys().contains(k)) m.get(k) else d
  pure def max2(a: int, b: int): int = if (a > b) a else b
  pure def tamperErr(a: Act): Set[str] =
    if (a.tamper.kind == "none") Set() else if (a.tamper.kind == "unsign") Set("unsigned") else Set("wrong_account")
  pure def outcome(s: State, errs: Set[str], s2: State): Out =
    if (errs == Set()) { errs: errs, s: s2 } else { errs: errs, s: s }

  pure val NO_CHAIN: Chain = { maxDrop: 0, base: 0, native: 0, gas: 0 }
  pure def authorized(s: State, u: str): bool = s.inited and (u == s.owner or u == s.asst)

  // ------------------------------------------------------------------ the price

  // Exact arithmetic; ok is false where an intermediate value does not fit 64 bits.
  type Price = { ok: bool, fee: int }
  pure def price(drop: int, gasPrice: int, gasCost: int, native: int, base: int, sol: int): Price = {
    val g1 = gasPrice * gasCost / GWEI
    val gwei = drop + g1
    val usd = native * gwei / GWEI
    val total = usd + base
    val fee = if (sol == 0) 0 else total * SOL / sol
    { ok: and { g1 <= U64MAX, gwei <= U64MAX, usd <= U64MAX, total <= U64MAX, fee <= U64MAX }, fee: fee }
  }

  // ------------------------------------------------------------------ actions

  pure def doInit(s: State, a: Act): Out = outcome(s,
    viol([("already_init", s.inited), ("not_deployer", s.up != a.who), ("fee_default", a.to == "default")]).union(tamperErr(a)),
    { ...s, inited: true, owner: a.who, fee: a.to, asst: "default", sol: 0 })

  pure def doSetFee(s: State, a: Act): Out = outcome(s,
    viol([("uninit", not(s.inited)), ("not_owner", a.who != s.owner), ("fee_default", a.to == "default")]).union(tamperErr(a)),
    { ...s, fee: a.to })

  pure def doSetAsst(s: State, a: Act): Out = outcome(s,
    viol([("uninit", not(s.inited)), ("not_owner", a.who != s.owner)]).union(tamperErr(a)),
    { ...s, asst: a.to })

  pure def authErr(s: State, a: Act): Set[str] =
    viol([("uninit", not(s.inited)), ("not_authorized", not(authorized(s, a.who)))]).union(tamperErr(a))

  pure def doRegChain(s: State, a: Act): Out = outcome(s,
    authErr(s, a).union(viol([("registered", s.chains.keys().contains(a.chain))])),
    { ...s, chains: s.chains.put(a.chain, { maxDrop: 0, base: DISABLED, native: 0, gas: 0 }) })

  pure def doRegNtt(s: State, a: Act): Out = outcome(s,
    authErr(s, a).union(viol([("registered", s.ntts.keys().contains(a.prog))])),
    { ...s, ntts: s.ntts.put(a.prog, { idx: a.x, gas: a.y }) })

  pure def doDeregNtt(s: State, a: Act): Out = outcome(s,
    authErr(s, a).union(viol([("unregistered", not(s.ntts.keys().contains(a.prog)))])),
    { ...s, ntts: s.ntts.keys().exclude(Set(a.prog)).mapBy(k => s.ntts.get(k)) })

  pure def doSol(s: State, a: Act): Out = outcome(s,
    authErr(s, a).union(viol([("zero_price", a.x == 0)])), { ...s, sol: a.x })

  pure def doPrices(s: State, a: Act): Out = outcome(s,
    authErr(s, a).union(viol([("unregistered", not(s.chains.keys().contains(a.chain)))])),
    { ...s, chains: s.chains.put(a.chain, { ...getOr(s.chains, a.chain, NO_CHAIN), native: a.x, gas: a.y }) })

  pure def doParams(s: State, a: Act): Out = outcome(s,
    authErr(s, a).union(viol([("unregistered", not(s.chains.keys().contains(a.chain)))])),
    { ...s, chains: s.chains.put(a.chain, { ...getOr(s.chains, a.chain, NO_CHAIN), maxDrop: a.x, base: a.y }) })

  // x: gas drop-off, y: maximum fee
  pure def doRequest(s: State, a: Act): Out = {
    val i = getOr(s.items, a.item, { owner: "", chain: 0, released: Set() })
    val nt = getOr(s.ntts, i.owner, { idx: 0, gas: 0 })
    val c = getOr(s.chains, i.chain, NO_CHAIN)
    val p = price(a.x, c.gas, nt.gas, c.native, c.base, s.sol)
    val total = max2(p.fee, RENT)
    val gift = getOr(s.gifts, a.item, 0)
    // a gift already in the account counts towards its rent, not towards the fee
    val pay = max2(0, RENT - gift) + (total - RENT)
    val errs = viol([
      ("uninit", not(s.inited)),
      ("no_sol_price", s.sol == 0),
      ("no_item", not(s.items.keys().contains(a.item))),
      ("ntt_unregistered", not(s.ntts.keys().contains(i.owner))),
      ("not_released", not(i.released.contains(nt.idx))),
      ("chain_unregistered", not(s.chains.keys().contains(i.chain))),
      ("chain_disabled", s.chains.keys().contains(i.chain) and c.base == DISABLED),
      ("dropoff", a.x > c.maxDrop),
      ("overflow", not(p.ok)),
      ("max_fee", total > a.y),
      ("funds", pay > getOr(s.lam, a.who, 0)),
      ("requested", s.reqs.keys().contains(a.item))
    ]).union(tamperErr(a))
    outcome(s, errs, { ...s,
      reqs: s.reqs.put(a.item, { drop: a.x, lam: gift + pay }),
      gifts: s.gifts.put(a.item, 0),
      lam: s.lam.put(a.who, s.lam.get(a.who) - pay) })
  }

  pure def doClose(s: State, a: Act): Out = {
    val r = getOr(s.reqs, a.item, { drop: 0, lam: 0 })
    outcome(s,
      authErr(s, a).union(viol([("not_requested", not(s.reqs.keys().contains(a.item))), ("fee_recipient", a.to != s.fee)])),
      { ...s, reqs: s.reqs.keys().exclude(Set(a.item)).mapBy(k => s.reqs.get(k)),
              lam: s.lam.put(a.to, getOr(s.lam, a.to, 0) + r.lam) })
  }

  // --- environment: transfers are made and sent, lamports are given away
  pure def doItem(s: State, a: Act): Out =
    outcome(s, Set(), { ...s, items: s.items.put(a.item, { owner: a.prog, chain: a.chain, released: Set() }) })
  pure def doSend(s: State, a: Act): Out =
    outcome(s, viol([("no_item", not(s.items.keys().contains(a.item)))]),
      { ...s, items: s.items.put(a.item, { ...getOr(s.items, a.item, { owner: "", chain: 0, released: Set() }),
          released: getOr(s.items, a.item, { owner: "", chain: 0, released: Set() }).released.union(Set(a.x)) }) })
  pure def doGift(s: State, a: Act): Out =
    outcome(s, viol([("requested", s.reqs.keys().contains(a.item))]),
      { ...s, gifts: s.gifts.put(a.item, getOr(s.gifts, a.item, 0) + a.x) })

  pure def qapply(s: State, a: Act): Out =
    if (a.name == "QInit") doInit(s, a)
    else if (a.name == "QSetFee") doSetFee(s, a)
    else if (a.name == "QSetAsst") doSetAsst(s, a)
    else if (a.name == "QRegChain") doRegChain(s, a)
    else if (a.name == "QRegNtt") doRegNtt(s, a)
    else if (a.name == "QDeregNtt") doDeregNtt(s, a)
    else if (a.name == "QSol") doSol(s, a)
    else if (a.name == "QPrices") doPrices(s, a)
    else if (a.name == "QParams") doParams(s, a)
    else if (a.name == "QRequest") doRequest(s, a)
    else if (a.name == "QClose") doClose(s, a)
    else if (a.name == "Item") doItem(s, a)
    else if (a.name == "Send") doSend(s, a)
    else doGift(s, a)

  // ------------------------------------------------------------------ properties
  pure def sumMap(m: str -> int): int = m.keys().fold(0, (acc, k) => acc + m.get(k))
  pure def wealth(s: State): int =
    sumMap(s.lam) + sumMap(s.gifts) + s.reqs.keys().fold(0, (acc, k) => acc + s.reqs.get(k).lam)

  pure def C19(s: State, a: Act, o: Out): bool = and {
    (a.name == "QRequest" and o.errs == Set()) implies {
      val i = s.items.get(a.item)
      val c = s.chains.get(i.chain)
      val nt = s.ntts.get(i.owner)
      val paid = s.lam.get(a.who) - o.s.lam.get(a.who)
      val usd = c.base + c.native * (a.x + c.gas * nt.gas / GWEI) / GWEI
      and {
        i.released.contains(nt.idx), not(s.reqs.keys().contains(a.item)),
        c.base != DISABLED, s.sol > 0, a.x <= c.maxDrop, paid <= a.y,
        o.s.reqs.get(a.item).drop == a.x,
        // the request is worth the quoted price to the relayer
        o.s.reqs.get(a.item).lam >= usd * SOL / s.sol, o.s.reqs.get(a.item).lam >= RENT,
        // and nobody is overcharged
        paid == RENT or paid <= max2(RENT, usd * SOL / s.sol)
      }
    },
    // an open request changes only by being closed
    s.reqs.keys().forall(k => (o.s.reqs.keys().contains(k) and o.s.reqs.get(k) == s.reqs.get(k)) or a.name == "QClose"),
    a.name == "Gift" or wealth(o.s) == wealth(s)
  }

  pure def C20(s: State, a: Act, o: Out): bool = and {
    s.inited implies and {
      o.s.inited, o.s.owner == s.owner,
      (o.s.fee == s.fee and o.s.asst == s.asst) or (a.who == s.owner and a.name.in(Set("QSetFee", "QSetAsst"))),
      (o.s.sol == s.sol and o.s.chains == s.chains and o.s.ntts == s.ntts) or a.who == s.owner or a.who == s.asst,
      (s.reqs.keys().subseteq(o.s.reqs.keys())) or (a.name == "QClose" and (a.who == s.owner or a.who == s.asst)),
      o.s.sol > 0 or s.sol == 0 },
    (not(s.inited) and o.s.inited) implies s.up == a.who,
    (a.name == "QClose" and o.errs == Set()) implies
      (o.s.lam.get(s.fee) == getOr(s.lam, s.fee, 0) + s.reqs.get(a.item).lam),
    s.chains.keys().subseteq(o.s.chains.keys()),
    a.tamper.kind != "none" implies o.errs != Set(),
    o.errs != Set() implies o.s == s
  }

  pure def stepProps(s: State, a: Act, o: Out): Set[str] = viol([("C19", not(C19(s, a, o))), ("C20", not(C20(s, a, o)))])
}

module quoter_mbt {
  import quoter.*

  type Probe = { kind: str, slot: str, arg: str, i: int, errs: Set[str] }
  var s: State
  var act: Act
  var errs: Set[str]
  var n: int
  var probes: Set[Probe]
  var again: Set[str]
  var broken: Set[str]

  pure val WHO = List("user:admin", "user:asst", "user:mallory", "user:admin", "user:asst2", "user:admin")
  pure val PRICES = List(0, 1, 999, 10^6, 150 * 10^6, 2000 * 10^6 + 1, 10^9 - 1, 10^12 + 7, 10^18, U64MAX - 1, U64MAX)
  pure val SANE = List(1, 10^6, 25 * 10^6 + 3, 150 * 10^6 + 17, 3123 * 10^6 + 456789, 10^9, 10^10 + 7)
  pure val DROPS = List(0, 1, 10^6, 10^9, 5 * 10^9 + 1, 10^15, U64MAX)
  pure val GASCOST = List(0, 1, 21000, 250000, 4294967295)
  pure val CH = Set(2, 33026, 641)
  pure val IDX = List(0, 1, 0, 0, 2, 7, 8, 127, 128, 255)
  pure val PROGS = Set("prog:ntt", "prog:f1")
  pure val ITEMS = Set("outbox:1", "outbox:2", "outbox:3", "outbox:4")
  pure def pick(l: List[a], i: int): a = l[i % l.length()]
  pure def tam(k: str, sl: str, ar: str): Tamper = { kind: k, slot: sl, arg: ar }

  pure val START: State = {
    inited: false, up: "user:admin", owner: "", asst: "default", fee: "", sol: 0,
    chains: Map(), ntts: Map(), items: Map(), reqs: Map(), gifts: Map(),
    lam: Map("user:carol" -> 10^18, "user:dave" -> 10^10, "fee:1" -> 10^9, "fee:2" -> 10^9)
  }

  action start(x: State): bool = all {
    s' = x, act' = A0, errs' = Set(), n' = 0, probes' = Set(), again' = Set(), broken' = Set()
  }
  action initQBoot: bool = start(START)
  action initQ: bool = {
    nondet b1 = 0.to(6).oneOf()
    nondet b2 = 0.to(6).oneOf()
    nondet n1 = 0.to(6).oneOf()
    nondet g1 = 0.to(6).oneOf()
    nondet sp = 0.to(6).oneOf()
    nondet gc = 0.to(4).oneOf()
    nondet ix = 0.to(3).oneOf()
    nondet md = 0.to(6).oneOf()
    start({ ...START, inited: true, owner: "user:admin", asst: "user:asst", fee: "fee:1", sol: pick(SANE, sp),
      chains: Map(2 -> { maxDrop: pick(DROPS, md), base: pick(SANE, b1), native: pick(SANE, n1), gas: pick(SANE, g1) },
                  33026 -> { maxDrop: pick(DROPS, md + 3), base: pick(SANE, b2), native: pick(SANE, n1 + 2), gas: pick(SANE, g1 + 1) }),
      ntts: Map("prog:ntt" -> { idx: pick(IDX, ix), gas: pick(GASCOST, gc) }),
      items: Map("outbox:1" -> { owner: "prog:ntt", chain: 2, released: Set(0) },
                 "outbox:2" -> { owner: "prog:ntt", chain: 33026, released: Set(0, 1) }) })
  }

  // two chains as they are right after their registration (no prices, disabled)
  action initQFresh: bool = {
    nondet sp = 0.to(10).oneOf()
    nondet gc = 0.to(4).oneOf()
    start({ ...START, inited: true, owner: "user:admin", asst: "user:asst", fee: "fee:1", sol: pick(PRICES, sp),
      chains: Map(2 -> NO_CHAIN, 33026 -> NO_CHAIN),
      ntts: Map("prog:ntt" -> { idx: 0, gas: pick(GASCOST, gc) }),
      items: Map("outbox:1" -> { owner: "prog:ntt", chain: 2, released: Set(0) },
                 "outbox:2" -> { owner: "prog:ntt", chain: 33026, released: Set(0, 1) }) })
  }

  def relay(k: int): Tamper = tam("swap", "relay_request", "fresh:1")

  // the other chain registered, if any
  pure def otherChain(x: State, c: int): Set[int] = x.chains.keys().exclude(Set(c))

  pure def tampers(x: State, a: Act): Set[Tamper] =
    if (a.name == "QRequest")
      Set(tam("unsign", "payer", ""), tam("forge", "instance", ""), tam("forge", "registered_chain", ""),
          tam("forge", "registered_ntt", ""), tam("forge", "outbox_item", ""), tam("swap", "relay_request", "fresh:1"),
          tam("retype", "instance", ""), tam("retype", "registered_chain", ""), tam("retype", "registered_ntt", ""),
          tam("retype", "outbox_item", ""),
          tam("swap", "outbox_item", "config"), tam("swap", "system_program", "prog:f1"))
        .union(if (a.item != "" and otherChain(x, getOr(x.items, a.item, { owner: "", chain: 0, released: Set() }).chain) != Set())
                 Set(tam("swap", "registered_chain", "other")) else Set())
        .union(if (x.ntts.keys().size() > 1) Set(tam("swap", "registered_ntt", "other")) else Set())
    else if (a.name == "QClose")
      Set(tam("unsign", "authority", ""), tam("forge", "instance", ""), tam("forge", "relay_request", ""),
          tam("swap", "fee_recipient", "user:mallory"), tam("swap", "relay_request", "registered_ntt"),
          tam("retype", "instance", ""), tam("retype", "relay_request", ""))
    else if (a.name == "QInit")
      Set(tam("unsign", "owner", ""), tam("forge", "program_data", ""), tam("swap", "program_data", "program_data:ntt"),
          tam("swap", "instance", "fresh:1"))
    else if (a.name.in(Set("QSetFee", "QSetAsst"))) Set(tam("unsign", "owner", ""), tam("forge", "instance", ""))
    else if (a.name == "QRegChain")
      Set(tam("unsign", "authority", ""), tam("forge", "instance", ""), tam("swap", "registered_chain", "fresh:1"))
    else if (a.name == "QRegNtt")
      Set(tam("unsign", "authority", ""), tam("forge", "instance", ""), tam("swap", "registered_ntt", "fresh:1"))
    else if (a.name == "QDeregNtt")
      Set(tam("unsign", "authority", ""), tam("forge", "instance", ""), tam("forge", "registered_ntt", ""))
        .union(if (x.ntts.keys().size() > 1) Set(tam("swap", "registered_ntt", "other")) else Set())
    else if (a.name == "QSol") Set(tam("unsign", "authority", ""), tam("forge", "instance", ""), tam("retype", "instance", ""))
    else if (a.name.in(Set("QPrices", "QParams")))
      Set(tam("unsign", "authority", ""), tam("forge", "instance", ""), tam("forge", "registered_chain", ""))
        .union(if (x.ntts.keys().size() > 0) Set(tam("swap", "registered_chain", "registered_ntt")) else Set())
    else Set()

  pure def fset(x: State, slot: str, arg: str, i: int, b: Act): Probe =
    { kind: "set", slot: slot, arg: arg, i: i, errs: qapply(x, b).errs }

  pure def signers(x: State): Set[str] =
    Set("user:admin", "user:asst", "user:asst2", "user:mallory", "user:carol", "fee:1", "fee:2")

  pure def fieldProbes(x: State, a: Act): Set[Probe] =
    if (a.name.in(Set("Item", "Send", "Gift"))) Set()
    else if (a.name == "QRequest") {
      val i = getOr(x.items, a.item, { owner: "", chain: 0, released: Set() })
      val c = getOr(x.chains, i.chain, NO_CHAIN)
      val nt = getOr(x.ntts, i.owner, { idx: 0, gas: 0 })
      val fee = max2(RENT, price(a.x, c.gas, nt.gas, c.native, c.base, x.sol).fee)
      Set(fee, fee - 1).filter(f => f <= U64MAX).map(f => fset(x, "y", "", f, { ...a, y: f }))
        .union(Set(c.maxDrop, c.maxDrop + 1).filter(d => d <= U64MAX).map(d => fset(x, "x", "", d, { ...a, x: d })))
    }
    else if (a.name == "QClose") signers(x).map(w => fset(x, "who", w, 0, { ...a, who: w }))
        .union(Set("fee:1", "fee:2").map(w => fset(x, "to", w, 0, { ...a, to: w })))
    else signers(x).map(w => fset(x, "who", w, 0, { ...a, who: w }))

  action take(a: Act): bool = {
    val r = qapply(s, a)
    all {
      s' = r.s, act' = a, errs' = r.errs, n' = n + 1,
      probes' = (if (r.errs == Set()) tampers(s, a).map(t => { kind: t.kind, slot: t.slot, arg: t.arg, i: 0, errs: tamperErr({ ...a, tamper: t }) })
                 else Set()).union(fieldProbes(s, a)),
      again' = if (r.errs == Set() and a.name.in(Set("QRequest", "QClose", "QInit", "QRegChain", "QRegNtt", "QDeregNtt"))) qapply(r.s, a).errs else Set(),
      broken' = broken.union(stepProps(s, a, r))
    }
  }

  action gInit: bool = {
    nondet w = 0.to(5).oneOf()
    nondet f = Set("fee:1", "fee:2", "default").oneOf()
    take({ ...A0, name: "QInit", who: pick(WHO, w), to: f })
  }
  action gSetFee: bool = {
    nondet w = 0.to(5).oneOf()
    nondet f = Set("fee:1", "fee:2", "fee:1", "default").oneOf()
    take({ ...A0, name: "QSetFee", who: pick(WHO, w), to: f })
  }
  action gSetAsst: bool = {
    nondet w = 0.to(5).oneOf()
    nondet f = Set("user:asst", "user:asst2", "default").oneOf()
    take({ ...A0, name: "QSetAsst", who: pick(WHO, w), to: f })
  }
  action gRegChain: bool = {
    nondet w = 0.to(5).oneOf()
    nondet c = CH.oneOf()
    take({ ...A0, name: "QRegChain", who: pick(WHO, w), chain: c })
  }
  action gRegNtt: bool = {
    nondet w = 0.to(5).oneOf()
    nondet p = PROGS.oneOf()
    nondet i = 0.to(9).oneOf()
    nondet g = 0.to(4).oneOf()
    take({ ...A0, name: "QRegNtt", who: pick(WHO, w), prog: p, x: pick(IDX, i), y: pick(GASCOST, g) })
  }
  action gDeregNtt: bool = {
    nondet w = 0.to(5).oneOf()
    nondet p = PROGS.oneOf()
    take({ ...A0, name: "QDeregNtt", who: pick(WHO, w), prog: p })
  }
  action gSol(wild: bool): bool = {
    nondet w = 0.to(5).oneOf()
    nondet x = 0.to(10).oneOf()
    nondet r = 1.to(2^36).oneOf()
    take({ ...A0, name: "QSol", who: pick(WHO, w), x: if (wild) pick(PRICES, x) else if (x < 4) r else pick(SANE, x) })
  }
  action gPrices(wild: bool): bool = {
    nondet w = 0.to(5).oneOf()
    nondet c = CH.oneOf()
    nondet x = 0.to(10).oneOf()
    nondet y = 0.to(10).oneOf()
    nondet r = 1.to(2^36).oneOf()
    take({ ...A0, name: "QPrices", who: pick(WHO, w), chain: c,
           x: if (wild) pick(PRICES, x) else if (x < 4) r else pick(SANE, x),
           y: if (wild) pick(PRICES, y) else if (y < 4) r / 3 else pick(SANE, y) })
  }
  action gParams(wild: bool): bool = {
    nondet w = 0.to(5).oneOf()
    nondet c = CH.oneOf()
    nondet x = 0.to(6).oneOf()
    nondet y = 0.to(10).oneOf()
    nondet r = 1.to(2^34).oneOf()
    take({ ...A0, name: "QParams", who: pick(WHO, w), chain: c, x: if (x == 1) r else pick(DROPS, x),
           y: if (wild) pick(PRICES, y) else if (y < 4) r else pick(SANE, y) })
  }
  action gRequest(wild: bool): bool = all {
    s.items.keys() != Set(),
    nondet k = s.items.keys().oneOf()
    nondet w = Set("user:carol", "user:dave").oneOf()
    nondet d = 0.to(6).oneOf()
    nondet half = 0.to(5).oneOf()
    nondet rd = 0.to(2^40).oneOf()
    nondet m = 0.to(9).oneOf()
    val i = s.items.get(k)
    val c = getOr(s.chains, i.chain, NO_CHAIN)
    val nt = getOr(s.ntts, i.owner, { idx: 0, gas: 0 })
    val drop = if (wild) pick(DROPS, d) else if (half == 0) c.maxDrop else if (half == 1) c.maxDrop / 2 else if (half == 2) 0 else if (half == 3) rd % (c.maxDrop + 1)
               else if (pick(DROPS, d) <= c.maxDrop) pick(DROPS, d) else c.maxDrop / 3
    val fee = max2(RENT, price(drop, c.gas, nt.gas, c.native, c.base, s.sol).fee)
    val cap = if (m == 0) fee - 1 else if (m == 1) fee else if (m == 2) 0 else if (m == 3) RENT else U64MAX
    take({ ...A0, name: "QRequest", who: w, item: k, x: drop, y: if (cap > U64MAX) U64MAX else cap })
  }
  action gClose: bool = all {
    s.reqs.keys() != Set(),
    nondet k = s.reqs.keys().oneOf()
    nondet w = 0.to(5).oneOf()
    nondet f = 0.to(5).oneOf()
    take({ ...A0, name: "QClose", who: pick(WHO, w), item: k, to: if (f == 0) "fee:2" else if (f == 1) "fee:1" else s.fee })
  }
  action gItem: bool = {
    val fresh = ITEMS.exclude(s.items.keys())
    all {
      fresh != Set(),
      nondet k = fresh.oneOf()
      nondet p = PROGS.union(Set("prog:f2")).oneOf()
      nondet c = CH.oneOf()
      take({ ...A0, name: "Item", item: k, prog: p, chain: c })
    }
  }
  action gSend: bool = all {
    s.items.keys() != Set(),
    nondet k = s.items.keys().oneOf()
    nondet own = 0.to(2).oneOf()
    nondet i = Set(0, 1, 2, 7, 8, 127).oneOf()
    val want = getOr(s.ntts, s.items.get(k).owner, { idx: 0, gas: 0 }).idx
    take({ ...A0, name: "Send", item: k, x: if (own > 0 and want < 128) want else i })
  }
  action gGift: bool = {
    val open = ITEMS.exclude(s.reqs.keys())
    all {
      open != Set(),
      nondet k = open.oneOf()
      nondet x = Set(900000, RENT, 5 * 10^6).oneOf()
      take({ ...A0, name: "Gift", item: k, x: x })
    }
  }

  action stepQ: bool = any {
    gRequest(false), gRequest(false), gRequest(true), gRequest(false), gClose, gClose, gItem, gSend, gSend, gGift,
    gSol(false), gPrices(false), gParams(false), gParams(true), gRegChain, gRegNtt, gDeregNtt, gSetFee, gSetAsst
  }
  action stepQPrice: bool = any {
    gRequest(false), gRequest(false), gRequest(true), gClose, gClose, gItem, gSend,
    gSol(false), gSol(true), gPrices(false), gPrices(true), gParams(false), gRegNtt, gDeregNtt
  }
  action stepQFresh: bool = any {
    gRequest(false), gRequest(false), gRequest(false), gSol(true), gPrices(false), gParams(true), gParams(false), gItem, gSend
  }
  action stepQBoot: bool = any {
    gInit, gInit, gRegChain, gRegNtt, gSol(true), gSetFee, gSetAsst, gItem, gSend, gRequest(false), gPrices(false), gParams(false), gDeregNtt
  }
  action init: bool = initQ
  action step: bool = stepQ
  val propertiesHold: bool = broken == Set()
}
