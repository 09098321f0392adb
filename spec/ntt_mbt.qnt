// Behaviours of ntt.qnt for checking invariants and for conformance replay: initial
// states, action generators (biased to boundary values and to "exactly one guard
// violated"), and the step relations ("profiles") the checks use.
module ntt_mbt {
  import ntt_math.* from "./ntt_math"
  import ntt_wire.* from "./ntt_wire"
  import ntt.* from "./ntt"
  import ntt_props.* from "./ntt_props"

  // kind: unsign | forge | swap  an account slot (see Tamper)
  //       bend   perform the approved transfer with one term changed
  //       set    one field of the action replaced
  //       state  the same action in a state with one configuration field replaced
  type Probe = { kind: str, slot: str, arg: str, i: int, errs: Set[str] }

  var s: State
  var act: Act
  var errs: Set[str]       // guards the last action violated; empty = it took effect
  var post: List[Seg]      // Wormhole message emitted by the last action
  var ret: str             // value returned by the last action
  var n: int               // step number
  // Variations of the last action, each with the guards it violates in the same state
  // (none: the variation has to be accepted as well).
  var probes: Set[Probe]
  // guards the very same action violates when it is repeated right away
  var again: Set[str]
  var hist: Hist           // what has happened to each transfer so far
  var broken: Set[str]     // properties (ntt_props) some step so far did not satisfy

  // ------------------------------------------------------------------ universe
  pure val USERS = Set("user:alice", "user:bob", "user:mallory", "user:admin")
  pure val RECIPIENTS = Set("user:alice", "user:bob", "user:newbie")
  pure val REMOTE = Set("addr:r1", "addr:r2", "addr:zero", "addr:evm1", "user:alice")
  pure val CHAINS = Set(2, 33026, 641)
  pure val MGRS = Set("addr:mgrA", "addr:mgrB", "addr:mgrC", "addr:evm1", "addr:zero")
  pure val WPROGS = Set("prog:ntt", "prog:xcv")
  pure val PROGS = Set("prog:ntt", "prog:xcv", "prog:f1", "prog:f2", "prog:f3")
  pure val IDS = Set("id:1", "id:2", "id:3", "id:4")
  pure val TOKKINDS = List("spl", "spl", "t22", "hook", "fee")
  pure val DT = List(0, 1, 60, 3600, 21600, 43200, 86399, 86400, 86401, 200000)
  pure val DTBIG = List(0, 1, 60, 3600, 21600, 43200, 86399, 86400, 86401, 200000, 10^7, 3 * 10^9)
  pure val FEES = List(1, 100, 5000, 10000)
  pure val LIMITS = List(0, 1, 1000, 86400, 123456789, 5 * 10^12, 10^15, U64MAX - 1, U64MAX)
  pure val DECS = List(0, 1, 5, 6, 7, 8, 9, 10, 12, 18, 19, 27, 28, 255)
  pure val OWNDECS = List(0, 2, 6, 8, 9, 9, 12, 18, 27, 28)

  pure def pick(l: List[a], i: int): a = l[i % l.length()]

  pure val T0: int = 1700000000

  // ------------------------------------------------------------------ initial states
  type Seed = {
    burning: bool, kind: int, dec: int, d1: int, d2: int, d3: int, l0: int, l1: int, l2: int, l3: int,
    c0: int, c1: int, age: int, xs: int, bal: int, cust: int, own: int, fee: int, inited: bool,
    th: int, off: int, odd: int
  }

  pure def mkRL(l: int, c: int, age: int): RL = {
    val lim = pick(LIMITS, l)
    if (c == 0) rlNew(lim)
    else if (c == 1) { limit: lim, cap: 0, last: T0 - pick(DT, age) }
    else if (c == 2) { limit: lim, cap: lim, last: T0 - pick(DT, age) }
    else { limit: lim, cap: lim / c, last: T0 - pick(DT, age) }
  }

  pure val BALS = List(0, 999, 1000000, 123456789012, 5 * 10^18)

  pure def mkState(z: Seed): State = {
    val kind = pick(TOKKINDS, z.kind)
    val dec = pick(OWNDECS, z.dec)
    val b = pick(BALS, z.bal)
    val cust = if (z.cust == 0) 0 else if (z.cust == 1) 1000000 else 10^18
    // transceivers: which programs are registered, and from which id
    val xb = z.xs / 4 % 4
    val base = if (xb == 0) 0 else if (xb == 1) 62 else if (xb == 2) 125 else 123
    val regs = if (not(z.inited)) []
               else if (z.xs % 4 == 0) ["prog:ntt"]
               else if (z.xs % 4 == 1) ["prog:ntt", "prog:xcv"]
               else if (z.xs % 4 == 2) ["prog:f1", "prog:ntt", "prog:xcv"]
               else if (z.xs > 100) ["prog:f1", "prog:xcv", "prog:f2", "prog:ntt", "prog:f3"]
               else ["prog:xcv", "prog:f1", "prog:ntt"]
    // deployments commonly have one address on every chain: both chains' peers are then the same
    val shared = z.age % 5 == 3
    val ids = regs.foldl((base, Map()), (acc, p) => (acc._1 + 1, acc._2.put(p, acc._1)))
    {
      now: T0, inited: z.inited,
      cfg: if (z.inited) { owner: "user:admin", pend: "", mode: if (z.burning) "burning" else "locking",
             chain: if (z.own == 0) 1 else 32770, nextId: base + regs.length(), threshold: 1 + z.th,
             enabled: ids._2.keys().map(p => ids._2.get(p)).filter(i => (z.off / 2^(i - base)) % 2 == 0), paused: false }
           else { owner: "", pend: "", mode: "", chain: 0, nextId: 0, threshold: 0, enabled: Set(),
                  paused: false },
      upAuth: if (z.odd == 1) "none" else "user:admin", tokKind: kind, dec: dec,
      feeBps: if (kind == "fee") pick(FEES, z.l0 + z.bal) else 0,
      mintAuth: if (z.odd == 2) "none" else if (z.burning) "token_authority" else "user:whale",
      supply: 3 * b + b / 3 + b / 20 + cust,
      custody: cust,
      toks: Map("user:alice" -> { bal: b, dlg: NO_SESS, allow: 0 },
                "user:bob" -> { bal: b * 2, dlg: NO_SESS, allow: 0 },
                "user:mallory" -> { bal: b / 3, dlg: NO_SESS, allow: 0 },
                "user:admin" -> { bal: b / 20, dlg: NO_SESS, allow: 0 }),
      outRL: if (z.inited) mkRL(z.l0, z.c0, z.age) else rlNew(0),
      peers: if (z.inited) Map(2 -> { addr: if (z.age % 3 == 1) "addr:evm1" else "addr:mgrA", dec: pick(DECS, z.d1) },
                               33026 -> { addr: if (shared) (if (z.age % 3 == 1) "addr:evm1" else "addr:mgrA") else "addr:mgrB", dec: pick(DECS, z.d2) })
             else Map(),
      inRL: if (z.inited) Map(2 -> mkRL(z.l1, z.c1, z.age + 1), 33026 -> mkRL(z.l2, z.c0 + 1, z.age + 2))
            else Map(),
      xids: ids._2,
      wpeers: if (z.inited)
                Map(("prog:ntt", 2) -> if (z.age % 3 == 2) "addr:evm1" else "addr:wA", ("prog:ntt", 33026) -> if (not(shared)) "addr:wB" else if (z.age % 3 == 2) "addr:evm1" else "addr:wA",
                    ("prog:xcv", 2) -> if (z.age % 3 == 2) "addr:evm2" else "addr:xA",
                    ("prog:xcv", 33026) -> if (not(shared)) "addr:wB" else if (z.age % 3 == 2) "addr:evm2" else "addr:xA")
              else Map(),
      outbox: Map(), msgs: Map(), inbox: Map(), seqs: Map(), hooks: 0,
      bridgeFee: z.fee * 100, lut: false
    }
  }

  action start(z: Seed): bool = all {
    s' = mkState(z), act' = { ...A0, name: "Init" }, errs' = Set(), post' = [], ret' = "", n' = 0,
    probes' = Set(), again' = Set(), hist' = NO_HIST, broken' = Set()
  }

  // everything nondeterministic
  action initAny: bool = {
    nondet burning = Set(true, false).oneOf()
    nondet kind = 0.to(4).oneOf()
    nondet dec = 0.to(9).oneOf()
    nondet d1 = 0.to(13).oneOf()
    nondet d2 = 0.to(13).oneOf()
    nondet l0 = 0.to(8).oneOf()
    nondet l1 = 0.to(8).oneOf()
    nondet l2 = 0.to(8).oneOf()
    nondet c0 = 0.to(4).oneOf()
    nondet c1 = 0.to(4).oneOf()
    nondet age = 0.to(9).oneOf()
    nondet xs = 0.to(11).oneOf()
    nondet bal = 0.to(4).oneOf()
    nondet cust = 0.to(2).oneOf()
    nondet own = 0.to(1).oneOf()
    nondet fee = 0.to(1).oneOf()
    start({ burning: burning, kind: kind, dec: dec, d1: d1, d2: d2, d3: 0, l0: l0, l1: l1, l2: l2, l3: 0,
            c0: c0, c1: c1, age: age, xs: xs, bal: bal, cust: cust, own: own, fee: fee, inited: true, th: 0, off: 0, odd: if (age == 7) 2 else 0 })
  }

  // an ordinary deployment: roomy limits, sane decimals, funded users
  action initPlain: bool = {
    nondet burning = Set(true, false).oneOf()
    nondet kind = 0.to(3).oneOf()
    nondet dec = 1.to(5).oneOf()
    nondet d1 = 3.to(9).oneOf()
    nondet d2 = 3.to(9).oneOf()
    nondet l0 = 5.to(8).oneOf()
    nondet l1 = 5.to(8).oneOf()
    nondet l2 = 5.to(8).oneOf()
    nondet c0 = 0.to(4).oneOf()
    nondet c1 = 0.to(4).oneOf()
    nondet age = 0.to(9).oneOf()
    nondet xs = 0.to(11).oneOf()
    nondet bal = 2.to(4).oneOf()
    nondet cust = 0.to(2).oneOf()
    nondet own = 0.to(1).oneOf()
    nondet fee = 0.to(1).oneOf()
    start({ burning: burning, kind: kind, dec: dec, d1: d1, d2: d2, d3: 0, l0: l0, l1: l1, l2: l2, l3: 0,
            c0: c0, c1: c1, age: age, xs: xs, bal: bal, cust: cust, own: own, fee: fee, inited: true, th: 0, off: 0, odd: if (age == 7) 2 else 0 })
  }

  // as initPlain, but always a token with a transfer hook or a transfer fee
  action initTok: bool = {
    nondet burning = Set(true, false).oneOf()
    nondet kind = 3.to(4).oneOf()
    nondet dec = 1.to(5).oneOf()
    nondet d1 = 3.to(9).oneOf()
    nondet d2 = 3.to(9).oneOf()
    nondet l0 = 5.to(8).oneOf()
    nondet age = 0.to(9).oneOf()
    nondet xs = 0.to(11).oneOf()
    nondet bal = 2.to(4).oneOf()
    nondet cust = 1.to(2).oneOf()
    nondet own = 0.to(1).oneOf()
    start({ burning: burning, kind: kind, dec: dec, d1: d1, d2: d2, d3: 0, l0: l0, l1: l0 + 1, l2: l0 + 2, l3: 0,
            c0: 2, c1: 2, age: age, xs: xs, bal: bal, cust: cust, own: own, fee: 0, inited: true, th: 0, off: 0, odd: if (age == 7) 2 else 0 })
  }

  // five transceivers, some of them disabled, a threshold of 1 to 4, and one transfer attested
  // by all of them (by some with a different amount or recipient)
  action initVotes: bool = {
    nondet burning = Set(true, false).oneOf()
    nondet kind = 0.to(3).oneOf()
    nondet dec = 1.to(5).oneOf()
    nondet l1 = 3.to(8).oneOf()
    nondet base = Set(0, 1, 3).oneOf()
    nondet th = 0.to(3).oneOf()
    nondet off = 0.to(31).oneOf()
    nondet offMore = 0.to(3).oneOf()
    nondet chain = Set(2, 33026).oneOf()
    nondet amt = Set(0, 1, 12345, 10^9).oneOf()
    nondet dst = RECIPIENTS.oneOf()
    nondet lie = 0.to(9).oneOf()
    val x = mkState({ burning: burning, kind: kind, dec: dec, d1: 5, d2: 5, d3: 0, l0: 6, l1: l1, l2: l1, l3: 0,
            c0: 0, c1: 0, age: 0, xs: 403 + 4 * base, bal: 3, cust: 2, own: 0, fee: 0, inited: true, th: th,
            off: if (offMore == 0) off else if (offMore == 1) 2^(off % 5) else 0, odd: 0 })
    val m: Msg = { srcMgr: x.peers.get(chain).addr, rcptMgr: "prog:ntt", id: "id:1", sender: "addr:s1", dec: min2(6, x.dec), amt: amt,
              tok: "addr:tok", to: dst, toChain: x.cfg.chain }
    val liar = if (lie == 0) "prog:f1" else if (lie == 1) "prog:ntt" else if (lie == 2) "prog:f3" else ""
    val ms = PROGS.map(p => { prog: p, chain: chain, id: "id:1" })
      .mapBy(k => if (k.prog == liar) { ...m, amt: amt + 1 } else m)
    all {
      s' = { ...x, msgs: ms }, act' = { ...A0, name: "Init" }, errs' = Set(), post' = [], ret' = "", n' = 0,
      probes' = Set(), again' = Set(), hist' = NO_HIST, broken' = Set()
    }
  }

  // programs deployed, nothing configured
  action initBoot: bool = {
    nondet burning = Set(true, false).oneOf()
    nondet kind = 0.to(4).oneOf()
    nondet dec = 0.to(9).oneOf()
    nondet bal = 0.to(4).oneOf()
    nondet cust = 0.to(1).oneOf()
    nondet fee = 0.to(1).oneOf()
    nondet odd = 0.to(9).oneOf()
    start({ burning: burning, kind: kind, dec: dec, d1: 0, d2: 0, d3: 0, l0: 0, l1: 0, l2: 0, l3: 0,
            c0: 0, c1: 0, age: 0, xs: 0, bal: bal, cust: cust, own: 0, fee: fee, inited: false, th: 0, off: 0, odd: if (odd < 3) odd else 0 })
  }

  // An address that differs from `a` in one byte: the first, one in the middle (the first of
  // a 20-byte EVM address) or the last.
  pure def near(a: str, i: int): str =
    if (a == "addr:mgrA") pick(["addr:mgrA~0", "addr:mgrA~12", "addr:mgrA~31"], i)
    else if (a == "addr:mgrB") pick(["addr:mgrB~0", "addr:mgrB~12", "addr:mgrB~31"], i)
    else if (a == "addr:mgrC") pick(["addr:mgrC~0", "addr:mgrC~12", "addr:mgrC~31"], i)
    else if (a == "prog:ntt") pick(["prog:ntt~0", "prog:ntt~12", "prog:ntt~31"], i)
    else if (a == "addr:evm1") pick(["addr:evm1~0", "addr:evm1~12", "addr:evm1~31"], i)
    else pick(["addr:evil~0", "addr:evil~12", "addr:evil~31"], i)

  // ------------------------------------------------------------------ probes
  pure def tam(kind: str, slot: str, arg: str): Tamper = { kind: kind, slot: slot, arg: arg }
  pure def other(c: int): int = if (c == 2) 33026 else 2
  pure def peerName(c: int): str = if (c == 2) "peer:2" else if (c == 33026) "peer:33026" else "peer:641"
  pure def inrlName(c: int): str = if (c == 2) "inrl:2" else if (c == 33026) "inrl:33026" else "inrl:641"
  pure def wpeerName(c: int): str = if (c == 2) "wpeer:2" else if (c == 33026) "wpeer:33026" else "wpeer:641"
  pure def ifPeer(x: State, c: int, t: Set[Tamper]): Set[Tamper] = if (x.peers.keys().contains(c)) t else Set()
  pure def otherXcv(x: State, a: Act): Set[Tamper] =
    x.xids.keys().exclude(Set(a.prog)).map(p => tam("swap", "transceiver", p))

  // Account substitutions and dropped signatures that must never be accepted for `a`.
  pure def sessOf(u: str): str =
    if (u == "user:alice") "sess:user:alice" else if (u == "user:bob") "sess:user:bob" else if (u == "user:admin") "sess:user:admin" else "sess:user:mallory"

  pure def tampers(x: State, a: Act): Set[Tamper] =
    if (a.name == "Transfer")
      Set(tam("unsign", "payer", ""), tam("unsign", "outbox_item", ""),
          tam("forge", "config", ""), tam("forge", "outbox_rate_limit", ""), tam("forge", "inbox_rate_limit", ""),
          tam("retype", "config", ""), tam("retype", "outbox_rate_limit", ""),
          tam("forge", "peer", ""), tam("swap", "custody", "tok:user:mallory:2"), tam("swap", "custody", "tok:token_authority:2"),
          tam("swap", "mint", "mint2"), tam("swap", "family", "all"), tam("swap", "family", "users"),
          tam("swap", "session_authority", if (a.who == "user:mallory") "sess:user:alice" else "sess:user:mallory"),
          tam("swap", "session_authority", "user:mallory"),
          tam("swap", "token_program", "fake_token_program"), tam("swap", "system_program", "prog:f1"),
          tam("swap", "inbox_rate_limit", "outbox_rate_limit"), tam("swap", "outbox_rate_limit", inrlName(a.chain)))
        .union(ifPeer(x, other(a.chain), Set(tam("swap", "peer", peerName(other(a.chain))),
                                             tam("swap", "inbox_rate_limit", inrlName(other(a.chain))))))
        .union(if (x.cfg.mode == "burning") Set(tam("swap", "token_authority", "user:mallory")) else Set())
    else if (a.name == "ReleaseOut")
      Set(tam("unsign", "payer", ""), tam("forge", "config", ""), tam("forge", "outbox_item", ""),
          tam("forge", "transceiver", ""), tam("swap", "emitter", "user:mallory"),
          tam("swap", "wormhole_message", "fresh:1"), tam("swap", "wh_program", "prog:f1"),
          tam("forge", "wh_bridge", ""), tam("swap", "outbox_item", "config"),
          tam("retype", "config", ""), tam("retype", "outbox_item", ""), tam("retype", "transceiver", ""))
        .union(otherXcv(x, a))
        .union(if (a.prog == "prog:xcv") Set(tam("swap", "manager", "prog:f1"),
                 tam("swap", "outbox_item_signer", "user:mallory")) else Set())
    else if (a.name == "Mark")
      Set(tam("unsign", "signer", ""), tam("swap", "signer", "user:mallory"), tam("forge", "config", ""),
          tam("forge", "outbox_item", ""), tam("forge", "transceiver", ""), tam("retype", "config", ""),
          tam("retype", "outbox_item", ""), tam("retype", "transceiver", "")).union(otherXcv(x, a))
    else if (a.name == "Receive")
      Set(tam("unsign", "payer", ""), tam("forge", "config", ""), tam("forge", "vaa", ""), tam("forge", "peer", ""),
          tam("retype", "config", ""))
        .union(if (x.wpeers.keys().contains((a.prog, other(a.chain))))
                 Set(tam("swap", "peer", wpeerName(other(a.chain)))) else Set())
    else if (a.name == "Redeem")
      Set(tam("unsign", "payer", ""), tam("forge", "config", ""), tam("forge", "peer", ""),
          tam("forge", "transceiver_message", ""), tam("forge", "transceiver", ""),
          tam("retype", "transceiver_message", ""), tam("retype", "transceiver", ""), tam("retype", "config", ""),
          tam("retype", "outbox_rate_limit", ""),
          tam("forge", "inbox_rate_limit", ""), tam("forge", "outbox_rate_limit", ""),
          tam("swap", "mint", "mint2"), tam("swap", "inbox_item", "inbox:fresh"),
          tam("swap", "inbox_rate_limit", "outbox_rate_limit"), tam("swap", "outbox_rate_limit", inrlName(a.chain)))
        .union(otherXcv(x, a))
        .union(ifPeer(x, other(a.chain), Set(tam("swap", "peer", peerName(other(a.chain))),
                                             tam("swap", "inbox_rate_limit", inrlName(other(a.chain))))))
        .union(if (x.inbox.keys().exists(k => k != inKey(a.chain, getOr(x.msgs, { prog: a.prog, chain: a.chain, id: a.item }, NO_MSG))))
                 Set(tam("swap", "inbox_item", "inbox:other")) else Set())
    else if (a.name == "ReleaseIn")
      Set(tam("unsign", "payer", ""), tam("forge", "config", ""), tam("forge", "inbox_item", ""),
          tam("retype", "config", ""), tam("retype", "inbox_item", ""),
          tam("swap", "recipient", if (a.key.to == "user:mallory") "ata:user:alice" else "ata:user:mallory"), tam("swap", "recipient", "tok:recipient:2"),
          tam("swap", "token_authority", "user:mallory"), tam("swap", "mint", "mint2"),
          tam("swap", "family", "all"), tam("swap", "family", "users"),
          tam("swap", "custody", "tok:token_authority:2"), tam("swap", "token_program", "fake_token_program"))
    else if (a.name == "Initialize")
      Set(tam("unsign", "deployer", ""), tam("unsign", "payer", ""), tam("forge", "program_data", ""),
          tam("swap", "program_data", "program_data:xcv"), tam("swap", "token_authority", "user:mallory"),
          tam("swap", "authority_family", "user:mallory"),
          tam("swap", "custody", "tok:user:mallory:2"), tam("swap", "custody", "tok:token_authority:2"),
          tam("swap", "loader", "prog:f1"))
    else if (a.name.in(Set("SetPeer", "SetOutLimit", "SetInLimit", "SetPaused", "Register", "SetWPeer",
                           "TransferOwn", "TransferOwnOneStep", "ClaimOwn")))
      Set(tam("unsign", if (a.name == "ClaimOwn") "new_owner" else "owner", ""), tam("forge", "config", ""),
          tam("retype", "config", ""))
        .union(if (a.name == "SetPeer") Set(tam("unsign", "payer", ""))
                 .union(ifPeer(x, other(a.chain), Set(tam("swap", "peer", peerName(other(a.chain))),
                                                      tam("swap", "inbox_rate_limit", inrlName(other(a.chain))))))
               else if (a.name == "SetInLimit")
                 Set(tam("forge", "rate_limit", ""), tam("swap", "rate_limit", "outbox_rate_limit"))
                 .union(ifPeer(x, other(a.chain), Set(tam("swap", "rate_limit", inrlName(other(a.chain))))))
               else if (a.name == "SetOutLimit") Set(tam("forge", "rate_limit", ""))
                 .union(ifPeer(x, 2, Set(tam("swap", "rate_limit", "inrl:2"))))
               else if (a.name == "Register") Set(tam("unsign", "payer", ""), tam("swap", "registered_transceiver", "fresh:1"))
               else if (a.name == "SetWPeer") Set(tam("unsign", "payer", ""), tam("swap", "peer", "fresh:1"))
               else if (a.name == "SetPaused") Set()
               else Set(tam("swap", "upgrade_lock", "user:mallory"), tam("swap", "program_data", "program_data:xcv"),
                        tam("forge", "program_data", ""), tam("swap", "loader", "prog:f1")))
    else if (a.name.in(Set("BroadcastId", "BroadcastPeer")))
      Set(tam("unsign", "payer", ""), tam("unsign", "wormhole_message", ""), tam("forge", "config", ""),
          tam("swap", "emitter", "user:mallory"), tam("swap", "wh_program", "prog:f1"), tam("forge", "wh_bridge", ""))
        .union(if (a.name == "BroadcastId") Set(tam("swap", "mint", "mint2"))
               else Set(tam("forge", "peer", "")).union(if (x.wpeers.keys().contains((a.prog, other(a.chain))))
                      Set(tam("swap", "peer", wpeerName(other(a.chain)))) else Set()))
    else if (a.name == "InitLut")
      Set(tam("unsign", "payer", ""), tam("forge", "config", ""), tam("swap", "custody", "tok:user:mallory:2"),
          tam("swap", "mint", "mint2"), tam("swap", "token_authority", "user:mallory"),
          tam("swap", "token_program", "fake_token_program"),
          tam("swap", "authority", "user:mallory"), tam("forge", "outbox_rate_limit", ""), tam("forge", "wh_bridge", ""))
    else Set()

  pure def mkProbe(kind: str, slot: str, arg: str, i: int, errs: Set[str]): Probe =
    { kind: kind, slot: slot, arg: arg, i: i, errs: errs }

  pure def fset(x: State, slot: str, arg: str, i: int, b: Act): Probe = mkProbe("set", slot, arg, i, apply(x, b).errs)

  // One field of the action replaced; the specification says what has to happen.
  pure def fieldProbes(x: State, a: Act): Set[Probe] = {
    val whos = if (a.name.in(Set("Initialize", "SetPeer", "SetOutLimit", "SetInLimit", "SetPaused", "Register", "SetWPeer",
                    "TransferOwn", "TransferOwnOneStep", "ClaimOwn")))
        Set("user:admin", "user:admin2", "user:mallory", "user:whale", "user:alice", "user:carol").exclude(Set(a.who))
          .map(w => fset(x, "who", w, 0, { ...a, who: w }))
      else Set()
    val ixs =
      if (a.name == "Transfer") val w = if (a.ix == "burn") "lock" else "burn" Set(fset(x, "ix", w, 0, { ...a, ix: w }))
      else if (a.name == "ReleaseIn") val w = if (a.ix == "mint") "unlock" else "mint" Set(fset(x, "ix", w, 0, { ...a, ix: w }))
      else if (a.name == "Initialize") val w = if (a.ix == "burning") "locking" else "burning" Set(fset(x, "ix", w, 0, { ...a, ix: w }))
      else Set()
    val progs =
      if (a.name == "ReleaseOut") WPROGS.exclude(Set(a.prog)).map(p => fset(x, "prog", p, 0, { ...a, prog: p }))
      else if (a.name == "Mark") PROGS.exclude(Set(a.prog)).map(p => fset(x, "prog", p, 0, { ...a, prog: p }))
      else if (a.name == "Register") Set(fset(x, "prog", "noexec", 0, { ...a, prog: "noexec" }))
      else Set()
    val transfers = if (a.name == "Transfer") {
        val bal = getOr(x.toks, a.who, { bal: 0, dlg: NO_SESS, allow: 0 }).bal
        Set(fset(x, "chain", "", 641, { ...a, chain: 641 }), fset(x, "chain", "", other(a.chain), { ...a, chain: other(a.chain) }),
            fset(x, "q", "", if (a.q) 0 else 1, { ...a, q: not(a.q) }),
            fset(x, "appr", "", max2(0, a.appr - 1), { ...a, appr: max2(0, a.appr - 1) }),
            fset(x, "appr", "", 0, { ...a, appr: 0 }))
          .union(if (a.appr >= 0) Set(fset(x, "from", "", 0, a)) else Set())
      } else Set()
    val receives = if (a.name == "Receive")
        Set(fset(x, "to", "addr:evil", 0, { ...a, to: "addr:evil" }), fset(x, "to", "addr:zero", 0, { ...a, to: "addr:zero" }),
            // one byte of the emitter different
            fset(x, "to", "~0", 0, { ...a, to: "addr:near" }), fset(x, "to", "~12", 0, { ...a, to: "addr:near" }),
            fset(x, "to", "~31", 0, { ...a, to: "addr:near" }),
            fset(x, "toChain", "", (x.cfg.chain + 32768) % 65536, { ...a, msg: { ...a.msg, toChain: (x.cfg.chain + 32768) % 65536 } }),
            fset(x, "toChain", "", (x.cfg.chain + 256) % 65536, { ...a, msg: { ...a.msg, toChain: (x.cfg.chain + 256) % 65536 } }),
            fset(x, "toChain", "", 0, { ...a, msg: { ...a.msg, toChain: 0 } }),
            fset(x, "to", getOr(x.wpeers, (a.prog, other(a.chain)), "addr:evil"), 0, { ...a, to: getOr(x.wpeers, (a.prog, other(a.chain)), "addr:evil") }),
            fset(x, "chain", "", other(a.chain), { ...a, chain: other(a.chain) }),
            fset(x, "toChain", "", 2, { ...a, msg: { ...a.msg, toChain: 2 } }),
            fset(x, "toChain", "", (x.cfg.chain % 256) * 256 + x.cfg.chain / 256,
                { ...a, msg: { ...a.msg, toChain: (x.cfg.chain % 256) * 256 + x.cfg.chain / 256 } }))
      else Set()
    whos.union(ixs).union(progs).union(transfers).union(receives)
  }

  // The same action with one configuration field different.
  pure def stateProbes(x: State, a: Act): Set[Probe] =
    if (x.inited) {
      val p = mkProbe("state", "paused", "", if (x.cfg.paused) 0 else 1,
                      apply({ ...x, cfg: { ...x.cfg, paused: not(x.cfg.paused) } }, a).errs)
      val id = getOr(x.xids, a.prog, -1)
      val off = if (a.name.in(Set("ReleaseOut", "Mark", "Redeem")) and id >= 0)
          Set(mkProbe("state", "disable", "", id, apply({ ...x, cfg: { ...x.cfg, enabled: x.cfg.enabled.exclude(Set(id)) } }, a).errs))
        else if (a.name == "Transfer")
          x.cfg.enabled.map(e => mkProbe("state", "disable", "", e,
            apply({ ...x, cfg: { ...x.cfg, enabled: x.cfg.enabled.exclude(Set(e)) } }, a).errs))
        else Set()
      // the whole state different in what this chain is called
      val ch = if (a.name.in(Set("Receive", "Redeem")))
          Set((x.cfg.chain + 256) % 65536, (x.cfg.chain + 32768) % 65536, 0, (x.cfg.chain % 256) * 256 + x.cfg.chain / 256)
            .map(c => mkProbe("state", "chain", "", c, apply({ ...x, cfg: { ...x.cfg, chain: c } }, a).errs))
        else Set()
      val pe = if (a.name == "Redeem" and x.peers.keys().contains(a.chain)) {
          val p0 = x.peers.get(a.chain)
          Set("addr:zero", near(p0.addr, 0), near(p0.addr, 1), near(p0.addr, 2), "prog:ntt")
            .map(z => mkProbe("state", "peer", z, 0, apply({ ...x, peers: x.peers.put(a.chain, { ...p0, addr: z }) }, a).errs))
        } else Set()
      val wp = if (a.name == "Receive" and x.wpeers.keys().contains((a.prog, a.chain)))
          Set("addr:zero", "prog:ntt")
            .map(z => mkProbe("state", "wpeer", z, 0, apply({ ...x, wpeers: x.wpeers.put((a.prog, a.chain), z) }, a).errs))
        else Set()
      val pend = if (a.name.in(Set("SetPeer", "SetOutLimit", "SetInLimit", "SetPaused", "Register", "SetWPeer",
                                   "TransferOwn", "TransferOwnOneStep", "ClaimOwn")) and a.who != "user:whale")
          Set(mkProbe("state", "pending", "", 0, apply({ ...x, cfg: { ...x.cfg, owner: "user:whale", pend: a.who } }, a).errs))
        else Set()
      // the sending allowance is exactly what is sent, or one less
      val cap = if (a.name == "Transfer") {
          val m = trim(a.amt, x.dec, getOr(x.peers, a.chain, { addr: "", dec: 0 }).dec).moved
          Set(m, m - 1).filter(c => c >= 0 and c <= U64MAX)
            .map(c => mkProbe("state", "outcap", "", c, apply({ ...x, outRL: { limit: c, cap: c, last: x.now } }, a).errs))
        } else Set()
      // exactly when it falls due
      val due = if (a.name.in(Set("ReleaseOut", "Mark")) and x.outbox.keys().contains(a.item)) {
          val r = x.outbox.get(a.item).rel
          Set(r, r - 1).map(c => mkProbe("state", "now", "", c, apply({ ...x, now: c }, a).errs))
        } else if (a.name == "ReleaseIn" and x.inbox.keys().contains(a.key) and x.inbox.get(a.key).status == "after") {
          val r = x.inbox.get(a.key).rel
          Set(r, r - 1).map(c => mkProbe("state", "now", "", c, apply({ ...x, now: c }, a).errs))
        } else Set()
      // someone has already sent a lamport to every account about to be created
      val gift = if (a.name.in(Set("SetPeer", "Register", "SetWPeer", "Receive", "Redeem", "InitLut")))
          Set(mkProbe("state", "gift", "", 1, apply(x, a).errs))
        else Set()
      val front = if (a.name == "InitLut") Set(mkProbe("state", "frontrun", "", 0, apply(x, a).errs)) else Set()
      val th = if (a.name == "Redeem")
          Set(mkProbe("state", "threshold", "", 0, apply({ ...x, cfg: { ...x.cfg, threshold: 0 } }, a).errs))
        else Set()
      val t = if (a.name.in(Set("ReleaseOut", "ReleaseIn", "Mark")))
          Set(mkProbe("state", "now", "", x.now - 1, apply({ ...x, now: x.now - 1 }, a).errs))
        else Set()
      Set(p).union(off).union(th).union(t).union(ch).union(pe).union(wp).union(pend).union(cap).union(due).union(gift).union(front)
    } else if (a.name == "Initialize") Set(mkProbe("state", "gift", "", 1, apply(x, a).errs))
    else Set()

  // What was approved is bent in one term: either the approved authority is presented
  // together with the bent terms (arg "kept"), or the authority belonging to the bent terms
  // ("derived").
  pure def bends(x: State, a: Act): Set[Probe] =
    if (a.name == "Transfer" and a.appr >= 0) {
      val y = doApprove(x, a).s
      val b: Act = { ...a, appr: -1 }
      val vs = Set(
        ("to", if (a.to == "addr:r1") "addr:r2" else "addr:r1", 0, { ...b, to: if (a.to == "addr:r1") "addr:r2" else "addr:r1" }),
        ("to", "~0", 0, { ...b, to: "addr:near" }), ("to", "~12", 0, { ...b, to: "addr:near" }),
        ("to", "~31", 0, { ...b, to: "addr:near" }),
        ("chain", "", other(a.chain), { ...b, chain: other(a.chain) }),
        ("q", "", if (a.q) 0 else 1, { ...b, q: not(a.q) }),
        ("amt", "", a.amt / 2, { ...b, amt: a.amt / 2 }),
        ("amt", "", max2(0, a.amt - 1), { ...b, amt: max2(0, a.amt - 1) }),
        ("amt", "", a.amt % 2^32, { ...b, amt: a.amt % 2^32 }),
        ("amt", "", max2(0, a.amt - 2^32), { ...b, amt: max2(0, a.amt - 2^32) }),
        ("amt", "", max2(0, a.amt - 65536), { ...b, amt: max2(0, a.amt - 65536) }),
        ("amt", "", min2(U64MAX, a.amt + 256), { ...b, amt: min2(U64MAX, a.amt + 256) }),
        ("who", if (a.who == "user:alice") "user:bob" else "user:alice", 0,
          { ...b, who: if (a.who == "user:alice") "user:bob" else "user:alice" })
      ).filter(v => v._4 != b)
      vs.map(v => mkProbe("bend", v._1, v._2, v._3, apply(y, v._4).errs))
    } else Set()

  pure def allProbes(x: State, a: Act): Set[Probe] =
    tampers(x, a)
      // one account that signs twice signs once
      .filter(t => t.kind != "unsign" or a.payer != a.who or a.name == "Transfer").map(t => mkProbe(t.kind, t.slot, t.arg, 0, tamperErr({ ...a, tamper: t })))
      .union(fieldProbes(x, a)).union(stateProbes(x, a)).union(bends(x, a))

  // ------------------------------------------------------------------ taking a step
  pure val REPEATABLE = Set("Transfer", "ReleaseOut", "Mark", "Receive", "Redeem", "ReleaseIn", "Initialize", "Register",
    "SetWPeer", "TransferOwn", "ClaimOwn")

  action take(a: Act): bool = {
    val r = apply(s, a)
    val h = nextHist(hist, s, a, r)
    all {
      s' = r.s, act' = a, errs' = r.errs, post' = r.post, ret' = r.ret, n' = n + 1,
      probes' = if (r.errs == Set()) allProbes(s, a) else stateProbes(s, a),
      again' = if (r.errs == Set() and a.name.in(REPEATABLE)) apply(r.s, a).errs else Set(),
      hist' = h,
      broken' = broken.union(stepProps(s, a, r, h))
    }
  }

  // ------------------------------------------------------------------ generators: outbound

  val freshItem: str = pick(["outbox:1", "outbox:2", "outbox:3", "outbox:4", "outbox:5", "outbox:6"],
                            s.outbox.keys().size())

  // amounts around every boundary that matters for `who` sending to `chain`
  def amounts(who: str, chain: int): Set[int] = {
    val t = getOr(s.toks, who, { bal: 0, dlg: NO_SESS, allow: 0 })
    val c = rlCap(s.outRL, s.now)
    val unit = 10^(max2(0, min2(18, s.dec - min2(8, getOr(s.peers, chain, { addr: "", dec: 8 }).dec))))
    Set(1, unit, unit + 1, 3 * unit - 1, t.bal, t.bal / 2, t.bal / 3, t.bal / 7, min2(c, t.bal),
        min2(c + 1, t.bal), min2(c + unit, t.bal), min2(t.bal, 123456789), min2(t.bal, c / 2))
  }
  def wildAmounts(who: str, chain: int): Set[int] =
    amounts(who, chain).union(Set(0, U64MAX, U64MAX - 1, getOr(s.toks, who, { bal: 0, dlg: NO_SESS, allow: 0 }).bal + 1))

  action gTransfer(wild: bool): bool = all {
    // guards come before the choices: the simulator backtracks over choices
    s.outbox.keys().size() < 6,
    nondet who = USERS.oneOf()
    nondet ci = 0.to(19).oneOf()
    val chain = if (ci < 10) 2 else if (ci < 19) 33026 else 641
    nondet am = (if (wild) wildAmounts(who, chain) else amounts(who, chain)).oneOf()
    nondet rnd = 0.to(2^64 - 1).oneOf()
    nondet useRnd = 0.to(3).oneOf()
    val bal = getOr(s.toks, who, { bal: 0, dlg: NO_SESS, allow: 0 }).bal
    val amt = if (useRnd == 0) rnd % (bal + 1) else am
    nondet dst = REMOTE.oneOf()
    nondet q = Set(true, false).oneOf()
    nondet apprK = 0.to(19).oneOf()
    nondet wrongMode = 0.to(39).oneOf()
    nondet py = Set(who, "user:carol", "user:admin").oneOf()
    val ix = if ((s.cfg.mode == "burning") == (wrongMode != 0)) "burn" else "lock"
    take({ ...A0, name: "Transfer", who: who, payer: py, chain: chain, amt: amt,
        to: dst, q: q, ix: ix, item: freshItem,
        appr: if (apprK < 16) amt else if (apprK == 16) min2(U64MAX, amt + 5) else if (apprK == 17) max2(0, amt - 1)
              else if (apprK == 18) U64MAX else -1 })
  }

  action gApprove: bool = {
    nondet who = USERS.oneOf()
    nondet chain = Set(2, 33026).oneOf()
    nondet amt = amounts(who, chain).oneOf()
    nondet dst = REMOTE.oneOf()
    nondet q = Set(true, false).oneOf()
    take({ ...A0, name: "Approve", who: who, chain: chain, amt: amt, to: dst, q: q, appr: amt })
  }

  // Execute an earlier approval exactly, or try to bend one of its terms.
  action gTransferApproved: bool = {
    val holders = s.toks.keys().filter(u => s.toks.get(u).dlg != NO_SESS)
    all {
      holders != Set(), s.outbox.keys().size() < 6,
      nondet who = holders.oneOf()
      nondet bend = 0.to(11).oneOf()
      nondet tm = Set(true, false).oneOf()
      nondet amt2 = amounts(who, 2).oneOf()
      val d = s.toks.get(who).dlg
      val ix = if (s.cfg.mode == "burning") "burn" else "lock"
      val a0: Act = { ...A0, name: "Transfer", who: who, chain: d.chain, amt: d.amt, to: d.to, q: d.q,
                      ix: ix, item: freshItem, payer: "user:mallory" }
      val a1 =
        if (bend == 0) { ...a0, to: if (d.to == "addr:r1") "addr:r2" else "addr:r1" }
        else if (bend == 1) { ...a0, chain: other(d.chain) }
        else if (bend == 2) { ...a0, q: not(d.q) }
        else if (bend == 3) { ...a0, amt: d.amt / 2 }
        else if (bend == 4) { ...a0, amt: amt2 }
        else if (bend == 5) { ...a0, who: if (who == "user:alice") "user:bob" else "user:alice" }
        else a0
      // pass the approved authority along with the bent terms, or the one derived from them
      val a = if (bend < 6 and tm and { owner: a1.who, amt: a1.amt, chain: a1.chain, to: a1.to, q: a1.q } != d)
                { ...a1, tamper: tam("swap", "session_authority", sessOf(who)) }
              else a1
      take(a)
    }
  }

  action gReleaseOut: bool = all {
    s.outbox.keys() != Set(),
    nondet k = s.outbox.keys().oneOf()
    nondet prog = WPROGS.oneOf()
    nondet q = Set(true, false).oneOf()
    nondet payer = Set("user:carol", "user:mallory", "user:admin", "user:alice").oneOf()
    take({ ...A0, name: "ReleaseOut", prog: prog, item: k, q: q, payer: payer })
  }
  // some item that is due and not yet sent
  action gReleaseOutDue: bool = {
    val cand = s.outbox.keys().filter(k => s.outbox.get(k).rel <= s.now)
      .map(k => WPROGS.filter(p => s.xids.keys().contains(p) and not(s.outbox.get(k).released.contains(s.xids.get(p)))).map(p => (k, p)))
      .flatten()
    all {
      cand != Set(),
      nondet c = cand.oneOf()
      nondet q = Set(true, false).oneOf()
      nondet payer = Set("user:carol", "user:admin").oneOf()
      take({ ...A0, name: "ReleaseOut", payer: payer, prog: c._2, item: c._1, q: q })
    }
  }

  action gMark: bool = all {
    s.outbox.keys() != Set(),
    nondet k = s.outbox.keys().oneOf()
    nondet prog = PROGS.oneOf()
    take({ ...A0, name: "Mark", prog: prog, item: k })
  }

  // ------------------------------------------------------------------ generators: inbound

  // wire amounts around the boundaries of the inbound limiter, of custody and of 64 bits
  def wireAmts(chain: int, dec: int): Set[int] = {
    val c = rlCap(getOr(s.inRL, chain, rlNew(0)), s.now)
    Set(0, 1, 7, 100, 12345678, scale(c, s.dec, dec).v, scale(c, s.dec, dec).v + 1,
        scale(s.custody, s.dec, dec).v, scale(U64MAX, s.dec, dec).v, scale(U64MAX, s.dec, dec).v + 1, U64MAX)
      .filter(x => x <= U64MAX)
  }
  def saneWireAmts(chain: int, dec: int): Set[int] = {
    val c = rlCap(getOr(s.inRL, chain, rlNew(0)), s.now)
    Set(1, 7, 100, 12345, scale(c, s.dec, dec).v, scale(c, s.dec, dec).v + 1, scale(c / 2, s.dec, dec).v,
        scale(s.custody, s.dec, dec).v, scale(s.custody / 3, s.dec, dec).v)
      .filter(x => x <= 10^17)
  }

  def mkMsg(wild: bool, chain: int, dec: int, amt: int, id: str, dst: str, bad: int): Msg = {
    val peer = getOr(s.peers, chain, { addr: "addr:mgrA", dec: 8 })
    { srcMgr: if (bad == 0) "addr:evil" else if (bad == 1) getOr(s.peers, other(chain), { addr: "addr:evil", dec: 8 }).addr
              else if (bad == 6) near(peer.addr, amt) else if (bad == 10) "addr:zero" else peer.addr,
      rcptMgr: if (bad == 2) "addr:evil" else if (bad == 3) "prog:xcv" else if (bad == 7) near("prog:ntt", amt) else if (bad == 11) "addr:zero" else "prog:ntt",
      id: id,
      sender: if (bad == 12) "addr:evil" else if (id == "id:1") "addr:s1" else if (id == "id:2") "addr:zero"
              else if (id == "id:3") "user:alice" else "addr:evm1",
      dec: dec, amt: amt,
      tok: if (bad == 13) "addr:evil" else if (id == "id:1") "addr:tok" else if (id == "id:2") "mint"
           else if (id == "id:3") "addr:zero" else "addr:evm1",
      to: if (bad == 14) "addr:zero" else dst,
      toChain: if (bad == 4) 2 else if (bad == 5) (s.cfg.chain % 256) * 256 + s.cfg.chain / 256
               else if (bad == 8) (s.cfg.chain + 32768) % 65536 else if (bad == 9) 0 else s.cfg.chain }
  }

  pure val MANGLES: List[Mangle] = [
    { ...WELL_FORMED, p1: [153, 69, 255, 17] }, { ...WELL_FORMED, p1: [153, 78, 84, 84] },
    { ...WELL_FORMED, p1: [152, 69, 255, 16] }, { ...WELL_FORMED, p1: [153, 68, 255, 16] },
    { ...WELL_FORMED, p2: [153, 69, 255, 16] }, { ...WELL_FORMED, p2: [153, 78, 84, 85] },
    { ...WELL_FORMED, p2: [152, 78, 84, 84] }, { ...WELL_FORMED, p2: [153, 78, 83, 84] },
    { ...WELL_FORMED, cut: 1 }, { ...WELL_FORMED, cut: 2 }, { ...WELL_FORMED, cut: 40 },
    { ...WELL_FORMED, pl: [1, 2, 3] }, { ...WELL_FORMED, pl: [255], trail: [9, 9] },
    { ...WELL_FORMED, trail: [0] }, { ...WELL_FORMED, pl: [1, 2, 3], cut: 1 },
    { ...WELL_FORMED, pl: [7, 7], trail: [1, 2], cut: 3 } ]

  action gReceive(wild: bool): bool = {
    nondet prog = WPROGS.oneOf()
    nondet badEmitter = 0.to(39).oneOf()
    nondet mroll = 0.to(11).oneOf()
    nondet mi = 0.to(15).oneOf()
    nondet ci = 0.to(19).oneOf()
    val chain = if (ci < 10) 2 else if (ci < 19) 33026 else 641
    nondet di = 0.to(13).oneOf()
    nondet sd = 0.to(8).oneOf()
    val dec = if (wild) pick(DECS, di) else min2(sd, s.dec)
    nondet am = (if (wild) wireAmts(chain, dec) else saneWireAmts(chain, dec)).oneOf()
    nondet rnd = 0.to(2^64 - 1).oneOf()
    nondet useRnd = 0.to(3).oneOf()
    val most = scale(rlCap(getOr(s.inRL, chain, rlNew(0)), s.now), s.dec, dec).v
    val amt = if (useRnd == 0) rnd % (2 * min2(10^17, most) + 1) else am
    nondet id = IDS.oneOf()
    nondet dst = RECIPIENTS.oneOf()
    nondet payer = Set("user:carol", "user:admin", dst).oneOf()
    nondet bad = 0.to(39).oneOf()
    val m = mkMsg(wild, chain, dec, amt, id, dst, bad)
    val em = getOr(s.wpeers, (prog, chain), "addr:wA")
    take({ ...A0, name: "Receive", payer: payer, prog: prog, chain: chain, msg: m,
      to: if (badEmitter == 0) "addr:evil"
          else if (badEmitter == 1) getOr(s.wpeers, (prog, other(chain)), "addr:evil")
          else if (badEmitter == 2) getOr(s.wpeers, (if (prog == "prog:ntt") "prog:xcv" else "prog:ntt", chain), "addr:evil")
          else em,
      mangle: if (mroll == 0) pick(MANGLES, mi) else WELL_FORMED })
  }

  // the same message through another transceiver (a vote), possibly with one field changed
  action gDeliverCopy: bool = all {
    s.msgs.keys() != Set(),
    nondet k = s.msgs.keys().oneOf()
    nondet pr = Set(true, false).oneOf()
    nondet prog = (if (pr and s.xids.keys() != Set()) s.xids.keys() else PROGS).oneOf()
    nondet alter = 0.to(15).oneOf()
    val m0 = s.msgs.get(k)
    val m = if (alter == 0) { ...m0, amt: min2(U64MAX, m0.amt + 1) } else if (alter == 1) { ...m0, to: "user:mallory" }
            else if (alter == 2) { ...m0, sender: "addr:s2" } else if (alter == 3) { ...m0, tok: "addr:tok2" }
            else if (alter == 4) { ...m0, dec: if (m0.dec == 0) 1 else m0.dec - 1 }
            else m0
    if (prog.in(WPROGS))
      take({ ...A0, name: "Receive", prog: prog, chain: k.chain, msg: m,
             to: getOr(s.wpeers, (prog, k.chain), "addr:evil") })
    else take({ ...A0, name: "FakeDeliver", prog: prog, chain: k.chain, msg: m })
  }

  action gFakeDeliver(wild: bool): bool = {
    nondet prog = Set("prog:f1", "prog:f2", "prog:f3").oneOf()
    nondet chain = Set(2, 33026).oneOf()
    nondet di = 0.to(13).oneOf()
    val dec = if (wild) pick(DECS, di) else min2(di, s.dec)
    nondet amt = (if (wild) wireAmts(chain, dec) else saneWireAmts(chain, dec)).oneOf()
    nondet id = IDS.oneOf()
    nondet dst = RECIPIENTS.oneOf()
    nondet bad = 0.to(24).oneOf()
    take({ ...A0, name: "FakeDeliver", prog: prog, chain: chain, msg: mkMsg(wild, chain, dec, amt, id, dst, bad) })
  }

  action gRedeem: bool = all {
    s.msgs.keys() != Set(),
    nondet k = s.msgs.keys().oneOf()
    nondet payer = Set("user:carol", "user:mallory", "user:admin", "user:alice").oneOf()
    take({ ...A0, name: "Redeem", prog: k.prog, chain: k.chain, item: k.id, payer: payer })
  }
  // a message of a registered transceiver that has not been voted on by it
  action gRedeemNew: bool = {
    val cand = s.msgs.keys().filter(k => s.xids.keys().contains(k.prog) and {
      val ik = inKey(k.chain, s.msgs.get(k))
      not(s.inbox.keys().contains(ik)) or not(s.inbox.get(ik).votes.contains(s.xids.get(k.prog))) })
    all {
      cand != Set(),
      nondet k = cand.oneOf()
      nondet payer = Set("user:carol", "user:admin", if (s.msgs.get(k).to == "addr:zero") "user:bob" else s.msgs.get(k).to).oneOf()
      take({ ...A0, name: "Redeem", payer: payer, prog: k.prog, chain: k.chain, item: k.id })
    }
  }

  action gReleaseIn: bool = all {
    s.inbox.keys() != Set(),
    nondet k = s.inbox.keys().oneOf()
    nondet q = Set(true, false).oneOf()
    nondet wrongMode = 0.to(19).oneOf()
    nondet payer = Set("user:carol", "user:alice", "user:bob", "user:admin").oneOf()
    val ix = if ((s.cfg.mode == "burning") == (wrongMode != 0)) "mint" else "unlock"
    take({ ...A0, name: "ReleaseIn", payer: payer, key: k, q: q, ix: ix })
  }
  action gReleaseInNew: bool = {
    val cand = s.inbox.keys().filter(k => s.inbox.get(k).status != "done")
    all {
      cand != Set(),
      nondet k = cand.oneOf()
      nondet q = Set(true, false).oneOf()
      nondet self = Set(true, false).oneOf()
      take({ ...A0, name: "ReleaseIn", payer: if (self and s.inbox.get(k).to != "addr:zero") s.inbox.get(k).to else "user:carol", key: k, q: q, ix: if (s.cfg.mode == "burning") "mint" else "unlock" })
    }
  }

  // ------------------------------------------------------------------ generators: admin

  pure val ADMINS = List("user:admin", "user:admin2", "user:mallory", "user:admin")

  // mostly the current owner; otherwise somebody else (among them a pending owner)
  def adminOf(i: int): str = if (i < 16) s.cfg.owner else pick(ADMINS, i)

  action gSetPeer: bool = {
    nondet i = 0.to(19).oneOf()
    nondet chain = CHAINS.oneOf()
    nondet addr = MGRS.oneOf()
    nondet l = 0.to(8).oneOf()
    nondet d = 0.to(13).oneOf()
    nondet self = Set(true, false).oneOf()
    take({ ...A0, name: "SetPeer", who: adminOf(i), payer: if (self) adminOf(i) else "user:carol", chain: chain, to: addr, amt: pick(LIMITS, l), appr: pick(DECS, d) })
  }
  // limits around the current one and its current capacity
  def limitsAround(r: RL): Set[int] =
    Set(0, 1, r.limit, max2(0, r.limit - 1), min2(U64MAX, r.limit + 1), r.limit / 2, min2(U64MAX, r.limit * 2),
        rlCap(r, s.now), max2(0, r.limit - rlCap(r, s.now)), 10^15, U64MAX)
  action gSetOutLimit: bool = {
    nondet i = 0.to(19).oneOf()
    nondet l = limitsAround(s.outRL).oneOf()
    take({ ...A0, name: "SetOutLimit", who: adminOf(i), amt: l })
  }
  action gSetInLimit: bool = {
    nondet i = 0.to(19).oneOf()
    nondet ci = 0.to(9).oneOf()
    val chain = if (ci < 5) 2 else if (ci < 9) 33026 else 641
    nondet l = limitsAround(getOr(s.inRL, chain, rlNew(0))).oneOf()
    take({ ...A0, name: "SetInLimit", who: adminOf(i), chain: chain, amt: l })
  }
  action gSetPaused: bool = {
    nondet i = 0.to(19).oneOf()
    nondet q = Set(true, false).oneOf()
    take({ ...A0, name: "SetPaused", who: adminOf(i), q: q })
  }
  // keep pauses short so that most of a trace runs unpaused
  action gUnpause: bool = all { s.cfg.paused, take({ ...A0, name: "SetPaused", who: s.cfg.owner, q: false }) }
  action gPause: bool = all { not(s.cfg.paused), take({ ...A0, name: "SetPaused", who: s.cfg.owner, q: true }) }
  action gRegister: bool = {
    nondet i = 0.to(19).oneOf()
    nondet p = PROGS.union(Set("noexec")).oneOf()
    nondet self = Set(true, false).oneOf()
    take({ ...A0, name: "Register", who: adminOf(i), payer: if (self) adminOf(i) else "user:carol", prog: p })
  }
  action gSetWPeer: bool = {
    nondet i = 0.to(19).oneOf()
    nondet chain = CHAINS.oneOf()
    nondet p = WPROGS.oneOf()
    nondet addr = Set("addr:wA", "addr:wB", "addr:wC", "addr:evm1", "addr:zero").oneOf()
    take({ ...A0, name: "SetWPeer", who: adminOf(i), chain: chain, prog: p, to: addr })
  }
  action gOwnership: bool = {
    nondet i = 0.to(19).oneOf()
    nondet k = 0.to(9).oneOf()
    nondet new = Set("user:admin", "user:admin2", "user:admin3").oneOf()
    nondet cl = 0.to(5).oneOf()
    take({ ...A0,
      name: if (k < 4) "TransferOwn" else if (k < 6) "TransferOwnOneStep" else "ClaimOwn",
      who: if (k < 6) adminOf(i)
           else if (cl < 3 and s.cfg.pend != "") s.cfg.pend
           else if (cl == 3) s.cfg.owner else pick(ADMINS, cl),
      to: new })
  }
  action gInit: bool = {
    nondet i = 0.to(5).oneOf()
    nondet l = 0.to(8).oneOf()
    nondet mode = Set("burning", "locking").oneOf()
    nondet chain = Set(1, 641, 32770).oneOf()
    take({ ...A0, name: "Initialize", who: if (i == 0) "user:mallory" else "user:admin", amt: pick(LIMITS, l), ix: mode, chain: chain })
  }

  // ------------------------------------------------------------------ generators: other
  action gBroadcast: bool = {
    nondet prog = WPROGS.oneOf()
    nondet chain = CHAINS.oneOf()
    nondet idOnly = Set(true, false).oneOf()
    take({ ...A0, name: if (idOnly) "BroadcastId" else "BroadcastPeer", prog: prog, chain: chain })
  }
  action gInitLut: bool = take({ ...A0, name: "InitLut" })
  action gTick: bool = {
    nondet d = 0.to(14).oneOf()
    take({ ...A0, name: "Tick", amt: pick(DTBIG, d) })
  }
  // exactly up to, one before, or one after the moment something becomes due
  action gTickTo: bool = {
    val dues = s.outbox.keys().map(k => s.outbox.get(k).rel)
                .union(s.inbox.keys().map(k => s.inbox.get(k).rel)).filter(t => t > s.now)
    all {
      dues != Set(),
      nondet t = dues.oneOf()
      nondet d = Set(-1, 0, 1).oneOf()
      take({ ...A0, name: "Tick", amt: max2(0, t + d - s.now) })
    }
  }
  action gCreateAta: bool = all { not(s.toks.keys().contains("user:newbie")),
    take({ ...A0, name: "CreateAta", who: "user:newbie" }) }
  action gDonate: bool = {
    nondet who = USERS.oneOf()
    nondet k = 1.to(4).oneOf()
    take({ ...A0, name: "Donate", who: who, amt: getOr(s.toks, who, { bal: 0, dlg: NO_SESS, allow: 0 }).bal / (k * 3) })
  }
  action gThreshold: bool = {
    nondet t = 0.to(9).oneOf()
    take({ ...A0, name: "SetThreshold", amt: if (t == 0) 0 else 1 + t % 3 })
  }
  action gEnabled: bool = all {
    s.xids.keys() != Set(),
    nondet p = s.xids.keys().oneOf()
    val id = s.xids.get(p)
    take({ ...A0, name: "SetEnabled", amt: id, q: not(s.cfg.enabled.contains(id)) })
  }

  // whoever holds the upgrade authority moves it with the loader itself
  action gSetAuthority: bool = {
    nondet i = 0.to(7).oneOf()
    all { s.upAuth != "lock", take({ ...A0, name: "SetAuthority", who: s.upAuth, to: if (i < 4) "lock" else if (i < 6) "user:admin2" else "user:mallory" }) }
  }
  // the holder of the upgrade authority, who is not the owner, goes for the ownership
  action gSeize: bool = {
    nondet k = Set("TransferOwn", "TransferOwnOneStep", "ClaimOwn").oneOf()
    nondet new = Set("user:admin2", "user:admin3").oneOf()
    all { s.upAuth != s.cfg.owner, take({ ...A0, name: k, who: if (s.upAuth == "lock") "user:mallory" else s.upAuth, to: new }) }
  }

  // ------------------------------------------------------------------ profiles
  action stepOut: bool = any {
    gTransfer(false), gTransfer(true), gTransfer(false), gReleaseOut, gReleaseOutDue, gReleaseOutDue, gMark,
    gApprove, gTransferApproved, gTransferApproved, gTick, gTickTo, gUnpause, gRegister
  }
  action stepIn: bool = any {
    gReceive(false), gReceive(true), gDeliverCopy, gRedeem, gRedeemNew, gRedeemNew, gReleaseIn, gReleaseInNew, gReleaseInNew,
    gFakeDeliver(false), gCreateAta, gTick, gTickTo, gUnpause, gDonate
  }
  action stepVotes: bool = any {
    gReceive(false), gDeliverCopy, gDeliverCopy, gDeliverCopy, gRedeemNew, gRedeemNew, gRedeem, gReleaseInNew, gReleaseIn,
    gThreshold, gEnabled, gRegister, gTick, gTickTo, gFakeDeliver(false), gUnpause
  }
  // voting on the transfers that are there already
  action stepVote: bool = any {
    gRedeemNew, gRedeemNew, gRedeemNew, gRedeem, gEnabled, gEnabled, gThreshold, gReleaseInNew, gReleaseIn, gTick, gTickTo
  }
  action stepTokOut: bool = stepOut
  action stepTokIn: bool = stepIn
  action stepRate: bool = any {
    gTransfer(false), gTransfer(true), gReceive(false), gRedeemNew, gRedeemNew, gReleaseInNew,
    gSetOutLimit, gSetInLimit, gTick, gTick, gTickTo, gReleaseOutDue, gSetPeer
  }
  action stepAdmin: bool = any {
    gSetPeer, gSetOutLimit, gSetInLimit, gSetPaused, gUnpause, gRegister, gSetWPeer,
    gOwnership, gOwnership, gSetAuthority, gSeize, gTick, gBroadcast, gInitLut, gTransfer(false)
  }
  action stepPause: bool = any {
    gPause, gUnpause, gTransfer(false), gReceive(false), gRedeemNew, gReleaseInNew, gReleaseInNew,
    gReleaseOutDue, gMark, gTick, gTickTo, gBroadcast, gSetPaused, gSetOutLimit, gDeliverCopy, gOwnership
  }
  action stepBoot: bool = any {
    gInit, gInit, gInit, gSetPeer, gRegister, gRegister, gSetWPeer, gTransfer(false), gTick, gInitLut,
    gReleaseOut, gOwnership, gSetOutLimit
  }
  action stepMixed: bool = any {
    gTransfer(false), gTransfer(true), gTransferApproved, gApprove, gReleaseOut, gReleaseOutDue, gMark,
    gReceive(false), gReceive(true), gDeliverCopy, gFakeDeliver(true), gRedeemNew, gRedeem, gReleaseInNew, gReleaseIn,
    gSetPeer, gSetOutLimit, gSetInLimit, gSetPaused, gUnpause, gUnpause, gRegister, gSetWPeer,
    gOwnership, gBroadcast, gTick, gTick, gTickTo, gCreateAta, gDonate, gThreshold, gEnabled
  }

  action init: bool = initPlain
  action step: bool = stepMixed

  // Every property of ntt_props held on every step so far.
  val propertiesHold: bool = broken == Set()
}
