// Specification of one Native Token Transfers deployment on Solana: the manager
// program with its baked-in Wormhole transceiver ("ntt"), the stand-alone Wormhole
// transceiver ("xcv"), further transceiver programs ("f1", "f2", ...), the token, the
// program's upgrade authority and the Wormhole core bridge as far as NTT uses it.
//
// The core is a pure function `apply(state, action) -> outcome`.  An outcome says
// whether the action takes effect, which guards it violates (all of them, not just the
// first), the next state and the Wormhole message it emits.  Nothing but the token
// amounts is abstracted: rejected actions leave the state unchanged.
module ntt {
  import ntt_math.* from "./ntt_math"
  import ntt_wire.* from "./ntt_wire"

  // ------------------------------------------------------------------ state

  type Peer = { addr: str, dec: int }

  // The intent a token owner signs when approving a transfer.
  type Sess = { owner: str, amt: int, chain: int, to: str, q: bool }
  pure val NO_SESS: Sess = { owner: "", amt: 0, chain: 0, to: "", q: false }

  type Tok = { bal: int, dlg: Sess, allow: int }

  type OutItem = {
    wire: int, dec: int, sender: str, chain: int, mgr: str, to: str,
    rel: int, released: Set[int]
  }

  type InKey = { chain: int, id: str, sender: str, dec: int, amt: int, tok: str, to: str, toChain: int }
  type InItem = { amt: int, to: str, votes: Set[int], status: str, rel: int }  // status: none | after | done

  type MsgKey = { prog: str, chain: int, id: str }

  type Cfg = {
    owner: str, pend: str, mode: str, chain: int, nextId: int,
    threshold: int, enabled: Set[int], paused: bool
  }

  type State = {
    now: int, inited: bool, cfg: Cfg, upAuth: str,
    tokKind: str, dec: int, feeBps: int, mintAuth: str,
    supply: int, custody: int, toks: str -> Tok,
    outRL: RL, peers: int -> Peer, inRL: int -> RL,
    xids: str -> int, wpeers: (str, int) -> str,
    outbox: str -> OutItem,
    msgs: MsgKey -> Msg, inbox: InKey -> InItem,
    seqs: str -> int, hooks: int, bridgeFee: int, lut: bool
  }

  type Tamper = { kind: str, slot: str, arg: str }
  pure val CLEAN: Tamper = { kind: "none", slot: "", arg: "" }

  type Act = {
    name: str, who: str, payer: str, prog: str, item: str,
    chain: int, amt: int, appr: int, to: str, q: bool, ix: str,
    key: InKey, msg: Msg, mangle: Mangle, tamper: Tamper
  }
  pure val NO_KEY: InKey = { chain: 0, id: "", sender: "", dec: 0, amt: 0, tok: "", to: "", toChain: 0 }
  pure val NO_MSG: Msg =
    { srcMgr: "", rcptMgr: "", id: "", sender: "", dec: 0, amt: 0, tok: "", to: "", toChain: 0 }
  pure val A0: Act = {
    name: "", who: "", payer: "user:carol", prog: "", item: "", chain: 0, amt: 0, appr: -1, to: "",
    q: false, ix: "", key: NO_KEY, msg: NO_MSG, mangle: WELL_FORMED, tamper: CLEAN
  }

  type Out = { errs: Set[str], s: State, post: List[Seg], ret: str }

  // Set of the tags whose condition holds: the violated guards.
  pure def viol(gs: List[(str, bool)]): Set[str] =
    gs.foldl(Set(), (acc, g) => if (g._2) acc.union(Set(g._1)) else acc)

  pure def getOr(m: a -> b, k: a, d: b): b = if (m.keys().contains(k)) m.get(k) else d

  // An account substitution or a dropped signature is always a violated guard.
  pure def tamperErr(a: Act): Set[str] =
    if (a.tamper.kind == "none") Set()
    else if (a.tamper.kind == "unsign") Set("unsigned")
    else Set("wrong_account")

  pure def outcome(s: State, errs: Set[str], s2: State, post: List[Seg], ret: str): Out =
    if (errs == Set()) { errs: errs, s: s2, post: post, ret: ret }
    else { errs: errs, s: s, post: [], ret: "" }

  pure def bump(m: str -> int, k: str): str -> int = m.put(k, getOr(m, k, 0) + 1)

  // ------------------------------------------------------------------ outbound

  // One user-level transaction: optionally approve the session, then transfer.
  pure def doTransfer(s: State, a: Act): Out = {
    val sess: Sess = { owner: a.who, amt: a.amt, chain: a.chain, to: a.to, q: a.q }
    val t0 = getOr(s.toks, a.who, { bal: 0, dlg: NO_SESS, allow: 0 })
    val t = if (a.appr >= 0) { ...t0, dlg: sess, allow: a.appr } else t0
    val peer = getOr(s.peers, a.chain, { addr: "", dec: 0 })
    val inRL = getOr(s.inRL, a.chain, rlNew(0))
    val tr = trim(a.amt, s.dec, peer.dec)
    val fits = rlFits(s.outRL, s.now, tr.moved)
    val errs = viol([
      ("uninit", not(s.inited)),
      ("paused", s.cfg.paused),
      ("no_transceiver", s.cfg.enabled == Set()),
      ("mode", (a.ix == "burn") != (s.cfg.mode == "burning")),
      ("no_peer", not(s.peers.keys().contains(a.chain))),
      ("trim", not(tr.ok)),
      ("no_ata", not(s.toks.keys().contains(a.who))),
      ("session", or { t.dlg != sess, t.allow < tr.moved }),
      ("balance", t.bal < tr.moved),
      ("fee_token", tokenFee(tr.moved, s.feeBps) > 0),
      ("outbox_exists", s.outbox.keys().contains(a.item)),
      ("rate", not(fits) and not(a.q))
    ]).union(tamperErr(a))
    val left = t.allow - tr.moved
    val t2 = { bal: t.bal - tr.moved,
               dlg: if (left == 0) NO_SESS else t.dlg,
               allow: left }
    val entry: OutItem = {
      wire: tr.wire, dec: tr.dec, sender: a.who, chain: a.chain, mgr: peer.addr, to: a.to,
      rel: if (fits) s.now else s.now + DAY, released: Set() }
    val burning = s.cfg.mode == "burning"
    val s2: State = { ...s,
      toks: s.toks.put(a.who, t2),
      custody: if (burning) s.custody else s.custody + tr.moved,
      supply: if (burning) s.supply - tr.moved else s.supply,
      outRL: if (fits) rlConsume(s.outRL, s.now, tr.moved) else s.outRL,
      inRL: if (fits) s.inRL.put(a.chain, rlRefill(inRL, s.now, tr.moved)) else s.inRL,
      outbox: s.outbox.put(a.item, entry),
      hooks: if (s.tokKind == "hook") s.hooks + 1 else s.hooks }
    outcome(s, errs, s2, [], "")
  }

  // Approval on its own (the transfer can then be sent by anyone, exactly as approved).
  pure def doApprove(s: State, a: Act): Out = {
    val sess: Sess = { owner: a.who, amt: a.amt, chain: a.chain, to: a.to, q: a.q }
    val t = getOr(s.toks, a.who, { bal: 0, dlg: NO_SESS, allow: 0 })
    outcome(s, viol([("no_ata", not(s.toks.keys().contains(a.who)))]),
      { ...s, toks: s.toks.put(a.who, { ...t, dlg: sess, allow: a.appr }) }, [], "")
  }

  pure def outMsg(s: State, k: str, i: OutItem): Msg = {
    srcMgr: "prog:ntt", rcptMgr: i.mgr, id: k, sender: i.sender,
    dec: i.dec, amt: i.wire, tok: "mint", to: i.to, toChain: i.chain }

  pure val NO_OUT: OutItem =
    { wire: 0, dec: 0, sender: "", chain: 0, mgr: "", to: "", rel: 0, released: Set() }

  // Release through a Wormhole transceiver (built in or stand-alone); q = revert_on_delay.
  pure def doReleaseOut(s: State, a: Act): Out = {
    val i = getOr(s.outbox, a.item, NO_OUT)
    val id = getOr(s.xids, a.prog, -1)
    val due = i.rel <= s.now
    val errs = viol([
      ("uninit", not(s.inited)),
      ("paused", s.cfg.paused),
      ("no_item", not(s.outbox.keys().contains(a.item))),
      ("unregistered", id < 0),
      ("disabled", id >= 0 and not(s.cfg.enabled.contains(id))),
      ("already_sent", i.released.contains(id)),
      ("not_due", not(due) and a.q)
    ]).union(tamperErr(a))
    if (due)
      outcome(s, errs,
        { ...s, outbox: s.outbox.put(a.item, { ...i, released: i.released.union(Set(id)) }),
                seqs: bump(s.seqs, a.prog) },
        encTm(outMsg(s, a.item, i)), "")
    else outcome(s, errs, s, [], "")
  }

  // Any other transceiver claims an item through its own signing authority.
  pure def doMark(s: State, a: Act): Out = {
    val i = getOr(s.outbox, a.item, NO_OUT)
    val id = getOr(s.xids, a.prog, -1)
    val due = i.rel <= s.now
    val errs = viol([
      ("uninit", not(s.inited)),
      ("paused", s.cfg.paused),
      ("no_item", not(s.outbox.keys().contains(a.item))),
      ("unregistered", id < 0),
      ("disabled", id >= 0 and not(s.cfg.enabled.contains(id))),
      ("already_sent", i.released.contains(id))
    ]).union(tamperErr(a))
    if (due)
      outcome(s, errs,
        { ...s, outbox: s.outbox.put(a.item, { ...i, released: i.released.union(Set(id)) }) },
        [], "true")
    else outcome(s, errs, s, [], "false")
  }

  // ------------------------------------------------------------------ inbound

  // A guardian-signed message (a.chain = emitter chain, a.to = emitter) reaches a
  // Wormhole transceiver.
  pure def doReceive(s: State, a: Act): Out = {
    val k: MsgKey = { prog: a.prog, chain: a.chain, id: a.msg.id }
    val known = s.wpeers.keys().contains((a.prog, a.chain))
    val errs = viol([
      ("uninit", not(s.inited)),
      ("paused", s.cfg.paused),
      ("malformed", not(decodable(a.mangle))),
      ("no_wpeer", not(known)),
      ("emitter", known and getOr(s.wpeers, (a.prog, a.chain), "") != a.to),
      ("to_chain", a.msg.toChain != s.cfg.chain),
      ("msg_exists", s.msgs.keys().contains(k))
    ]).union(tamperErr(a))
    outcome(s, errs, { ...s, msgs: s.msgs.put(k, a.msg) }, [], "")
  }

  // A message validated by some other program (trusted only if registered).
  pure def doFakeDeliver(s: State, a: Act): Out = {
    val k: MsgKey = { prog: a.prog, chain: a.chain, id: a.msg.id }
    outcome(s, viol([("msg_exists", s.msgs.keys().contains(k))]),
      { ...s, msgs: s.msgs.put(k, a.msg) }, [], "")
  }

  pure def inKey(chain: int, m: Msg): InKey = {
    chain: chain, id: m.id, sender: m.sender, dec: m.dec, amt: m.amt, tok: m.tok, to: m.to,
    toChain: m.toChain }

  // a.prog, a.chain, a.item identify the validated message.
  pure def doRedeem(s: State, a: Act): Out = {
    val mk: MsgKey = { prog: a.prog, chain: a.chain, id: a.item }
    val m = getOr(s.msgs, mk, NO_MSG)
    val k = inKey(a.chain, m)
    val id = getOr(s.xids, a.prog, -1)
    val peer = getOr(s.peers, a.chain, { addr: "", dec: 0 })
    val inRL = getOr(s.inRL, a.chain, rlNew(0))
    val amt = scale(m.amt, m.dec, s.dec)
    val old = getOr(s.inbox, k, { amt: amt.v, to: m.to, votes: Set(), status: "none", rel: 0 })
    val votes = old.votes.union(Set(id))
    val approved = votes.intersect(s.cfg.enabled).size() >= s.cfg.threshold
    val fits = rlFits(inRL, s.now, old.amt)
    val errs = viol([
      ("uninit", not(s.inited)),
      ("no_msg", not(s.msgs.keys().contains(mk))),
      ("zero_threshold", s.cfg.threshold == 0),
      ("no_peer", not(s.peers.keys().contains(a.chain))),
      ("src_manager", peer.addr != m.srcMgr),
      ("to_chain", m.toChain != s.cfg.chain),
      ("rcpt_manager", m.rcptMgr != "prog:ntt"),
      ("unregistered", id < 0),
      ("disabled", id >= 0 and not(s.cfg.enabled.contains(id))),
      ("untrim", not(amt.ok)),
      ("already_approved", approved and old.status != "none")
    ]).union(tamperErr(a))
    val i: InItem =
      if (not(approved)) { ...old, votes: votes }
      else { ...old, votes: votes, status: "after", rel: if (fits) s.now else s.now + DAY }
    val s2: State = { ...s,
      inbox: s.inbox.put(k, i),
      inRL: if (approved and fits) s.inRL.put(a.chain, rlConsume(inRL, s.now, old.amt)) else s.inRL,
      outRL: if (approved and fits) rlRefill(s.outRL, s.now, old.amt) else s.outRL }
    outcome(s, errs, s2, [], "")
  }

  // a.key identifies the inbox item; q = revert_on_delay; ix = mint | unlock
  pure def doReleaseIn(s: State, a: Act): Out = {
    val i = getOr(s.inbox, a.key, { amt: 0, to: "", votes: Set(), status: "none", rel: 0 })
    val u = i.to
    val t = getOr(s.toks, u, { bal: 0, dlg: NO_SESS, allow: 0 })
    val due = i.status == "after" and i.rel <= s.now
    val burning = s.cfg.mode == "burning"
    val errs = viol([
      ("uninit", not(s.inited)),
      ("paused", s.cfg.paused),
      ("mode", (a.ix == "mint") != burning),
      ("no_item", not(s.inbox.keys().contains(a.key))),
      ("no_ata", not(s.toks.keys().contains(u))),
      ("already_released", i.status == "done"),
      ("not_approved", i.status == "none" and a.q),
      ("not_due", i.status == "after" and not(due) and a.q),
      ("custody_short", due and not(burning) and s.custody < i.amt),
      ("supply_overflow", due and burning and s.supply + i.amt > U64MAX),
      ("mint_revoked", due and burning and s.mintAuth != "token_authority")
    ]).union(tamperErr(a))
    if (due)
      outcome(s, errs, { ...s,
        inbox: s.inbox.put(a.key, { ...i, status: "done", rel: 0 }),
        toks: s.toks.put(u, { ...t, bal: t.bal + i.amt - tokenFee(i.amt, s.feeBps) }),
        custody: if (burning) s.custody else s.custody - i.amt,
        supply: if (burning) s.supply + i.amt else s.supply,
        hooks: if (s.tokKind == "hook") s.hooks + 1 else s.hooks }, [], "")
    else outcome(s, errs, s, [], "")
  }

  // ------------------------------------------------------------------ administration

  pure def owns(s: State, a: Act): Set[str] =
    viol([("uninit", not(s.inited)), ("not_owner", s.cfg.owner != a.who)]).union(tamperErr(a))

  // a.who deploys; a.ix = mode; a.amt = limit; a.chain = chain id
  pure def doInit(s: State, a: Act): Out = {
    val errs = viol([
      ("already_init", s.inited),
      ("not_deployer", s.upAuth != a.who),
      ("mint_authority", a.ix == "burning" and s.mintAuth != "token_authority")
    ]).union(tamperErr(a))
    outcome(s, errs, { ...s, inited: true,
      cfg: { owner: a.who, pend: "", mode: a.ix, chain: a.chain, nextId: 0, threshold: 1,
             enabled: Set(), paused: false },
      outRL: rlNew(a.amt) }, [], "")
  }

  // a.chain, a.to = address, a.amt = inbound limit, a.appr = decimals
  pure def doSetPeer(s: State, a: Act): Out =
    outcome(s, owns(s, a), { ...s,
      peers: s.peers.put(a.chain, { addr: a.to, dec: a.appr }),
      inRL: s.inRL.put(a.chain, rlNew(a.amt)) }, [], "")

  pure def doSetOutLimit(s: State, a: Act): Out =
    outcome(s, owns(s, a), { ...s, outRL: rlSetLimit(s.outRL, s.now, a.amt) }, [], "")

  pure def doSetInLimit(s: State, a: Act): Out =
    outcome(s, owns(s, a).union(viol([("no_peer", not(s.inRL.keys().contains(a.chain)))])),
      { ...s, inRL: s.inRL.put(a.chain, rlSetLimit(getOr(s.inRL, a.chain, rlNew(0)), s.now, a.amt)) },
      [], "")

  pure def doSetPaused(s: State, a: Act): Out =
    outcome(s, owns(s, a), { ...s, cfg: { ...s.cfg, paused: a.q } }, [], "")

  // "noexec" names an account that is not a program
  pure def doRegister(s: State, a: Act): Out = {
    val errs = owns(s, a).union(viol([
      ("not_program", a.prog == "noexec"),
      ("registered", s.xids.keys().contains(a.prog)),
      ("too_many", s.cfg.nextId >= 128)
    ]))
    outcome(s, errs, { ...s,
      xids: s.xids.put(a.prog, s.cfg.nextId),
      cfg: { ...s.cfg, nextId: s.cfg.nextId + 1,
             enabled: s.cfg.enabled.union(Set(s.cfg.nextId)) } }, [], "")
  }

  // a.prog = ntt | xcv; set once per chain
  pure def doSetWPeer(s: State, a: Act): Out =
    outcome(s, owns(s, a).union(viol([
        ("wpeer_exists", s.wpeers.keys().contains((a.prog, a.chain)))])),
      { ...s, wpeers: s.wpeers.put((a.prog, a.chain), a.to) }, [], "")

  // two-step hand-over; a.to = new owner
  pure def doTransferOwn(s: State, a: Act): Out =
    outcome(s, owns(s, a).union(viol([("not_authority", s.upAuth != a.who)])),
      { ...s, cfg: { ...s.cfg, pend: a.to }, upAuth: "lock" }, [], "")

  pure def doTransferOwnOneStep(s: State, a: Act): Out =
    outcome(s, owns(s, a).union(viol([("not_authority", s.upAuth != a.who)])),
      { ...s, cfg: { ...s.cfg, owner: a.to, pend: "" }, upAuth: a.to }, [], "")

  pure def doClaimOwn(s: State, a: Act): Out = {
    val errs = viol([
      ("uninit", not(s.inited)),
      ("not_pending", s.cfg.pend != a.who and s.cfg.owner != a.who),
      ("not_authority", s.upAuth != "lock")
    ]).union(tamperErr(a))
    outcome(s, errs, { ...s, cfg: { ...s.cfg, owner: a.who, pend: "" }, upAuth: a.who }, [], "")
  }

  // ------------------------------------------------------------------ permissionless

  pure def doBroadcastId(s: State, a: Act): Out =
    outcome(s, viol([("uninit", not(s.inited))]).union(tamperErr(a)),
      { ...s, seqs: bump(s.seqs, a.prog) },
      encInfo("prog:ntt", if (s.cfg.mode == "burning") 1 else 0, "mint", s.dec), "")

  pure def doBroadcastPeer(s: State, a: Act): Out =
    outcome(s, viol([
        ("uninit", not(s.inited)),
        ("no_wpeer", not(s.wpeers.keys().contains((a.prog, a.chain)))) ]).union(tamperErr(a)),
      { ...s, seqs: bump(s.seqs, a.prog) },
      encPeerInfo(a.chain, getOr(s.wpeers, (a.prog, a.chain), "")), "")

  pure def doInitLut(s: State, a: Act): Out =
    outcome(s, viol([("uninit", not(s.inited))]).union(tamperErr(a)), { ...s, lut: true }, [], "")

  // ------------------------------------------------------------------ environment

  pure def doTick(s: State, a: Act): Out = outcome(s, Set(), { ...s, now: s.now + a.amt }, [], "")

  pure def doCreateAta(s: State, a: Act): Out =
    outcome(s, viol([("exists", s.toks.keys().contains(a.who))]),
      { ...s, toks: s.toks.put(a.who, { bal: 0, dlg: NO_SESS, allow: 0 }) }, [], "")

  // tokens sent straight to the custody account
  pure def doDonate(s: State, a: Act): Out = {
    val t = getOr(s.toks, a.who, { bal: 0, dlg: NO_SESS, allow: 0 })
    outcome(s, viol([("no_ata", not(s.toks.keys().contains(a.who))), ("balance", t.bal < a.amt),
                     ("self", s.feeBps > 0 or s.tokKind == "hook")]),
      { ...s, toks: s.toks.put(a.who, { ...t, bal: t.bal - a.amt }), custody: s.custody + a.amt },
      [], "")
  }

  // the loader's own instruction; "lock" is the program's upgrade lock
  pure def doSetAuthority(s: State, a: Act): Out =
    outcome(s, viol([("not_authority", s.upAuth != a.who or a.who == "none")]), { ...s, upAuth: a.to }, [], "")

  // There is no instruction for these two in this version; a future one (or another
  // deployment) may set them, and the rest of the system already honours them.
  pure def doSetThreshold(s: State, a: Act): Out =
    outcome(s, Set(), { ...s, cfg: { ...s.cfg, threshold: a.amt } }, [], "")
  pure def doSetEnabled(s: State, a: Act): Out =
    outcome(s, Set(), { ...s, cfg: { ...s.cfg,
      enabled: if (a.q) s.cfg.enabled.union(Set(a.amt)) else s.cfg.enabled.exclude(Set(a.amt)) } },
      [], "")

  // ------------------------------------------------------------------ dispatch

  pure def apply(s: State, a: Act): Out =
    if (a.name == "Transfer") doTransfer(s, a)
    else if (a.name == "Approve") doApprove(s, a)
    else if (a.name == "ReleaseOut") doReleaseOut(s, a)
    else if (a.name == "Mark") doMark(s, a)
    else if (a.name == "Receive") doReceive(s, a)
    else if (a.name == "FakeDeliver") doFakeDeliver(s, a)
    else if (a.name == "Redeem") doRedeem(s, a)
    else if (a.name == "ReleaseIn") doReleaseIn(s, a)
    else if (a.name == "Initialize") doInit(s, a)
    else if (a.name == "SetPeer") doSetPeer(s, a)
    else if (a.name == "SetOutLimit") doSetOutLimit(s, a)
    else if (a.name == "SetInLimit") doSetInLimit(s, a)
    else if (a.name == "SetPaused") doSetPaused(s, a)
    else if (a.name == "Register") doRegister(s, a)
    else if (a.name == "SetWPeer") doSetWPeer(s, a)
    else if (a.name == "TransferOwn") doTransferOwn(s, a)
    else if (a.name == "TransferOwnOneStep") doTransferOwnOneStep(s, a)
    else if (a.name == "ClaimOwn") doClaimOwn(s, a)
    else if (a.name == "BroadcastId") doBroadcastId(s, a)
    else if (a.name == "BroadcastPeer") doBroadcastPeer(s, a)
    else if (a.name == "InitLut") doInitLut(s, a)
    else if (a.name == "Tick") doTick(s, a)
    else if (a.name == "CreateAta") doCreateAta(s, a)
    else if (a.name == "Donate") doDonate(s, a)
    else if (a.name == "SetAuthority") doSetAuthority(s, a)
    else if (a.name == "SetThreshold") doSetThreshold(s, a)
    else if (a.name == "SetEnabled") doSetEnabled(s, a)
    else { errs: Set("unknown_action"), s: s, post: [], ret: "" }
}
