// The properties, stated on steps and states of ntt.qnt without reference to how
// `apply` computes them.  `P..` definitions take the state before the action, the action,
// its outcome and the history; `stepProps` collects the names of those that fail.
module ntt_props {
  import ntt_math.* from "./ntt_math"
  import ntt_wire.* from "./ntt_wire"
  import ntt.* from "./ntt"

  type Hist = {
    paid: InKey -> int,           // how often each inbound transfer was paid out
    sent: (str, str) -> int,      // how often each (outbox item, transceiver) was sent
    tin: int, tout: int,          // token amounts that came in / went out
    wh: int,                      // amount withheld as token fees
    ids: int -> str,              // transceiver ids ever handed out
    ext: bool                     // the upgrade authority was moved with the loader itself
  }
  pure val NO_HIST: Hist = { paid: Map(), sent: Map(), tin: 0, tout: 0, wh: 0, ids: Map(), ext: false }

  pure def ok(o: Out): bool = o.errs == Set()
  pure def sumBal(s: State): int = s.toks.keys().fold(0, (acc, u) => acc + s.toks.get(u).bal)
  pure def balOf(s: State, u: str): int = if (s.toks.keys().contains(u)) s.toks.get(u).bal else 0

  pure def paidNow(s: State, a: Act, o: Out): bool =
    a.name == "ReleaseIn" and ok(o) and o.s.inbox.get(a.key).status == "done"
  pure def sentNow(s: State, a: Act, o: Out): bool =
    a.name.in(Set("ReleaseOut", "Mark")) and ok(o) and o.s.outbox != s.outbox

  // this redemption is the one that approves the transfer
  pure def approvedNow(s: State, k: InKey, o: Out): bool =
    o.s.inbox.get(k).status == "after" and not(s.inbox.keys().contains(k) and s.inbox.get(k).status != "none")

  pure def nextHist(h: Hist, s: State, a: Act, o: Out): Hist =
    if (paidNow(s, a, o)) {
      val amt = o.s.inbox.get(a.key).amt
      { ...h, paid: h.paid.put(a.key, getOr(h.paid, a.key, 0) + 1), tin: h.tin + amt,
              wh: h.wh + amt - (balOf(o.s, s.inbox.get(a.key).to) - balOf(s, s.inbox.get(a.key).to)) }
    } else if (sentNow(s, a, o))
      { ...h, sent: h.sent.put((a.item, a.prog), getOr(h.sent, (a.item, a.prog), 0) + 1) }
    else if (a.name == "Transfer" and ok(o)) { ...h, tout: h.tout + balOf(s, a.who) - balOf(o.s, a.who) }
    else if (a.name == "SetAuthority" and ok(o)) { ...h, ext: true }
    else if (a.name == "Register" and ok(o)) { ...h, ids: h.ids.put(o.s.xids.get(a.prog), a.prog) }
    else h

  // --- C01: value is conserved end to end ------------------------------------------
  pure def C01(s: State, a: Act, o: Out, h: Hist): bool =
    if (a.name == "Transfer" and ok(o)) {
      val i = o.s.outbox.get(a.item)
      val d = balOf(s, a.who) - balOf(o.s, a.who)
      and {
        d == i.wire * 10^(s.dec - i.dec),
        o.s.toks.keys().forall(u => u == a.who or balOf(o.s, u) == balOf(s, u)),
        if (s.cfg.mode == "burning") o.s.supply == s.supply - d and o.s.custody == s.custody
        else o.s.custody == s.custody + d and o.s.supply == s.supply
      }
    } else if (paidNow(s, a, o)) {
      val i = s.inbox.get(a.key)
      val d = balOf(o.s, i.to) - balOf(s, i.to)
      and {
        d == i.amt - tokenFee(i.amt, s.feeBps),
        i.amt == scale(a.key.amt, a.key.dec, s.dec).v,
        i.to == a.key.to,
        o.s.toks.keys().forall(u => u == i.to or balOf(o.s, u) == balOf(s, u)),
        if (s.cfg.mode == "burning") o.s.supply == s.supply + i.amt and o.s.custody == s.custody
        else o.s.custody == s.custody - i.amt and o.s.supply == s.supply
      }
    } else if (a.name == "Donate") sumBal(s) + s.custody == sumBal(o.s) + o.s.custody
    else and {
      o.s.supply == s.supply, o.s.custody == s.custody,
      o.s.toks.keys().forall(u => balOf(o.s, u) == balOf(s, u))
    }

  // --- C02: dust stays with the sender, decimals are min(8, here, there) --------------
  pure def C02(s: State, a: Act, o: Out, h: Hist): bool =
    (a.name == "Transfer" and ok(o)) implies {
      val i = o.s.outbox.get(a.item)
      val d = balOf(s, a.who) - balOf(o.s, a.who)
      and {
        i.dec <= 8, i.dec <= s.dec, i.dec <= s.peers.get(a.chain).dec,
        i.dec == 8 or i.dec == s.dec or i.dec == s.peers.get(a.chain).dec,
        d <= a.amt, a.amt - d < 10^(s.dec - i.dec),
        i.wire <= U64MAX
      }
    }

  // --- C03: an inbound transfer is paid at most once, when due, to its recipient ------
  pure def C03(s: State, a: Act, o: Out, h: Hist): bool = and {
    h.paid.keys().forall(k => h.paid.get(k) <= 1),
    h.paid.keys().forall(k => o.s.inbox.get(k).status == "done"),
    paidNow(s, a, o) implies and {
      s.inbox.get(a.key).status == "after", s.inbox.get(a.key).rel <= s.now },
    // released is final
    s.inbox.keys().forall(k => s.inbox.get(k).status == "done" implies o.s.inbox.get(k).status == "done")
  }

  // --- C04: an outbound transfer leaves at most once per transceiver, when due ---------
  pure def C04(s: State, a: Act, o: Out, h: Hist): bool = and {
    h.sent.keys().forall(k => h.sent.get(k) <= 1),
    sentNow(s, a, o) implies {
      val i = s.outbox.get(a.item)
      and {
        i.rel <= s.now, not(i.released.contains(s.xids.get(a.prog))),
        o.s.outbox.get(a.item) == { ...i, released: i.released.union(Set(s.xids.get(a.prog))) }
      }
    },
    (a.name == "ReleaseOut" and o.post != []) implies {
      val i = s.outbox.get(a.item)
      o.post == encTm({ srcMgr: "prog:ntt", rcptMgr: i.mgr, id: a.item, sender: i.sender, dec: i.dec,
                        amt: i.wire, tok: "mint", to: i.to, toChain: i.chain })
    },
    // nothing about an item but its released set ever changes
    s.outbox.keys().forall(k => and {
      o.s.outbox.keys().contains(k),
      { ...o.s.outbox.get(k), released: Set() } == { ...s.outbox.get(k), released: Set() },
      s.outbox.get(k).released.subseteq(o.s.outbox.get(k).released) })
  }

  pure def inDay(r: RL, now: int): int = min2(r.limit, r.cap + ((now - r.last) * r.limit) / DAY)

  // --- C05: outbound rate limit ---------------------------------------------------------
  pure def C05(s: State, a: Act, o: Out, h: Hist): bool = and {
    0 <= o.s.outRL.cap, o.s.outRL.cap <= o.s.outRL.limit, o.s.outRL.last <= o.s.now,
    (a.name == "Transfer" and ok(o)) implies {
      val d = balOf(s, a.who) - balOf(o.s, a.who)
      val i = o.s.outbox.get(a.item)
      if (d <= inDay(s.outRL, s.now)) i.rel == s.now and inDay(o.s.outRL, s.now) == inDay(s.outRL, s.now) - d
      else a.q and i.rel == s.now + DAY and o.s.outRL == s.outRL
    }
  }

  // --- C06: inbound rate limit, one per source chain ---------------------------------------
  pure def C06(s: State, a: Act, o: Out, h: Hist): bool = and {
    o.s.inRL.keys().forall(c => val r = o.s.inRL.get(c) 0 <= r.cap and r.cap <= r.limit and r.last <= o.s.now),
    (a.name == "Redeem" and ok(o)) implies {
      val k = inKey(a.chain, s.msgs.get({ prog: a.prog, chain: a.chain, id: a.item }))
      val i = o.s.inbox.get(k)
      and {
        o.s.inRL.keys().forall(c => c == a.chain or o.s.inRL.get(c) == s.inRL.get(c)),
        if (not(approvedNow(s, k, o))) o.s.inRL == s.inRL
        else if (i.amt <= inDay(s.inRL.get(a.chain), s.now))
          i.rel == s.now and inDay(o.s.inRL.get(a.chain), s.now) == inDay(s.inRL.get(a.chain), s.now) - i.amt
        else i.rel == s.now + DAY and o.s.inRL == s.inRL
      }
    },
    // limiters only move through transfers, redemptions and their administration
    not(a.name.in(Set("Transfer", "Redeem", "SetPeer", "SetInLimit"))) implies o.s.inRL == s.inRL,
    not(a.name.in(Set("Transfer", "Redeem", "SetOutLimit", "Initialize"))) implies o.s.outRL == s.outRL
  }

  // --- C07: backflow ------------------------------------------------------------------------
  pure def C07(s: State, a: Act, o: Out, h: Hist): bool = and {
    (a.name == "Transfer" and ok(o)) implies {
      val d = balOf(s, a.who) - balOf(o.s, a.who)
      and {
        o.s.inRL.keys().forall(c => c == a.chain or o.s.inRL.get(c) == s.inRL.get(c)),
        inDay(o.s.inRL.get(a.chain), s.now) ==
          (if (o.s.outbox.get(a.item).rel == s.now)
             min2(s.inRL.get(a.chain).limit, inDay(s.inRL.get(a.chain), s.now) + d)
           else inDay(s.inRL.get(a.chain), s.now))
      }
    },
    (a.name == "Redeem" and ok(o)) implies {
      val k = inKey(a.chain, s.msgs.get({ prog: a.prog, chain: a.chain, id: a.item }))
      val i = o.s.inbox.get(k)
      inDay(o.s.outRL, s.now) ==
        (if (approvedNow(s, k, o) and i.rel == s.now) min2(s.outRL.limit, inDay(s.outRL, s.now) + i.amt)
         else inDay(s.outRL, s.now))
    }
  }

  // --- C08: a limit change moves the capacity by the same difference, clamped ------------------
  pure def shifted(before: RL, after: RL, now: int): bool = {
    val c = inDay(before, now)
    val want = c + (after.limit - before.limit)
    after.cap == max2(0, min2(after.limit, want)) and after.last == now
  }
  pure def C08(s: State, a: Act, o: Out, h: Hist): bool = and {
    (a.name == "SetOutLimit" and ok(o)) implies
      (o.s.outRL.limit == a.amt and shifted(s.outRL, o.s.outRL, s.now) and o.s.inRL == s.inRL),
    (a.name == "SetInLimit" and ok(o)) implies
      (o.s.inRL.get(a.chain).limit == a.amt and shifted(s.inRL.get(a.chain), o.s.inRL.get(a.chain), s.now)
        and o.s.inRL.keys().forall(c => c == a.chain or o.s.inRL.get(c) == s.inRL.get(c)))
  }

  // --- C09: approval takes `threshold` distinct enabled transceivers agreeing on every field ----
  pure def C09(s: State, a: Act, o: Out, h: Hist): bool = and {
    (a.name == "Redeem" and ok(o)) implies {
      val m = s.msgs.get({ prog: a.prog, chain: a.chain, id: a.item })
      val k = inKey(a.chain, m)
      val i = o.s.inbox.get(k)
      and {
        s.cfg.threshold > 0,
        i.votes == getOr(s.inbox, k, { amt: 0, to: "", votes: Set(), status: "", rel: 0 }).votes.union(Set(s.xids.get(a.prog))),
        approvedNow(s, k, o) iff (i.votes.filter(v => s.cfg.enabled.contains(v)).size() >= s.cfg.threshold),
        o.s.inbox.keys().forall(x => x == k or o.s.inbox.get(x) == s.inbox.get(x))
      }
    },
    // every vote was cast by a transceiver that held exactly this message
    o.s.inbox.keys().forall(k => o.s.inbox.get(k).votes.forall(v =>
      o.s.msgs.keys().exists(q => and {
        getOr(o.s.xids, q.prog, -1) == v, q.chain == k.chain, inKey(q.chain, o.s.msgs.get(q)) == k })))
  }

  // --- C10: only messages of configured peers are accepted ----------------------------------------
  pure def C10(s: State, a: Act, o: Out, h: Hist): bool = and {
    (a.name == "Receive" and ok(o)) implies and {
      getOr(s.wpeers, (a.prog, a.chain), "") == a.to, a.to != "", a.msg.toChain == s.cfg.chain,
      decodable(a.mangle), a.tamper.kind == "none" },
    (a.name == "Redeem" and ok(o)) implies {
      val m = s.msgs.get({ prog: a.prog, chain: a.chain, id: a.item })
      and {
        s.peers.get(a.chain).addr == m.srcMgr, m.rcptMgr == "prog:ntt", m.toChain == s.cfg.chain,
        s.cfg.enabled.contains(s.xids.get(a.prog)) }
    },
    // validated messages never change
    s.msgs.keys().forall(k => o.s.msgs.get(k) == s.msgs.get(k))
  }

  // --- C11: only the owner administers; initialisation once, by the upgrade authority ----------------
  pure def C11(s: State, a: Act, o: Out, h: Hist): bool = and {
    (s.inited and ok(o) and a.name.in(Set("SetPeer", "SetOutLimit", "SetInLimit", "SetPaused", "Register", "SetWPeer",
       "TransferOwn", "TransferOwnOneStep"))) implies (a.who == s.cfg.owner and a.tamper.kind == "none"),
    (a.name == "Initialize" and ok(o)) implies (not(s.inited) and s.upAuth == a.who),
    s.inited implies and {
      o.s.inited, o.s.cfg.mode == s.cfg.mode, o.s.cfg.chain == s.cfg.chain,
      o.s.cfg.owner == s.cfg.owner or a.name.in(Set("TransferOwnOneStep", "ClaimOwn")),
      o.s.cfg.paused == s.cfg.paused or a.name == "SetPaused",
      o.s.peers == s.peers or a.name == "SetPeer",
      o.s.xids == s.xids or a.name == "Register",
      o.s.wpeers == s.wpeers or a.name == "SetWPeer",
      o.s.outRL.limit == s.outRL.limit or a.name == "SetOutLimit",
      s.inRL.keys().forall(c => o.s.inRL.get(c).limit == s.inRL.get(c).limit
        or (a.name.in(Set("SetInLimit", "SetPeer")) and a.chain == c)) }
  }

  // --- C12: ownership and upgrade authority move together, in two steps -------------------------------
  pure def C12(s: State, a: Act, o: Out, h: Hist): bool = and {
    (o.s.inited and not(h.ext)) implies ((o.s.cfg.pend == "") iff (o.s.upAuth == o.s.cfg.owner)),
    (o.s.inited and not(h.ext)) implies ((o.s.cfg.pend != "") iff (o.s.upAuth == "lock")),
    (a.name == "ClaimOwn" and ok(o)) implies (a.who == s.cfg.pend or a.who == s.cfg.owner),
    (a.name == "TransferOwn" and ok(o)) implies (o.s.cfg.owner == s.cfg.owner and o.s.cfg.pend == a.to),
    (s.inited and o.s.upAuth != s.upAuth) implies (ok(o) and a.name.in(Set("TransferOwn", "TransferOwnOneStep", "ClaimOwn", "SetAuthority"))),
    (ok(o) and a.name.in(Set("TransferOwn", "TransferOwnOneStep", "ClaimOwn")) and o.s.cfg.pend == "") implies o.s.upAuth == o.s.cfg.owner
  }

  // --- C13: while paused no value moves and nothing is sent or received; admin still works -----------
  pure def C13(s: State, a: Act, o: Out, h: Hist): bool = and {
    (s.cfg.paused and a.name.in(Set("Transfer", "ReleaseOut", "Mark", "Receive", "ReleaseIn"))) implies (not(ok(o)) and o.s == s),
    (s.cfg.paused and a.name == "SetPaused" and a.who == s.cfg.owner and a.tamper.kind == "none") implies ok(o)
  }

  // --- C14: tokens move only on the exact terms their owner approved ---------------------------------
  pure def C14(s: State, a: Act, o: Out, h: Hist): bool = and {
    (a.name == "Transfer" and ok(o)) implies {
      val t = s.toks.get(a.who)
      val i = o.s.outbox.get(a.item)
      and {
        a.appr >= 0 or t.dlg == { owner: a.who, amt: a.amt, chain: a.chain, to: a.to, q: a.q },
        balOf(s, a.who) - balOf(o.s, a.who) <= (if (a.appr >= 0) a.appr else t.allow),
        i.to == a.to, i.chain == a.chain, i.sender == a.who,
        o.s.toks.get(a.who).allow == (if (a.appr >= 0) a.appr else t.allow) - (balOf(s, a.who) - balOf(o.s, a.who)) }
    },
    not(a.name.in(Set("Transfer", "Donate"))) implies
      s.toks.keys().forall(u => balOf(o.s, u) >= balOf(s, u))
  }

  // --- C16: the mode decides between burn/mint and lock/unlock ------------------------------------------
  pure def C16(s: State, a: Act, o: Out, h: Hist): bool = and {
    (a.name == "Transfer" and ok(o)) implies ((a.ix == "burn") iff (s.cfg.mode == "burning")),
    (a.name == "ReleaseIn" and ok(o)) implies ((a.ix == "mint") iff (s.cfg.mode == "burning")),
    (a.name == "Initialize" and ok(o) and a.ix == "burning") implies s.mintAuth == "token_authority",
    s.cfg.mode == "locking" implies o.s.supply == s.supply,
    (s.cfg.mode == "burning" and a.name != "Donate") implies o.s.custody == s.custody
  }

  // --- C17: transceiver registry --------------------------------------------------------------------------
  pure def C17(s: State, a: Act, o: Out, h: Hist): bool = and {
    o.s.xids.keys().forall(p => o.s.xids.keys().forall(q => o.s.xids.get(p) == o.s.xids.get(q) implies p == q)),
    o.s.xids.keys().forall(p => 0 <= o.s.xids.get(p) and o.s.xids.get(p) < o.s.cfg.nextId),
    o.s.cfg.nextId <= 128,
    o.s.cfg.enabled.forall(e => o.s.xids.keys().exists(p => o.s.xids.get(p) == e)),
    s.xids.keys().forall(p => o.s.xids.get(p) == s.xids.get(p)),
    (a.name == "Register" and ok(o)) implies and {
      not(s.xids.keys().contains(a.prog)), o.s.xids.get(a.prog) == s.cfg.nextId, o.s.cfg.nextId == s.cfg.nextId + 1,
      o.s.cfg.enabled == s.cfg.enabled.union(Set(s.cfg.nextId)), a.prog != "noexec" },
    (a.name == "Transfer" and ok(o)) implies s.cfg.enabled != Set(),
    (a.name.in(Set("ReleaseOut", "Mark", "Redeem")) and ok(o)) implies
      (s.xids.keys().contains(a.prog) and s.cfg.enabled.contains(s.xids.get(a.prog)))
  }

  // --- C18: fee-bearing tokens cannot leave short; transfer hooks are always run ----------------------------
  pure def C18(s: State, a: Act, o: Out, h: Hist): bool = and {
    (a.name == "Transfer" and ok(o)) implies tokenFee(balOf(s, a.who) - balOf(o.s, a.who), s.feeBps) == 0,
    s.tokKind == "hook" implies
      o.s.hooks == s.hooks + (if (ok(o) and (a.name == "Transfer" or paidNow(s, a, o))) 1 else 0)
  }

  // --- C22: accounts that are not what they claim to be are never accepted -----------------------------------
  pure def C22(s: State, a: Act, o: Out, h: Hist): bool = a.tamper.kind != "none" implies (not(ok(o)) and o.s == s)

  // --- C23: what is due can be completed ---------------------------------------------------------------------
  // Evaluated on the state reached: every approved inbound item and every outbound item
  // has a way out once its delay is over and the system is not paused.
  pure def C23(s: State, a: Act, o: Out, h: Hist): bool = {
    val t = { ...o.s, now: o.s.now + DAY, cfg: { ...o.s.cfg, paused: false } }
    and {
      o.s.outbox.keys().forall(k => o.s.outbox.get(k).rel <= t.now),
      o.s.outbox.keys().forall(k => o.s.xids.keys().forall(p =>
        (t.cfg.enabled.contains(t.xids.get(p)) and not(t.outbox.get(k).released.contains(t.xids.get(p)))) implies
          apply(t, { ...A0, name: "ReleaseOut", prog: p, item: k, q: true }).errs == Set())),
      o.s.inbox.keys().forall(k => (o.s.inbox.get(k).status == "after") implies {
        val e = apply(t, { ...A0, name: "ReleaseIn", key: k, q: true, ix: if (t.cfg.mode == "burning") "mint" else "unlock" }).errs
        e.subseteq(Set("no_ata", "custody_short", "supply_overflow", "mint_revoked")) })
    }
  }

  pure def stepProps(s: State, a: Act, o: Out, h: Hist): Set[str] = viol([
    ("C01", not(C01(s, a, o, h))), ("C02", not(C02(s, a, o, h))), ("C03", not(C03(s, a, o, h))),
    ("C04", not(C04(s, a, o, h))), ("C05", not(C05(s, a, o, h))), ("C06", not(C06(s, a, o, h))),
    ("C07", not(C07(s, a, o, h))), ("C08", not(C08(s, a, o, h))), ("C09", not(C09(s, a, o, h))),
    ("C10", not(C10(s, a, o, h))), ("C11", not(C11(s, a, o, h))), ("C12", not(C12(s, a, o, h))),
    ("C13", not(C13(s, a, o, h))), ("C14", not(C14(s, a, o, h))), ("C16", not(C16(s, a, o, h))),
    ("C17", not(C17(s, a, o, h))), ("C18", not(C18(s, a, o, h))), ("C22", not(C22(s, a, o, h))),
    ("C23", not(C23(s, a, o, h))),
    // rejected actions change nothing
    ("ATOMIC", not(ok(o)) and o.s != s)
  ])
}
