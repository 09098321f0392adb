// Specification of the general purpose governance program: which Wormhole messages it acts
// on, how often, and what it calls.
module gov {
  // An account the governed call lists: a name and the flags it is passed with.
  // Names "@owner" and "@payer" are the two placeholders; "gov" is the governance authority.
  type Acc = { name: str, sig: bool, wr: bool }
  type Msg = {
    emChain: int, emitter: str, seq: int,        // VAA
    flip: int, op: int, chain: int, gov: str, // header; flip: byte of the module that is wrong, -1: none
    target: str, accs: List[Acc], len: int, fill: int, // call: program, accounts, `len` bytes of data from `fill` up
    cut: int, badFlag: bool                      // bytes missing at the end; a flag that is neither 0 nor 1
  }
  type Key = { chain: int, emitter: str, seq: int }
  type Call = { target: str, accs: List[Acc], len: int, fill: int }
  type State = { used: Set[Key], gifts: Set[Key] }

  type Tamper = { kind: str, slot: str, arg: str }
  pure val CLEAN: Tamper = { kind: "none", slot: "", arg: "" }
  // who submits, which message, who else signs, which account is left out, which is passed read-only
  type Act = { name: str, who: str, msg: Msg, signs: Set[str], omit: str, ro: str, tamper: Tamper }
  type Out = { errs: Set[str], s: State, calls: List[Call] }

  pure val MSG0: Msg = { emChain: 1, emitter: "gov_emitter", seq: 0, flip: -1, op: 2, chain: 1, gov: "program",
                         target: "target:1", accs: [], len: 0, fill: 0, cut: 0, badFlag: false }
  pure val A0: Act = { name: "", who: "", msg: MSG0, signs: Set(), omit: "", ro: "", tamper: CLEAN }

  pure def viol(gs: List[(str, bool)]): Set[str] =
    gs.foldl(Set(), (acc, g) => if (g._2) acc.union(Set(g._1)) else acc)
  pure def tamperErr(t: Tamper): Set[str] =
    if (t.kind == "none") Set() else if (t.kind == "unsign") Set("unsigned") else Set("wrong_account")
  pure def keyOf(m: Msg): Key = { chain: m.emChain, emitter: m.emitter, seq: m.seq }

  // placeholders filled in
  pure def subst(n: str, who: str): str = if (n == "@owner") "gov" else if (n == "@payer") who else n
  // flags of accounts that are listed twice are those of both places
  pure def callAccs(m: Msg, who: str): List[Acc] = {
    val l = m.accs.foldl(List(), (acc, x) => acc.append({ ...x, name: subst(x.name, who) }))
    l.foldl(List(), (acc, x) => acc.append({
      name: x.name,
      sig: l.foldl(false, (b, y) => b or (y.name == x.name and y.sig)),
      wr: l.foldl(false, (b, y) => b or (y.name == x.name and y.wr)) }))
  }
  pure def some(l: List[Acc], p: (Acc) => bool): bool = l.foldl(false, (b, x) => b or p(x))

  pure def execute(s: State, a: Act): Out = {
    val m = a.msg
    val accs = callAccs(m, a.who)
    val supplied = Set(a.who, "gov", "zero", m.target)   // always among the instruction's own accounts ("zero": the system program)
    val errs = viol([
      ("emitter_chain", m.emChain != 1),
      ("emitter", m.emitter != "gov_emitter"),
      ("module", m.flip >= 0),
      ("action", m.op != 2),
      ("chain", m.chain != 1),
      ("program", m.gov != "program"),
      ("malformed", m.cut > 0 or m.badFlag),
      ("replayed", s.used.contains(keyOf(m))),
      ("missing_account", some(accs, x => x.name == a.omit and not(x.name.in(supplied)))),
      ("writable", some(accs, x => x.wr and x.name == a.ro and not(x.name.in(Set(a.who, "gov"))))),
      ("signer", some(accs, x => x.sig and not(x.name.in(Set(a.who, "gov"))) and not(x.name.in(a.signs)))),
      ("target_fails", m.target == "target:fails")
    ]).union(tamperErr(a.tamper))
    if (errs == Set())
      { errs: errs, s: { ...s, used: s.used.union(Set(keyOf(m))) },
        calls: [{ target: m.target, accs: accs, len: m.len, fill: m.fill }] }
    else { errs: errs, s: s, calls: [] }
  }
  pure def gapply(s: State, a: Act): Out =
    if (a.name == "Gift") { errs: Set(), s: { ...s, gifts: s.gifts.union(Set(keyOf(a.msg))) }, calls: [] }
    else execute(s, a)

  // ---------------------------------------------------------------- properties
  pure def genuine(m: Msg): bool = and {
    m.emChain == 1, m.emitter == "gov_emitter", m.flip < 0, m.op == 2, m.chain == 1, m.gov == "program", m.cut == 0, not(m.badFlag) }
  // calls are made for genuine messages only, once each, and as they were written
  pure def C21(s: State, a: Act, o: Out): bool = and {
    o.calls.length() <= 1,
    o.calls.length() == 1 implies {
      val c = o.calls[0]
      and {
        genuine(a.msg), not(s.used.contains(keyOf(a.msg))), o.s.used.contains(keyOf(a.msg)),
        c.target == a.msg.target, c.len == a.msg.len, c.fill == a.msg.fill, c.accs.length() == a.msg.accs.length(),
        c.accs.indices().forall(i => and {
          c.accs[i].name == a.msg.accs[i].name or (a.msg.accs[i].name == "@owner" and c.accs[i].name == "gov")
            or (a.msg.accs[i].name == "@payer" and c.accs[i].name == a.who),
          a.msg.accs[i].sig implies c.accs[i].sig, a.msg.accs[i].wr implies c.accs[i].wr,
          // nobody signs the call but the governance authority and signers of the transaction
          c.accs[i].sig implies c.accs[i].name.in(a.signs.union(Set("gov", a.who))) })
      }
    },
    // a message is used up exactly if its call was made
    o.calls.length() == 0 implies o.s.used == s.used,
    s.used.subseteq(o.s.used),
    a.tamper.kind != "none" implies o.calls.length() == 0
  }
}

module gov_mbt {
  import gov.*

  type Probe = { kind: str, slot: str, arg: str, i: int, errs: Set[str] }
  var s: State
  var act: Act
  var errs: Set[str]
  var calls: List[Call]
  var n: int
  var probes: Set[Probe]
  var again: Set[str]
  var broken: Set[str]

  pure val USERS = Set("user:alice", "user:bob", "user:mallory")
  pure val NAMES = List("@owner", "@payer", "acct:1", "acct:2", "user:bob", "gov", "near:owner", "near:payer", "@owner",
                        "user:alice", "acct:1", "target:1", "zero", "program", "user:mallory", "@payer")
  pure val SEQS = List(0, 1, 256, 2^32, 2^56, 2^64 - 1, 2, 512)
  pure val LENS = List(0, 1, 2, 8, 32, 255, 256, 300, 1024, 5000)
  pure def pick(l: List[a], i: int): a = l[i % l.length()]

  action init: bool = all {
    s' = { used: Set(), gifts: Set() }, act' = A0, errs' = Set(), calls' = [], n' = 0, probes' = Set(), again' = Set(), broken' = Set()
  }
  pure def fset(x: State, slot: str, arg: str, i: int, b: Act): Probe =
    { kind: "set", slot: slot, arg: arg, i: i, errs: gapply(x, b).errs }
  pure def tam(k: str, sl: str, ar: str): Tamper = { kind: k, slot: sl, arg: ar }
  pure val TAMPERS = Set(tam("unsign", "payer", ""), tam("forge", "vaa", ""), tam("swap", "replay", "fresh:1"), tam("swap", "governance", "user:mallory"),
                         tam("swap", "program", "noexec"), tam("swap", "system_program", "target:2"), tam("swap", "replay", "vaa"),
                         tam("swap", "replay", "other_seq"))
  // one thing about the message or its submission changed
  pure def variations(x: State, a: Act): Set[Probe] = {
    val m = a.msg
    Set(0, 2, 256, 257).map(c => fset(x, "emChain", "", c, { ...a, msg: { ...m, emChain: c } }))
      .union(Set("gov_emitter+1", "gov_emitter^hi", "gov", "zero").map(e => fset(x, "emitter", e, 0, { ...a, msg: { ...m, emitter: e } })))
      .union(Set(0, 8, 20, 31).map(i => fset(x, "flip", "", i, { ...a, msg: { ...m, flip: i } })))
      .union(Set(0, 1, 2, 3, 130).map(i => fset(x, "op", "", i, { ...a, msg: { ...m, op: i } })))
      .union(Set(0, 1, 2, 256).map(i => fset(x, "chain", "", i, { ...a, msg: { ...m, chain: i } })))
      .union(Set("program", "gov", "zero", "target:1").map(e => fset(x, "gov", e, 0, { ...a, msg: { ...m, gov: e } })))
      .union(Set(1, 2, 3).map(i => fset(x, "cut", "", i, { ...a, msg: { ...m, cut: i } })))
      .union(if (m.accs.length() == 0) Set() else Set(fset(x, "badFlag", "", 0, { ...a, msg: { ...m, badFlag: true } })))
      .union(Set(fset(x, "target", "target:fails", 0, { ...a, msg: { ...m, target: "target:fails" } })))
      .union(Set("user:alice", "user:mallory").map(e => fset(x, "who", e, 0, { ...a, who: e })))
      .union(m.accs.indices().map(i => fset(x, "omit", m.accs[i].name, 0, { ...a, omit: m.accs[i].name })))
      .union(m.accs.indices().map(i => fset(x, "ro", m.accs[i].name, 0, { ...a, ro: m.accs[i].name })))
      .union(Set(fset(x, "signs", "", 0, { ...a, signs: Set() })))
  }
  action take(a: Act): bool = {
    val r = gapply(s, a)
    all {
      s' = r.s, act' = a, errs' = r.errs, calls' = r.calls, n' = n + 1,
      probes' = if (a.name == "Gift") Set() else
        (if (r.errs == Set()) TAMPERS.map(t => { kind: t.kind, slot: t.slot, arg: t.arg, i: 0, errs: tamperErr(t) }) else Set())
          .union(variations(s, a)),
      again' = if (r.errs == Set() and a.name == "Execute") gapply(r.s, a).errs else Set(),
      broken' = broken.union(viol([("C21", not(C21(s, a, r)))]))
    }
  }

  action gGov(clean: bool): bool = {
    nondet w = USERS.oneOf()
    nondet sq = 0.to(7).oneOf()
    nondet t = Set("target:1", "target:2").oneOf()
    nondet k = 0.to(4).oneOf()
    nondet a1 = 0.to(15).oneOf()
    nondet a2 = 0.to(15).oneOf()
    nondet a3 = 0.to(15).oneOf()
    nondet a4 = 0.to(15).oneOf()
    nondet f = 0.to(255).oneOf()
    nondet l = 0.to(9).oneOf()
    nondet wide = 0.to(9).oneOf()
    nondet fill = 0.to(255).oneOf()
    nondet odd = 0.to(30).oneOf()
    val names = [pick(NAMES, a1), pick(NAMES, a2), pick(NAMES, a3), pick(NAMES, a4)]
    val bits = [f % 2, f / 2 % 2, f / 4 % 2, f / 8 % 2, f / 16 % 2, f / 32 % 2, f / 64 % 2, f / 128 % 2]
    // programs cannot be written to, and have no key to sign with
    val fixed = Set("target:1", "program", "zero", "near:owner", "near:payer", "acct:2")
    val few = [0, 1, 2, 3].foldl(List(), (acc, i) => if (i < k)
      acc.append({ name: names[i], sig: bits[i] == 1 and not(names[i].in(fixed)),
                   wr: bits[i + 4] == 1 and not(names[i].in(Set("target:1", "program", "zero"))) }) else acc)
    // now and then a call with very many accounts
    val accs = if (wide == 0) few.concat(few).concat(few) else if (wide == 1) range(0, 10).foldl(List(), (acc, i) => acc.concat(few)) else few
    val m = { ...MSG0, seq: pick(SEQS, sq), target: t, accs: accs, len: pick(LENS, l), fill: fill }
    val m2 = if (clean or odd > 12) m else if (odd == 0) { ...m, emChain: 2 } else if (odd == 1) { ...m, emitter: "gov_emitter+1" }
      else if (odd == 2) { ...m, flip: 31 } else if (odd == 3) { ...m, op: 1 } else if (odd == 4) { ...m, chain: 0 }
      else if (odd == 5) { ...m, gov: "target:1" } else if (odd == 6) { ...m, cut: 1 } else if (odd == 7) { ...m, chain: 2 }
      else if (odd == 8) { ...m, target: "target:fails" } else if (odd == 9) { ...m, op: 0 } else if (odd == 10) { ...m, emChain: 256 }
      else { ...m, emitter: "gov" }
    // all accounts flagged as signers that have keys sign, mostly
    val signers = Set("user:alice", "user:bob", "user:mallory", "acct:1").filter(u => some(accs, x => x.name == u and x.sig))
    take({ ...A0, name: "Execute", who: w, msg: m2, signs: if (odd == 11) Set() else signers })
  }
  action gGift: bool = {
    nondet sq = 0.to(7).oneOf()
    all {
      not(s.used.contains({ chain: 1, emitter: "gov_emitter", seq: pick(SEQS, sq) })),
      take({ ...A0, name: "Gift", who: "user:mallory", msg: { ...MSG0, seq: pick(SEQS, sq) } })
    }
  }
  action step: bool = any { gGov(true), gGov(false), gGov(false), gGov(true), gGift }
  action stepGov: bool = step
  val propertiesHold: bool = broken == Set()
}
