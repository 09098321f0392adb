//! Binding of spec/ntt*.qnt to the deployed programs: builds the on-chain accounts a
//! specification state stands for, turns specification actions into transactions, and
//! compares the accounts after each transaction with the specification's next state.
use crate::{bridge, common::*, svm::*, util::*};
use serde_json::{json, Value as V};
use solana_sdk::{
    account::Account,
    bpf_loader_upgradeable::{self, UpgradeableLoaderState},
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
    system_program, sysvar,
};
use std::collections::{BTreeMap, BTreeSet};

pub const NTT: Pubkey = solana_sdk::pubkey!("nttiK1SepaQt6sZ4WGW5whvc9tEnGXGxuKeptcQPCcS");
pub const XCV: Pubkey = solana_sdk::pubkey!("Ee6jpX9oq2EsGuqGb6iZZxvtcpmMGZk8SAUbnQy4jcHR");
pub const HOOK: Pubkey = solana_sdk::pubkey!("BgabMDLaxsyB7eGMBt9L22MSk9KMrL4zY2iNe14kyFP5");

pub const USERS: [&str; 9] = [
    "user:alice", "user:bob", "user:mallory", "user:carol", "user:admin", "user:admin2", "user:admin3", "user:newbie",
    "user:whale",
];
const PROGS: [&str; 5] = ["prog:ntt", "prog:xcv", "prog:f1", "prog:f2", "prog:f3"];
const CHAINS: [u16; 3] = [2, 33026, 641];

/// The key a symbolic name of the specification stands for.
/// NAME~K is NAME's key with a bit of byte K flipped.
pub fn key(n: &str) -> Pubkey {
    if let Some((base, k)) = n.rsplit_once('~') {
        let mut b = key(base).to_bytes();
        b[k.parse::<usize>().expect("byte")] ^= 1;
        return Pubkey::from(b);
    }
    match n {
        "prog:ntt" => NTT,
        "prog:xcv" => XCV,
        "lock" => pda(&[b"upgrade_lock"], &NTT),
        "addr:zero" => Pubkey::from([0; 32]),
        // an address of 20 bytes, padded
        "addr:evm1" | "addr:evm2" => {
            let mut b = named(n).to_bytes();
            b[..12].fill(0);
            Pubkey::from(b)
        }
        "token_authority" => token_authority(),
        _ => named(n),
    }
}
fn opt_key(n: &V) -> Option<Pubkey> {
    (st(n) != "none").then(|| key(st(n)))
}
pub fn token_authority() -> Pubkey {
    pda(&[b"token_authority"], &NTT)
}
fn config_key() -> Pubkey {
    pda(&[b"config"], &NTT)
}
fn outrl_key() -> Pubkey {
    pda(&[b"outbox_rate_limit"], &NTT)
}
fn inrl_key(c: u16) -> Pubkey {
    pda(&[b"inbox_rate_limit", &c.to_be_bytes()], &NTT)
}
fn peer_key(c: u16) -> Pubkey {
    pda(&[b"peer", &c.to_be_bytes()], &NTT)
}
fn wpeer_key(prog: &Pubkey, c: u16) -> Pubkey {
    pda(&[b"transceiver_peer", &c.to_be_bytes()], prog)
}
fn reg_key(prog: &Pubkey) -> Pubkey {
    pda(&[b"registered_transceiver", prog.as_ref()], &NTT)
}
fn emitter_key(prog: &Pubkey) -> Pubkey {
    pda(&[b"emitter"], prog)
}
fn msg_key(prog: &Pubkey, chain: u16, id: &str) -> Pubkey {
    pda(&[b"transceiver_message", &chain.to_be_bytes(), key(id).as_ref()], prog)
}
fn posted_key(prog: &Pubkey, item: &Pubkey) -> Pubkey {
    pda(&[b"message", item.as_ref()], prog)
}
pub fn program_data(prog: &Pubkey) -> Pubkey {
    pda(&[prog.as_ref()], &bpf_loader_upgradeable::id())
}
fn lut_key() -> Pubkey {
    pda(&[b"lut"], &NTT)
}

#[derive(Clone, Debug, PartialEq)]
pub struct Sess {
    owner: String,
    amt: u64,
    chain: u16,
    to: String,
    q: bool,
}
impl Sess {
    fn of(v: &V) -> Self {
        Sess {
            owner: st(&v["owner"]).into(),
            amt: int(&v["amt"]) as u64,
            chain: int(&v["chain"]) as u16,
            to: st(&v["to"]).into(),
            q: bo(&v["q"]),
        }
    }
    fn key(&self) -> Pubkey {
        let h = keccak(&[
            &self.amt.to_be_bytes(),
            &self.chain.to_be_bytes(),
            key(&self.to).as_ref(),
            &[self.q as u8],
        ]);
        pda(&[b"session_authority", key(&self.owner).as_ref(), &h], &NTT)
    }
}

fn token_program(s: &V) -> Pubkey {
    if st(&s["tokKind"]) == "spl" {
        spl_token::ID
    } else {
        spl_token_2022::ID
    }
}
pub fn ata(owner: &Pubkey, tp: &Pubkey) -> Pubkey {
    pda(
        &[owner.as_ref(), tp.as_ref(), key("mint").as_ref()],
        &spl_associated_token_account::ID,
    )
}

// ---------------------------------------------------------------- account images

fn mint_image(kind: &str, dec: u8, authority: Option<&Pubkey>, supply: u64, bps: u16) -> Vec<u8> {
    let mut v = vec![];
    v.extend((authority.is_some() as u32).to_le_bytes());
    v.extend(authority.map_or([0; 32], |k| k.to_bytes()));
    v.extend(supply.to_le_bytes());
    v.push(dec);
    v.push(1);
    v.extend(0u32.to_le_bytes());
    v.extend([0u8; 32]);
    match kind {
        "hook" => {
            v.resize(165, 0);
            v.push(1);
            v.extend(14u16.to_le_bytes());
            v.extend(64u16.to_le_bytes());
            v.extend(named("hook_authority").to_bytes());
            v.extend(HOOK.to_bytes());
        }
        "fee" => {
            v.resize(165, 0);
            v.push(1);
            v.extend(1u16.to_le_bytes());
            v.extend(108u16.to_le_bytes());
            v.extend(named("fee_authority").to_bytes());
            v.extend(named("fee_authority").to_bytes());
            v.extend(0u64.to_le_bytes());
            for _ in 0..2 {
                v.extend(0u64.to_le_bytes());
                v.extend(u64::MAX.to_le_bytes());
                v.extend(bps.to_le_bytes());
            }
        }
        _ => {}
    }
    v
}

fn token_image(kind: &str, mint: &Pubkey, owner: &Pubkey, amt: u64, delegate: Option<(Pubkey, u64)>) -> Vec<u8> {
    let mut v = vec![];
    v.extend(mint.to_bytes());
    v.extend(owner.to_bytes());
    v.extend(amt.to_le_bytes());
    match &delegate {
        Some((k, _)) => {
            v.extend(1u32.to_le_bytes());
            v.extend(k.to_bytes());
        }
        None => v.extend([0u8; 36]),
    }
    v.push(1);
    v.extend([0u8; 12]);
    v.extend(delegate.map_or(0, |d| d.1).to_le_bytes());
    v.extend([0u8; 36]);
    assert_eq!(v.len(), 165);
    if kind != "spl" {
        v.push(2);
        match kind {
            "hook" => {
                v.extend(15u16.to_le_bytes());
                v.extend(1u16.to_le_bytes());
                v.push(0);
            }
            "fee" => {
                v.extend(2u16.to_le_bytes());
                v.extend(8u16.to_le_bytes());
                v.extend(0u64.to_le_bytes());
            }
            _ => {}
        }
        v.extend(7u16.to_le_bytes());
        v.extend(0u16.to_le_bytes());
    }
    v
}

struct TokView {
    owner: Pubkey,
    amt: u64,
    dlg: Option<Pubkey>,
    allow: u64,
}
fn read_token(d: &[u8]) -> Option<TokView> {
    if d.len() < 165 {
        return None;
    }
    Some(TokView {
        owner: Pubkey::try_from(&d[32..64]).ok()?,
        amt: u64::from_le_bytes(d[64..72].try_into().ok()?),
        dlg: if d[72] == 1 { Some(Pubkey::try_from(&d[76..108]).ok()?) } else { None },
        allow: u64::from_le_bytes(d[121..129].try_into().ok()?),
    })
}

fn pad(mut v: Vec<u8>, n: usize) -> Vec<u8> {
    v.resize(n, 0);
    v
}

fn rl_bytes(r: &V) -> Vec<u8> {
    let mut v = vec![];
    v.extend((int(&r["limit"]) as u64).to_le_bytes());
    v.extend((int(&r["cap"]) as u64).to_le_bytes());
    v.extend((int(&r["last"]) as i64).to_le_bytes());
    v
}

fn config_image(s: &V) -> Vec<u8> {
    let c = &s["cfg"];
    let tp = token_program(s);
    let mut v = disc("account", "Config").to_vec();
    v.push(pda_bump(&[b"config"], &NTT).1);
    v.extend(key(st(&c["owner"])).to_bytes());
    if st(&c["pend"]).is_empty() {
        v.push(0);
    } else {
        v.push(1);
        v.extend(key(st(&c["pend"])).to_bytes());
    }
    v.extend(key("mint").to_bytes());
    v.extend(tp.to_bytes());
    v.push(if st(&c["mode"]) == "burning" { 1 } else { 0 });
    v.extend((int(&c["chain"]) as u16).to_le_bytes());
    v.push(int(&c["nextId"]) as u8);
    v.push(int(&c["threshold"]) as u8);
    v.extend(bitmap(&c["enabled"]).to_le_bytes());
    v.push(bo(&c["paused"]) as u8);
    v.extend(ata(&token_authority(), &tp).to_bytes());
    pad(v, 8 + 1 + 32 + 33 + 32 + 32 + 1 + 2 + 1 + 1 + 16 + 1 + 32)
}

struct CfgView {
    bump: u8,
    owner: Pubkey,
    pend: Option<Pubkey>,
    mint: Pubkey,
    tp: Pubkey,
    mode: u8,
    chain: u16,
    next: u8,
    threshold: u8,
    enabled: u128,
    paused: u8,
    custody: Pubkey,
}
fn read_config(d: &[u8]) -> Option<CfgView> {
    let mut r = Rd(d);
    if r.take(8)? != disc("account", "Config") {
        return None;
    }
    Some(CfgView {
        bump: r.u8()?,
        owner: r.key()?,
        pend: if r.u8()? == 1 { Some(r.key()?) } else { None },
        mint: r.key()?,
        tp: r.key()?,
        mode: r.u8()?,
        chain: r.u16()?,
        next: r.u8()?,
        threshold: r.u8()?,
        enabled: r.u128()?,
        paused: r.u8()?,
        custody: r.key()?,
    })
}

fn msg_body(m: &V) -> Vec<u8> {
    let mut v = vec![];
    v.extend(key(st(&m["srcMgr"])).to_bytes());
    v.extend(key(st(&m["rcptMgr"])).to_bytes());
    v.extend(key(st(&m["id"])).to_bytes());
    v.extend(key(st(&m["sender"])).to_bytes());
    v.extend((int(&m["amt"]) as u64).to_le_bytes());
    v.push(int(&m["dec"]) as u8);
    v.extend(key(st(&m["tok"])).to_bytes());
    v.extend((int(&m["toChain"]) as u16).to_le_bytes());
    v.extend(key(st(&m["to"])).to_bytes());
    v
}
fn msg_image(chain: u16, m: &V) -> Vec<u8> {
    let mut v = disc("account", "ValidatedTransceiverMessage").to_vec();
    v.extend(chain.to_le_bytes());
    v.extend(msg_body(m));
    v
}

/// Manager-message wire bytes (the content that addresses an inbox item).
fn mgr_wire(k: &V) -> Vec<u8> {
    let mut v = vec![];
    v.extend(key(st(&k["id"])).to_bytes());
    v.extend(key(st(&k["sender"])).to_bytes());
    v.extend(79u16.to_be_bytes());
    v.extend([0x99, 0x4E, 0x54, 0x54]);
    v.push(int(&k["dec"]) as u8);
    v.extend((int(&k["amt"]) as u64).to_be_bytes());
    v.extend(key(st(&k["tok"])).to_bytes());
    v.extend(key(st(&k["to"])).to_bytes());
    v.extend((int(&k["toChain"]) as u16).to_be_bytes());
    v
}
fn inbox_key_of(chain: u16, k: &V) -> (Pubkey, u8) {
    let h = keccak(&[&chain.to_be_bytes(), &mgr_wire(k)]);
    pda_bump(&[b"inbox_item", &h], &NTT)
}
fn inbox_key(k: &V) -> Pubkey {
    inbox_key_of(int(&k["chain"]) as u16, k).0
}

fn inbox_image(k: &V, i: &V) -> Vec<u8> {
    let mut v = disc("account", "InboxItem").to_vec();
    v.push(1);
    v.push(inbox_key_of(int(&k["chain"]) as u16, k).1);
    v.extend((int(&i["amt"]) as u64).to_le_bytes());
    v.extend(key(st(&i["to"])).to_bytes());
    v.extend(bitmap(&i["votes"]).to_le_bytes());
    match st(&i["status"]) {
        "none" => v.push(0),
        "after" => {
            v.push(1);
            v.extend((int(&i["rel"]) as i64).to_le_bytes());
        }
        _ => v.push(2),
    }
    pad(v, 8 + 1 + 1 + 8 + 32 + 16 + 9)
}
fn outbox_image(i: &V) -> Vec<u8> {
    let mut v = disc("account", "OutboxItem").to_vec();
    v.extend((int(&i["wire"]) as u64).to_le_bytes());
    v.push(int(&i["dec"]) as u8);
    v.extend(key(st(&i["sender"])).to_bytes());
    v.extend((int(&i["chain"]) as u16).to_le_bytes());
    v.extend(key(st(&i["mgr"])).to_bytes());
    v.extend(key(st(&i["to"])).to_bytes());
    v.extend((int(&i["rel"]) as i64).to_le_bytes());
    v.extend(bitmap(&i["released"]).to_le_bytes());
    v
}

pub fn program_data_image(auth: Option<Pubkey>) -> Vec<u8> {
    let mut v = bincode::serialize(&UpgradeableLoaderState::ProgramData {
        slot: 0,
        upgrade_authority_address: auth,
    })
    .unwrap();
    v.resize(45, 0);
    v.extend([0u8; 8]);
    v
}


/// Bytes a list of specification segments stands for.
pub fn segs(l: &V) -> Vec<u8> {
    let mut v = vec![];
    for s in list(l) {
        match st(&s["tag"]) {
            "B" => v.extend(ints(&s["value"])),
            _ => v.extend(key(st(&s["value"])).to_bytes()),
        }
    }
    v
}

fn wire_of(m: &V, x: &V) -> Vec<u8> {
    let mut v = ints(&x["p1"]);
    v.extend(key(st(&m["srcMgr"])).to_bytes());
    v.extend(key(st(&m["rcptMgr"])).to_bytes());
    v.extend((int(&x["len1"]) as u16).to_be_bytes());
    v.extend(key(st(&m["id"])).to_bytes());
    v.extend(key(st(&m["sender"])).to_bytes());
    v.extend((int(&x["len2"]) as u16).to_be_bytes());
    v.extend(ints(&x["p2"]));
    v.push(int(&m["dec"]) as u8);
    v.extend((int(&m["amt"]) as u64).to_be_bytes());
    v.extend(key(st(&m["tok"])).to_bytes());
    v.extend(key(st(&m["to"])).to_bytes());
    v.extend((int(&m["toChain"]) as u16).to_be_bytes());
    let pl = ints(&x["pl"]);
    v.extend((pl.len() as u16).to_be_bytes());
    v.extend(pl);
    v.extend(ints(&x["trail"]));
    v.truncate(v.len() - int(&x["cut"]) as usize);
    v
}

thread_local! {
    static HOOK_METAS: std::cell::RefCell<Option<Account>> = const { std::cell::RefCell::new(None) };
}
fn hook_metas_key() -> Pubkey {
    pda(&[b"extra-account-metas", key("mint").as_ref()], &HOOK)
}
fn hook_counter_key() -> Pubkey {
    pda(&[b"counter"], &HOOK)
}

// ---------------------------------------------------------------- materialise

fn base_world() -> World {
    let mut w = World::new();
    for u in USERS {
        w.accounts.insert(
            named(u),
            Account { lamports: 1_000_000_000_000, data: vec![], owner: system_program::ID, executable: false, rent_epoch: 0 },
        );
    }
    for p in PROGRAMS() {
        w.accounts.insert(p, program_account());
    }
    w.put(named("noexec"), system_program::ID, vec![0; 4]);
    w.put(program_data(&XCV), bpf_loader_upgradeable::id(), program_data_image(Some(named("user:mallory"))));
    w
}

#[allow(non_snake_case)]
pub fn PROGRAMS() -> Vec<Pubkey> {
    let mut v = vec![
        NTT, XCV, HOOK, bridge::ID, spl_token::ID, spl_token_2022::ID, spl_associated_token_account::ID,
        system_program::ID, bpf_loader_upgradeable::id(), solana_sdk::address_lookup_table::program::id(),
        named("fake_token_program"),
    ];
    for p in &PROGS[2..] {
        v.push(named(p));
    }
    v
}

/// Accounts owned by the programs under test that state `s` consists of.
fn expected_accounts(s: &V) -> BTreeMap<Pubkey, (Pubkey, Vec<u8>)> {
    let mut m = BTreeMap::new();
    if bo(&s["inited"]) {
        m.insert(config_key(), (NTT, config_image(s)));
        let mut v = disc("account", "OutboxRateLimit").to_vec();
        v.extend(rl_bytes(&s["outRL"]));
        m.insert(outrl_key(), (NTT, v));
    }
    for (c, p) in map(&s["peers"]) {
        let c = int(c) as u16;
        let mut v = disc("account", "NttManagerPeer").to_vec();
        v.push(pda_bump(&[b"peer", &c.to_be_bytes()], &NTT).1);
        v.extend(key(st(&p["addr"])).to_bytes());
        v.push(int(&p["dec"]) as u8);
        m.insert(peer_key(c), (NTT, v));
    }
    for (c, r) in map(&s["inRL"]) {
        let c = int(c) as u16;
        let mut v = disc("account", "InboxRateLimit").to_vec();
        v.push(pda_bump(&[b"inbox_rate_limit", &c.to_be_bytes()], &NTT).1);
        v.extend(rl_bytes(r));
        m.insert(inrl_key(c), (NTT, v));
    }
    for (p, id) in map(&s["xids"]) {
        let p = key(st(p));
        let mut v = disc("account", "RegisteredTransceiver").to_vec();
        v.push(pda_bump(&[b"registered_transceiver", p.as_ref()], &NTT).1);
        v.push(int(id) as u8);
        v.extend(p.to_bytes());
        m.insert(reg_key(&p), (NTT, v));
    }
    for (pc, a) in map(&s["wpeers"]) {
        let (p, c) = (key(st(&tup(pc)[0])), int(&tup(pc)[1]) as u16);
        let mut v = disc("account", "TransceiverPeer").to_vec();
        v.push(pda_bump(&[b"transceiver_peer", &c.to_be_bytes()], &p).1);
        v.extend(key(st(a)).to_bytes());
        m.insert(wpeer_key(&p, c), (p, v));
    }
    for (k, i) in map(&s["outbox"]) {
        m.insert(key(st(k)), (NTT, outbox_image(i)));
    }
    for (k, x) in map(&s["msgs"]) {
        let (p, c) = (key(st(&k["prog"])), int(&k["chain"]) as u16);
        m.insert(msg_key(&p, c, st(&k["id"])), (p, msg_image(c, x)));
    }
    for (k, i) in map(&s["inbox"]) {
        m.insert(inbox_key(k), (NTT, inbox_image(k, i)));
    }
    m
}

pub fn materialize(s: &V) -> World {
    let mut w = base_world();
    w.now = int(&s["now"]) as i64;
    for (k, (o, d)) in expected_accounts(s) {
        w.put(k, o, d);
    }
    let kind = st(&s["tokKind"]);
    let tp = token_program(s);
    let mint = key("mint");
    let ta = token_authority();
    let auth = opt_key(&s["mintAuth"]);
    w.put(mint, tp, mint_image(kind, int(&s["dec"]) as u8, auth.as_ref(), int(&s["supply"]) as u64, int(&s["feeBps"]) as u16));
    w.put(key("mint2"), tp, mint_image(if kind == "spl" { "spl" } else { "t22" }, 9, Some(&ta), u64::MAX / 4, 0));
    for (u, t) in map(&s["toks"]) {
        let sess = Sess::of(&t["dlg"]);
        let dlg = if sess.owner.is_empty() { None } else { Some((sess.key(), int(&t["allow"]) as u64)) };
        w.put(ata(&key(st(u)), &tp), tp, token_image(kind, &mint, &key(st(u)), int(&t["bal"]) as u64, dlg));
    }
    if bo(&s["inited"]) || int(&s["custody"]) > 0 {
        w.put(ata(&ta, &tp), tp, token_image(kind, &mint, &ta, int(&s["custody"]) as u64, None));
    }
    for u in USERS {
        w.put(named(&format!("tok:{u}:2")), tp, token_image(kind, &mint, &named(u), 1_000_000, None));
    }
    w.put(named("tok:token_authority:2"), tp, token_image(kind, &mint, &ta, 1u64 << 62, None));
    w.put(program_data(&NTT), bpf_loader_upgradeable::id(), program_data_image(opt_key(&s["upAuth"])));

    w.put(bridge::config_key(), bridge::ID, vec![]);
    let fc = 5_000_000;
    w.accounts.get_mut(&bridge::config_key()).unwrap().data = bridge::config_data(fc, int(&s["bridgeFee"]) as u64);
    w.accounts.get_mut(&bridge::config_key()).unwrap().lamports = 10_000_000;
    w.put(bridge::fee_collector(), bridge::ID, vec![]);
    w.accounts.get_mut(&bridge::fee_collector()).unwrap().lamports = fc;
    for (p, n) in map(&s["seqs"]) {
        w.put(
            bridge::sequence(&emitter_key(&key(st(p)))),
            bridge::ID,
            (int(n) as u64).to_le_bytes().to_vec(),
        );
    }
    // messages already posted for released items
    for (k, i) in map(&s["outbox"]) {
        for p in &PROGS[..2] {
            if let Some(id) = map_str(&s["xids"], p) {
                if int_set(&i["released"]).contains(&int(id)) {
                    w.put(posted_key(&key(p), &key(st(k))), bridge::ID, b"old".to_vec());
                }
            }
        }
    }
    if kind == "hook" {
        let metas = HOOK_METAS.with(|h| h.borrow().clone()).unwrap_or_else(|| {
            let mut w2 = w.clone();
            let out = w2.tx(&[Instruction {
                program_id: HOOK,
                accounts: vec![
                    AccountMeta::new(named("user:carol"), true),
                    AccountMeta::new(hook_metas_key(), false),
                    AccountMeta::new_readonly(mint, false),
                    AccountMeta::new_readonly(tp, false),
                    AccountMeta::new_readonly(spl_associated_token_account::ID, false),
                    AccountMeta::new(hook_counter_key(), false),
                    AccountMeta::new_readonly(system_program::ID, false),
                ],
                data: disc("global", "initialize_extra_account_meta_list").to_vec(),
            }]);
            out.result.expect("hook init");
            let a = w2.get(&hook_metas_key()).unwrap().clone();
            HOOK_METAS.with(|h| *h.borrow_mut() = Some(a.clone()));
            a
        });
        w.accounts.insert(hook_metas_key(), metas);
        let mut v = disc("account", "Counter").to_vec();
        v.extend((int(&s["hooks"]) as u64).to_le_bytes());
        w.put(hook_counter_key(), HOOK, v);
    }
    if bo(&s["lut"]) {
        let mut v = disc("account", "LUT").to_vec();
        v.push(pda_bump(&[b"lut"], &NTT).1);
        v.extend(named("old_lut").to_bytes());
        w.put(lut_key(), NTT, v);
    }
    w
}

// ---------------------------------------------------------------- instructions

const S: bool = true;
const W: bool = true;
const R: bool = false;
const N: bool = false;


fn wormhole_accs(ix: Ix, prog: &Pubkey) -> Ix {
    ix.a("wh_bridge", bridge::config_key(), N, W)
        .a("fee_collector", bridge::fee_collector(), N, W)
        .a("sequence", bridge::sequence(&emitter_key(prog)), N, W)
        .a("wh_program", bridge::ID, N, R)
        .a("wh_system", system_program::ID, N, R)
        .a("clock", sysvar::clock::id(), N, R)
        .a("rent", sysvar::rent::id(), N, R)
}

fn hook_rest(s: &V, source_owner: &Pubkey) -> Vec<AccountMeta> {
    if st(&s["tokKind"]) != "hook" {
        return vec![];
    }
    vec![
        AccountMeta::new_readonly(pda(&[b"dummy_account", source_owner.as_ref()], &HOOK), false),
        AccountMeta::new(hook_counter_key(), false),
        AccountMeta::new_readonly(hook_metas_key(), false),
        AccountMeta::new_readonly(HOOK, false),
    ]
}

fn approve_ix(s: &V, a: &V) -> Instruction {
    let tp = token_program(s);
    let sess = sess_of(a);
    let who = key(st(&a["who"]));
    let mut data = vec![4u8];
    data.extend((int(&a["appr"]) as u64).to_le_bytes());
    Instruction {
        program_id: tp,
        accounts: vec![
            AccountMeta::new(ata(&who, &tp), false),
            AccountMeta::new_readonly(sess.key(), false),
            AccountMeta::new_readonly(who, true),
        ],
        data,
    }
}
fn sess_of(a: &V) -> Sess {
    Sess {
        owner: st(&a["who"]).into(),
        amt: int(&a["amt"]) as u64,
        chain: int(&a["chain"]) as u16,
        to: st(&a["to"]).into(),
        q: bo(&a["q"]),
    }
}

fn find_msg<'a>(s: &'a V, a: &V) -> Option<&'a V> {
    map(&s["msgs"])
        .find(|(k, _)| k["prog"] == a["prog"] && k["chain"] == a["chain"] && k["id"] == a["item"])
        .map(|(_, m)| m)
}

/// The instruction an action stands for (environment actions have none).
fn build(s: &V, a: &V, n: usize, w: &World) -> Option<Ix> {
    let name = st(&a["name"]);
    let tp = token_program(s);
    let payer = key(st(&a["payer"]));
    let who = key(st(&a["who"]));
    let prog = key(st(&a["prog"]));
    let chain = int(&a["chain"]) as u16;
    let amt = int(&a["amt"]) as u64;
    let q = bo(&a["q"]);
    let mint = key("mint");
    let ta = token_authority();
    let custody = ata(&ta, &tp);
    let sys = system_program::ID;
    let loader = bpf_loader_upgradeable::id();
    Some(match name {
        "Transfer" => {
            let burn = st(&a["ix"]) == "burn";
            let mut x = Ix::new(NTT, if burn { "transfer_burn" } else { "transfer_lock" })
                .arg(&amt.to_le_bytes())
                .arg(&chain.to_le_bytes())
                .arg(key(st(&a["to"])).as_ref())
                .arg(&[q as u8])
                .a("payer", payer, S, W)
                .a("config", config_key(), N, R)
                .a("mint", mint, N, W)
                .a("from", ata(&who, &tp), N, W)
                .a("token_program", tp, N, R)
                .a("outbox_item", key(st(&a["item"])), S, W)
                .a("outbox_rate_limit", outrl_key(), N, W)
                .a("custody", custody, N, W)
                .a("system_program", sys, N, R)
                .a("inbox_rate_limit", inrl_key(chain), N, W)
                .a("peer", peer_key(chain), N, R)
                .a("session_authority", sess_of(a).key(), N, R);
            if burn {
                x = x.a("token_authority", ta, N, R);
            }
            x.rest = hook_rest(s, &who);
            x
        }
        "ReleaseOut" => {
            let item = key(st(&a["item"]));
            let mut x = Ix::new(prog, "release_wormhole_outbound")
                .arg(&[q as u8])
                .a("payer", payer, S, W)
                .a("config", config_key(), N, R)
                .a("outbox_item", item, N, W)
                .a("transceiver", reg_key(&prog), N, R)
                .a("wormhole_message", posted_key(&prog, &item), N, W)
                .a("emitter", emitter_key(&prog), N, R);
            x = wormhole_accs(x, &prog);
            if prog == XCV {
                x = x
                    .a("manager", NTT, N, R)
                    .a("outbox_item_signer", pda(&[b"outbox_item_signer"], &XCV), N, R);
            }
            x
        }
        "Mark" => Ix::new(NTT, "mark_outbox_item_as_released")
            .a("signer", pda(&[b"outbox_item_signer"], &prog), S, R)
            .a("config", config_key(), N, R)
            .a("outbox_item", key(st(&a["item"])), N, W)
            .a("transceiver", reg_key(&prog), N, R),
        "Receive" => {
            let wire = wire_of(&a["msg"], &a["mangle"]);
            Ix::new(prog, "receive_wormhole_message")
                .a("payer", payer, S, W)
                .a("config", config_key(), N, R)
                .a("peer", wpeer_key(&prog, chain), N, R)
                .a("vaa", vaa_key(chain, st(&a["to"]), &wire), N, R)
                .a("transceiver_message", msg_key(&prog, chain, st(&a["msg"]["id"])), N, W)
                .a("system_program", sys, N, R)
        }
        "Redeem" => {
            let inbox = find_msg(s, a).map_or(named("no_inbox"), |m| inbox_key_of(chain, m).0);
            Ix::new(NTT, "redeem")
                .a("payer", payer, S, W)
                .a("config", config_key(), N, R)
                .a("peer", peer_key(chain), N, R)
                .a("transceiver_message", msg_key(&prog, chain, st(&a["item"])), N, R)
                .a("transceiver", reg_key(&prog), N, R)
                .a("mint", mint, N, R)
                .a("inbox_item", inbox, N, W)
                .a("inbox_rate_limit", inrl_key(chain), N, W)
                .a("outbox_rate_limit", outrl_key(), N, W)
                .a("system_program", sys, N, R)
        }
        "ReleaseIn" => {
            let mint_ix = st(&a["ix"]) == "mint";
            let to = map_get(&s["inbox"], &a["key"]).map_or("", |i| st(&i["to"]));
            let mut x = Ix::new(NTT, if mint_ix { "release_inbound_mint" } else { "release_inbound_unlock" })
                .arg(&[q as u8])
                .a("payer", payer, S, W)
                .a("config", config_key(), N, R)
                .a("inbox_item", inbox_key(&a["key"]), N, W)
                .a("recipient", ata(&key(to), &tp), N, W)
                .a("token_authority", ta, N, R)
                .a("mint", mint, N, W)
                .a("token_program", tp, N, R)
                .a("custody", custody, N, W);
            x.rest = hook_rest(s, &ta);
            x
        }
        "Initialize" => Ix::new(NTT, "initialize")
            .arg(&chain.to_le_bytes())
            .arg(&amt.to_le_bytes())
            .arg(&[if st(&a["ix"]) == "burning" { 1 } else { 0 }])
            .a("payer", payer, S, W)
            .a("deployer", who, S, R)
            .a("program_data", program_data(&NTT), N, R)
            .a("config", config_key(), N, W)
            .a("mint", mint, N, R)
            .a("rate_limit", outrl_key(), N, W)
            .a("token_authority", ta, N, R)
            .a("custody", custody, N, W)
            .a("token_program", tp, N, R)
            .a("ata_program", spl_associated_token_account::ID, N, R)
            .a("loader", loader, N, R)
            .a("system_program", sys, N, R),
        "SetPeer" => Ix::new(NTT, "set_peer")
            .arg(&chain.to_le_bytes())
            .arg(key(st(&a["to"])).as_ref())
            .arg(&amt.to_le_bytes())
            .arg(&[int(&a["appr"]) as u8])
            .a("payer", payer, S, W)
            .a("owner", who, S, R)
            .a("config", config_key(), N, R)
            .a("peer", peer_key(chain), N, W)
            .a("inbox_rate_limit", inrl_key(chain), N, W)
            .a("system_program", sys, N, R),
        "SetOutLimit" => Ix::new(NTT, "set_outbound_limit")
            .arg(&amt.to_le_bytes())
            .a("config", config_key(), N, R)
            .a("owner", who, S, R)
            .a("rate_limit", outrl_key(), N, W),
        "SetInLimit" => Ix::new(NTT, "set_inbound_limit")
            .arg(&amt.to_le_bytes())
            .arg(&chain.to_le_bytes())
            .a("config", config_key(), N, R)
            .a("owner", who, S, R)
            .a("rate_limit", inrl_key(chain), N, W),
        "SetPaused" => Ix::new(NTT, "set_paused")
            .arg(&[q as u8])
            .a("owner", who, S, R)
            .a("config", config_key(), N, W),
        "Register" => Ix::new(NTT, "register_transceiver")
            .a("config", config_key(), N, W)
            .a("owner", who, S, R)
            .a("payer", payer, S, W)
            .a("transceiver", prog, N, R)
            .a("registered_transceiver", reg_key(&prog), N, W)
            .a("system_program", sys, N, R),
        "SetWPeer" => Ix::new(prog, "set_wormhole_peer")
            .arg(&chain.to_le_bytes())
            .arg(key(st(&a["to"])).as_ref())
            .a("config", config_key(), N, R)
            .a("owner", who, S, R)
            .a("payer", payer, S, W)
            .a("peer", wpeer_key(&prog, chain), N, W)
            .a("system_program", sys, N, R),
        "TransferOwn" | "TransferOwnOneStep" => Ix::new(
            NTT,
            if name == "TransferOwn" { "transfer_ownership" } else { "transfer_ownership_one_step_unchecked" },
        )
        .a("config", config_key(), N, W)
        .a("owner", who, S, R)
        .a("new_owner", key(st(&a["to"])), N, R)
        .a("upgrade_lock", key("lock"), N, R)
        .a("program_data", program_data(&NTT), N, W)
        .a("loader", loader, N, R),
        "ClaimOwn" => Ix::new(NTT, "claim_ownership")
            .a("config", config_key(), N, W)
            .a("upgrade_lock", key("lock"), N, R)
            .a("new_owner", who, S, R)
            .a("program_data", program_data(&NTT), N, W)
            .a("loader", loader, N, R),
        "BroadcastId" => {
            let x = Ix::new(prog, "broadcast_wormhole_id")
                .a("payer", payer, S, W)
                .a("config", config_key(), N, R)
                .a("mint", mint, N, R)
                .a("wormhole_message", named(&format!("wmsg:{n}")), S, W)
                .a("emitter", emitter_key(&prog), N, R);
            wormhole_accs(x, &prog)
        }
        "BroadcastPeer" => {
            let x = Ix::new(prog, "broadcast_wormhole_peer")
                .arg(&chain.to_le_bytes())
                .a("payer", payer, S, W)
                .a("config", config_key(), N, R)
                .a("peer", wpeer_key(&prog, chain), N, R)
                .a("wormhole_message", named(&format!("wmsg:{n}")), S, W)
                .a("emitter", emitter_key(&prog), N, R);
            wormhole_accs(x, &prog)
        }
        "InitLut" => {
            let auth = pda(&[b"lut_authority"], &NTT);
            let slot = w.slot - 1;
            let lut_program = solana_sdk::address_lookup_table::program::id();
            let x = Ix::new(NTT, "initialize_lut")
                .arg(&slot.to_le_bytes())
                .a("payer", payer, S, W)
                .a("authority", auth, N, R)
                .a("lut_address", pda(&[auth.as_ref(), &slot.to_le_bytes()], &lut_program), N, W)
                .a("lut", lut_key(), N, W)
                .a("lut_program", lut_program, N, R)
                .a("system_program", sys, N, R)
                .a("config", config_key(), N, R)
                .a("custody", custody, N, R)
                .a("token_program", tp, N, R)
                .a("mint", mint, N, R)
                .a("token_authority", ta, N, R)
                .a("outbox_rate_limit", outrl_key(), N, R);
            wormhole_accs(x, &NTT)
        }
        _ => return None,
    })
}

fn vaa_key(chain: u16, emitter: &str, wire: &[u8]) -> Pubkey {
    let mut v = chain.to_be_bytes().to_vec();
    v.extend(emitter.as_bytes());
    v.extend(wire);
    Pubkey::from(sha256(&v))
}

/// Accounts the environment provides for an action (a posted VAA).
fn prepare(a: &V, w: &mut World) {
    if st(&a["name"]) == "Receive" {
        let chain = int(&a["chain"]) as u16;
        let wire = wire_of(&a["msg"], &a["mangle"]);
        let em = st(&a["to"]);
        w.put(vaa_key(chain, em, &wire), bridge::ID, vaa_image(chain, &key(em), 7, &wire));
    }
}

fn tamper(s: &V, a: &V, x: &mut Ix, w: &mut World, kind: &str, slot: &str, arg: &str) {
    let prog = key(st(&a["prog"]));
    match kind {
        "none" => {}
        "unsign" => x.slot(slot).2 = false,
        // an account of the same program, but of another type
        "retype" => {
            let k = x.slot(slot).1;
            let f = named(&format!("retyped:{slot}"));
            let mut acc = w.get(&k).cloned().unwrap_or_default();
            acc.lamports = acc.lamports.max(1_000_000);
            for b in acc.data.iter_mut().take(8) {
                *b ^= 0x5a;
            }
            w.accounts.insert(f, acc);
            x.slot(slot).1 = f;
        }
        "forge" => {
            let k = x.slot(slot).1;
            let f = named(&format!("forged:{slot}"));
            let mut acc = w.get(&k).cloned().unwrap_or_default();
            acc.owner = named("prog:attacker");
            acc.lamports = acc.lamports.max(1_000_000);
            w.accounts.insert(f, acc);
            x.slot(slot).1 = f;
        }
        // another token: its mint and the token accounts that belong to it, all consistent
        "swap" if slot == "family" => {
            let tp = token_program(s);
            let m2 = named("mint:other");
            let img = w.get(&key("mint")).cloned().unwrap_or_default();
            w.accounts.insert(m2, img);
            let sess = x.accs.iter().find(|c| c.0 == "session_authority").map(|c| c.1);
            let slots: &[&str] = if arg == "all" { &["custody", "from", "recipient"] } else { &["from", "recipient"] };
            for sl in slots {
                if !x.accs.iter().any(|c| c.0 == *sl) {
                    continue;
                }
                let Some(mut acc) = w.get(&x.slot(sl).1).cloned() else { continue };
                if acc.data.len() < 165 {
                    continue;
                }
                acc.data[..32].copy_from_slice(m2.as_ref());
                if *sl == "custody" {
                    acc.data[64..72].copy_from_slice(&(1u64 << 62).to_le_bytes());
                }
                if let (Some(k), true) = (sess, *sl == "from") {
                    acc.data[64..72].copy_from_slice(&(1u64 << 62).to_le_bytes());
                    acc.data[72..76].copy_from_slice(&1u32.to_le_bytes());
                    acc.data[76..108].copy_from_slice(k.as_ref());
                    acc.data[121..129].copy_from_slice(&u64::MAX.to_le_bytes());
                }
                let owner = Pubkey::try_from(&acc.data[32..64]).unwrap();
                let k = pda(&[owner.as_ref(), tp.as_ref(), m2.as_ref()], &spl_associated_token_account::ID);
                w.accounts.insert(k, acc);
                x.slot(sl).1 = k;
            }
            x.slot("mint").1 = m2;
        }
        // someone else's authority, with the token account that belongs to it
        "swap" if slot == "authority_family" => {
            x.slot("token_authority").1 = key(arg);
            x.slot("custody").1 = ata(&key(arg), &token_program(s));
        }
        "swap" => {
            let chain_of = |p: &str| arg.strip_prefix(p).and_then(|c| c.parse::<u16>().ok());
            let k = if let Some(c) = chain_of("peer:") {
                peer_key(c)
            } else if let Some(c) = chain_of("inrl:") {
                inrl_key(c)
            } else if let Some(c) = chain_of("wpeer:") {
                wpeer_key(&prog, c)
            } else if arg == "outbox_rate_limit" {
                outrl_key()
            } else if arg == "config" {
                config_key()
            } else if slot == "transceiver" && arg.starts_with("prog:") {
                reg_key(&key(arg))
            } else if arg == "tok:recipient:2" {
                let to = map_get(&s["inbox"], &a["key"]).map_or("", |i| st(&i["to"]));
                named(&format!("tok:{to}:2"))
            } else if let Some(u) = arg.strip_prefix("ata:") {
                ata(&key(u), &token_program(s))
            } else if arg == "inbox:other" {
                let me = x.slot("inbox_item").1;
                map(&s["inbox"])
                    .map(|(k, _)| inbox_key(k))
                    .find(|k| *k != me)
                    .unwrap_or(named("inbox:fresh"))
            } else if arg == "program_data:xcv" {
                // another program, held by the very same authority
                let same = w.get(&program_data(&NTT)).cloned().unwrap_or_default();
                w.accounts.insert(program_data(&XCV), same);
                program_data(&XCV)
            } else if let Some(u) = arg.strip_prefix("sess:") {
                match map_str(&s["toks"], u).map(|t| Sess::of(&t["dlg"])) {
                    Some(d) if !d.owner.is_empty() => d.key(),
                    _ => named("no_session"),
                }
            } else {
                key(arg)
            };
            x.slot(slot).1 = k;
            if slot == "emitter" {
                // the bridge wants the sequence that belongs to the emitter
                x.slot("sequence").1 = bridge::sequence(&k);
                x.slot(slot).2 = true;
            }
            if slot == "wormhole_message" {
                x.slot(slot).2 = true;
            }
            if slot == "signer" || (slot == "token_authority" && arg.starts_with("user:")) || slot == "upgrade_lock"
                || slot == "outbox_item_signer" || slot == "authority"
            {
                // whoever substitutes their own key can also sign with it
                x.slot(slot).2 = true;
            }
            if slot == "session_authority" && arg.starts_with("user:") {
                x.slot(slot).2 = true;
            }
        }
        _ => panic!("tamper kind {kind}"),
    }
}

// ---------------------------------------------------------------- execution

fn env_step(s: &V, s2: &V, a: &V, w: &mut World) -> bool {
    let tp = token_program(s);
    match st(&a["name"]) {
        "Tick" => w.now += int(&a["amt"]) as i64,
        "CreateAta" => {
            let u = key(st(&a["who"]));
            if !w.exists(&ata(&u, &tp)) {
                w.put(ata(&u, &tp), tp, token_image(st(&s["tokKind"]), &key("mint"), &u, 0, None));
            }
        }
        "Donate" => {
            for (k, v) in [
                (ata(&key(st(&a["who"])), &tp), map_str(&s2["toks"], st(&a["who"])).map(|t| int(&t["bal"]))),
                (ata(&token_authority(), &tp), Some(int(&s2["custody"]))),
            ] {
                if let (Some(v), Some(acc)) = (v, w.accounts.get_mut(&k)) {
                    acc.data[64..72].copy_from_slice(&(v as u64).to_le_bytes());
                }
            }
        }
        "SetAuthority" => {
            if s != s2 {
                w.put(program_data(&NTT), bpf_loader_upgradeable::id(), program_data_image(opt_key(&s2["upAuth"])));
            }
        }
        "SetThreshold" | "SetEnabled" => {
            if let Some(acc) = w.accounts.get_mut(&config_key()) {
                patch_config(&mut acc.data, |c| {
                    c.threshold = int(&s2["cfg"]["threshold"]) as u8;
                    c.enabled = bitmap(&s2["cfg"]["enabled"]);
                });
            }
        }
        "FakeDeliver" => {
            if s != s2 {
                let (p, c) = (key(st(&a["prog"])), int(&a["chain"]) as u16);
                w.put(msg_key(&p, c, st(&a["msg"]["id"])), p, msg_image(c, &a["msg"]));
            }
        }
        _ => return false,
    }
    true
}

fn patch_config(d: &mut Vec<u8>, f: impl FnOnce(&mut CfgView)) {
    let Some(mut c) = read_config(d) else { return };
    f(&mut c);
    let mut v = disc("account", "Config").to_vec();
    v.push(c.bump);
    v.extend(c.owner.to_bytes());
    match c.pend {
        None => v.push(0),
        Some(p) => {
            v.push(1);
            v.extend(p.to_bytes());
        }
    }
    v.extend(c.mint.to_bytes());
    v.extend(c.tp.to_bytes());
    v.push(c.mode);
    v.extend(c.chain.to_le_bytes());
    v.push(c.next);
    v.push(c.threshold);
    v.extend(c.enabled.to_le_bytes());
    v.push(c.paused);
    v.extend(c.custody.to_bytes());
    v.resize(d.len(), 0);
    *d = v;
}


fn exec(s: &V, a: &V, n: usize, w: &mut World) -> Option<TxOut> {
    exec_with(s, a, n, w, ("none", "", ""))
}
fn exec_with(s: &V, a: &V, n: usize, w: &mut World, t: (&str, &str, &str)) -> Option<TxOut> {
    if st(&a["name"]) == "Approve" {
        return Some(w.tx(&[approve_ix(s, a)]));
    }
    prepare(a, w);
    let mut x = build(s, a, n, w)?;
    let own = &a["tamper"];
    tamper(s, a, &mut x, w, st(&own["kind"]), st(&own["slot"]), st(&own["arg"]));
    tamper(s, a, &mut x, w, t.0, t.1, t.2);
    let mut ixs = vec![];
    if st(&a["name"]) == "Transfer" && int(&a["appr"]) >= 0 {
        if t.0 == "unsign" {
            // the approval is a transaction of its own, so that its signatures do not count
            let o = w.tx(&[approve_ix(s, a)]);
            if o.result.is_err() {
                return Some(o);
            }
        } else {
            ixs.push(approve_ix(s, a));
        }
    }
    ixs.push(x.build());
    Some(w.tx(&ixs))
}


/// Run a probe: a variation of action `a` in the state (`s`, `w`).
fn probe(s: &V, a: &V, p: &V, n: usize, w: &World) -> Option<(bool, String)> {
    let (kind, slot, arg, i) = (st(&p["kind"]), st(&p["slot"]), st(&p["arg"]), int(&p["i"]));
    let mut w = w.clone();
    let big = json!({ "#bigint": i.to_string() });
    let mut b = a.clone();
    let set_field = |b: &mut V| match slot {
        "toChain" => b["msg"]["toChain"] = big.clone(),
        "q" => b["q"] = json!(i == 1),
        "chain" | "amt" | "appr" => b[slot] = big.clone(),
        "to" if arg.starts_with('~') => b["to"] = json!(format!("{}{arg}", st(&a["to"]))),
        _ => b[slot] = json!(arg),
    };
    match kind {
        "unsign" | "forge" | "swap" | "retype" => {
            let o = exec_with(s, a, n, &mut w, (kind, slot, arg))?;
            Some((o.result.is_ok(), format!("{:?}", o.result)))
        }
        // the tokens are held in an account that is not the associated one
        "set" if slot == "from" => {
            let tp = token_program(s);
            let (old, new) = (ata(&key(st(&a["who"])), &tp), named("tok:alt"));
            let held = w.accounts.remove(&old)?;
            w.accounts.insert(new, held);
            let mut x = build(s, a, n, &w)?;
            x.slot("from").1 = new;
            let mut ap = approve_ix(s, a);
            ap.accounts[0].pubkey = new;
            let o = w.tx(&[ap, x.build()]);
            Some((o.result.is_ok(), format!("{:?}", o.result)))
        }
        "set" => {
            set_field(&mut b);
            let o = exec(s, &b, n, &mut w)?;
            Some((o.result.is_ok(), format!("{:?}", o.result)))
        }
        "state" => {
            match slot {
                "paused" => patch_config(&mut w.accounts.get_mut(&config_key())?.data, |c| c.paused = i as u8),
                "disable" => patch_config(&mut w.accounts.get_mut(&config_key())?.data, |c| c.enabled &= !(1u128 << i)),
                "threshold" => patch_config(&mut w.accounts.get_mut(&config_key())?.data, |c| c.threshold = i as u8),
                "now" => w.now = i as i64,
                "chain" => patch_config(&mut w.accounts.get_mut(&config_key())?.data, |c| c.chain = i as u16),
                // the sender is only the pending owner
                "pending" => patch_config(&mut w.accounts.get_mut(&config_key())?.data, |c| {
                    c.owner = named("user:whale");
                    c.pend = Some(key(st(&a["who"])));
                }),
                "peer" | "wpeer" => {
                    let c = int(&a["chain"]) as u16;
                    let k = if slot == "peer" { peer_key(c) } else { wpeer_key(&key(st(&a["prog"])), c) };
                    w.accounts.get_mut(&k)?.data[9..41].copy_from_slice(key(arg).as_ref());
                }
                "outcap" => {
                    let d = &mut w.accounts.get_mut(&outrl_key())?.data;
                    d[8..16].copy_from_slice(&(i as u64).to_le_bytes());
                    d[16..24].copy_from_slice(&(i as u64).to_le_bytes());
                    d[24..32].copy_from_slice(&(int(&s["now"]) as i64).to_le_bytes());
                }
                // somebody else has already made the lookup table
                "frontrun" => {
                    let x = build(s, a, n, &w)?;
                    let at = |n: &str| x.accs.iter().find(|c| c.0 == n).map(|c| c.1);
                    let (table, auth, prog) = (at("lut_address")?, at("authority")?, at("lut_program")?);
                    let sl = w.slot - 1;
                    let (_, bump) = pda_bump(&[auth.as_ref(), &sl.to_le_bytes()], &prog);
                    let mut data = 0u32.to_le_bytes().to_vec();
                    data.extend(sl.to_le_bytes());
                    data.push(bump);
                    let o = w.tx(&[Instruction {
                        program_id: prog,
                        accounts: vec![
                            AccountMeta::new(table, false),
                            AccountMeta::new_readonly(auth, false),
                            AccountMeta::new(key("user:mallory"), true),
                            AccountMeta::new_readonly(solana_sdk::system_program::id(), false),
                        ],
                        data,
                    }]);
                    if o.result.is_err() {
                        return None;
                    }
                }
                "gift" => {
                    prepare(a, &mut w);
                    for c in build(s, a, n, &w)?.accs {
                        if !c.2 && !w.exists(&c.1) {
                            let mut acc = w.get(&c.1).cloned().unwrap_or_default();
                            acc.lamports += i as u64;
                            w.accounts.insert(c.1, acc);
                        }
                    }
                }
                _ => panic!("state probe {slot}"),
            }
            let o = exec(s, a, n, &mut w)?;
            Some((o.result.is_ok(), format!("{:?}", o.result)))
        }
        "bend" => {
            let o = w.tx(&[approve_ix(s, a)]);
            if o.result.is_err() {
                return None;
            }
            set_field(&mut b);
            b["appr"] = json!({ "#bigint": "-1" });
            let mut w1 = w.clone();
            let o1 = exec(s, &b, n, &mut w1)?;
            // the same with the authority that was approved
            let mut x = build(s, &b, n, &w)?;
            x.slot("session_authority").1 = sess_of(a).key();
            let o2 = w.tx(&[x.build()]);
            let expect = set(&p["errs"]).is_empty();
            // the terms are bent, so the approved authority does not fit them, ever
            let ok2 = o2.result.is_ok();
            if ok2 && !expect {
                return Some((true, "approved authority accepted for other terms".into()));
            }
            Some((o1.result.is_ok(), format!("{:?}", o1.result)))
        }
        _ => panic!("probe kind {kind}"),
    }
}

fn is_user_loss(pre: &World, post: &World, payer: &Pubkey) -> Option<String> {
    for u in USERS {
        let k = named(u);
        if k != *payer && post.lamports(&k) < pre.lamports(&k) {
            return Some(u.to_string());
        }
    }
    None
}

/// Differences between the accounts and specification state `s`: (field, details)
fn compare(s: &V, w: &World) -> Vec<(String, String)> {
    let mut d: Vec<(String, String)> = vec![];
    let tp = token_program(s);
    macro_rules! chk {
        ($f:expr, $got:expr, $want:expr) => {{
            let (g, x) = ($got, $want);
            if g != x {
                d.push(($f.to_string(), format!("code {:?}, spec {:?}", g, x)));
            }
        }};
    }
    if w.now != int(&s["now"]) as i64 {
        d.push(("now".into(), "clock".into()));
    }
    let want = expected_accounts(s);
    // nothing but the expected accounts exists
    for (k, a) in &w.accounts {
        if (a.owner == NTT || a.owner == XCV) && !want.contains_key(k) && *k != lut_key() {
            d.push(("unexpected_account".into(), format!("{k} {:?}", &a.data[..8.min(a.data.len())])));
        }
    }
    match read_config(w.data(&config_key())) {
        None => chk!("cfg", false, bo(&s["inited"])),
        Some(c) => {
            if !bo(&s["inited"]) {
                d.push(("cfg".into(), "initialised".into()));
            } else {
                let x = &s["cfg"];
                chk!("cfg.owner", c.owner, key(st(&x["owner"])));
                chk!("cfg.pend", c.pend, if st(&x["pend"]).is_empty() { None } else { Some(key(st(&x["pend"]))) });
                chk!("cfg.mint", c.mint, key("mint"));
                chk!("cfg.token_program", c.tp, tp);
                chk!("cfg.mode", c.mode, (st(&x["mode"]) == "burning") as u8);
                chk!("cfg.chain", c.chain as i128, int(&x["chain"]));
                chk!("cfg.nextId", c.next as i128, int(&x["nextId"]));
                chk!("cfg.threshold", c.threshold as i128, int(&x["threshold"]));
                chk!("cfg.enabled", c.enabled, bitmap(&x["enabled"]));
                chk!("cfg.paused", c.paused, bo(&x["paused"]) as u8);
                chk!("cfg.custody", c.custody, ata(&token_authority(), &tp));
            }
        }
    }
    let acct = |k: &Pubkey, name: &str, owner: &Pubkey| -> Option<Vec<u8>> {
        let a = w.get(k)?;
        if a.owner != *owner || a.data.len() < 8 || a.data[..8] != disc("account", name) {
            return None;
        }
        Some(a.data[8..].to_vec())
    };
    let rl = |f: &str, data: Option<Vec<u8>>, skip: usize, r: &V, d: &mut Vec<(String, String)>| match data {
        None => d.push((f.to_string(), "missing".into())),
        Some(v) => {
            let mut x = Rd(&v[skip.min(v.len())..]);
            let g = (x.u64(), x.u64(), x.i64());
            if g.0 != Some(int(&r["limit"]) as u64) {
                d.push((format!("{f}.limit"), format!("code {:?}, spec {}", g.0, int(&r["limit"]))));
            }
            // what matters is the capacity now and at every later time, not how it is stored
            let cap = |limit: i128, c: i128, last: i128, t: i128| limit.min(c + (t - last) * limit / 86400);
            let now = int(&s["now"]);
            let (l, c, at) = (int(&r["limit"]), int(&r["cap"]), int(&r["last"]));
            match (g.0, g.1, g.2) {
                (Some(l2), Some(c2), Some(at2)) if i128::from(at2) <= now => {
                    for dt in [0, 1, 2, 7, 61, 599, 3600, 21600, 43200, 64801, 86399, 86400] {
                        let (x, y) = (cap(l2.into(), c2.into(), at2.into(), now + dt), cap(l, c, at, now + dt));
                        if x != y {
                            d.push((format!("{f}.cap"), format!("capacity {dt} s from now: code {x}, spec {y} (stored {:?}, spec {c} at {at})", (g.1, g.2))));
                            break;
                        }
                    }
                }
                _ => d.push((format!("{f}.cap"), format!("code {:?}, spec {c} at {at}", (g.1, g.2)))),
            }
        }
    };
    if bo(&s["inited"]) {
        rl("outRL", acct(&outrl_key(), "OutboxRateLimit", &NTT), 0, &s["outRL"], &mut d);
    }
    for c in CHAINS {
        let kk = json!({ "#bigint": c.to_string() });
        match map_get(&s["inRL"], &kk) {
            Some(r) => rl("inRL", acct(&inrl_key(c), "InboxRateLimit", &NTT), 1, r, &mut d),
            None => {}
        }
        if let Some(p) = map_get(&s["peers"], &kk) {
            match acct(&peer_key(c), "NttManagerPeer", &NTT) {
                None => d.push(("peers".into(), "missing".into())),
                Some(v) => {
                    let mut x = Rd(&v[1..]);
                    chk!("peers.addr", x.key(), Some(key(st(&p["addr"]))));
                    chk!("peers.dec", x.u8(), Some(int(&p["dec"]) as u8));
                }
            }
        }
    }
    for (p, id) in map(&s["xids"]) {
        let p = key(st(p));
        match acct(&reg_key(&p), "RegisteredTransceiver", &NTT) {
            None => d.push(("xids".into(), "missing".into())),
            Some(v) => {
                let mut x = Rd(&v[1..]);
                chk!("xids.id", x.u8(), Some(int(id) as u8));
                chk!("xids.addr", x.key(), Some(p));
            }
        }
    }
    for (pc, a) in map(&s["wpeers"]) {
        let (p, c) = (key(st(&tup(pc)[0])), int(&tup(pc)[1]) as u16);
        match acct(&wpeer_key(&p, c), "TransceiverPeer", &p) {
            None => d.push(("wpeers".into(), "missing".into())),
            Some(v) => chk!("wpeers.addr", Rd(&v[1..]).key(), Some(key(st(a)))),
        }
    }
    for (k, i) in map(&s["outbox"]) {
        match acct(&key(st(k)), "OutboxItem", &NTT) {
            None => d.push(("outbox".into(), "missing".into())),
            Some(v) => {
                let mut x = Rd(&v);
                chk!("outbox.wire", x.u64(), Some(int(&i["wire"]) as u64));
                chk!("outbox.dec", x.u8(), Some(int(&i["dec"]) as u8));
                chk!("outbox.sender", x.key(), Some(key(st(&i["sender"]))));
                chk!("outbox.chain", x.u16(), Some(int(&i["chain"]) as u16));
                chk!("outbox.mgr", x.key(), Some(key(st(&i["mgr"]))));
                chk!("outbox.to", x.key(), Some(key(st(&i["to"]))));
                chk!("outbox.rel", x.i64(), Some(int(&i["rel"]) as i64));
                chk!("outbox.released", x.u128(), Some(bitmap(&i["released"])));
            }
        }
    }
    for (k, m) in map(&s["msgs"]) {
        let (p, c) = (key(st(&k["prog"])), int(&k["chain"]) as u16);
        let a = w.get(&msg_key(&p, c, st(&k["id"])));
        match a {
            None => d.push(("msgs".into(), "missing".into())),
            Some(a) => {
                let x = msg_image(c, m);
                if a.owner != p || a.data.len() < x.len() || a.data[..x.len()] != x[..] {
                    d.push(("msgs".into(), "content".into()));
                }
            }
        }
    }
    for (k, i) in map(&s["inbox"]) {
        match acct(&inbox_key(k), "InboxItem", &NTT) {
            None => d.push(("inbox".into(), "missing".into())),
            Some(v) => {
                let mut x = Rd(&v);
                chk!("inbox.init", x.u8(), Some(1));
                let _ = x.u8();
                chk!("inbox.amt", x.u64(), Some(int(&i["amt"]) as u64));
                chk!("inbox.to", x.key(), Some(key(st(&i["to"]))));
                chk!("inbox.votes", x.u128(), Some(bitmap(&i["votes"])));
                let stt = match x.u8() {
                    Some(0) => ("none", 0),
                    Some(1) => ("after", x.i64().unwrap_or(-1)),
                    Some(2) => ("done", 0),
                    _ => ("?", 0),
                };
                chk!("inbox.status", stt.0, st(&i["status"]));
                if stt.0 == "after" && st(&i["status"]) == "after" {
                    chk!("inbox.rel", stt.1 as i128, int(&i["rel"]));
                }
            }
        }
    }
    for u in USERS {
        let a = w.get(&ata(&key(u), &tp)).and_then(|a| read_token(&a.data));
        match (map_str(&s["toks"], u), a) {
            (None, None) => {}
            (Some(t), Some(a)) => {
                chk!("toks.bal", a.amt as i128, int(&t["bal"]));
                let sess = Sess::of(&t["dlg"]);
                let want = if sess.owner.is_empty() { None } else { Some(sess.key()) };
                chk!("toks.dlg", a.dlg, want);
                chk!("toks.allow", if a.dlg.is_some() { a.allow as i128 } else { 0 }, if want.is_some() { int(&t["allow"]) } else { 0 });
                chk!("toks.owner", a.owner, key(u));
            }
            _ => d.push(("toks".into(), format!("existence of {u}"))),
        }
    }
    let cu = w.get(&ata(&token_authority(), &tp)).and_then(|a| read_token(&a.data));
    chk!("custody", cu.as_ref().map_or(0, |a| a.amt as i128), int(&s["custody"]));
    if let Some(c) = cu {
        chk!("custody.dlg", c.dlg, None);
        chk!("custody.owner", c.owner, token_authority());
    }
    let m = w.data(&key("mint"));
    chk!("supply", u64::from_le_bytes(m[36..44].try_into().unwrap()) as i128, int(&s["supply"]));
    chk!("mint.authority", (m[0] == 1).then(|| Pubkey::try_from(&m[4..36]).unwrap()), opt_key(&s["mintAuth"]));
    for (n, amt) in USERS.iter().map(|u| (format!("tok:{u}:2"), 1_000_000u64)).chain([("tok:token_authority:2".to_string(), 1u64 << 62)]) {
        chk!("toks.other", read_token(w.data(&named(&n))).map(|t| t.amt), Some(amt));
    }
    if st(&s["tokKind"]) == "hook" {
        let c = w.data(&hook_counter_key());
        chk!("hooks", u64::from_le_bytes(c[8..16].try_into().unwrap()) as i128, int(&s["hooks"]));
    }
    for p in &PROGS[..2] {
        let q = w.data(&bridge::sequence(&emitter_key(&key(p))));
        let n = if q.len() >= 8 { u64::from_le_bytes(q[..8].try_into().unwrap()) as i128 } else { 0 };
        chk!("seqs", n, map_str(&s["seqs"], p).map_or(0, int));
    }
    let up = match bincode::deserialize::<UpgradeableLoaderState>(w.data(&program_data(&NTT))) {
        Ok(UpgradeableLoaderState::ProgramData { upgrade_authority_address, .. }) => upgrade_authority_address,
        _ => None,
    };
    chk!("upAuth", up, opt_key(&s["upAuth"]));
    let xup = match bincode::deserialize::<UpgradeableLoaderState>(w.data(&program_data(&XCV))) {
        Ok(UpgradeableLoaderState::ProgramData { upgrade_authority_address, .. }) => upgrade_authority_address,
        _ => None,
    };
    chk!("upAuth.other", xup, Some(named("user:mallory")));
    chk!("lut", w.exists(&lut_key()), bo(&s["lut"]));
    d
}

fn check_lut(s: &V, w: &World) -> Option<String> {
    let d = w.data(&lut_key());
    if d.len() < 41 {
        return Some("no lut account".into());
    }
    let lut = Pubkey::try_from(&d[9..41]).ok()?;
    let t = w.data(&lut);
    if t.len() < 56 {
        return Some("lut account does not name a lookup table".into());
    }
    let got: BTreeSet<Pubkey> = t[56..].chunks(32).filter_map(|c| Pubkey::try_from(c).ok()).collect();
    let tp = token_program(s);
    let want: BTreeSet<Pubkey> = [
        NTT, config_key(), ata(&token_authority(), &tp), tp, key("mint"), token_authority(), outrl_key(),
        bridge::config_key(), bridge::fee_collector(), bridge::sequence(&emitter_key(&NTT)), bridge::ID,
        system_program::ID, sysvar::clock::id(), sysvar::rent::id(),
    ]
    .into_iter()
    .collect();
    if want != got {
        return Some(format!(
            "lookup table lacks {:?}, and has beyond the deployment {:?}",
            want.difference(&got).collect::<Vec<_>>(),
            got.difference(&want).collect::<Vec<_>>()
        ));
    }
    let auth = pda(&[b"lut_authority"], &NTT);
    let now = pda(&[auth.as_ref(), &(w.slot - 1).to_le_bytes()], &solana_sdk::address_lookup_table::program::id());
    (lut != now).then(|| "the recorded lookup table is not the one just made".into())
}

/// Replay one ITF trace; returns (step, divergence) pairs.
pub fn replay(trace: &V, stats: &mut Stats, verbose: bool) -> Vec<(usize, Div)> {
    let states = list(&trace["states"]);
    let mut out = vec![];
    let mut w = materialize(&states[0]["s"]);
    for n in 1..states.len() {
        let (s, st2) = (&states[n - 1]["s"], &states[n]);
        let (s2, a) = (&st2["s"], &st2["act"]);
        let name = st(&a["name"]).to_string();
        let errs = strs(&st2["errs"]);
        stats.steps += 1;
        let e = stats.actions.entry(name.clone()).or_default();
        if errs.is_empty() {
            e.0 += 1;
        } else {
            e.1 += 1;
        }
        if errs.len() == 1 {
            *stats.guards.entry(format!("{name}:{}", errs[0])).or_default() += 1;
        }
        if env_step(s, s2, a, &mut w) {
            continue;
        }
        let before = out.len();
        let mut dv = |cat: &'static str, detail: Vec<String>, info: String| {
            out.push((n, Div { cat, action: name.clone(), detail, info }));
        };
        let has_tamper = st(&a["tamper"]["kind"]) != "none";
        // variations first, each on a copy
        for p in set(&st2["probes"]) {
            let pe = strs(&p["errs"]);
            stats.probes += 1;
            let (k, sl, ar) = (st(&p["kind"]), st(&p["slot"]), st(&p["arg"]));
            let lbl = match k {
                "unsign" | "forge" | "swap" | "retype" => format!("{}@{sl}", pe[0]),
                _ => format!("{k}@{sl}"),
            };
            if pe.len() == 1 {
                *stats.guards.entry(format!("{name}:{}", if k == "set" || k == "state" { pe[0].clone() } else { lbl.clone() })).or_default() += 1;
            }
            match probe(s, a, p, n, &w) {
                None => {}
                Some((true, i)) if !pe.is_empty() => {
                    let mut dd = vec![lbl];
                    dd.extend(pe.clone());
                    dv("accept", dd, format!("variation {k} {sl} {ar} {}: {i}", int(&p["i"])))
                }
                Some((false, i)) if pe.is_empty() => {
                    dv("reject", vec![lbl], format!("variation {k} {sl} {ar} {}: {i}", int(&p["i"])))
                }
                _ => {}
            }
        }
        let pre = w.clone();
        let o = exec(s, a, n, &mut w).unwrap_or_else(|| panic!("no instruction for {name}"));
        if verbose {
            eprintln!("{n} {name} expect {errs:?} got {:?}", o.result);
            for l in &o.logs {
                eprintln!("    {l}");
            }
        }
        match (&o.result, errs.is_empty()) {
            (Ok(()), false) => {
                let mut dd: Vec<String> = errs.clone();
                if has_tamper {
                    dd.push(format!("{}@{}", errs.last().unwrap(), st(&a["tamper"]["slot"])));
                }
                dv("accept", dd, "accepted although the specification rejects".into())
            }
            (Err(e), true) => dv("reject", vec![], e.clone()),
            (Err(_), false) => {
                // a rejected transaction changes nothing (the runtime's rollback)
                w = pre.clone();
            }
            (Ok(()), true) => {
                for (f, i) in compare(s2, &w) {
                    dv("state", vec![f], i);
                }
                // Wormhole messages
                let prog = key(st(&a["prog"]));
                let posted: Vec<Pubkey> = w
                    .accounts
                    .iter()
                    .filter(|(k, x)| x.owner == bridge::ID && x.data.starts_with(b"msg") && !pre.accounts.contains_key(k))
                    .map(|(k, _)| *k)
                    .collect();
                let want = segs(&st2["post"]);
                if want.is_empty() {
                    if !posted.is_empty() {
                        dv("state", vec!["post.unexpected".into()], "a Wormhole message was posted".into());
                    }
                } else {
                    let at = if name == "ReleaseOut" { posted_key(&prog, &key(st(&a["item"]))) } else { named(&format!("wmsg:{n}")) };
                    if posted != vec![at] {
                        dv("state", vec!["post.missing".into()], format!("posted {posted:?}, expected {at}"));
                    } else {
                        let m = bridge::decode_posted(w.data(&at)).unwrap();
                        if m.payload != want {
                            dv("state", vec!["post.payload".into()], format!("payload {:02x?} expected {:02x?}", m.payload, want));
                        }
                        if m.emitter != emitter_key(&prog) {
                            dv("state", vec!["post.emitter".into()], "emitter".into());
                        }
                        if m.finality != 1 || m.nonce != 0 {
                            dv("state", vec!["post.finality".into()], format!("finality {} nonce {}", m.finality, m.nonce));
                        }
                    }
                }
                if name == "Mark" {
                    let want = (st(&st2["ret"]) == "true") as u8;
                    if o.return_data.1 != vec![want] {
                        dv("state", vec!["ret".into()], format!("returned {:?}, expected {want}", o.return_data.1));
                    }
                }
                if name == "InitLut" {
                    if let Some(e) = check_lut(s2, &w) {
                        dv("state", vec!["lut.entries".into()], e);
                    }
                    w.slot += 1;
                }
                if name != "InitLut" && pre.data(&lut_key()) != w.data(&lut_key()) {
                    dv("state", vec!["lut".into()], "the recorded lookup table changed".into());
                }
                if let Some(u) = is_user_loss(&pre, &w, &key(st(&a["payer"]))) {
                    dv("state", vec!["lamports".into()], format!("{u} lost lamports"));
                }
                let again = strs(&st2["again"]);
                if !again.is_empty() {
                    stats.probes += 1;
                    let mut w2 = w.clone();
                    if let Some(o) = exec(s2, a, n, &mut w2) {
                        if o.result.is_ok() {
                            let mut dd = vec!["again".to_string()];
                            dd.extend(again);
                            dv("accept", dd, "repeated action accepted".into());
                        }
                    }
                }
            }
        }
        if out.len() > before {
            // continue from what the specification says
            let slot = w.slot;
            w = materialize(s2);
            w.slot = slot + 1;
        }
    }
    out
}
