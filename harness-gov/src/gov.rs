use crate::{common::*, native, svm::*, util::*};
use serde_json::{json, Value as V};
use solana_program_runtime::invoke_context::{BuiltinFunctionWithContext, InvokeContext};
use solana_rbpf::{
    error::EbpfError,
    vm::{get_runtime_environment_key, EbpfVm},
};
use solana_sdk::{
    account::Account, account_info::AccountInfo, entrypoint::ProgramResult, instruction::AccountMeta, program_error::ProgramError,
    pubkey, pubkey::Pubkey, system_program,
};
use std::cell::RefCell;

pub const ID: Pubkey = pubkey!("wgvEiKVzX9yyEoh41jZAdC6JqGUTS4CFXbFGBV5TKdZ");
pub const BRIDGE: Pubkey = pubkey!("worm2ZoG2kUd4vFXhvjh93UUH596ayRfgQ2MgjNMTth");
const USERS: [&str; 3] = ["user:alice", "user:bob", "user:mallory"];
const TARGETS: [&str; 3] = ["target:1", "target:2", "target:fails"];

#[derive(Clone, PartialEq, Debug)]
struct Seen {
    program: Pubkey,
    accs: Vec<(Pubkey, bool, bool)>,
    data: Vec<u8>,
}
thread_local! {
    static SEEN: RefCell<Vec<Seen>> = const { RefCell::new(Vec::new()) };
}

fn gov_entry(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult {
    let a: &'static [AccountInfo<'static>] = unsafe { std::mem::transmute(a) };
    wormhole_governance::entry(p, a, d)
}
/// The governed program: writes down how it was called.
fn target_entry(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult {
    SEEN.with(|s| {
        s.borrow_mut().push(Seen {
            program: *p,
            accs: a.iter().map(|x| (*x.key, x.is_signer, x.is_writable)).collect(),
            data: d.to_vec(),
        })
    });
    if *p == named("target:fails") {
        return Err(ProgramError::Custom(7));
    }
    Ok(())
}

pub fn install() {
    let t = native!(target_entry);
    let mut v: Vec<(Pubkey, BuiltinFunctionWithContext)> =
        vec![(ID, native!(gov_entry)), (system_program::ID, solana_system_program::system_processor::Entrypoint::vm)];
    for n in TARGETS {
        v.push((named(n), t));
    }
    crate::svm::install(&v);
}

fn ascii(s: &str, last: u8) -> Pubkey {
    let mut b = [0u8; 32];
    b[..s.len()].copy_from_slice(s.as_bytes());
    b[31] = last;
    Pubkey::new_from_array(b)
}
fn key(n: &str) -> Pubkey {
    match n {
        "@owner" => ascii("owner", 0),
        "@payer" => ascii("payer", 0),
        "near:owner" => ascii("owner", 1),
        "near:payer" => ascii("payers", 0),
        "gov" => pda(&[b"governance"], &ID),
        "program" => ID,
        "zero" => Pubkey::default(),
        "gov_emitter" => ascii("", 4),
        "gov_emitter+1" => ascii("", 5),
        "gov_emitter^hi" => {
            let mut b = ascii("", 4).to_bytes();
            b[0] = 1;
            Pubkey::new_from_array(b)
        }
        _ => named(n),
    }
}
fn replay_key(chain: u16, emitter: &Pubkey, seq: u64) -> Pubkey {
    pda(&[b"replay", &chain.to_be_bytes(), emitter.as_ref(), &seq.to_be_bytes()], &ID)
}
fn key_of(k: &V) -> Pubkey {
    replay_key(int(&k["chain"]) as u16, &key(st(&k["emitter"])), int(&k["seq"]) as u64)
}
fn data_of(m: &V) -> Vec<u8> {
    let f = int(&m["fill"]) as u64;
    (0..int(&m["len"]) as u64).map(|i| (f + i) as u8).collect()
}
fn payload(m: &V) -> Vec<u8> {
    let mut module = [0u8; 32];
    module[8..].copy_from_slice(b"GeneralPurposeGovernance");
    if int(&m["flip"]) >= 0 {
        module[int(&m["flip"]) as usize] ^= 0x20;
    }
    let mut v = module.to_vec();
    v.push(int(&m["op"]) as u8);
    v.extend((int(&m["chain"]) as u16).to_be_bytes());
    v.extend(key(st(&m["gov"])).to_bytes());
    v.extend(key(st(&m["target"])).to_bytes());
    let accs = list(&m["accs"]);
    v.extend((accs.len() as u16).to_be_bytes());
    for a in accs {
        v.extend(key(st(&a["name"])).to_bytes());
        v.push(if bo(&m["badFlag"]) { 2 } else { bo(&a["sig"]) as u8 });
        v.push(bo(&a["wr"]) as u8);
    }
    let d = data_of(m);
    v.extend((d.len() as u16).to_be_bytes());
    v.extend(d);
    v.truncate(v.len() - int(&m["cut"]) as usize);
    v
}
fn wallet(w: &mut World, k: Pubkey, lamports: u64) {
    w.accounts.insert(k, Account { lamports, data: vec![], owner: system_program::ID, executable: false, rent_epoch: 0 });
}
fn replay_image(k: &V) -> Vec<u8> {
    let b = pda_bump(
        &[b"replay", &(int(&k["chain"]) as u16).to_be_bytes(), key(st(&k["emitter"])).as_ref(), &(int(&k["seq"]) as u64).to_be_bytes()],
        &ID,
    )
    .1;
    let mut v = disc("account", "ReplayProtection").to_vec();
    v.push(b);
    v
}

fn materialize(s: &V) -> World {
    let mut w = World::new();
    for x in USERS {
        wallet(&mut w, named(x), 1_000_000_000_000);
    }
    wallet(&mut w, key("gov"), 5_000_000);
    for p in [ID, system_program::ID] {
        w.accounts.insert(p, program_account());
    }
    for t in TARGETS {
        w.accounts.insert(named(t), program_account());
    }
    for n in ["acct:1", "acct:2", "near:owner", "near:payer"] {
        w.put(key(n), named("target:1"), vec![0; 8]);
    }
    w.put(named("noexec"), system_program::ID, vec![0; 4]);
    for g in set(&s["gifts"]) {
        wallet(&mut w, key_of(g), 2_000_000);
    }
    for k in set(&s["used"]) {
        w.put(key_of(k), ID, replay_image(k));
    }
    w
}

fn build(a: &V, w: &mut World) -> Ix {
    let m = &a["msg"];
    let who = st(&a["who"]);
    let payer = key(who);
    let p = payload(m);
    let em = key(st(&m["emitter"]));
    let (chain, seq) = (int(&m["emChain"]) as u16, int(&m["seq"]) as u64);
    let vaa = named(&format!("vaa:{}", sha256(&[&p[..], em.as_ref(), &chain.to_be_bytes(), &seq.to_be_bytes()].concat()).map(|b| b as char).iter().collect::<String>()));
    w.put(vaa, BRIDGE, vaa_image(chain, &em, seq, &p));
    let mut x = Ix::new(ID, "governance")
        .a("payer", payer, true, true)
        .a("governance", key("gov"), false, true)
        .a("vaa", vaa, false, false)
        .a("program", key(st(&m["target"])), false, false)
        .a("replay", replay_key(chain, &em, seq), false, true)
        .a("system_program", system_program::ID, false, false);
    let signs: Vec<&str> = set(&a["signs"]).iter().map(st).collect();
    let (omit, ro) = (st(&a["omit"]), st(&a["ro"]));
    let mut rest: Vec<AccountMeta> = vec![];
    for acc in list(&m["accs"]) {
        let n = match st(&acc["name"]) {
            "@owner" => "gov",
            "@payer" => who,
            n => n,
        };
        let k = key(n);
        if n == omit || x.accs.iter().any(|s| s.1 == k) && n != "zero" {
            continue;
        }
        let writable = bo(&acc["wr"]) && n != ro;
        match rest.iter_mut().find(|r| r.pubkey == k) {
            Some(r) => r.is_writable |= writable,
            None => rest.push(AccountMeta { pubkey: k, is_signer: signs.contains(&n), is_writable: writable }),
        }
    }
    x.rest = rest;
    x
}

fn exec(a: &V, w: &mut World, t: (&str, &str, &str)) -> TxOut {
    let mut x = build(a, w);
    match t.0 {
        "none" => {}
        "unsign" => x.slot(t.1).2 = false,
        "forge" => {
            let k = x.slot(t.1).1;
            let mut acc = w.get(&k).cloned().unwrap();
            acc.owner = named("prog:attacker");
            let f = named("forged");
            w.accounts.insert(f, acc);
            x.slot(t.1).1 = f;
        }
        _ => {
            let k = match t.2 {
                "vaa" => x.slot("vaa").1,
                "other_seq" => replay_key(1, &key("gov_emitter"), 987_654_321),
                n => key(n),
            };
            x.slot(t.1).1 = k;
            x.slot(t.1).2 = t.2.starts_with("user:") || t.2.starts_with("fresh");
        }
    }
    SEEN.with(|s| s.borrow_mut().clear());
    w.tx(&[x.build()])
}

fn want(calls: &V) -> Vec<Seen> {
    list(calls)
        .iter()
        .map(|c| Seen {
            program: key(st(&c["target"])),
            accs: list(&c["accs"]).iter().map(|a| (key(st(&a["name"])), bo(&a["sig"]), bo(&a["wr"]))).collect(),
            data: data_of(c),
        })
        .collect()
}

pub fn replay(trace: &V, stats: &mut Stats, verbose: bool) -> Vec<(usize, Div)> {
    let states = list(&trace["states"]);
    let mut out = vec![];
    let mut w = materialize(&states[0]["s"]);
    for n in 1..states.len() {
        let st2 = &states[n];
        let (s2, a) = (&st2["s"], &st2["act"]);
        let name = st(&a["name"]).to_string();
        let errs = strs(&st2["errs"]);
        stats.steps += 1;
        let e = stats.actions.entry(name.clone()).or_default();
        if errs.is_empty() {
            e.0 += 1;
        } else {
            e.1 += 1;
        }
        if errs.len() == 1 {
            *stats.guards.entry(format!("{name}:{}", errs[0])).or_default() += 1;
        }
        if name == "Gift" {
            let m = &a["msg"];
            wallet(&mut w, replay_key(int(&m["emChain"]) as u16, &key(st(&m["emitter"])), int(&m["seq"]) as u64), 2_000_000);
            continue;
        }
        let before = out.len();
        let mut dv = |cat: &'static str, detail: Vec<String>, info: String| {
            out.push((n, Div { cat, action: name.clone(), detail, info }));
        };
        for p in set(&st2["probes"]) {
            let pe = strs(&p["errs"]);
            stats.probes += 1;
            let (k, sl, ar) = (st(&p["kind"]), st(&p["slot"]), st(&p["arg"]));
            let mut w2 = w.clone();
            let lbl = if k == "set" { format!("set@{sl}") } else { format!("{}@{sl}", pe[0]) };
            if pe.len() == 1 {
                *stats.guards.entry(format!("{name}:{}", if k == "set" { pe[0].clone() } else { lbl.clone() })).or_default() += 1;
            }
            let r = if k == "set" {
                let mut b = a.clone();
                let big = json!({"#bigint": int(&p["i"]).to_string()});
                match sl {
                    "emChain" | "flip" | "op" | "chain" | "cut" => b["msg"][sl] = big,
                    "emitter" | "gov" | "target" => b["msg"][sl] = V::String(ar.into()),
                    "badFlag" => b["msg"][sl] = V::Bool(true),
                    "signs" => b["signs"] = json!({"#set": []}),
                    _ => b[sl] = V::String(ar.into()),
                }
                exec(&b, &mut w2, ("none", "", ""))
            } else {
                exec(a, &mut w2, (k, sl, ar))
            };
            match (&r.result, pe.is_empty()) {
                (Ok(()), false) => {
                    let mut dd = vec![lbl];
                    dd.extend(pe);
                    dv("accept", dd, format!("variation {k} {sl} {ar} {}", int(&p["i"])))
                }
                (Err(e), true) => dv("reject", vec![lbl], format!("variation {k} {sl} {ar} {}: {e}", int(&p["i"]))),
                _ => {}
            }
        }
        let pre = w.clone();
        let o = exec(a, &mut w, ("none", "", ""));
        let seen = SEEN.with(|s| s.borrow().clone());
        if verbose {
            eprintln!("{n} {name} expect {errs:?} got {:?}", o.result);
            for l in &o.logs {
                eprintln!("    {l}");
            }
        }
        match (&o.result, errs.is_empty()) {
            (Ok(()), false) => dv("accept", errs, "accepted although the specification rejects".into()),
            (Err(e), true) => dv("reject", vec![], e.clone()),
            (Err(_), false) => w = pre,
            (Ok(()), true) => {
                let exp = want(&st2["calls"]);
                if seen != exp {
                    dv("state", vec!["call".into()], format!("called {seen:?}, expected {exp:?}"));
                }
                let used: std::collections::BTreeSet<Pubkey> = set(&s2["used"]).iter().map(key_of).collect();
                for k in &used {
                    if w.get(k).map_or(true, |x| x.owner != ID) {
                        dv("state", vec!["replay.missing".into()], format!("{k}"));
                    }
                }
                for (k, x) in &w.accounts {
                    if x.owner == ID && !used.contains(k) {
                        dv("state", vec!["replay.unexpected".into()], format!("{k}"));
                    }
                }
                for u in USERS.iter().map(|u| named(u)).chain([key("gov")]) {
                    if u != key(st(&a["who"])) && w.lamports(&u) < pre.lamports(&u) {
                        dv("state", vec!["lamports".into()], format!("{u} lost lamports"));
                    }
                }
                let again = strs(&st2["again"]);
                if !again.is_empty() {
                    stats.probes += 1;
                    let mut w2 = w.clone();
                    if exec(a, &mut w2, ("none", "", "")).result.is_ok() {
                        let mut dd = vec!["again".to_string()];
                        dd.extend(again);
                        dv("accept", dd, "repeated message accepted".into());
                    }
                }
            }
        }
        if out.len() > before {
            w = materialize(s2);
        }
    }
    out
}
