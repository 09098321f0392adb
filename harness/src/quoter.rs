//! Binding of spec/quoter.qnt to the ntt-quoter program.
use crate::{
    common::*,
    ntt::{program_data, program_data_image, NTT},
    svm::*,
    util::*,
};
use serde_json::{json, Value as V};
use solana_sdk::{account::Account, bpf_loader_upgradeable, pubkey, pubkey::Pubkey, system_program};
use std::collections::BTreeMap;

pub const ID: Pubkey = pubkey!("NttQuoter1111111111111111111111111111111111");
const LAM: [&str; 4] = ["user:carol", "user:dave", "fee:1", "fee:2"];
const OTHERS: [&str; 5] = ["user:admin", "user:asst", "user:asst2", "user:mallory", "user:eve"];
const PROGS: [&str; 3] = ["prog:ntt", "prog:f1", "prog:f2"];
const S: bool = true;
const W: bool = true;
const R: bool = false;
const N: bool = false;

fn key(n: &str) -> Pubkey {
    match n {
        "default" => Pubkey::default(),
        "prog:ntt" => NTT,
        _ => named(n),
    }
}
fn instance() -> Pubkey {
    pda(&[b"instance"], &ID)
}
fn chain_key(c: u16) -> Pubkey {
    pda(&[b"registered_chain", &c.to_be_bytes()], &ID)
}
fn ntt_key(p: &str) -> Pubkey {
    pda(&[b"registered_ntt", key(p).as_ref()], &ID)
}
fn req_key(item: &str) -> Pubkey {
    pda(&[b"relay_request", key(item).as_ref()], &ID)
}

fn u(v: &V) -> u64 {
    int(v) as u64
}

/// accounts of the quoter that state `s` consists of
fn expected(s: &V) -> BTreeMap<Pubkey, Vec<u8>> {
    let mut m = BTreeMap::new();
    if bo(&s["inited"]) {
        let mut v = disc("account", "Instance").to_vec();
        v.extend(key(st(&s["owner"])).to_bytes());
        v.extend(key(st(&s["asst"])).to_bytes());
        v.extend(key(st(&s["fee"])).to_bytes());
        v.extend(u(&s["sol"]).to_le_bytes());
        m.insert(instance(), v);
    }
    for (k, c) in map(&s["chains"]) {
        let c16 = (int(k) as u16).to_be_bytes();
        let (p, bump) = pda_bump(&[b"registered_chain", &c16], &ID);
        let mut v = disc("account", "RegisteredChain").to_vec();
        v.push(bump);
        for f in ["maxDrop", "base", "native", "gas"] {
            v.extend(u(&c[f]).to_le_bytes());
        }
        m.insert(p, v);
    }
    for (k, c) in map(&s["ntts"]) {
        let id = key(st(k));
        let (p, bump) = pda_bump(&[b"registered_ntt", id.as_ref()], &ID);
        let mut v = disc("account", "RegisteredNtt").to_vec();
        v.push(bump);
        v.push(int(&c["idx"]) as u8);
        v.extend((int(&c["gas"]) as u32).to_le_bytes());
        m.insert(p, v);
    }
    for (k, r) in map(&s["reqs"]) {
        let mut v = disc("account", "RelayRequest").to_vec();
        v.extend(u(&r["drop"]).to_le_bytes());
        m.insert(req_key(st(k)), v);
    }
    m
}

fn item_image(i: &V) -> Vec<u8> {
    let mut v = disc("account", "OutboxItem").to_vec();
    v.extend(12345u64.to_le_bytes());
    v.push(8);
    v.extend(named("user:alice").to_bytes());
    v.extend((int(&i["chain"]) as u16).to_le_bytes());
    v.extend(named("mgr").to_bytes());
    v.extend(named("to").to_bytes());
    v.extend(77i64.to_le_bytes());
    v.extend(bitmap(&i["released"]).to_le_bytes());
    v
}
fn put_item(w: &mut World, k: &str, i: &V) {
    w.put(key(k), key(st(&i["owner"])), item_image(i));
}
fn wallet(w: &mut World, k: Pubkey, lamports: u64) {
    w.accounts.insert(k, Account { lamports, data: vec![], owner: system_program::ID, executable: false, rent_epoch: 0 });
}

fn materialize(s: &V) -> World {
    let mut w = World::new();
    w.now = 1000;
    for x in OTHERS {
        wallet(&mut w, named(x), 1_000_000_000_000);
    }
    for (k, v) in map(&s["lam"]) {
        wallet(&mut w, key(st(k)), u(v));
    }
    for p in [ID, system_program::ID, bpf_loader_upgradeable::id()] {
        w.accounts.insert(p, program_account());
    }
    for p in PROGS {
        w.accounts.insert(key(p), program_account());
    }
    w.put(program_data(&ID), bpf_loader_upgradeable::id(), program_data_image(Some(key(st(&s["up"])))));
    w.put(program_data(&NTT), bpf_loader_upgradeable::id(), program_data_image(Some(key("user:mallory"))));
    for (k, d) in expected(s) {
        w.put(k, ID, d);
    }
    for (k, r) in map(&s["reqs"]) {
        w.accounts.get_mut(&req_key(st(k))).unwrap().lamports = u(&r["lam"]);
    }
    for (k, i) in map(&s["items"]) {
        put_item(&mut w, st(k), i);
    }
    for (k, g) in map(&s["gifts"]) {
        if u(g) > 0 && map_get(&s["reqs"], k).is_none() {
            wallet(&mut w, req_key(st(k)), u(g));
        }
    }
    w
}

fn build(s: &V, a: &V) -> Ix {
    let who = key(st(&a["who"]));
    let to = key(st(&a["to"]));
    let (chain, x, y) = (int(&a["chain"]) as u16, u(&a["x"]), u(&a["y"]));
    let prog = st(&a["prog"]);
    let sys = system_program::ID;
    match st(&a["name"]) {
        "QInit" => Ix::new(ID, "initialize")
            .a("owner", who, S, W)
            .a("instance", instance(), N, W)
            .a("fee_recipient", to, N, R)
            .a("program_data", program_data(&ID), N, W)
            .a("system_program", sys, N, R),
        "QSetFee" => Ix::new(ID, "set_fee_recipient").a("owner", who, S, R).a("instance", instance(), N, W).a("fee_recipient", to, N, R),
        "QSetAsst" => Ix::new(ID, "set_assistant").a("owner", who, S, R).a("instance", instance(), N, W).a(
            "assistant",
            if st(&a["to"]) == "default" { ID } else { to },
            N,
            R,
        ),
        "QRegChain" => Ix::new(ID, "register_chain")
            .a("authority", who, S, W)
            .a("instance", instance(), N, R)
            .a("registered_chain", chain_key(chain), N, W)
            .a("system_program", sys, N, R)
            .arg(&chain.to_le_bytes()),
        "QRegNtt" => Ix::new(ID, "register_ntt")
            .a("authority", who, S, W)
            .a("instance", instance(), N, R)
            .a("registered_ntt", ntt_key(prog), N, W)
            .a("system_program", sys, N, R)
            .arg(key(prog).as_ref())
            .arg(&[x as u8])
            .arg(&(y as u32).to_le_bytes()),
        "QDeregNtt" => Ix::new(ID, "deregister_ntt")
            .a("authority", who, S, W)
            .a("instance", instance(), N, R)
            .a("registered_ntt", ntt_key(prog), N, W)
            .a("system_program", sys, N, R)
            .arg(key(prog).as_ref()),
        "QSol" => Ix::new(ID, "update_sol_price").a("authority", who, S, R).a("instance", instance(), N, W).arg(&x.to_le_bytes()),
        "QPrices" | "QParams" => Ix::new(ID, if st(&a["name"]) == "QPrices" { "update_chain_prices" } else { "update_chain_params" })
            .a("authority", who, S, R)
            .a("instance", instance(), N, R)
            .a("registered_chain", chain_key(chain), N, W)
            .arg(&x.to_le_bytes())
            .arg(&y.to_le_bytes()),
        "QRequest" => {
            let item = st(&a["item"]);
            let i = map_str(&s["items"], item);
            let c = i.map_or(0, |i| int(&i["chain"]) as u16);
            let o = i.map_or("prog:ntt", |i| st(&i["owner"]));
            Ix::new(ID, "request_relay")
                .a("payer", who, S, W)
                .a("instance", instance(), N, R)
                .a("registered_chain", chain_key(c), N, R)
                .a("registered_ntt", ntt_key(o), N, R)
                .a("outbox_item", key(item), N, R)
                .a("relay_request", req_key(item), N, W)
                .a("system_program", sys, N, R)
                .arg(&x.to_le_bytes())
                .arg(&y.to_le_bytes())
        }
        "QClose" => Ix::new(ID, "close_relay")
            .a("authority", who, S, R)
            .a("instance", instance(), N, R)
            .a("fee_recipient", to, N, W)
            .a("relay_request", req_key(st(&a["item"])), N, W)
            .a("system_program", sys, N, R),
        n => panic!("unknown action {n}"),
    }
}

fn tamper(s: &V, x: &mut Ix, w: &mut World, kind: &str, slot: &str, arg: &str) {
    match kind {
        "none" => {}
        "unsign" => x.slot(slot).2 = false,
        // an account of the same program, but of another type
        "retype" => {
            let k = x.slot(slot).1;
            let f = named(&format!("retyped:{slot}"));
            let mut acc = w.get(&k).cloned().unwrap_or_default();
            acc.lamports = acc.lamports.max(1_000_000);
            for b in acc.data.iter_mut().take(8) {
                *b ^= 0x5a;
            }
            w.accounts.insert(f, acc);
            x.slot(slot).1 = f;
        }
        "forge" => {
            let k = x.slot(slot).1;
            let f = named(&format!("forged:{slot}"));
            let mut acc = w.get(&k).cloned().unwrap_or_default();
            acc.owner = named("prog:attacker");
            acc.lamports = acc.lamports.max(1_000_000);
            w.accounts.insert(f, acc);
            x.slot(slot).1 = f;
        }
        "swap" => {
            let me = x.slot(slot).1;
            let k = match (slot, arg) {
                ("registered_chain", "other") => {
                    map(&s["chains"]).map(|(k, _)| chain_key(int(k) as u16)).find(|k| *k != me).expect("another chain")
                }
                ("registered_ntt", "other") => map(&s["ntts"]).map(|(k, _)| ntt_key(st(k))).find(|k| *k != me).expect("another ntt"),
                (_, "registered_ntt") => map(&s["ntts"]).map(|(k, _)| ntt_key(st(k))).next().unwrap_or(named("none")),
                (_, "config") => instance(),
                (_, "program_data:ntt") => {
                    // another program, held by the very same authority
                    let same = w.get(&program_data(&ID)).cloned().unwrap_or_default();
                    w.accounts.insert(program_data(&NTT), same);
                    program_data(&NTT)
                }
                _ => key(arg),
            };
            x.slot(slot).1 = k;
            if arg.starts_with("fresh") {
                // whoever makes up a new account can sign for it
                x.slot(slot).2 = true;
            }
        }
        _ => panic!("tamper kind {kind}"),
    }
}

fn exec(s: &V, a: &V, w: &mut World, t: (&str, &str, &str)) -> TxOut {
    let mut x = build(s, a);
    tamper(s, &mut x, w, t.0, t.1, t.2);
    w.tx(&[x.build()])
}

fn env_step(s2: &V, a: &V, w: &mut World) -> bool {
    match st(&a["name"]) {
        "Item" | "Send" => {
            if let Some(i) = map_str(&s2["items"], st(&a["item"])) {
                put_item(w, st(&a["item"]), i);
            }
        }
        "Gift" => {
            let item = st(&a["item"]);
            if map_str(&s2["reqs"], item).is_none() {
                wallet(w, req_key(item), u(map_str(&s2["gifts"], item).unwrap()));
            }
        }
        _ => return false,
    }
    true
}

fn field(names: &[(&'static str, usize, usize)], got: &[u8], want: &[u8], pre: &str, out: &mut Vec<(String, String)>) {
    for (n, a, b) in names {
        if got.get(*a..*b) != want.get(*a..*b) {
            out.push((format!("{pre}.{n}"), format!("{:02x?} expected {:02x?}", got.get(*a..*b), want.get(*a..*b))));
        }
    }
}

fn compare(s: &V, w: &World) -> Vec<(String, String)> {
    let mut out = vec![];
    let exp = expected(s);
    let kind = |d: &[u8]| {
        ["Instance", "RegisteredChain", "RegisteredNtt", "RelayRequest"]
            .into_iter()
            .find(|n| d.starts_with(&disc("account", n)))
            .unwrap_or("unknown")
    };
    for (k, a) in &w.accounts {
        if a.owner == ID && !a.data.is_empty() && !exp.contains_key(k) {
            out.push((format!("{}.unexpected", kind(&a.data)), format!("account {k}")));
        }
    }
    for (k, d) in &exp {
        let n = kind(d);
        let Some(a) = w.get(k).filter(|a| a.owner == ID) else {
            out.push((format!("{n}.missing"), format!("account {k}")));
            continue;
        };
        let g = &a.data[..];
        if kind(g) != n {
            out.push((format!("{n}.type"), format!("account {k}")));
            continue;
        }
        match n {
            "Instance" => field(&[("owner", 8, 40), ("assistant", 40, 72), ("fee_recipient", 72, 104), ("sol_price", 104, 112)], g, d, n, &mut out),
            // the stored bump is an implementation detail; that the account is usable is
            // checked by using it
            "RegisteredChain" => field(&[("max_gas_dropoff", 9, 17), ("base_price", 17, 25), ("native_price", 25, 33), ("gas_price", 33, 41)], g, d, n, &mut out),
            "RegisteredNtt" => field(&[("index", 9, 10), ("gas_cost", 10, 14)], g, d, n, &mut out),
            _ => field(&[("dropoff", 8, 16)], g, d, n, &mut out),
        }
    }
    for (k, r) in map(&s["reqs"]) {
        let g = w.lamports(&req_key(st(k)));
        if g != u(&r["lam"]) {
            out.push(("request.lamports".into(), format!("{g} expected {}", u(&r["lam"]))));
        }
    }
    for n in LAM {
        let want = map_str(&s["lam"], n).map_or(0, u);
        let g = w.lamports(&key(n));
        if g != want {
            out.push((format!("lamports.{}", if n.starts_with("fee") { "fee_recipient" } else { "payer" }), format!("{n} has {g}, expected {want}")));
        }
    }
    out
}

fn losses(pre: &World, post: &World, who: &Pubkey) -> Option<String> {
    OTHERS.iter().find(|n| named(n) != *who && post.lamports(&named(n)) < pre.lamports(&named(n))).map(|n| n.to_string())
}

pub fn replay(trace: &V, stats: &mut Stats, verbose: bool) -> Vec<(usize, Div)> {
    let states = list(&trace["states"]);
    let mut out = vec![];
    let mut w = materialize(&states[0]["s"]);
    for n in 1..states.len() {
        let (s, st2) = (&states[n - 1]["s"], &states[n]);
        let (s2, a) = (&st2["s"], &st2["act"]);
        let name = st(&a["name"]).to_string();
        let errs = strs(&st2["errs"]);
        stats.steps += 1;
        let e = stats.actions.entry(name.clone()).or_default();
        if errs.is_empty() {
            e.0 += 1;
        } else {
            e.1 += 1;
        }
        if errs.len() == 1 {
            *stats.guards.entry(format!("{name}:{}", errs[0])).or_default() += 1;
        }
        if env_step(s2, a, &mut w) {
            continue;
        }
        let before = out.len();
        let mut dv = |cat: &'static str, detail: Vec<String>, info: String| {
            out.push((n, Div { cat, action: name.clone(), detail, info }));
        };
        for p in set(&st2["probes"]) {
            let pe = strs(&p["errs"]);
            stats.probes += 1;
            let (k, sl, ar) = (st(&p["kind"]), st(&p["slot"]), st(&p["arg"]));
            let mut w2 = w.clone();
            let lbl = if k == "set" { format!("set@{sl}") } else { format!("{}@{sl}", pe[0]) };
            if pe.len() == 1 {
                *stats.guards.entry(format!("{name}:{}", if k == "set" { pe[0].clone() } else { lbl.clone() })).or_default() += 1;
            }
            let r = if k == "set" {
                let mut b = a.clone();
                b[sl] = match sl {
                    "x" | "y" => json!({"#bigint": int(&p["i"]).to_string()}),
                    _ => V::String(ar.to_string()),
                };
                exec(s, &b, &mut w2, ("none", "", ""))
            } else {
                exec(s, a, &mut w2, (k, sl, ar))
            };
            match (&r.result, pe.is_empty()) {
                (Ok(()), false) => {
                    let mut dd = vec![lbl];
                    dd.extend(pe);
                    dv("accept", dd, format!("variation {k} {sl} {ar} {}", int(&p["i"])))
                }
                (Err(e), true) => dv("reject", vec![lbl], format!("variation {k} {sl} {ar} {}: {e}", int(&p["i"]))),
                _ => {}
            }
        }
        let pre = w.clone();
        let t = &a["tamper"];
        let o = exec(s, a, &mut w, (st(&t["kind"]), st(&t["slot"]), st(&t["arg"])));
        if verbose {
            eprintln!("{n} {name} expect {errs:?} got {:?}", o.result);
            for l in &o.logs {
                eprintln!("    {l}");
            }
        }
        match (&o.result, errs.is_empty()) {
            (Ok(()), false) => dv("accept", errs, "accepted although the specification rejects".into()),
            (Err(e), true) => dv("reject", vec![], e.clone()),
            (Err(_), false) => w = pre,
            (Ok(()), true) => {
                for (f, i) in compare(s2, &w) {
                    dv("state", vec![f], i);
                }
                if let Some(l) = losses(&pre, &w, &key(st(&a["who"]))) {
                    dv("state", vec!["lamports.other".into()], format!("{l} lost lamports"));
                }
                let again = strs(&st2["again"]);
                if !again.is_empty() {
                    stats.probes += 1;
                    let mut w2 = w.clone();
                    if exec(s2, a, &mut w2, ("none", "", "")).result.is_ok() {
                        let mut dd = vec!["again".to_string()];
                        dd.extend(again);
                        dv("accept", dd, "repeated action accepted".into());
                    }
                }
            }
        }
        if out.len() > before {
            w = materialize(s2);
        }
    }
    out
}
