//! Calls the libraries directly, one call per step of a behaviour of spec/lib.qnt, and
//! compares the results. A binary of its own: it alone depends on Rust names of the
//! code under test other than the programs' entry points.
#[path = "common.rs"]
#[allow(dead_code)]
mod common;
#[path = "util.rs"]
#[allow(dead_code)]
mod util;

use common::Stats;
use example_native_token_transfers::{bitmap::Bitmap, queue::rate_limit::RateLimitState};
use ntt_messages::{
    chain_id::ChainId,
    mode::Mode,
    ntt::{EmptyPayload, NativeTokenTransfer},
    ntt_manager::NttManagerMessage,
    transceiver::TransceiverMessage,
    transceivers::wormhole::{WormholeTransceiver, WormholeTransceiverInfo, WormholeTransceiverRegistration},
    trimmed_amount::TrimmedAmount,
    utils::maybe_space::MaybeSpace,
};
use serde_json::{json, Value as V};
use std::{cell::Cell, io, panic};
use util::*;
use wormhole_io::{Readable, TypePrefixedPayload, Writeable};

thread_local! { static ADD: Cell<usize> = const { Cell::new(0) }; }

/// An additional payload of any length.
#[derive(Debug, Clone, PartialEq, Eq)]
struct Extra(Vec<u8>);
impl anchor_lang::Space for Extra {
    const INIT_SPACE: usize = 0;
}
impl TypePrefixedPayload for Extra {
    const TYPE: Option<u8> = None;
}
impl Readable for Extra {
    const SIZE: Option<usize> = None;
    fn read<R: io::Read>(r: &mut R) -> io::Result<Self> {
        let mut v = vec![0; ADD.get()];
        r.read_exact(&mut v)?;
        Ok(Extra(v))
    }
}
impl Writeable for Extra {
    fn written_size(&self) -> usize {
        self.0.len()
    }
    fn write<W: io::Write>(&self, w: &mut W) -> io::Result<()> {
        w.write_all(&self.0)
    }
}

fn fill(k: i128, len: usize) -> Vec<u8> {
    (0..len as i128).map(|i| ((k + i * (1 + 2 * (k / 256))) % 256) as u8).collect()
}
fn addr(k: i128) -> [u8; 32] {
    fill(k, 32).try_into().unwrap()
}
fn tm<A: MaybeSpace>(n: &[i128], k: &[i128], add: A) -> TransceiverMessage<WormholeTransceiver, NativeTokenTransfer<A>> {
    TransceiverMessage::new(
        addr(k[0]),
        addr(k[1]),
        NttManagerMessage {
            id: addr(k[2]),
            sender: addr(k[3]),
            payload: NativeTokenTransfer {
                amount: TrimmedAmount { amount: n[1] as u64, decimals: n[0] as u8 },
                source_token: addr(k[4]),
                to_chain: ChainId { id: n[2] as u16 },
                to: addr(k[5]),
                additional_payload: add,
            },
        },
        fill(k[7], n[5] as usize),
    )
}

type Outcome = Result<(bool, Vec<i128>), String>;

/// encode (where the value exists) and decode; Ok((decoded, [])) or a description of what differs
fn codec<T: TypePrefixedPayload + PartialEq + std::fmt::Debug>(value: Option<T>, whole: bool, bytes: &[u8]) -> Outcome {
    if let (Some(v), true) = (&value, whole) {
        let enc = TypePrefixedPayload::to_vec_payload(v);
        if enc != bytes {
            return Err(format!("encoded as {enc:?}, specified {bytes:?}"));
        }
    }
    let mut rd = bytes;
    match <T as TypePrefixedPayload>::read_payload(&mut rd) {
        Err(_) => Ok((false, vec![])),
        Ok(got) => match value {
            Some(v) if whole && got != v => Err(format!("decoded as {got:?}, specified {v:?}")),
            _ if whole && !rd.is_empty() => Err(format!("{} bytes left", rd.len())),
            _ => Ok((true, vec![])),
        },
    }
}

fn run(a: &V, bytes: &[u8]) -> Outcome {
    let n: Vec<i128> = list(&a["n"]).iter().map(int).collect();
    let k: Vec<i128> = list(&a["ks"]).iter().map(int).collect();
    let whole = st(&a["x"]).is_empty();
    let map = |i: usize| Bitmap::from_value((n[i] as u128) << 64 | n[i + 1] as u128);
    let halves = |b: Bitmap| {
        let v = (0..128u8).fold(0u128, |v, i| if b.get(i).unwrap() { v | 1 << i } else { v });
        vec![(v >> 64) as i128, (v as u64) as i128]
    };
    Ok(match st(&a["name"]) {
        "Rescale" => {
            let t = TrimmedAmount { amount: n[0] as u64, decimals: n[1] as u8 };
            let (u, c) = (t.untrim(n[2] as u8), t.change_decimals(n[2] as u8));
            match (u, c) {
                (Ok(u), Ok(c)) if c.amount() == u && c.decimals == n[2] as u8 => (true, vec![u as i128]),
                (Err(_), Err(_)) => (false, vec![]),
                (u, c) => return Err(format!("untrim gives {u:?}, change_decimals {c:?}")),
            }
        }
        "Trim" => match TrimmedAmount::trim(n[0] as u64, n[1] as u8, n[2] as u8) {
            Ok(t) => (true, vec![t.amount() as i128, t.decimals as i128]),
            Err(_) => (false, vec![]),
        },
        "RemoveDust" => {
            let mut amount = n[0] as u64;
            match TrimmedAmount::remove_dust(&mut amount, n[1] as u8, n[2] as u8) {
                Ok(t) => (true, vec![t.amount() as i128, t.decimals as i128, amount as i128]),
                Err(_) => (false, vec![]),
            }
        }
        "Capacity" => {
            let r = RateLimitState { limit: n[0] as u64, capacity_at_last_tx: n[1] as u64, last_tx_timestamp: n[2] as i64 };
            (true, vec![r.capacity_at(n[3] as i64) as i128])
        }
        "BitSet" => {
            let mut b = map(0);
            match b.set(n[2] as u8, n[3] == 1) {
                Ok(()) => (true, halves(b)),
                Err(_) => (false, vec![]),
            }
        }
        "BitGet" => match map(0).get(n[2] as u8) {
            Ok(v) => (true, vec![v as i128]),
            Err(_) => (false, vec![]),
        },
        "BitCount" => (
            true,
            vec![map(0).len() as i128, map(0).is_empty() as i128, map(0).count_enabled_votes(map(2)) as i128],
        ),
        "Message" => {
            if n[3] == 1 {
                ADD.set(n[4] as usize);
                let m = tm(&n, &k, Extra(fill(k[6], n[4] as usize)));
                return codec(Some(m), whole, bytes);
            }
            let m = tm(&n, &k, EmptyPayload {});
            if whole {
                let h = m.ntt_manager_payload.keccak256(ChainId { id: n[2] as u16 });
                let inner = u16::from_be_bytes([bytes[68], bytes[69]]) as usize;
                let e = keccak(&[&(n[2] as u16).to_be_bytes(), &bytes[70..70 + inner]]);
                if h.to_bytes() != e {
                    return Err("the digest differs".into());
                }
            }
            return codec(Some(m), whole, bytes);
        }
        "Info" => {
            let mode = match n[0] {
                0 => Some(Mode::Locking),
                1 => Some(Mode::Burning),
                _ => None,
            };
            let v = mode.map(|manager_mode| WormholeTransceiverInfo {
                manager_address: addr(k[0]),
                manager_mode,
                token_address: addr(k[1]),
                token_decimals: n[1] as u8,
            });
            return codec(v, whole, bytes);
        }
        "Registration" => {
            let v = WormholeTransceiverRegistration { chain_id: ChainId { id: n[0] as u16 }, transceiver_address: addr(k[0]) };
            return codec(Some(v), whole, bytes);
        }
        x => panic!("unknown call {x}"),
    })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if std::env::var_os("CONFORM_LOGS").is_none() {
        panic::set_hook(Box::new(|_| {}));
    }
    let files: Vec<String> = args[3..]
        .iter()
        .flat_map(|a| match a.strip_prefix('@') {
            Some(f) => std::fs::read_to_string(f).expect("list").lines().map(String::from).collect(),
            None => vec![a.clone()],
        })
        .collect();
    let (mut stats, mut divs) = (Stats::default(), vec![]);
    for f in &files {
        let t: V = serde_json::from_slice(&std::fs::read(f).expect("trace file")).expect("trace json");
        for (i, s) in list(&t["states"]).iter().enumerate().skip(1) {
            let (a, r) = (&s["act"], &s["res"]);
            let name = st(&a["name"]).to_string();
            let ok = bo(&r["ok"]);
            let want: Vec<i128> = list(&r["n"]).iter().map(int).collect();
            stats.steps += 1;
            let e = stats.actions.entry(name.clone()).or_default();
            *(if ok { &mut e.0 } else { &mut e.1 }) += 1;
            let bytes = ints(&r["bytes"]);
            let got = panic::catch_unwind(panic::AssertUnwindSafe(|| run(a, &bytes)));
            let d = match got {
                // a panic aborts the transaction: a refusal
                Err(_) if ok => Some(("reject", "panicked".to_string())),
                Err(_) => None,
                Ok(Err(m)) => Some(("state", m)),
                Ok(Ok((true, _))) if !ok => Some(("accept", String::new())),
                Ok(Ok((false, _))) if ok => Some(("reject", String::new())),
                Ok(Ok((true, v))) if v != want => Some(("state", format!("code {v:?}, spec {want:?}"))),
                _ => None,
            };
            if let Some((cat, info)) = d {
                divs.push(json!({"trace": f, "step": i, "cat": cat, "action": format!("Lib{name}"), "detail": ["lib"],
                                 "info": format!("{} {} {}: {info}", a["n"], a["x"], a["at"])}));
            }
        }
    }
    println!("lib: traces {} steps {} divergences {}", files.len(), stats.steps, divs.len());
    let res = json!({
        "traces": files.len(), "steps": stats.steps, "probes": 0,
        "actions": stats.actions.iter().map(|(k, v)| (format!("Lib{k}"), json!({"accepted": v.0, "rejected": v.1}))).collect::<serde_json::Map<_, _>>(),
        "guards": {}, "divergences": divs });
    std::fs::write(&args[2], serde_json::to_string(&res).unwrap()).expect("result file");
}
