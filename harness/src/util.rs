//! Names, keys, PDAs and ITF values.
use serde_json::Value as V;
use sha2::{Digest, Sha256};
use solana_sdk::pubkey::Pubkey;
use std::{cell::RefCell, collections::HashMap};

pub fn sha256(b: &[u8]) -> [u8; 32] {
    Sha256::digest(b).into()
}
pub fn keccak(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = sha3::Keccak256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}
pub fn disc(ns: &str, name: &str) -> [u8; 8] {
    sha256(format!("{ns}:{name}").as_bytes())[..8]
        .try_into()
        .unwrap()
}

thread_local! {
    static PDAS: RefCell<HashMap<(Vec<Vec<u8>>, Pubkey), (Pubkey, u8)>> = RefCell::new(HashMap::new());
}
pub fn pda_bump(seeds: &[&[u8]], program: &Pubkey) -> (Pubkey, u8) {
    let k = (seeds.iter().map(|s| s.to_vec()).collect::<Vec<_>>(), *program);
    PDAS.with(|m| {
        *m.borrow_mut()
            .entry(k)
            .or_insert_with(|| Pubkey::find_program_address(seeds, program))
    })
}
pub fn pda(seeds: &[&[u8]], program: &Pubkey) -> Pubkey {
    pda_bump(seeds, program).0
}

/// A key that stands for a symbolic name.
pub fn named(n: &str) -> Pubkey {
    Pubkey::from(sha256(format!("ntt-verif:{n}").as_bytes()))
}

// ---- ITF values -----------------------------------------------------------
pub fn int(v: &V) -> i128 {
    if let Some(s) = v.get("#bigint") {
        s.as_str().unwrap().parse().unwrap()
    } else {
        v.as_i64().expect("int") as i128
    }
}
pub fn st(v: &V) -> &str {
    v.as_str().expect("str")
}
pub fn bo(v: &V) -> bool {
    v.as_bool().expect("bool")
}
pub fn set(v: &V) -> &Vec<V> {
    v["#set"].as_array().expect("set")
}
pub fn map(v: &V) -> impl Iterator<Item = (&V, &V)> {
    v["#map"]
        .as_array()
        .expect("map")
        .iter()
        .map(|p| (&p[0], &p[1]))
}
pub fn map_get<'a>(v: &'a V, k: &V) -> Option<&'a V> {
    map(v).find(|(a, _)| *a == k).map(|(_, b)| b)
}
pub fn map_str<'a>(v: &'a V, k: &str) -> Option<&'a V> {
    map(v).find(|(a, _)| a.as_str() == Some(k)).map(|(_, b)| b)
}
pub fn tup(v: &V) -> &Vec<V> {
    v["#tup"].as_array().expect("tup")
}
pub fn list(v: &V) -> &Vec<V> {
    v.as_array().expect("list")
}
pub fn ints(v: &V) -> Vec<u8> {
    list(v).iter().map(|x| int(x) as u8).collect()
}
pub fn int_set(v: &V) -> std::collections::BTreeSet<i128> {
    set(v).iter().map(int).collect()
}
pub fn bitmap(v: &V) -> u128 {
    set(v).iter().fold(0u128, |a, x| a | 1u128 << int(x))
}

// ---- byte cursor ----------------------------------------------------------
pub struct Rd<'a>(pub &'a [u8]);
impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    pub fn u8(&mut self) -> Option<u8> {
        Some(self.take(1)?[0])
    }
    pub fn u16(&mut self) -> Option<u16> {
        Some(u16::from_le_bytes(self.take(2)?.try_into().ok()?))
    }
    pub fn u64(&mut self) -> Option<u64> {
        Some(u64::from_le_bytes(self.take(8)?.try_into().ok()?))
    }
    pub fn i64(&mut self) -> Option<i64> {
        Some(i64::from_le_bytes(self.take(8)?.try_into().ok()?))
    }
    pub fn u128(&mut self) -> Option<u128> {
        Some(u128::from_le_bytes(self.take(16)?.try_into().ok()?))
    }
    pub fn key(&mut self) -> Option<Pubkey> {
        Pubkey::try_from(self.take(32)?).ok()
    }
}
