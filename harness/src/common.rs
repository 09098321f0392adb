//! Shared by the replayers: instructions under construction, results.
use crate::util::*;
use serde_json::Value as V;
use solana_sdk::{
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
};
use std::collections::BTreeMap;

pub fn vaa_image(chain: u16, emitter: &Pubkey, sequence: u64, payload: &[u8]) -> Vec<u8> {
    let mut v = b"vaa".to_vec();
    v.push(1);
    v.push(1);
    v.extend(0u32.to_le_bytes());
    v.extend([0u8; 32]);
    v.extend(0u32.to_le_bytes());
    v.extend(0u32.to_le_bytes());
    v.extend(sequence.to_le_bytes());
    v.extend(chain.to_le_bytes());
    v.extend(emitter.to_bytes());
    v.extend((payload.len() as u32).to_le_bytes());
    v.extend(payload);
    v
}

#[derive(Clone)]
pub struct Ix {
    pub prog: Pubkey,
    pub data: Vec<u8>,
    pub accs: Vec<(&'static str, Pubkey, bool, bool)>,
    pub rest: Vec<AccountMeta>,
}

impl Ix {
    pub fn new(prog: Pubkey, name: &str) -> Self {
        Ix { prog, data: disc("global", name).to_vec(), accs: vec![], rest: vec![] }
    }
    pub fn a(mut self, slot: &'static str, k: Pubkey, signer: bool, writable: bool) -> Self {
        self.accs.push((slot, k, signer, writable));
        self
    }
    pub fn arg(mut self, b: &[u8]) -> Self {
        self.data.extend(b);
        self
    }
    pub fn build(&self) -> Instruction {
        let mut accounts: Vec<AccountMeta> = self
            .accs
            .iter()
            .map(|(_, k, s, w)| AccountMeta { pubkey: *k, is_signer: *s, is_writable: *w })
            .collect();
        accounts.extend(self.rest.clone());
        Instruction { program_id: self.prog, accounts, data: self.data.clone() }
    }
    pub fn slot(&mut self, n: &str) -> &mut (&'static str, Pubkey, bool, bool) {
        self.accs
            .iter_mut()
            .find(|a| a.0 == n)
            .unwrap_or_else(|| panic!("no slot {n}"))
    }
}

pub struct Div {
    pub cat: &'static str, // accept | reject | state
    pub action: String,
    pub detail: Vec<String>,
    pub info: String,
}

pub fn strs(v: &V) -> Vec<String> {
    set(v).iter().map(|x| st(x).to_string()).collect()
}


#[derive(Default, Clone)]
pub struct Stats {
    pub steps: u64,
    pub probes: u64,
    /// action -> (accepted, rejected)
    pub actions: BTreeMap<String, (u64, u64)>,
    /// action:guard -> times it was the only violated guard
    pub guards: BTreeMap<String, u64>,
}
impl Stats {
    pub fn merge(&mut self, o: &Stats) {
        self.steps += o.steps;
        self.probes += o.probes;
        for (k, v) in &o.actions {
            let e = self.actions.entry(k.clone()).or_default();
            e.0 += v.0;
            e.1 += v.1;
        }
        for (k, v) in &o.guards {
            *self.guards.entry(k.clone()).or_default() += v;
        }
    }
}
