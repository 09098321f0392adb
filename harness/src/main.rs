mod bridge;
mod common;
mod drive;
mod ntt;
mod quoter;
mod svm;
mod util;

use solana_program_runtime::invoke_context::{BuiltinFunctionWithContext, InvokeContext};
use solana_rbpf::{
    error::EbpfError,
    vm::{get_runtime_environment_key, EbpfVm},
};
use solana_sdk::{account_info::AccountInfo, entrypoint::ProgramResult, pubkey::Pubkey};
use svm::*;

macro_rules! anchor_entry {
    ($name:ident, $krate:ident) => {
        fn $name(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult {
            // anchor wants one lifetime for the slice and its elements
            let a: &'static [AccountInfo<'static>] = unsafe { std::mem::transmute(a) };
            $krate::entry(p, a, d)
        }
    };
}
anchor_entry!(ntt_entry, example_native_token_transfers);
anchor_entry!(xcv_entry, ntt_transceiver);
anchor_entry!(hook_entry, dummy_transfer_hook);
anchor_entry!(quoter_entry, ntt_quoter);

/// A program that accepts anything and does nothing.
fn yes_entry(_: &Pubkey, _: &[AccountInfo], _: &[u8]) -> ProgramResult {
    Ok(())
}

fn install_programs() {
    let yes = native!(yes_entry);
    let mut v: Vec<(Pubkey, BuiltinFunctionWithContext)> = vec![
        (ntt::NTT, native!(ntt_entry)),
        (ntt::XCV, native!(xcv_entry)),
        (ntt::HOOK, native!(hook_entry)),
        (quoter::ID, native!(quoter_entry)),
        (bridge::ID, native!(bridge::process)),
        (spl_token::ID, native!(spl_token::processor::Processor::process)),
        (spl_token_2022::ID, native!(spl_token_2022::processor::Processor::process)),
        (
            spl_associated_token_account::ID,
            native!(spl_associated_token_account::processor::process_instruction),
        ),
        (
            solana_sdk::system_program::ID,
            solana_system_program::system_processor::Entrypoint::vm,
        ),
        (
            solana_sdk::bpf_loader_upgradeable::id(),
            solana_bpf_loader_program::Entrypoint::vm,
        ),
        (
            solana_sdk::address_lookup_table::program::id(),
            solana_address_lookup_table_program::processor::Entrypoint::vm,
        ),
    ];
    for n in ["fake_token_program", "prog:f1", "prog:f2", "prog:f3"] {
        v.push((util::named(n), yes));
    }
    svm::install(&v);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(String::as_str) {
        Some("ntt") => drive::run(&args[2], &args[3..], install_programs, ntt::replay),
        Some("quoter") => drive::run(&args[2], &args[3..], install_programs, quoter::replay),
        _ => {
            eprintln!("usage: conform ntt|quoter OUT.json TRACE.itf.json...|@LIST");
            std::process::exit(2);
        }
    }
}
