//! A small in-process Solana runtime ("mini-SVM").
//!
//! Uses the real transaction/invoke machinery of `solana-program-runtime`
//! (privilege checks, account ownership and read-only rules, lamport balance,
//! call depth, CPI signer derivation) with the repository's programs and the SPL
//! programs registered as native builtins.  Unlike `solana-program-test`, writes a
//! program is not entitled to make are errors instead of being dropped, and a
//! failing CPI or a panic aborts the whole transaction, as on chain.

use solana_program_runtime::{
    compute_budget::ComputeBudget,
    invoke_context::{BuiltinFunctionWithContext, InvokeContext},
    loaded_programs::{LoadedProgram, LoadedProgramsForTxBatch},
    log_collector::LogCollector,
    sysvar_cache::SysvarCache,
    timings::ExecuteTimings,
};
use solana_sdk::{
    account::{Account, AccountSharedData, ReadableAccount},
    account_info::AccountInfo,
    clock::Clock,
    entrypoint::{deserialize, ProcessInstruction, ProgramResult, SUCCESS},
    epoch_schedule::EpochSchedule,
    feature_set::FeatureSet,
    hash::Hash,
    instruction::{Instruction, InstructionError},
    native_loader,
    program_error::UNSUPPORTED_SYSVAR,
    pubkey::Pubkey,
    rent::Rent,
    slot_hashes::SlotHashes,
    stable_layout::stable_instruction::StableInstruction,
    sysvar::{self, Sysvar},
    transaction_context::{IndexOfAccount, InstructionAccount, TransactionContext},
};
use std::{
    cell::{Cell, RefCell},
    collections::BTreeMap,
    panic::{catch_unwind, AssertUnwindSafe},
    rc::Rc,
    sync::Arc,
};

thread_local! {
    static INVOKE_CONTEXT: Cell<usize> = const { Cell::new(0) };
    static RUNTIME: RefCell<Option<Rc<Runtime>>> = const { RefCell::new(None) };
    /// (program, instruction data) of every program invocation in the current tx
    static CALLS: RefCell<Vec<(Pubkey, Vec<u8>)>> = const { RefCell::new(Vec::new()) };
}

fn set_invoke_context(ic: &mut InvokeContext) {
    INVOKE_CONTEXT.with(|c| c.set(ic as *mut InvokeContext as usize));
}

fn get_invoke_context<'a, 'b>() -> &'a mut InvokeContext<'b> {
    let p = INVOKE_CONTEXT.with(|c| c.get());
    assert!(p != 0, "invoke context not set");
    unsafe { &mut *(p as *mut InvokeContext<'b>) }
}

/// Payload of the panic that emulates "a failed CPI aborts the transaction".
pub struct Abort(pub InstructionError);

pub fn invoke_native(
    f: ProcessInstruction,
    ic: &mut InvokeContext,
) -> Result<u64, Box<dyn std::error::Error>> {
    set_invoke_context(ic);
    ic.consume_checked(1)?;

    let (mut parameter_bytes, _regions, _lens) =
        solana_bpf_loader_program::serialization::serialize_parameters(
            ic.transaction_context,
            ic.transaction_context.get_current_instruction_context()?,
            true,
        )?;
    let (program_id, account_infos, data) =
        unsafe { deserialize(&mut parameter_bytes.as_slice_mut()[0] as *mut u8) };

    f(program_id, &account_infos, data).map_err(|err| {
        let err = InstructionError::from(u64::from(err));
        let b: Box<dyn std::error::Error> = Box::new(err);
        b
    })?;

    // A CPI may have replaced the pointer; restore it for this frame.
    set_invoke_context(ic);
    let tc = &ic.transaction_context;
    let ictx = tc.get_current_instruction_context()?;
    for i in 0..ictx.get_number_of_instruction_accounts() {
        if ictx
            .is_instruction_account_duplicate(i)?
            .is_some()
        {
            continue;
        }
        let info = &account_infos[i as usize];
        let mut acc = ictx.try_borrow_instruction_account(tc, i)?;
        if acc.get_lamports() != info.lamports() {
            acc.set_lamports(info.lamports())?;
        }
        if acc.get_data() != &info.data.borrow()[..] {
            acc.set_data_from_slice(&info.data.borrow())?;
        }
        if acc.get_owner() != info.owner {
            acc.set_owner(info.owner.as_ref())?;
        }
    }
    Ok(0)
}

#[macro_export]
macro_rules! native {
    ($f:expr) => {{
        fn shim(
            vm: *mut EbpfVm<InvokeContext<'_>>,
            _a: u64,
            _b: u64,
            _c: u64,
            _d: u64,
            _e: u64,
        ) {
            let vm = unsafe {
                &mut *((vm as *mut u64).offset(-(get_runtime_environment_key() as isize))
                    as *mut EbpfVm<InvokeContext>)
            };
            vm.program_result = invoke_native($f, vm.context_object_pointer)
                .map_err(EbpfError::SyscallError)
                .into();
        }
        shim as BuiltinFunctionWithContext
    }};
}

struct Stubs;

fn put_sysvar<T: Clone>(v: Result<Arc<T>, InstructionError>, p: *mut u8) -> u64 {
    match v {
        Ok(v) => unsafe {
            *(p as *mut T) = T::clone(&v);
            SUCCESS
        },
        Err(_) => UNSUPPORTED_SYSVAR,
    }
}

impl solana_sdk::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, message: &str) {
        let ic = get_invoke_context();
        if let Some(l) = ic.get_log_collector() {
            l.borrow_mut().log(message);
        }
    }
    fn sol_log_compute_units(&self) {}
    fn sol_log_data(&self, _: &[&[u8]]) {}
    fn sol_invoke_signed(
        &self,
        instruction: &Instruction,
        account_infos: &[AccountInfo],
        signers_seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        match cpi(instruction, account_infos, signers_seeds) {
            Ok(()) => Ok(()),
            Err(e) => std::panic::panic_any(Abort(e)),
        }
    }
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        put_sysvar(get_invoke_context().get_sysvar_cache().get_clock(), p)
    }
    fn sol_get_epoch_schedule_sysvar(&self, p: *mut u8) -> u64 {
        put_sysvar(get_invoke_context().get_sysvar_cache().get_epoch_schedule(), p)
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        put_sysvar(get_invoke_context().get_sysvar_cache().get_rent(), p)
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        let (id, data) = get_invoke_context().transaction_context.get_return_data();
        if data.is_empty() {
            None
        } else {
            Some((*id, data.to_vec()))
        }
    }
    fn sol_set_return_data(&self, data: &[u8]) {
        let ic = get_invoke_context();
        let tc = &mut ic.transaction_context;
        let caller = *tc
            .get_current_instruction_context()
            .unwrap()
            .get_last_program_key(tc)
            .unwrap();
        tc.set_return_data(caller, data.to_vec()).unwrap();
    }
    fn sol_get_stack_height(&self) -> u64 {
        get_invoke_context().get_stack_height() as u64
    }
}

fn cpi(
    instruction: &Instruction,
    account_infos: &[AccountInfo],
    signers_seeds: &[&[&[u8]]],
) -> Result<(), InstructionError> {
    let ic = get_invoke_context();
    let me = ic as *mut InvokeContext as usize;
    let stable = StableInstruction::from(instruction.clone());
    let tc = &ic.transaction_context;
    let ictx = tc.get_current_instruction_context()?;
    let caller = *ictx.get_last_program_key(tc)?;
    let mut signers = Vec::with_capacity(signers_seeds.len());
    for seeds in signers_seeds {
        signers.push(
            Pubkey::create_program_address(seeds, &caller)
                .map_err(|_| InstructionError::InvalidSeeds)?,
        );
    }
    let (instruction_accounts, program_indices) = ic.prepare_instruction(&stable, &signers)?;

    let tc = &ic.transaction_context;
    let ictx = tc.get_current_instruction_context()?;
    let mut updates = Vec::with_capacity(instruction_accounts.len());
    for ia in instruction_accounts.iter() {
        let key = tc.get_key_of_account_at_index(ia.index_in_transaction)?;
        let pos = account_infos
            .iter()
            .position(|a| a.key == key)
            .ok_or(InstructionError::MissingAccount)?;
        let info = &account_infos[pos];
        let mut acc = ictx.try_borrow_instruction_account(tc, ia.index_in_caller)?;
        if acc.get_lamports() != info.lamports() {
            acc.set_lamports(info.lamports())?;
        }
        {
            let d = info
                .try_borrow_data()
                .map_err(|_| InstructionError::AccountBorrowFailed)?;
            if acc.get_data() != &d[..] {
                acc.set_data_from_slice(&d)?;
            }
        }
        if acc.get_owner() != info.owner {
            acc.set_owner(info.owner.as_ref())?;
        }
        if ia.is_writable {
            updates.push((ia.index_in_caller, pos));
        }
    }

    CALLS.with(|c| {
        c.borrow_mut()
            .push((instruction.program_id, instruction.data.clone()))
    });
    let mut cu = 0;
    ic.process_instruction(
        &stable.data,
        &instruction_accounts,
        &program_indices,
        &mut cu,
        &mut ExecuteTimings::default(),
    )?;
    INVOKE_CONTEXT.with(|c| c.set(me));

    let tc = &ic.transaction_context;
    let ictx = tc.get_current_instruction_context()?;
    for (index_in_caller, pos) in updates {
        let acc = ictx.try_borrow_instruction_account(tc, index_in_caller)?;
        let info = &account_infos[pos];
        **info
            .try_borrow_mut_lamports()
            .map_err(|_| InstructionError::AccountBorrowFailed)? = acc.get_lamports();
        if info.owner != acc.get_owner() {
            info.assign(acc.get_owner());
        }
        let new = acc.get_data();
        if info.data_len() != new.len() {
            info.realloc(new.len(), false)
                .map_err(|_| InstructionError::InvalidRealloc)?;
        }
        let mut d = info
            .try_borrow_mut_data()
            .map_err(|_| InstructionError::AccountBorrowFailed)?;
        d.copy_from_slice(new);
    }
    Ok(())
}

pub struct Runtime {
    pub programs: LoadedProgramsForTxBatch,
    pub features: Arc<FeatureSet>,
    pub rent: Rent,
}

pub fn install(programs: &[(Pubkey, BuiltinFunctionWithContext)]) {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        solana_sdk::program_stubs::set_syscall_stubs(Box::new(Stubs));
        if std::env::var_os("CONFORM_PANICS").is_none() {
            let default = std::panic::take_hook();
            std::panic::set_hook(Box::new(move |info| {
                // panics while a transaction runs are data, all others are ours
                if INVOKE_CONTEXT.with(|c| c.get()) == 0 {
                    default(info)
                }
            }));
        }
    });
    let mut batch = LoadedProgramsForTxBatch::default();
    for (id, f) in programs {
        batch.replenish(*id, Arc::new(LoadedProgram::new_builtin(0, 0, *f)));
    }
    let rt = Runtime {
        programs: batch,
        features: Arc::new(FeatureSet::all_enabled()),
        rent: Rent::default(),
    };
    RUNTIME.with(|r| *r.borrow_mut() = Some(Rc::new(rt)));
}

pub fn program_account() -> Account {
    Account {
        lamports: 1_000_000,
        data: vec![1],
        owner: native_loader::id(),
        executable: true,
        rent_epoch: 0,
    }
}

#[derive(Clone)]
pub struct World {
    pub accounts: BTreeMap<Pubkey, Account>,
    pub now: i64,
    pub slot: u64,
}

pub struct TxOut {
    pub result: Result<(), String>,
    pub logs: Vec<String>,
    /// every top-level and nested program invocation (program id, data), on success
    pub calls: Vec<(Pubkey, Vec<u8>)>,
    pub return_data: (Pubkey, Vec<u8>),
}

impl World {
    pub fn new() -> Self {
        World {
            accounts: BTreeMap::new(),
            now: 0,
            slot: 1000,
        }
    }

    pub fn get(&self, k: &Pubkey) -> Option<&Account> {
        self.accounts.get(k)
    }
    pub fn lamports(&self, k: &Pubkey) -> u64 {
        self.accounts.get(k).map_or(0, |a| a.lamports)
    }
    pub fn data(&self, k: &Pubkey) -> &[u8] {
        self.accounts.get(k).map_or(&[], |a| &a.data)
    }
    pub fn exists(&self, k: &Pubkey) -> bool {
        self.accounts.get(k).map_or(false, |a| a.lamports > 0)
    }
    pub fn put(&mut self, k: Pubkey, owner: Pubkey, data: Vec<u8>) {
        let lamports = Rent::default().minimum_balance(data.len()).max(1);
        self.accounts.insert(
            k,
            Account {
                lamports,
                data,
                owner,
                executable: false,
                rent_epoch: 0,
            },
        );
    }

    fn clock(&self) -> Clock {
        Clock {
            slot: self.slot,
            epoch_start_timestamp: 0,
            epoch: 0,
            leader_schedule_epoch: 0,
            unix_timestamp: self.now,
        }
    }

    /// Execute one transaction; state changes are kept only if every instruction succeeds.
    pub fn tx(&mut self, ixs: &[Instruction]) -> TxOut {
        let rt = RUNTIME.with(|r| r.borrow().as_ref().expect("runtime").clone());
        let mut keys: Vec<Pubkey> = Vec::new();
        let mut signer: Vec<bool> = Vec::new();
        let mut writable: Vec<bool> = Vec::new();
        let idx = |k: &Pubkey, keys: &mut Vec<Pubkey>, s: &mut Vec<bool>, w: &mut Vec<bool>| {
            if let Some(i) = keys.iter().position(|x| x == k) {
                i
            } else {
                keys.push(*k);
                s.push(false);
                w.push(false);
                keys.len() - 1
            }
        };
        for ix in ixs {
            for m in &ix.accounts {
                let i = idx(&m.pubkey, &mut keys, &mut signer, &mut writable);
                signer[i] |= m.is_signer;
                writable[i] |= m.is_writable;
            }
            idx(&ix.program_id, &mut keys, &mut signer, &mut writable);
        }
        let mut sysvars = SysvarCache::default();
        let clock = self.clock();
        sysvars.set_clock(clock.clone());
        sysvars.set_rent(rt.rent.clone());
        sysvars.set_epoch_schedule(EpochSchedule::default());
        let sh = SlotHashes::new(&[(self.slot - 1, Hash::default()), (self.slot - 2, Hash::default())]);
        sysvars.set_slot_hashes(sh);

        let mut tx_accounts: Vec<(Pubkey, AccountSharedData)> = Vec::with_capacity(keys.len());
        for k in &keys {
            let acc: AccountSharedData = if *k == sysvar::clock::id() {
                mk_sysvar(&clock)
            } else if *k == sysvar::rent::id() {
                mk_sysvar(&rt.rent)
            } else {
                self.accounts
                    .get(k)
                    .cloned()
                    .map(AccountSharedData::from)
                    .unwrap_or_default()
            };
            tx_accounts.push((*k, acc));
        }
        let pre: Vec<AccountSharedData> = tx_accounts.iter().map(|(_, a)| a.clone()).collect();

        let logs = LogCollector::new_ref_with_limit(None);
        let want_logs = LOGS.load(std::sync::atomic::Ordering::Relaxed);
        let budget = ComputeBudget {
            compute_unit_limit: u64::MAX,
            ..ComputeBudget::default()
        };
        let mut tc = TransactionContext::new(
            tx_accounts,
            rt.rent.clone(),
            budget.max_invoke_stack_height,
            budget.max_instruction_trace_length,
        );
        CALLS.with(|c| c.borrow_mut().clear());
        let mut modified = LoadedProgramsForTxBatch::default();
        let res: Result<(), String> = {
            let mut ic = InvokeContext::new(
                &mut tc,
                &sysvars,
                if want_logs { Some(logs.clone()) } else { None },
                budget,
                &rt.programs,
                &mut modified,
                rt.features.clone(),
                Hash::default(),
                0,
            );
            let r = catch_unwind(AssertUnwindSafe(|| {
                for (n, ix) in ixs.iter().enumerate() {
                    let pidx = keys.iter().position(|k| *k == ix.program_id).unwrap();
                    let mut ias: Vec<InstructionAccount> = Vec::with_capacity(ix.accounts.len());
                    for (i, m) in ix.accounts.iter().enumerate() {
                        let it = keys.iter().position(|k| *k == m.pubkey).unwrap();
                        let dup = ix.accounts[..i]
                            .iter()
                            .position(|x| x.pubkey == m.pubkey)
                            .unwrap_or(i);
                        ias.push(InstructionAccount {
                            index_in_transaction: it as IndexOfAccount,
                            index_in_caller: it as IndexOfAccount,
                            index_in_callee: dup as IndexOfAccount,
                            is_signer: signer[it],
                            is_writable: writable[it],
                        });
                    }
                    CALLS.with(|c| c.borrow_mut().push((ix.program_id, ix.data.clone())));
                    let mut cu = 0;
                    ic.process_instruction(
                        &ix.data,
                        &ias,
                        &[pidx as IndexOfAccount],
                        &mut cu,
                        &mut ExecuteTimings::default(),
                    )
                    .map_err(|e| format!("ix {n}: {e:?}"))?;
                }
                Ok::<(), String>(())
            }));
            INVOKE_CONTEXT.with(|c| c.set(0));
            match r {
                Ok(r) => r,
                Err(p) => Err(match p.downcast::<Abort>() {
                    Ok(a) => format!("cpi: {:?}", a.0),
                    Err(p) => match p.downcast::<String>() {
                        Ok(s) => format!("panic: {s}"),
                        Err(p) => match p.downcast::<&'static str>() {
                            Ok(s) => format!("panic: {s}"),
                            Err(_) => "panic".to_string(),
                        },
                    },
                }),
            }
        };
        let mut out = TxOut {
            result: res,
            logs: vec![],
            calls: CALLS.with(|c| std::mem::take(&mut *c.borrow_mut())),
            return_data: {
                let (k, d) = tc.get_return_data();
                (*k, d.to_vec())
            },
        };
        if out.result.is_ok() {
            let post: Vec<AccountSharedData> = (0..keys.len())
                .map(|i| {
                    tc.get_account_at_index(i as IndexOfAccount)
                        .unwrap()
                        .borrow()
                        .clone()
                })
                .collect();
            // rent-state rule of the bank: a written account ends empty or rent exempt
            // (or keeps its size and does not gain lamports)
            for (i, a) in post.iter().enumerate() {
                let p = &pre[i];
                if writable[i]
                    && a.lamports() > 0
                    && !a.data().is_empty()
                    && !rt.rent.is_exempt(a.lamports(), a.data().len())
                    && !(p.data().len() == a.data().len() && p.lamports() >= a.lamports())
                {
                    out.result = Err(format!("account {} not rent exempt", keys[i]));
                }
            }
            if out.result.is_ok() {
                for (i, a) in post.into_iter().enumerate() {
                    if writable[i] {
                        if a.lamports() == 0 {
                            self.accounts.remove(&keys[i]);
                        } else {
                            self.accounts.insert(keys[i], a.into());
                        }
                    }
                }
            }
        }
        if want_logs {
            if let Ok(l) = Rc::try_unwrap(logs) {
                out.logs = l.into_inner().into_messages();
            }
        }
        out
    }
}

pub static LOGS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn mk_sysvar<S: Sysvar + serde_like::Ser>(s: &S) -> AccountSharedData {
    serde_like::mk(s)
}

mod serde_like {
    use super::*;
    pub trait Ser {
        fn bytes(&self) -> Vec<u8>;
    }
    impl Ser for Clock {
        fn bytes(&self) -> Vec<u8> {
            bincode::serialize(self).unwrap()
        }
    }
    impl Ser for Rent {
        fn bytes(&self) -> Vec<u8> {
            bincode::serialize(self).unwrap()
        }
    }
    pub fn mk<S: Ser>(s: &S) -> AccountSharedData {
        AccountSharedData::from(Account {
            lamports: 1_000_000_000,
            data: s.bytes(),
            owner: sysvar::id(),
            executable: false,
            rent_epoch: 0,
        })
    }
}
