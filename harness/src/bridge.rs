//! Stand-in for the Wormhole core bridge: implements `post_message` with the
//! on-chain program's account checks (bridge config, signing message account and
//! emitter, per-emitter sequence, fee collector, fee paid) and account layout.

use solana_sdk::{
    account_info::{next_account_info, AccountInfo},
    entrypoint::ProgramResult,
    program::invoke_signed,
    program_error::ProgramError,
    pubkey::Pubkey,
    rent::Rent,
    system_instruction,
    sysvar::Sysvar,
};

pub const ID: Pubkey = solana_sdk::pubkey!("worm2ZoG2kUd4vFXhvjh93UUH596ayRfgQ2MgjNMTth");

pub fn config_key() -> Pubkey {
    Pubkey::find_program_address(&[b"Bridge"], &ID).0
}
pub fn fee_collector() -> Pubkey {
    Pubkey::find_program_address(&[b"fee_collector"], &ID).0
}
pub fn sequence(emitter: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[b"Sequence", emitter.as_ref()], &ID).0
}

/// guardian_set_index u32, last_lamports u64, expiration u32, fee u64
pub fn config_data(last_lamports: u64, fee: u64) -> Vec<u8> {
    let mut v = vec![];
    v.extend(0u32.to_le_bytes());
    v.extend(last_lamports.to_le_bytes());
    v.extend(86400u32.to_le_bytes());
    v.extend(fee.to_le_bytes());
    v
}

pub struct Posted {
    pub finality: u8,
    pub nonce: u32,
    pub sequence: u64,
    pub emitter: Pubkey,
    pub payload: Vec<u8>,
}

pub fn decode_posted(d: &[u8]) -> Option<Posted> {
    if d.len() < 95 || &d[..3] != b"msg" {
        return None;
    }
    let d = &d[3..];
    let len = u32::from_le_bytes(d[88..92].try_into().ok()?) as usize;
    if d.len() < 92 + len {
        return None;
    }
    Some(Posted {
        finality: d[1],
        nonce: u32::from_le_bytes(d[42..46].try_into().ok()?),
        sequence: u64::from_le_bytes(d[46..54].try_into().ok()?),
        emitter: Pubkey::try_from(&d[56..88]).ok()?,
        payload: d[92..92 + len].to_vec(),
    })
}

pub fn process(program_id: &Pubkey, accounts: &[AccountInfo], data: &[u8]) -> ProgramResult {
    if data.first() != Some(&1) || data.len() < 10 {
        return Err(ProgramError::InvalidInstructionData);
    }
    let nonce = u32::from_le_bytes(data[1..5].try_into().unwrap());
    let len = u32::from_le_bytes(data[5..9].try_into().unwrap()) as usize;
    if data.len() != 9 + len + 1 {
        return Err(ProgramError::InvalidInstructionData);
    }
    let payload = &data[9..9 + len];
    let finality = data[9 + len];

    let it = &mut accounts.iter();
    let config = next_account_info(it)?;
    let message = next_account_info(it)?;
    let emitter = next_account_info(it)?;
    let seq = next_account_info(it)?;
    let payer = next_account_info(it)?;
    let fee_coll = next_account_info(it)?;
    let clock = next_account_info(it)?;
    let _system = next_account_info(it)?;

    if *config.key != config_key() || *fee_coll.key != fee_collector() {
        return Err(ProgramError::Custom(1));
    }
    if !message.is_signer || !emitter.is_signer || !payer.is_signer {
        return Err(ProgramError::MissingRequiredSignature);
    }
    let (seq_key, bump) =
        Pubkey::find_program_address(&[b"Sequence", emitter.key.as_ref()], program_id);
    if *seq.key != seq_key || *clock.key != solana_sdk::sysvar::clock::id() {
        return Err(ProgramError::Custom(2));
    }
    {
        let mut c = config.try_borrow_mut_data()?;
        let last = u64::from_le_bytes(c[4..12].try_into().unwrap());
        let fee = u64::from_le_bytes(c[16..24].try_into().unwrap());
        if fee_coll.lamports() < last + fee {
            return Err(ProgramError::Custom(3)); // InsufficientFees
        }
        c[4..12].copy_from_slice(&fee_coll.lamports().to_le_bytes());
    }
    if message.lamports() > 0 || !message.data_is_empty() {
        return Err(ProgramError::AccountAlreadyInitialized);
    }
    let rent = Rent::get()?;
    let space = 95 + payload.len();
    invoke_signed(
        &system_instruction::create_account(
            payer.key,
            message.key,
            rent.minimum_balance(space),
            space as u64,
            program_id,
        ),
        &[payer.clone(), message.clone()],
        &[],
    )?;
    if seq.data_is_empty() {
        invoke_signed(
            &system_instruction::create_account(
                payer.key,
                seq.key,
                rent.minimum_balance(8),
                8,
                program_id,
            ),
            &[payer.clone(), seq.clone()],
            &[&[b"Sequence", emitter.key.as_ref(), &[bump]]],
        )?;
    }
    let n = {
        let mut s = seq.try_borrow_mut_data()?;
        let n = u64::from_le_bytes(s[..8].try_into().unwrap());
        s[..8].copy_from_slice(&(n + 1).to_le_bytes());
        n
    };
    let mut v = b"msg".to_vec();
    v.push(0);
    v.push(finality);
    v.extend(0u32.to_le_bytes());
    v.extend([0u8; 32]);
    v.extend(0u32.to_le_bytes());
    v.extend(nonce.to_le_bytes());
    v.extend(n.to_le_bytes());
    v.extend(1u16.to_le_bytes());
    v.extend(emitter.key.to_bytes());
    v.extend((payload.len() as u32).to_le_bytes());
    v.extend(payload);
    message.try_borrow_mut_data()?.copy_from_slice(&v);
    Ok(())
}
