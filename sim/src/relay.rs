//! A third-party program of the simulated world (a wallet or marketplace contract): it signs
//! with its derived addresses and calls the asset program, by hand or through the builders.

use crate::enc::{self, Req};
use crate::rt::RELAY_ID;
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program::invoke_signed_unchecked;
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;

/// Derived addresses: `["relay", tag]`, or a raw 32-byte seed (proxied assets).
pub fn pda(tag: u8) -> (Pubkey, u8) {
    Pubkey::find_program_address(&[b"relay", &[tag]], &RELAY_ID)
}
pub fn proxied_pda(seed: &[u8; 32]) -> (Pubkey, u8) {
    Pubkey::find_program_address(&[seed], &RELAY_ID)
}

/// What the relay executes; kept out of band, the instruction data is the index.
pub enum Job {
    Raw { ix: crate::rt::Ix },
    /// forwarded with the interface's own pass-through, as a proxy program does
    Pass { ix: crate::rt::Ix },
    Client(Req),
    Iface(Req),
    /// allocate_and_write! of an extension, as programs do with big payloads
    Upload { asset: Pubkey, payer: Pubkey, ty: u32, data: Vec<u8> },
    /// several calls in one instruction
    Many(Vec<Job>),
}

pub struct Order {
    pub job: Job,
    pub tags: Vec<u8>,
    pub seeds: Vec<[u8; 32]>,
    pub target: Pubkey,
}

static mut ORDERS: Vec<std::rc::Rc<Order>> = Vec::new();

pub fn reset() {
    unsafe { (*std::ptr::addr_of_mut!(ORDERS)).clear() }
}

/// Registers an order and returns the instruction data that runs it.
pub fn order(o: Order) -> Vec<u8> {
    unsafe {
        let v = &mut *std::ptr::addr_of_mut!(ORDERS);
        v.push(std::rc::Rc::new(o));
        ((v.len() - 1) as u32).to_le_bytes().to_vec()
    }
}

pub fn lookup(data: &[u8]) -> Option<std::rc::Rc<Order>> {
    let n = u32::from_le_bytes(data.try_into().ok()?) as usize;
    unsafe { (*std::ptr::addr_of!(ORDERS)).get(n).cloned() }
}

pub fn process<'a>(_id: &'a Pubkey, accounts: &'a [AccountInfo<'a>], data: &[u8]) -> ProgramResult {
    let o = lookup(data).ok_or(ProgramError::InvalidInstructionData)?;
    let program = accounts.iter().find(|x| *x.key == o.target).ok_or(ProgramError::NotEnoughAccountKeys)?;
    let bumps: Vec<[u8; 1]> = o.tags.iter().map(|t| [pda(*t).1]).collect();
    let pbumps: Vec<[u8; 1]> = o.seeds.iter().map(|s| [proxied_pda(s).1]).collect();
    let tags: Vec<[u8; 1]> = o.tags.iter().map(|t| [*t]).collect();
    let mut parts: Vec<Vec<&[u8]>> = vec![];
    for i in 0..o.tags.len() {
        parts.push(vec![b"relay", &tags[i], &bumps[i]]);
    }
    for i in 0..o.seeds.len() {
        parts.push(vec![&o.seeds[i], &pbumps[i]]);
    }
    let seeds: Vec<&[&[u8]]> = parts.iter().map(|p| p.as_slice()).collect();
    run(&o.job, program, accounts, &seeds)
}

fn run<'a>(job: &Job, program: &AccountInfo<'a>, accounts: &'a [AccountInfo<'a>], seeds: &[&[&[u8]]]) -> ProgramResult {
    match job {
        Job::Raw { ix } => {
            let i = Instruction {
                program_id: ix.program,
                accounts: ix
                    .metas
                    .iter()
                    .map(|x| AccountMeta { pubkey: x.key, is_signer: x.signer, is_writable: x.writable })
                    .collect(),
                data: ix.data.clone(),
            };
            invoke_signed_unchecked(&i, accounts, seeds)
        }
        Job::Pass { ix } => {
            let list: Vec<AccountInfo<'a>> = ix
                .metas
                .iter()
                .map(|x| accounts.iter().find(|i| *i.key == x.key).cloned().ok_or(ProgramError::NotEnoughAccountKeys))
                .collect::<Result<_, _>>()?;
            let list: &'a [AccountInfo<'a>] = Box::leak(list.into_boxed_slice());
            nifty_asset_interface::Interface::process_instruction(program.key, list, &ix.data)
        }
        Job::Client(r) => enc::client::cpi(r, program, accounts, seeds, &[], false),
        Job::Iface(r) => enc::iface::cpi(r, program, accounts, seeds, &[], false),
        Job::Upload { asset, payer, ty, data } => crate::upload::run(program, accounts, seeds, asset, payer, *ty, data),
        Job::Many(v) => {
            for j in v {
                run(j, program, accounts, seeds)?;
            }
            Ok(())
        }
    }
}
