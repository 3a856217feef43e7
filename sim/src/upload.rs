//! On-chain upload through the client crate's `allocate_and_write!`.

use crate::enc::client::ety;
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;

pub fn run<'a>(
    program: &AccountInfo<'a>,
    infos: &'a [AccountInfo<'a>],
    seeds: &[&[&[u8]]],
    asset: &Pubkey,
    payer: &Pubkey,
    ty: u32,
    data: &[u8],
) -> ProgramResult {
    let f = |k: &Pubkey| infos.iter().find(|x| x.key == k).ok_or(ProgramError::NotEnoughAccountKeys);
    let (asset, payer) = (f(asset)?, f(payer)?);
    let system = f(&solana_program::system_program::ID)?;
    // one of the two client paths, by the parity of the payload, so both stay exercised
    if data.len() <= 900 && data.len() % 2 == 0 {
        let accounts = nifty_asset::instructions::AllocateCpiAccounts {
            asset,
            payer: Some(payer),
            system_program: Some(system),
        };
        let d = if data.len() % 4 == 0 {
            #[allow(unused_mut)]
            let mut v: Vec<u8> = {
                #[allow(unused_mut, unused_variables)]
                let x = nifty_asset::allocate_instruction_data!(ety(ty), data.len(), data);
                x
            };
            v
        } else {
            #[allow(unused_mut)]
            let mut v: Vec<u8> = {
                #[allow(unused_mut, unused_variables)]
                let x = nifty_asset::allocate_instruction_data!(ety(ty), data.len() / 2 + 7);
                x
            };
            v.extend_from_slice(data);
            nifty_asset::allocate_update_data_length!(data.len(), v);
            v
        };
        if seeds.is_empty() {
            return accounts.invoke(program, d);
        }
        return accounts.invoke_signed(program, d, seeds);
    }
    nifty_asset::allocate_and_write!(program, asset, payer, system, ety(ty), data, seeds);
    Ok(())
}
