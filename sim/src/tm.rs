//! Stub of the Token Metadata program (TransferV1 only) and of SPL token account storage.
//! The bridge relies on its documented contract: the authority signs and owns the source
//! token, the destination is the owner's associated token account, one token moves.

use crate::rt::{m, native_get, native_set, rent_min, Acct, Fail, Meta};
use solana_program::{pubkey, pubkey::Pubkey, system_program};

pub const TM_ID: Pubkey = pubkey!("metaqbxxUerdq28cj1RbAWkYQm3ybzjb6a8bt518x1s");
pub const TOKEN_ID: Pubkey = pubkey!("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA");
pub const ATA_ID: Pubkey = pubkey!("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL");
pub const SYSVAR_IX: Pubkey = solana_program::sysvar::instructions::ID;

pub fn ata(owner: &Pubkey, mint: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[owner.as_ref(), TOKEN_ID.as_ref(), mint.as_ref()], &ATA_ID).0
}
pub fn metadata_pda(mint: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[b"metadata", TM_ID.as_ref(), mint.as_ref()], &TM_ID).0
}
pub fn edition_pda(mint: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[b"metadata", TM_ID.as_ref(), mint.as_ref(), b"edition"], &TM_ID).0
}
pub fn record_pda(mint: &Pubkey, token: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(
        &[b"metadata", TM_ID.as_ref(), mint.as_ref(), b"token_record", token.as_ref()],
        &TM_ID,
    )
    .0
}

pub fn token_data(mint: &Pubkey, owner: &Pubkey, amount: u64) -> Vec<u8> {
    let mut d = vec![0u8; 165];
    d[..32].copy_from_slice(mint.as_ref());
    d[32..64].copy_from_slice(owner.as_ref());
    d[64..72].copy_from_slice(&amount.to_le_bytes());
    d[108] = 1;
    d
}
pub fn token_account(mint: &Pubkey, owner: &Pubkey, amount: u64) -> Acct {
    Acct {
        lamports: rent_min(165),
        data: token_data(mint, owner, amount),
        owner: TOKEN_ID,
        executable: false,
    }
}
pub fn parse_token(a: &Acct) -> Option<(Pubkey, Pubkey, u64)> {
    if a.owner != TOKEN_ID || a.data.len() != 165 {
        return None;
    }
    Some((
        Pubkey::new_from_array(a.data[..32].try_into().unwrap()),
        Pubkey::new_from_array(a.data[32..64].try_into().unwrap()),
        u64::from_le_bytes(a.data[64..72].try_into().unwrap()),
    ))
}

#[derive(Clone, Debug)]
pub struct Meta4 {
    pub update_authority: Pubkey,
    pub mint: Pubkey,
    pub name: String,
    pub symbol: String,
    pub uri: String,
    pub fee: u16,
    pub creators: Option<Vec<(Pubkey, bool, u8)>>,
    pub standard: Option<u8>, // 0 NonFungible, 1 FungibleAsset, 2 Fungible, 3 NFEdition, 4 pNFT
    pub collection: Option<(bool, Pubkey)>,
    pub details: Option<u64>,
    /// What the bridge has no use for: bit 0 not mutable, 1 sold, 2 no nonce, 3 uses, 4 rule set.
    pub odd: u8,
}

pub fn encode_metadata(x: &Meta4) -> Vec<u8> {
    let mut d = vec![4u8];
    d.extend(x.update_authority.as_ref());
    d.extend(x.mint.as_ref());
    let pad = |s: &str, n: usize| {
        let mut v = s.as_bytes().to_vec();
        v.resize(n, 0);
        let mut o = (v.len() as u32).to_le_bytes().to_vec();
        o.extend(v);
        o
    };
    d.extend(pad(&x.name, 32));
    d.extend(pad(&x.symbol, 10));
    d.extend(pad(&x.uri, 200));
    d.extend(x.fee.to_le_bytes());
    match &x.creators {
        None => d.push(0),
        Some(c) => {
            d.push(1);
            d.extend((c.len() as u32).to_le_bytes());
            for (k, v, s) in c {
                d.extend(k.as_ref());
                d.push(*v as u8);
                d.push(*s);
            }
        }
    }
    let odd = |b: u8| x.odd >> b & 1;
    d.push(odd(1)); // primary sale
    d.push(1 - odd(0)); // is mutable
    if odd(2) == 1 {
        d.push(0);
    } else {
        d.extend([1, 254]); // edition nonce
    }
    match x.standard {
        None => d.push(0),
        Some(s) => d.extend([1, s]),
    }
    match &x.collection {
        None => d.push(0),
        Some((v, k)) => {
            d.extend([1, *v as u8]);
            d.extend(k.as_ref());
        }
    }
    if odd(3) == 1 {
        d.extend([1, 1]); // uses: multiple
        d.extend(3u64.to_le_bytes());
        d.extend(5u64.to_le_bytes());
    } else {
        d.push(0);
    }
    match x.details {
        None => d.push(0),
        Some(n) => {
            d.extend([1, 0]);
            d.extend(n.to_le_bytes());
        }
    }
    if odd(4) == 1 {
        d.extend([1, 0, 1]); // programmable config: a rule set
        d.extend([77; 32]);
    } else {
        d.push(0);
    }
    d.resize(679, 0);
    d
}

fn e<T>(s: &str) -> Result<T, Fail> {
    Err(Fail::Runtime(format!("token metadata: {s}")))
}

pub fn process(metas: &[Meta], data: &[u8]) -> Result<(), Fail> {
    if data.len() < 11 || data[0] != 49 || data[1] != 0 || metas.len() < 17 {
        return e("unsupported instruction");
    }
    let amount = u64::from_le_bytes(data[2..10].try_into().unwrap());
    let [tok, towner, dst, downer, mint, md, _ed, rec, drec, auth, payer, sys, sysvar, tp, ap] =
        [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14].map(|i: usize| metas[i]);
    if !auth.signer || !payer.signer {
        return e("authority and payer must sign");
    }
    if sys.key != system_program::ID || tp.key != TOKEN_ID || ap.key != ATA_ID || sysvar.key != SYSVAR_IX {
        return e("wrong program");
    }
    if md.key != metadata_pda(&mint.key) || native_get(&md.key).owner != TM_ID {
        return e("wrong metadata");
    }
    let pnft = {
        let s = &native_get(&md.key).data;
        s.get(PNFT_OFFSET(s)) == Some(&4)
    };
    let Some((tm, to, ta)) = parse_token(&native_get(&tok.key)) else { return e("bad token account") };
    if tm != mint.key || to != towner.key || auth.key != towner.key || ta < amount || amount != 1 {
        return e("not the token owner");
    }
    if dst.key != ata(&downer.key, &mint.key) {
        return e("destination is not the associated token account");
    }
    if pnft {
        if rec.key != record_pda(&mint.key, &tok.key) || drec.key != record_pda(&mint.key, &dst.key) {
            return e("token records required");
        }
        if native_get(&rec.key).owner != TM_ID {
            return e("missing token record");
        }
    }
    let pay = |from: Meta, to: Meta, n: u64| -> Result<(), Fail> {
        let p = native_get(&from.key);
        if p.owner != system_program::ID || !p.data.is_empty() || p.lamports < n {
            return e("payer cannot pay");
        }
        native_set(&from.key, |a| a.lamports -= n);
        native_set(&to.key, |a| a.lamports += n);
        Ok(())
    };
    let d = native_get(&dst.key);
    if d.data.is_empty() {
        pay(payer, dst, rent_min(165).saturating_sub(d.lamports))?;
        native_set(&dst.key, |a| {
            a.owner = TOKEN_ID;
            a.data = token_data(&mint.key, &downer.key, 0);
        });
    }
    let Some((dm, dn, da)) = parse_token(&native_get(&dst.key)) else { return e("bad destination") };
    if dm != mint.key || dn != downer.key {
        return e("bad destination");
    }
    native_set(&tok.key, |a| a.data[64..72].copy_from_slice(&(ta - 1).to_le_bytes()));
    let da = if tok.key == dst.key { ta - 1 } else { da };
    native_set(&dst.key, |a| a.data[64..72].copy_from_slice(&(da + 1).to_le_bytes()));
    if pnft && native_get(&drec.key).data.is_empty() {
        pay(payer, drec, rent_min(80))?;
        native_set(&drec.key, |a| {
            a.owner = TM_ID;
            a.data = vec![11; 80];
        });
    }
    let _ = m;
    Ok(())
}

/// Offset of the token-standard value in an encoded metadata account.
#[allow(non_snake_case)]
fn PNFT_OFFSET(d: &[u8]) -> usize {
    // key, authority, mint, three padded strings, fee, creators, two flags, nonce option
    let mut o = 1 + 64 + (4 + 32) + (4 + 10) + (4 + 200) + 2;
    if d[o] == 1 {
        let n = u32::from_le_bytes(d[o + 1..o + 5].try_into().unwrap()) as usize;
        o += 5 + n * 34;
    } else {
        o += 1;
    }
    o += 2;
    o += 1 + d[o] as usize;
    o + 1
}

/// Reads back an encoded metadata account (the inverse of `encode_metadata`).
pub fn decode_metadata(a: &Acct) -> Option<Meta4> {
    let d = &a.data;
    if d.first() != Some(&4) || d.len() < 400 {
        return None;
    }
    let key = |o: usize| Pubkey::new_from_array(d[o..o + 32].try_into().unwrap());
    let mut o = 65;
    let mut s = || {
        let n = u32::from_le_bytes(d[o..o + 4].try_into().unwrap()) as usize;
        let v = String::from_utf8_lossy(&d[o + 4..o + 4 + n]).trim_end_matches('\0').to_string();
        o += 4 + n;
        v
    };
    let (name, symbol, uri) = (s(), s(), s());
    let fee = u16::from_le_bytes(d[o..o + 2].try_into().unwrap());
    o += 2;
    let creators = if d[o] == 1 {
        let n = u32::from_le_bytes(d[o + 1..o + 5].try_into().unwrap()) as usize;
        o += 5;
        let v = (0..n).map(|i| (key(o + i * 34), d[o + i * 34 + 32] != 0, d[o + i * 34 + 33])).collect();
        o += n * 34;
        Some(v)
    } else {
        o += 1;
        None
    };
    let mut odd = (1 - d[o + 1]) | d[o] << 1 | (1 - d[o + 2]) << 2;
    o += 3 + d[o + 2] as usize;
    let standard = if d[o] == 1 {
        o += 2;
        Some(d[o - 1])
    } else {
        o += 1;
        None
    };
    let collection = if d[o] == 1 {
        let v = (d[o + 1] != 0, key(o + 2));
        o += 34;
        Some(v)
    } else {
        o += 1;
        None
    };
    odd |= d[o] << 3;
    o += 1 + d[o] as usize * 17;
    let details = (d[o] == 1).then(|| u64::from_le_bytes(d[o + 2..o + 10].try_into().unwrap()));
    if d[o] == 1 {
        o += 9;
    }
    odd |= d[o + 1] << 4;
    Some(Meta4 { update_authority: key(1), mint: key(33), name, symbol, uri, fee, creators, standard, collection, details, odd })
}
