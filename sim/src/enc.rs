//! Requests, their documented wire encoding, and the same requests made through every client
//! and interface builder of the repository.

use crate::rt::{m, Ix, Meta};
use crate::spec::{pid, Args, ExtIn};
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;

#[derive(Clone, Debug)]
pub struct Req {
    pub op: u8,
    pub accts: Vec<Option<Pubkey>>,
    pub args: Args,
    /// the optional signer of Create (authority) and Resize (payer) signs
    pub sign: bool,
}

/// (signer, writable, optional); the optional signers are patched in `raw`.
pub const ROLES: [&[(bool, bool, bool)]; 18] = {
    const SW: (bool, bool, bool) = (true, true, false);
    const S: (bool, bool, bool) = (true, false, false);
    const W: (bool, bool, bool) = (false, true, false);
    const N: (bool, bool, bool) = (false, false, false);
    const OW: (bool, bool, bool) = (false, true, true);
    const OS: (bool, bool, bool) = (true, false, true);
    const OSW: (bool, bool, bool) = (true, true, true);
    const O: (bool, bool, bool) = (false, false, true);
    [
        &[SW, W],                     // close
        &[W, SW, OW, OW],             // burn
        &[SW, N, N, OW, OS, OSW, O],  // create
        &[W, S, N],                   // approve
        &[SW, OSW, O],                // allocate
        &[W, S],                      // lock
        &[W, S],                      // revoke
        &[W, S, N, O],                // transfer
        &[W, S],                      // unlock
        &[W, S],                      // unverify
        &[W, S, OW, O, OSW, O],       // update
        &[W, S],                      // verify
        &[SW, SW, N],                 // write
        &[W, W, S],                   // group
        &[W, W, S],                   // ungroup
        &[W, S, S],                   // handover
        &[W, S, O, W],                // remove
        &[W, S, W, O],                // resize
    ]
};

pub fn enc_ext(e: &ExtIn, o: &mut Vec<u8>) {
    o.push(e.ty as u8);
    o.extend(e.length.to_le_bytes());
    match &e.data {
        None => o.push(0),
        Some(d) => {
            o.push(1);
            o.extend((d.len() as u32).to_le_bytes());
            o.extend(d);
        }
    }
}

pub fn enc_args(op: u8, a: &Args) -> Vec<u8> {
    let mut o = vec![op];
    let bytes = |o: &mut Vec<u8>, b: &[u8]| {
        o.extend((b.len() as u32).to_le_bytes());
        o.extend(b);
    };
    match a {
        Args::Unit => {}
        Args::Create { name, standard, mutable, exts } => {
            bytes(&mut o, name);
            o.push(*standard);
            o.push(*mutable as u8);
            match exts {
                None => o.push(0),
                Some(v) => {
                    o.push(1);
                    o.extend((v.len() as u32).to_le_bytes());
                    for e in v {
                        enc_ext(e, &mut o);
                    }
                }
            }
        }
        Args::Delegate(r) => match r {
            None => o.push(0),
            Some(r) => {
                o.push(1);
                bytes(&mut o, r);
            }
        },
        Args::Allocate(e) => enc_ext(e, &mut o),
        Args::Update { name, mutable, ext } => {
            match name {
                None => o.push(0),
                Some(n) => {
                    o.push(1);
                    bytes(&mut o, n);
                }
            }
            match mutable {
                None => o.push(0),
                Some(b) => o.extend([1, *b as u8]),
            }
            match ext {
                None => o.push(0),
                Some(e) => {
                    o.push(1);
                    enc_ext(e, &mut o);
                }
            }
        }
        Args::Write { overwrite, bytes: b } => {
            o.push(*overwrite as u8);
            bytes(&mut o, b);
        }
        Args::Remove(t) => o.push(*t as u8),
        Args::Resize(None) => o.push(0),
        Args::Resize(Some(v)) => {
            o.push(1);
            o.extend(v.to_le_bytes());
        }
    }
    o
}

/// The documented encoding.
pub fn raw(r: &Req) -> Ix {
    let metas: Vec<Meta> = r
        .accts
        .iter()
        .enumerate()
        .map(|(i, k)| {
            let (mut s, w, _) = ROLES[r.op as usize][i];
            if (r.op == 2 && i == 1) || (r.op == 17 && i == 2) {
                s = r.sign;
            }
            match k {
                Some(k) => m(*k, s, w),
                None => m(pid(), false, false),
            }
        })
        .collect();
    Ix { program: pid(), metas, data: enc_args(r.op, &r.args) }
}

/// The request can be expressed by the typed builders.
pub fn expressible(r: &Req) -> bool {
    if r.accts.len() != ROLES[r.op as usize].len() {
        return false;
    }
    for (i, k) in r.accts.iter().enumerate() {
        let opt = ROLES[r.op as usize][i].2;
        if k.is_none() && !opt {
            return false;
        }
        // the sentinel itself is not a usable account
        if *k == Some(pid()) {
            return false;
        }
    }
    match &r.args {
        Args::Create { name, .. } => std::str::from_utf8(name).is_ok(),
        Args::Update { name, .. } => name.as_ref().map(|n| std::str::from_utf8(n).is_ok()).unwrap_or(true),
        _ => true,
    }
}

// Every way the generated types offer to end a request; which one depends only on what is given.
macro_rules! finish {
    ($ix:ident: $($n:ident $b:ident $c:ident $cb:ident),*) => {
        trait Finish {
            fn finish(&mut self, extra: &[AccountMeta]) -> Instruction;
        }
        trait FinishCpi<'a, 'b> {
            fn finish_cpi(&mut self, seeds: &[&[&[u8]]], extra: &[(&'b AccountInfo<'a>, bool, bool)]) -> ProgramResult;
        }
        $(
            impl Finish for $ix::$b {
                fn finish(&mut self, extra: &[AccountMeta]) -> Instruction {
                    if let Some((x, rest)) = extra.split_first() {
                        self.add_remaining_account(x.clone());
                        if !rest.is_empty() {
                            self.add_remaining_accounts(rest);
                        }
                    }
                    self.instruction()
                }
            }
            impl<'a, 'b> FinishCpi<'a, 'b> for $ix::$cb<'a, 'b> {
                fn finish_cpi(&mut self, seeds: &[&[&[u8]]], extra: &[(&'b AccountInfo<'a>, bool, bool)]) -> ProgramResult {
                    if let Some((x, rest)) = extra.split_first() {
                        self.add_remaining_account(x.0, x.1, x.2);
                        if !rest.is_empty() {
                            self.add_remaining_accounts(rest);
                        }
                    }
                    if seeds.is_empty() {
                        self.invoke()
                    } else {
                        self.invoke_signed(seeds)
                    }
                }
            }
            impl<'a, 'b> FinishCpi<'a, 'b> for $ix::$c<'a, 'b> {
                fn finish_cpi(&mut self, seeds: &[&[&[u8]]], extra: &[(&'b AccountInfo<'a>, bool, bool)]) -> ProgramResult {
                    match (seeds.is_empty(), extra.is_empty()) {
                        (true, true) => self.invoke(),
                        (true, false) => self.invoke_with_remaining_accounts(extra),
                        (false, true) => self.invoke_signed(seeds),
                        (false, false) => self.invoke_signed_with_remaining_accounts(seeds, extra),
                    }
                }
            }
        )*
    };
}
macro_rules! plain {
    ($ix:ident: $($n:ident),*) => {
        $(
            impl Finish for $ix::$n {
                fn finish(&mut self, extra: &[AccountMeta]) -> Instruction {
                    if extra.is_empty() {
                        self.instruction()
                    } else {
                        self.instruction_with_remaining_accounts(extra)
                    }
                }
            }
        )*
    };
}
macro_rules! args {
    ($ix:ident: $($n:ident $a:ident),*) => {
        trait FinishArgs<A> {
            fn finish(&mut self, args: A, extra: &[AccountMeta]) -> Instruction;
        }
        $(
            impl FinishArgs<$ix::$a> for $ix::$n {
                fn finish(&mut self, args: $ix::$a, extra: &[AccountMeta]) -> Instruction {
                    if extra.is_empty() {
                        self.instruction(args)
                    } else {
                        self.instruction_with_remaining_accounts(args, extra)
                    }
                }
            }
        )*
    };
}

macro_rules! builders {
    ($name:ident, $krate:ident) => {
        pub mod $name {
            use super::*;
            use $krate::instructions as ix;
            use $krate::types as ty;

            finish!(ix: Close CloseBuilder CloseCpi CloseCpiBuilder, Burn BurnBuilder BurnCpi BurnCpiBuilder, Create CreateBuilder CreateCpi CreateCpiBuilder, Approve ApproveBuilder ApproveCpi ApproveCpiBuilder, Allocate AllocateBuilder AllocateCpi AllocateCpiBuilder, Lock LockBuilder LockCpi LockCpiBuilder, Revoke RevokeBuilder RevokeCpi RevokeCpiBuilder, Transfer TransferBuilder TransferCpi TransferCpiBuilder, Unlock UnlockBuilder UnlockCpi UnlockCpiBuilder, Unverify UnverifyBuilder UnverifyCpi UnverifyCpiBuilder, Update UpdateBuilder UpdateCpi UpdateCpiBuilder, Verify VerifyBuilder VerifyCpi VerifyCpiBuilder, Write WriteBuilder WriteCpi WriteCpiBuilder, Group GroupBuilder GroupCpi GroupCpiBuilder, Ungroup UngroupBuilder UngroupCpi UngroupCpiBuilder, Handover HandoverBuilder HandoverCpi HandoverCpiBuilder, Remove RemoveBuilder RemoveCpi RemoveCpiBuilder, Resize ResizeBuilder ResizeCpi ResizeCpiBuilder);
            plain!(ix: Close, Burn, Lock, Transfer, Unlock, Unverify, Verify, Group, Ungroup, Handover);
            args!(ix: Create CreateInstructionArgs, Approve ApproveInstructionArgs, Allocate AllocateInstructionArgs, Revoke RevokeInstructionArgs, Update UpdateInstructionArgs, Write WriteInstructionArgs, Remove RemoveInstructionArgs, Resize ResizeInstructionArgs);

            pub fn ety(t: u32) -> ty::ExtensionType {
                use ty::ExtensionType::*;
                match t {
                    0 => None,
                    1 => Attributes,
                    2 => Blob,
                    3 => Creators,
                    4 => Links,
                    5 => Metadata,
                    6 => Grouping,
                    7 => Royalties,
                    8 => Manager,
                    9 => Proxy,
                    10 => Properties,
                    _ => Bucket,
                }
            }
            fn ext(e: &ExtIn) -> ty::ExtensionInput {
                ty::ExtensionInput { extension_type: ety(e.ty), length: e.length, data: e.data.clone() }
            }
            fn std_(s: u8) -> ty::Standard {
                match s {
                    0 => ty::Standard::NonFungible,
                    1 => ty::Standard::Managed,
                    2 => ty::Standard::Soulbound,
                    _ => ty::Standard::Proxied,
                }
            }
            fn del(r: &Option<Vec<u8>>) -> ty::DelegateInput {
                match r {
                    None => ty::DelegateInput::All,
                    Some(v) => ty::DelegateInput::Some {
                        roles: v
                            .iter()
                            .map(|r| match r {
                                0 => ty::DelegateRole::None,
                                1 => ty::DelegateRole::Transfer,
                                2 => ty::DelegateRole::Lock,
                                _ => ty::DelegateRole::Burn,
                            })
                            .collect(),
                    },
                }
            }
            fn strat(v: &Option<u16>) -> ty::Strategy {
                match v {
                    None => ty::Strategy::Trim,
                    Some(v) => ty::Strategy::Extend { value: *v },
                }
            }
            fn st(b: &[u8]) -> String {
                String::from_utf8(b.to_vec()).unwrap()
            }

            /// Through the `...Builder` types.
            pub fn build(r: &Req, extra: &[AccountMeta], lazy: bool) -> Ix {
                let a = |i: usize| r.accts[i].unwrap();
                let o = |i: usize| r.accts[i];
                let i = match (r.op, &r.args) {
                    (0, _) => ix::CloseBuilder::new().buffer(a(0)).recipient(a(1)).finish(extra),
                    (1, _) => {
                        ix::BurnBuilder::new().asset(a(0)).signer(a(1)).recipient(o(2)).group(o(3)).finish(extra)
                    }
                    (2, Args::Create { name, standard, mutable, exts }) => {
                        let mut b = ix::CreateBuilder::new();
                        b.asset(a(0))
                            .authority(a(1), r.sign)
                            .owner(a(2))
                            .group(o(3))
                            .group_authority(o(4))
                            .payer(o(5))
                            .system_program(o(6))
                            .name(st(name));
                        // what equals the documented default may be left out
                        if !lazy || *standard != 0 {
                            b.standard(std_(*standard));
                        }
                        if !lazy || !*mutable {
                            b.mutable(*mutable);
                        }
                        if let Some(v) = exts {
                            b.extensions(v.iter().map(ext).collect());
                        }
                        b.finish(extra)
                    }
                    (3, Args::Delegate(d)) => ix::ApproveBuilder::new()
                        .asset(a(0))
                        .owner(a(1))
                        .delegate(a(2))
                        .delegate_input(del(d))
                        .finish(extra),
                    (4, Args::Allocate(e)) => ix::AllocateBuilder::new()
                        .asset(a(0))
                        .payer(o(1))
                        .system_program(o(2))
                        .extension(ext(e))
                        .finish(extra),
                    (5, _) => ix::LockBuilder::new().asset(a(0)).signer(a(1)).finish(extra),
                    (6, Args::Delegate(d)) => {
                        ix::RevokeBuilder::new().asset(a(0)).signer(a(1)).delegate_input(del(d)).finish(extra)
                    }
                    (7, _) => ix::TransferBuilder::new()
                        .asset(a(0))
                        .signer(a(1))
                        .recipient(a(2))
                        .group(o(3))
                        .finish(extra),
                    (8, _) => ix::UnlockBuilder::new().asset(a(0)).signer(a(1)).finish(extra),
                    (9, _) => ix::UnverifyBuilder::new().asset(a(0)).creator(a(1)).finish(extra),
                    (10, Args::Update { name, mutable, ext: e }) => {
                        let mut b = ix::UpdateBuilder::new();
                        b.asset(a(0)).authority(a(1)).buffer(o(2)).group(o(3)).payer(o(4)).system_program(o(5));
                        if let Some(n) = name {
                            b.name(st(n));
                        }
                        if let Some(x) = mutable {
                            b.mutable(*x);
                        }
                        if let Some(e) = e {
                            b.extension(ext(e));
                        }
                        b.finish(extra)
                    }
                    (11, _) => ix::VerifyBuilder::new().asset(a(0)).creator(a(1)).finish(extra),
                    (12, Args::Write { overwrite, bytes }) => {
                        let mut b = ix::WriteBuilder::new();
                        b.asset(a(0)).payer(a(1)).overwrite(*overwrite).bytes(bytes.clone());
                        if !lazy || a(2) != solana_program::system_program::ID {
                            b.system_program(a(2));
                        }
                        b.finish(extra)
                    }
                    (13, _) => ix::GroupBuilder::new().asset(a(0)).group(a(1)).authority(a(2)).finish(extra),
                    (14, _) => ix::UngroupBuilder::new().asset(a(0)).group(a(1)).authority(a(2)).finish(extra),
                    (15, _) => {
                        ix::HandoverBuilder::new().asset(a(0)).authority(a(1)).new_authority(a(2)).finish(extra)
                    }
                    (16, Args::Remove(t)) => ix::RemoveBuilder::new()
                        .asset(a(0))
                        .authority(a(1))
                        .group(o(2))
                        .recipient(a(3))
                        .extension_type(ety(*t))
                        .finish(extra),
                    (17, Args::Resize(s)) => ix::ResizeBuilder::new()
                        .asset(a(0))
                        .authority(a(1))
                        .payer(a(2), r.sign)
                        .system_program(o(3))
                        .strategy(strat(s))
                        .finish(extra),
                    _ => unreachable!(),
                };
                Ix::from(&i)
            }

            /// Through the plain account structs.
            pub fn direct(r: &Req, extra: &[AccountMeta]) -> Ix {
                let a = |i: usize| r.accts[i].unwrap();
                let o = |i: usize| r.accts[i];
                let i = match (r.op, &r.args) {
                    (0, _) => ix::Close { buffer: a(0), recipient: a(1) }.finish(extra),
                    (1, _) => ix::Burn { asset: a(0), signer: a(1), recipient: o(2), group: o(3) }.finish(extra),
                    (2, Args::Create { name, standard, mutable, exts }) => ix::Create {
                        asset: a(0),
                        authority: (a(1), r.sign),
                        owner: a(2),
                        group: o(3),
                        group_authority: o(4),
                        payer: o(5),
                        system_program: o(6),
                    }
                    .finish(ix::CreateInstructionArgs {
                        name: st(name),
                        standard: std_(*standard),
                        mutable: *mutable,
                        extensions: exts.as_ref().map(|v| v.iter().map(ext).collect()),
                    }, extra),
                    (3, Args::Delegate(d)) => ix::Approve { asset: a(0), owner: a(1), delegate: a(2) }
                        .finish(ix::ApproveInstructionArgs { delegate_input: del(d) }, extra),
                    (4, Args::Allocate(e)) => ix::Allocate { asset: a(0), payer: o(1), system_program: o(2) }
                        .finish(ix::AllocateInstructionArgs { extension: ext(e) }, extra),
                    (5, _) => ix::Lock { asset: a(0), signer: a(1) }.finish(extra),
                    (6, Args::Delegate(d)) => ix::Revoke { asset: a(0), signer: a(1) }
                        .finish(ix::RevokeInstructionArgs { delegate_input: del(d) }, extra),
                    (7, _) => {
                        ix::Transfer { asset: a(0), signer: a(1), recipient: a(2), group: o(3) }.finish(extra)
                    }
                    (8, _) => ix::Unlock { asset: a(0), signer: a(1) }.finish(extra),
                    (9, _) => ix::Unverify { asset: a(0), creator: a(1) }.finish(extra),
                    (10, Args::Update { name, mutable, ext: e }) => ix::Update {
                        asset: a(0),
                        authority: a(1),
                        buffer: o(2),
                        group: o(3),
                        payer: o(4),
                        system_program: o(5),
                    }
                    .finish(ix::UpdateInstructionArgs {
                        name: name.as_ref().map(|n| st(n)),
                        mutable: *mutable,
                        extension: e.as_ref().map(ext),
                    }, extra),
                    (11, _) => ix::Verify { asset: a(0), creator: a(1) }.finish(extra),
                    (12, Args::Write { overwrite, bytes }) => {
                        ix::Write { asset: a(0), payer: a(1), system_program: a(2) }
                            .finish(ix::WriteInstructionArgs { overwrite: *overwrite, bytes: bytes.clone() }, extra)
                    }
                    (13, _) => ix::Group { asset: a(0), group: a(1), authority: a(2) }.finish(extra),
                    (14, _) => ix::Ungroup { asset: a(0), group: a(1), authority: a(2) }.finish(extra),
                    (15, _) => {
                        ix::Handover { asset: a(0), authority: a(1), new_authority: a(2) }.finish(extra)
                    }
                    (16, Args::Remove(t)) => {
                        ix::Remove { asset: a(0), authority: a(1), group: o(2), recipient: a(3) }
                            .finish(ix::RemoveInstructionArgs { extension_type: ety(*t) }, extra)
                    }
                    (17, Args::Resize(s)) => ix::Resize {
                        asset: a(0),
                        authority: a(1),
                        payer: (a(2), r.sign),
                        system_program: o(3),
                    }
                    .finish(ix::ResizeInstructionArgs { strategy: strat(s) }, extra),
                    _ => unreachable!(),
                };
                Ix::from(&i)
            }

            /// Through the cross-program builders, from inside a program.
            pub fn cpi<'a, 'b>(
                r: &Req,
                program: &'b AccountInfo<'a>,
                infos: &'b [AccountInfo<'a>],
                seeds: &[&[&[u8]]],
                extra: &[(&'b AccountInfo<'a>, bool, bool)],
                lazy: bool,
            ) -> ProgramResult {
                let f = |k: &Pubkey| infos.iter().find(|x| x.key == k).expect("account given to the relay");
                let a = |i: usize| f(&r.accts[i].unwrap());
                let o = |i: usize| r.accts[i].as_ref().map(|k| f(k));
                match (r.op, &r.args) {
                    (0, _) => ix::CloseCpiBuilder::new(program).buffer(a(0)).recipient(a(1)).finish_cpi(seeds, extra),
                    (1, _) => ix::BurnCpiBuilder::new(program)
                        .asset(a(0))
                        .signer(a(1))
                        .recipient(o(2))
                        .group(o(3))
                        .finish_cpi(seeds, extra),
                    (2, Args::Create { name, standard, mutable, exts }) => {
                        let mut b = ix::CreateCpiBuilder::new(program);
                        b.asset(a(0))
                            .authority(a(1), r.sign)
                            .owner(a(2))
                            .group(o(3))
                            .group_authority(o(4))
                            .payer(o(5))
                            .system_program(o(6))
                            .name(st(name));
                        // what equals the documented default may be left out
                        if !lazy || *standard != 0 {
                            b.standard(std_(*standard));
                        }
                        if !lazy || !*mutable {
                            b.mutable(*mutable);
                        }
                        if let Some(v) = exts {
                            b.extensions(v.iter().map(ext).collect());
                        }
                        b.finish_cpi(seeds, extra)
                    }
                    (3, Args::Delegate(d)) => ix::ApproveCpiBuilder::new(program)
                        .asset(a(0))
                        .owner(a(1))
                        .delegate(a(2))
                        .delegate_input(del(d))
                        .finish_cpi(seeds, extra),
                    (4, Args::Allocate(e)) => ix::AllocateCpiBuilder::new(program)
                        .asset(a(0))
                        .payer(o(1))
                        .system_program(o(2))
                        .extension(ext(e))
                        .finish_cpi(seeds, extra),
                    (5, _) => ix::LockCpiBuilder::new(program).asset(a(0)).signer(a(1)).finish_cpi(seeds, extra),
                    (6, Args::Delegate(d)) => ix::RevokeCpiBuilder::new(program)
                        .asset(a(0))
                        .signer(a(1))
                        .delegate_input(del(d))
                        .finish_cpi(seeds, extra),
                    (7, _) => ix::TransferCpiBuilder::new(program)
                        .asset(a(0))
                        .signer(a(1))
                        .recipient(a(2))
                        .group(o(3))
                        .finish_cpi(seeds, extra),
                    (8, _) => ix::UnlockCpiBuilder::new(program).asset(a(0)).signer(a(1)).finish_cpi(seeds, extra),
                    (9, _) => ix::UnverifyCpiBuilder::new(program).asset(a(0)).creator(a(1)).finish_cpi(seeds, extra),
                    (10, Args::Update { name, mutable, ext: e }) => {
                        let mut b = ix::UpdateCpiBuilder::new(program);
                        b.asset(a(0)).authority(a(1)).buffer(o(2)).group(o(3)).payer(o(4)).system_program(o(5));
                        if let Some(n) = name {
                            b.name(st(n));
                        }
                        if let Some(x) = mutable {
                            b.mutable(*x);
                        }
                        if let Some(e) = e {
                            b.extension(ext(e));
                        }
                        b.finish_cpi(seeds, extra)
                    }
                    (11, _) => ix::VerifyCpiBuilder::new(program).asset(a(0)).creator(a(1)).finish_cpi(seeds, extra),
                    (12, Args::Write { overwrite, bytes }) => ix::WriteCpiBuilder::new(program)
                        .asset(a(0))
                        .payer(a(1))
                        .system_program(a(2))
                        .overwrite(*overwrite)
                        .bytes(bytes.clone())
                        .finish_cpi(seeds, extra),
                    (13, _) => ix::GroupCpiBuilder::new(program)
                        .asset(a(0))
                        .group(a(1))
                        .authority(a(2))
                        .finish_cpi(seeds, extra),
                    (14, _) => ix::UngroupCpiBuilder::new(program)
                        .asset(a(0))
                        .group(a(1))
                        .authority(a(2))
                        .finish_cpi(seeds, extra),
                    (15, _) => ix::HandoverCpiBuilder::new(program)
                        .asset(a(0))
                        .authority(a(1))
                        .new_authority(a(2))
                        .finish_cpi(seeds, extra),
                    (16, Args::Remove(t)) => ix::RemoveCpiBuilder::new(program)
                        .asset(a(0))
                        .authority(a(1))
                        .group(o(2))
                        .recipient(a(3))
                        .extension_type(ety(*t))
                        .finish_cpi(seeds, extra),
                    (17, Args::Resize(s)) => ix::ResizeCpiBuilder::new(program)
                        .asset(a(0))
                        .authority(a(1))
                        .payer(a(2), r.sign)
                        .system_program(o(3))
                        .strategy(strat(s))
                        .finish_cpi(seeds, extra),
                    _ => unreachable!(),
                }
            }

            /// Through the plain cross-program account structs.
            pub fn cpi_direct<'a, 'b>(
                r: &Req,
                program: &'b AccountInfo<'a>,
                infos: &'b [AccountInfo<'a>],
                seeds: &[&[&[u8]]],
                extra: &[(&'b AccountInfo<'a>, bool, bool)],
            ) -> ProgramResult {
                let f = |k: &Pubkey| infos.iter().find(|x| x.key == k).expect("account given to the relay");
                let a = |i: usize| f(&r.accts[i].unwrap());
                let o = |i: usize| r.accts[i].as_ref().map(|k| f(k));
                match (r.op, &r.args) {
                    (0, _) => ix::CloseCpi::new(program, ix::CloseCpiAccounts { buffer: a(0), recipient: a(1) }).finish_cpi(seeds, extra),
                    (1, _) => ix::BurnCpi::new(program, ix::BurnCpiAccounts { asset: a(0), signer: a(1), recipient: o(2), group: o(3) }).finish_cpi(seeds, extra),
                    (2, Args::Create { name, standard, mutable, exts }) => ix::CreateCpi::new(program, ix::CreateCpiAccounts {
                        asset: a(0),
                        authority: (a(1), r.sign),
                        owner: a(2),
                        group: o(3),
                        group_authority: o(4),
                        payer: o(5),
                        system_program: o(6),
                    }, ix::CreateInstructionArgs {
                        name: st(name),
                        standard: std_(*standard),
                        mutable: *mutable,
                        extensions: exts.as_ref().map(|v| v.iter().map(ext).collect()),
                    }).finish_cpi(seeds, extra),
                    (3, Args::Delegate(d)) => ix::ApproveCpi::new(program, ix::ApproveCpiAccounts { asset: a(0), owner: a(1), delegate: a(2) }, ix::ApproveInstructionArgs { delegate_input: del(d) }).finish_cpi(seeds, extra),
                    (4, Args::Allocate(e)) => ix::AllocateCpi::new(program, ix::AllocateCpiAccounts { asset: a(0), payer: o(1), system_program: o(2) }, ix::AllocateInstructionArgs { extension: ext(e) }).finish_cpi(seeds, extra),
                    (5, _) => ix::LockCpi::new(program, ix::LockCpiAccounts { asset: a(0), signer: a(1) }).finish_cpi(seeds, extra),
                    (6, Args::Delegate(d)) => ix::RevokeCpi::new(program, ix::RevokeCpiAccounts { asset: a(0), signer: a(1) }, ix::RevokeInstructionArgs { delegate_input: del(d) }).finish_cpi(seeds, extra),
                    (7, _) => {
                        ix::TransferCpi::new(program, ix::TransferCpiAccounts { asset: a(0), signer: a(1), recipient: a(2), group: o(3) }).finish_cpi(seeds, extra)
                    }
                    (8, _) => ix::UnlockCpi::new(program, ix::UnlockCpiAccounts { asset: a(0), signer: a(1) }).finish_cpi(seeds, extra),
                    (9, _) => ix::UnverifyCpi::new(program, ix::UnverifyCpiAccounts { asset: a(0), creator: a(1) }).finish_cpi(seeds, extra),
                    (10, Args::Update { name, mutable, ext: e }) => ix::UpdateCpi::new(program, ix::UpdateCpiAccounts {
                        asset: a(0),
                        authority: a(1),
                        buffer: o(2),
                        group: o(3),
                        payer: o(4),
                        system_program: o(5),
                    }, ix::UpdateInstructionArgs {
                        name: name.as_ref().map(|n| st(n)),
                        mutable: *mutable,
                        extension: e.as_ref().map(ext),
                    }).finish_cpi(seeds, extra),
                    (11, _) => ix::VerifyCpi::new(program, ix::VerifyCpiAccounts { asset: a(0), creator: a(1) }).finish_cpi(seeds, extra),
                    (12, Args::Write { overwrite, bytes }) => {
                        ix::WriteCpi::new(program, ix::WriteCpiAccounts { asset: a(0), payer: a(1), system_program: a(2) }, ix::WriteInstructionArgs { overwrite: *overwrite, bytes: bytes.clone() }).finish_cpi(seeds, extra)
                    }
                    (13, _) => ix::GroupCpi::new(program, ix::GroupCpiAccounts { asset: a(0), group: a(1), authority: a(2) }).finish_cpi(seeds, extra),
                    (14, _) => ix::UngroupCpi::new(program, ix::UngroupCpiAccounts { asset: a(0), group: a(1), authority: a(2) }).finish_cpi(seeds, extra),
                    (15, _) => {
                        ix::HandoverCpi::new(program, ix::HandoverCpiAccounts { asset: a(0), authority: a(1), new_authority: a(2) }).finish_cpi(seeds, extra)
                    }
                    (16, Args::Remove(t)) => {
                        ix::RemoveCpi::new(program, ix::RemoveCpiAccounts { asset: a(0), authority: a(1), group: o(2), recipient: a(3) }, ix::RemoveInstructionArgs { extension_type: ety(*t) }).finish_cpi(seeds, extra)
                    }
                    (17, Args::Resize(s)) => ix::ResizeCpi::new(program, ix::ResizeCpiAccounts {
                        asset: a(0),
                        authority: a(1),
                        payer: (a(2), r.sign),
                        system_program: o(3),
                    }, ix::ResizeInstructionArgs { strategy: strat(s) }).finish_cpi(seeds, extra),
                    _ => unreachable!(),
                }
            }
        }
    };
}

pub(crate) use finish;

builders!(client, nifty_asset);
builders!(iface, nifty_asset_interface);

/// The encoding an interface builder has to produce: the same, with the asset signing.
pub fn raw_iface(r: &Req) -> Ix {
    let mut i = raw(r);
    i.metas[0].signer = true;
    i
}
