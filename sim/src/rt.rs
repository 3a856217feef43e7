//! The simulated Solana runtime: accounts database, transaction execution, cross-program
//! invocation, account access rules, system program, sysvars, and the fault points.
//!
//! One worker process is single threaded; every decision comes from the caller, so an
//! execution is a pure function of the database, the transaction and the fault plan.

use solana_program::{
    account_info::AccountInfo, clock::Clock, entrypoint::ProgramResult, instruction::Instruction,
    program_error::ProgramError, pubkey::Pubkey, rent::Rent, system_program,
};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};

pub const GROW: usize = 10240;

/// Progress counter read by the watchdog thread.
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
/// What code is running: a request of the asset program (0..=17), or a place (see `main::blame`).
pub static NOW: AtomicU64 = AtomicU64::new(999);

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Acct {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
    pub executable: bool,
}

impl Acct {
    pub fn empty() -> Self {
        Acct { lamports: 0, data: vec![], owner: system_program::ID, executable: false }
    }
    pub fn wallet(lamports: u64) -> Self {
        Acct { lamports, ..Acct::empty() }
    }
    pub fn program() -> Self {
        Acct {
            lamports: 1_141_440,
            data: vec![1; 36],
            owner: solana_program::bpf_loader_upgradeable::ID,
            executable: true,
        }
    }
}

#[derive(Clone, Default)]
pub struct Db {
    pub map: BTreeMap<Pubkey, Rc<Acct>>,
}

impl Db {
    pub fn get(&self, k: &Pubkey) -> Rc<Acct> {
        self.map.get(k).cloned().unwrap_or_else(|| Rc::new(Acct::empty()))
    }
    pub fn set(&mut self, k: Pubkey, a: Acct) {
        self.map.insert(k, Rc::new(a));
    }
    pub fn lamports(&self) -> u128 {
        self.map.values().map(|a| a.lamports as u128).sum()
    }
}

pub fn rent_min(len: usize) -> u64 {
    Rent::default().minimum_balance(len)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Meta {
    pub key: Pubkey,
    pub signer: bool,
    pub writable: bool,
}

pub fn m(key: Pubkey, signer: bool, writable: bool) -> Meta {
    Meta { key, signer, writable }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ix {
    pub program: Pubkey,
    pub metas: Vec<Meta>,
    pub data: Vec<u8>,
}

impl From<&Instruction> for Ix {
    fn from(i: &Instruction) -> Self {
        Ix {
            program: i.program_id,
            metas: i.accounts.iter().map(|a| m(a.pubkey, a.is_signer, a.is_writable)).collect(),
            data: i.data.clone(),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fail {
    Program(u64),
    Panic(String),
    Runtime(String),
    Inner,
    Fault,
}

#[derive(Clone, Debug)]
pub struct FrameEvent {
    pub program: Pubkey,
    pub height: usize,
    pub parent: Option<usize>,
    pub ix_index: usize,
    /// Effective (merged) flags, one entry per position.
    pub metas: Vec<Meta>,
    pub data: Vec<u8>,
    pub pre: BTreeMap<Pubkey, Rc<Acct>>,
    pub post: BTreeMap<Pubkey, Rc<Acct>>,
    pub result: Result<(), Fail>,
    /// An injected fault fired in this frame or in one it called.
    pub faulted: bool,
}

#[derive(Clone, Debug)]
pub struct TxResult {
    pub result: Result<(), (usize, Fail)>,
    pub events: Vec<FrameEvent>,
    pub stub_calls: u64,
}

struct FrameAcct {
    key: Pubkey,
    off: usize,
    signer: bool,
    writable: bool,
    orig_len: usize,
}

struct Frame {
    program: Pubkey,
    event: usize,
    buf: Vec<u128>,
    /// unique accounts
    accts: Vec<FrameAcct>,
    lamport_sum: u128,
}

impl Frame {
    fn base(&mut self) -> *mut u8 {
        self.buf.as_mut_ptr() as *mut u8
    }
    fn find(&self, k: &Pubkey) -> Option<usize> {
        self.accts.iter().position(|a| a.key == *k)
    }
}

pub struct Ctx {
    pub db: Db,
    frames: Vec<Frame>,
    pub events: Vec<FrameEvent>,
    pub clock: i64,
    pub slot: u64,
    pub fault_at: Option<u64>,
    pub stub_calls: u64,
    pub faulted: bool,
    ix_index: usize,
    pub relay_note: Vec<u8>,
}

static mut CTX: *mut Ctx = std::ptr::null_mut();

fn ctx() -> &'static mut Ctx {
    unsafe {
        assert!(!CTX.is_null(), "no simulation context");
        &mut *CTX
    }
}

/// Payload used to unwind out of a program when the whole transaction aborts.
struct AbortTx(Fail);

fn fault_point() {
    let c = ctx();
    c.stub_calls += 1;
    if let Some(n) = c.fault_at {
        if c.stub_calls == n {
            c.faulted = true;
            std::panic::panic_any(AbortTx(Fail::Fault));
        }
    }
}

struct Stubs;

impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _message: &str) {
        if unsafe { !CTX.is_null() } {
            fault_point();
        }
    }
    fn sol_log_compute_units(&self) {}
    fn sol_get_clock_sysvar(&self, var_addr: *mut u8) -> u64 {
        fault_point();
        let c = ctx();
        unsafe {
            *(var_addr as *mut Clock) = Clock {
                slot: c.slot,
                epoch_start_timestamp: c.clock,
                epoch: 1,
                leader_schedule_epoch: 1,
                unix_timestamp: c.clock,
            };
        }
        0
    }
    fn sol_get_rent_sysvar(&self, var_addr: *mut u8) -> u64 {
        if unsafe { !CTX.is_null() } {
            fault_point();
        }
        unsafe {
            *(var_addr as *mut Rent) = Rent::default();
        }
        0
    }
    fn sol_get_stack_height(&self) -> u64 {
        ctx().frames.len() as u64
    }
    fn sol_invoke_signed(
        &self,
        instruction: &Instruction,
        account_infos: &[AccountInfo],
        signers_seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        unsafe {
            if let Some(v) = (*std::ptr::addr_of_mut!(CAPTURE)).as_mut() {
                v.push((instruction.into(), account_infos.iter().map(|x| *x.key).collect(), signers_seeds.len()));
                return Ok(());
            }
        }
        fault_point();
        cpi(instruction, account_infos, signers_seeds);
        Ok(())
    }
    fn sol_set_return_data(&self, _data: &[u8]) {}
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        None
    }
}

/// A cross-program call as requested: the instruction, the accounts handed over, signing groups.
pub type Call = (Ix, Vec<Pubkey>, usize);
static mut CAPTURE: Option<Vec<Call>> = None;

/// Records the cross-program calls that `f` requests, without executing them.
pub fn capture<T>(f: impl FnOnce() -> T) -> (Vec<Call>, Option<T>) {
    unsafe {
        *std::ptr::addr_of_mut!(CAPTURE) = Some(vec![]);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok();
        ((*std::ptr::addr_of_mut!(CAPTURE)).take().unwrap(), r)
    }
}

pub fn install() {
    solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
    unsafe {
        nitrate_program::SIMULATED_SYSTEM_CALL = Some(nitrate_system_call);
    }
    std::panic::set_hook(Box::new(|info| {
        if std::env::var_os("DST_PANICS").is_some() {
            eprintln!("panic: {info}");
        }
    }));
}

fn abort(why: impl Into<String>) -> ! {
    std::panic::panic_any(AbortTx(Fail::Runtime(why.into())))
}

// ---------------------------------------------------------------- buffer access

unsafe fn rd_u64(p: *const u8) -> u64 {
    (p as *const u64).read_unaligned()
}
unsafe fn wr_u64(p: *mut u8, v: u64) {
    (p as *mut u64).write_unaligned(v)
}

fn read_back(f: &mut Frame, i: usize, executable: bool) -> Result<Acct, Fail> {
    let off = f.accts[i].off;
    let orig = f.accts[i].orig_len;
    unsafe {
        let p = f.base().add(off);
        let lamports = rd_u64(p.add(72));
        let len = rd_u64(p.add(80)) as usize;
        if len > orig + GROW {
            return Err(Fail::Runtime("data grown beyond the permitted increase".into()));
        }
        let owner = Pubkey::new_from_array(*(p.add(40) as *const [u8; 32]));
        let data = std::slice::from_raw_parts(p.add(88), len).to_vec();
        Ok(Acct { lamports, data, owner, executable })
    }
}

/// Applies what a program left in its buffer to the database, under the runtime's rules.
fn sync_out(db: &mut Db, f: &mut Frame, i: usize) -> Result<(), Fail> {
    let key = f.accts[i].key;
    let writable = f.accts[i].writable;
    let cur = db.get(&key);
    let new = read_back(f, i, cur.executable)?;
    if *cur == new {
        return Ok(());
    }
    let owned = cur.owner == f.program;
    let e = |s: &str| Err(Fail::Runtime(format!("{s} {key}")));
    if new.lamports != cur.lamports {
        if !writable {
            return e("lamports of a read-only account changed");
        }
        if new.lamports < cur.lamports && !owned {
            return e("lamports of a foreign account spent");
        }
        if cur.executable {
            return e("lamports of an executable account changed");
        }
    }
    if new.data != cur.data {
        if !owned {
            return e("data of a foreign account changed");
        }
        if !writable {
            return e("data of a read-only account changed");
        }
        if cur.executable {
            return e("data of an executable account changed");
        }
    }
    if new.owner != cur.owner {
        if !owned || !writable {
            return e("owner changed without permission");
        }
        if new.data.iter().any(|b| *b != 0) {
            return e("owner of an account with data changed");
        }
    }
    db.map.insert(key, Rc::new(new));
    Ok(())
}

fn sync_in(db: &Db, f: &mut Frame, i: usize) -> Result<(), Fail> {
    let a = db.get(&f.accts[i].key);
    let (off, orig) = (f.accts[i].off, f.accts[i].orig_len);
    if a.data.len() > orig + GROW {
        return Err(Fail::Runtime("callee grew the account beyond the permitted increase".into()));
    }
    unsafe {
        let p = f.base().add(off);
        let prev = rd_u64(p.add(80)) as usize;
        wr_u64(p.add(72), a.lamports);
        wr_u64(p.add(80), a.data.len() as u64);
        std::ptr::copy_nonoverlapping(a.owner.as_ref().as_ptr(), p.add(40), 32);
        std::ptr::copy_nonoverlapping(a.data.as_ptr(), p.add(88), a.data.len());
        if prev > a.data.len() {
            std::ptr::write_bytes(p.add(88 + a.data.len()), 0, prev - a.data.len());
        }
    }
    Ok(())
}

fn sum_of(db: &Db, f: &Frame) -> u128 {
    f.accts.iter().map(|a| db.get(&a.key).lamports as u128).sum()
}

// ---------------------------------------------------------------- frames

fn merge(metas: &[Meta]) -> Vec<Meta> {
    metas
        .iter()
        .map(|x| {
            let mut y = *x;
            for o in metas.iter().filter(|o| o.key == x.key) {
                y.signer |= o.signer;
                y.writable |= o.writable;
            }
            y
        })
        .collect()
}

/// Runs one instruction whose effective metas are already checked.
fn run_frame(program: Pubkey, metas: &[Meta], data: &[u8], parent: Option<usize>) -> Result<(), Fail> {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    let c = ctx();
    if c.frames.len() >= 5 {
        return Err(Fail::Runtime("call depth".into()));
    }
    let ev = c.events.len();
    let mut pre = BTreeMap::new();
    for x in metas {
        pre.entry(x.key).or_insert_with(|| c.db.get(&x.key));
    }
    c.events.push(FrameEvent {
        program,
        height: c.frames.len() + 1,
        parent,
        ix_index: c.ix_index,
        metas: metas.to_vec(),
        data: data.to_vec(),
        pre,
        post: BTreeMap::new(),
        result: Err(Fail::Inner),
        faulted: false,
    });

    // serialise the accounts the way the loader does
    let mut size = 8;
    let mut seen: Vec<Pubkey> = vec![];
    for x in metas {
        if seen.contains(&x.key) {
            size += 8;
        } else {
            seen.push(x.key);
            let l = c.db.get(&x.key).data.len();
            size += 88 + ((l + GROW + 7) & !7) + 8;
        }
    }
    size += 8 + data.len() + 32 + 64;
    let mut f = Frame {
        program,
        event: ev,
        buf: vec![0u128; size / 16 + 2],
        accts: vec![],
        lamport_sum: 0,
    };
    let base = f.base();
    let mut off = 0usize;
    unsafe {
        wr_u64(base, metas.len() as u64);
        off += 8;
        let mut pos: Vec<(Pubkey, usize)> = vec![];
        for (i, x) in metas.iter().enumerate() {
            if let Some((_, j)) = pos.iter().find(|(k, _)| *k == x.key) {
                wr_u64(base.add(off), 0);
                *base.add(off) = *j as u8;
                off += 8;
                continue;
            }
            pos.push((x.key, i));
            let a = c.db.get(&x.key);
            let p = base.add(off);
            *p = 0xff;
            *p.add(1) = x.signer as u8;
            *p.add(2) = x.writable as u8;
            *p.add(3) = a.executable as u8;
            std::ptr::copy_nonoverlapping(x.key.as_ref().as_ptr(), p.add(8), 32);
            std::ptr::copy_nonoverlapping(a.owner.as_ref().as_ptr(), p.add(40), 32);
            wr_u64(p.add(72), a.lamports);
            wr_u64(p.add(80), a.data.len() as u64);
            std::ptr::copy_nonoverlapping(a.data.as_ptr(), p.add(88), a.data.len());
            f.accts.push(FrameAcct {
                key: x.key,
                off,
                signer: x.signer,
                writable: x.writable,
                orig_len: a.data.len(),
            });
            off += 88 + a.data.len() + GROW;
            off = (off + 7) & !7;
            wr_u64(base.add(off), 0);
            off += 8;
        }
        wr_u64(base.add(off), data.len() as u64);
        off += 8;
        std::ptr::copy_nonoverlapping(data.as_ptr(), base.add(off), data.len());
        off += data.len();
        std::ptr::copy_nonoverlapping(program.as_ref().as_ptr(), base.add(off), 32);
    }
    f.lamport_sum = sum_of(&c.db, &f);
    c.frames.push(f);

    let input = ctx().frames.last_mut().unwrap().base();
    let before = NOW.load(Ordering::Relaxed);
    let place = if program == asset_program::ID {
        data.first().map(|b| (*b).min(17)).unwrap_or(0) as u64
    } else if program == bridge_program::ID {
        200
    } else if program == proxy_program::ID {
        300
    } else if program == RELAY_ID {
        400
    } else {
        999
    };
    NOW.store(place, Ordering::Relaxed);
    let run = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| execute(&program, metas, data, input)));
    NOW.store(before, Ordering::Relaxed);

    let c = ctx();
    let mut f = c.frames.pop().unwrap();
    let mut result = match run {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err(e),
        Err(p) => {
            if let Some(a) = p.downcast_ref::<AbortTx>() {
                Err(a.0.clone())
            } else if let Some(s) = p.downcast_ref::<String>() {
                Err(Fail::Panic(s.clone()))
            } else if let Some(s) = p.downcast_ref::<&str>() {
                Err(Fail::Panic(s.to_string()))
            } else {
                Err(Fail::Panic("?".into()))
            }
        }
    };
    if result.is_ok() && !is_native(&program) {
        for i in 0..f.accts.len() {
            if let Err(e) = sync_out(&mut c.db, &mut f, i) {
                result = Err(e);
                break;
            }
        }
    }
    if result.is_ok() && sum_of(&c.db, &f) != f.lamport_sum {
        result = Err(Fail::Runtime("unbalanced instruction".into()));
    }
    let mut post = BTreeMap::new();
    for a in &f.accts {
        post.insert(a.key, c.db.get(&a.key));
    }
    let faulted = c.faulted;
    let e = &mut c.events[f.event];
    e.post = post;
    e.faulted = faulted;
    e.result = result.clone();
    result
}

pub const RELAY_ID: Pubkey = Pubkey::new_from_array([77; 32]);
pub const MARKET_ID: Pubkey = Pubkey::new_from_array([88; 32]);
pub const MARKET2_ID: Pubkey = Pubkey::new_from_array([89; 32]);

fn is_native(p: &Pubkey) -> bool {
    *p == system_program::ID || *p == crate::tm::TM_ID
}

fn perr(r: ProgramResult) -> Result<(), Fail> {
    r.map_err(|e: ProgramError| Fail::Program(u64::from(e)))
}

fn execute(program: &Pubkey, metas: &[Meta], data: &[u8], input: *mut u8) -> Result<(), Fail> {
    if *program == asset_program::ID {
        let r = unsafe { asset_program::entrypoint::entrypoint(input) };
        return if r == 0 { Ok(()) } else { Err(Fail::Program(r)) };
    }
    if *program == system_program::ID {
        return native_system(metas, data);
    }
    if *program == crate::tm::TM_ID {
        return crate::tm::process(metas, data);
    }
    let f: for<'a> fn(&'a Pubkey, &'a [AccountInfo<'a>], &[u8]) -> ProgramResult =
        if *program == bridge_program::ID {
            bridge_program::simulate
        } else if *program == proxy_program::ID {
            proxy_program::simulate
        } else if *program == RELAY_ID {
            crate::relay::process
        } else {
            return Err(Fail::Runtime("unknown program".into()));
        };
    // The accounts outlive the call; the frame owns the memory they point to.
    let (pid, infos, d) = unsafe { solana_program::entrypoint::deserialize(input) };
    let pid: &'static Pubkey = unsafe { &*(pid as *const Pubkey) };
    let infos: Vec<AccountInfo<'static>> = unsafe { std::mem::transmute(infos) };
    let infos: &'static [AccountInfo<'static>] = Box::leak(infos.into_boxed_slice());
    let ptr = infos as *const [AccountInfo<'static>] as *mut [AccountInfo<'static>];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(pid, infos, d)));
    unsafe { drop(Box::from_raw(ptr)) };
    match r {
        Ok(r) => perr(r),
        Err(p) => std::panic::resume_unwind(p),
    }
}

// ---------------------------------------------------------------- cross-program calls

fn cpi(instruction: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) {
    let c = ctx();
    let caller = c.frames.last().unwrap().program;
    let ev = c.frames.last().unwrap().event;
    let mut pdas = vec![];
    for s in seeds {
        match Pubkey::create_program_address(s, &caller) {
            Ok(k) => pdas.push(k),
            Err(_) => abort("invalid signer seeds"),
        }
    }
    let metas: Vec<Meta> =
        instruction.accounts.iter().map(|a| m(a.pubkey, a.is_signer, a.is_writable)).collect();
    let metas = merge(&metas);
    let callee = instruction.program_id;
    {
        let f = c.frames.last().unwrap();
        for x in &metas {
            let Some(i) = f.find(&x.key) else { abort("account missing from the caller") };
            let a = &f.accts[i];
            if x.writable && !a.writable {
                abort("writable privilege escalation");
            }
            if x.signer && !(a.signer || pdas.contains(&x.key)) {
                abort("signer privilege escalation");
            }
            if !infos.iter().any(|n| *n.key == x.key) {
                abort("account info missing");
            }
        }
        if f.find(&callee).is_none() {
            abort("callee program missing from the caller's accounts");
        }
        if !c.db.get(&callee).executable {
            abort("callee is not executable");
        }
        // no indirect reentrancy
        if callee != caller && c.frames.iter().any(|f| f.program == callee) {
            abort("reentrancy");
        }
    }
    cross_call(callee, metas, &instruction.data, ev);
    // repair the slices of the caller's account infos
    let c = ctx();
    let f = c.frames.last_mut().unwrap();
    let base = f.base();
    for n in infos {
        if let Some(i) = f.find(n.key) {
            unsafe {
                let p = base.add(f.accts[i].off);
                let len = rd_u64(p.add(80)) as usize;
                let slot = n.data.as_ptr();
                *slot = std::slice::from_raw_parts_mut(p.add(88), len);
            }
        }
    }
}

/// Caller → database, call, database → caller.  Unwinds when the call fails.
fn cross_call(callee: Pubkey, metas: Vec<Meta>, data: &[u8], ev: usize) {
    let c = ctx();
    let n = c.frames.len() - 1;
    let idx: Vec<usize> = {
        let f = &c.frames[n];
        let mut v: Vec<usize> = metas.iter().map(|x| f.find(&x.key).unwrap()).collect();
        v.sort();
        v.dedup();
        v
    };
    let mut f = std::mem::replace(
        &mut c.frames[n],
        Frame { program: callee, event: 0, buf: vec![], accts: vec![], lamport_sum: 0 },
    );
    let mut err = None;
    for &i in &idx {
        if let Err(e) = sync_out(&mut c.db, &mut f, i) {
            err = Some(e);
            break;
        }
    }
    if err.is_none() && sum_of(&c.db, &f) != f.lamport_sum {
        err = Some(Fail::Runtime("unbalanced instruction at a call".into()));
    }
    c.frames[n] = f;
    if let Some(e) = err {
        std::panic::panic_any(AbortTx(e));
    }
    if let Err(e) = run_frame(callee, &metas, data, Some(ev)) {
        let e = if e == Fail::Fault { Fail::Fault } else { Fail::Inner };
        std::panic::panic_any(AbortTx(e));
    }
    let c = ctx();
    let f = c.frames.last_mut().unwrap();
    for &i in &idx {
        if let Err(e) = sync_in(&c.db, f, i) {
            std::panic::panic_any(AbortTx(e));
        }
    }
}

fn nitrate_system_call(from: *mut u8, to: *mut u8, data: &[u8]) {
    fault_point();
    let c = ctx();
    let f = c.frames.last().unwrap();
    let ev = f.event;
    let key = |p: *mut u8| unsafe { Pubkey::new_from_array(*(p.add(8) as *const [u8; 32])) };
    let create = data.first() == Some(&0);
    let mut metas = vec![];
    for (i, k) in [key(from), key(to)].into_iter().enumerate() {
        let Some(j) = f.find(&k) else { abort("account missing from the caller") };
        let a = &f.accts[j];
        // the meta carries the flags of the caller's account
        let _ = (i, create);
        metas.push(m(k, a.signer, a.writable));
    }
    if f.find(&system_program::ID).is_none() {
        abort("system program missing from the caller's accounts");
    }
    cross_call(system_program::ID, merge(&metas), data, ev);
}

// ---------------------------------------------------------------- system program

pub fn native_set(k: &Pubkey, f: impl FnOnce(&mut Acct)) {
    let c = ctx();
    let mut a = (*c.db.get(k)).clone();
    f(&mut a);
    c.db.set(*k, a);
}
pub fn native_get(k: &Pubkey) -> Rc<Acct> {
    ctx().db.get(k)
}

fn rt<T>(s: &str) -> Result<T, Fail> {
    Err(Fail::Runtime(s.into()))
}

fn system_transfer(from: Meta, to: Meta, amount: u64) -> Result<(), Fail> {
    let a = native_get(&from.key);
    if !from.signer {
        return rt("system: from must sign");
    }
    if !a.data.is_empty() {
        return rt("system: from must not carry data");
    }
    if a.lamports < amount {
        return rt("system: insufficient lamports");
    }
    if amount > 0 && (a.owner != system_program::ID || !from.writable || !to.writable) {
        return rt("system: not spendable");
    }
    native_set(&from.key, |x| x.lamports -= amount);
    native_set(&to.key, |x| x.lamports += amount);
    Ok(())
}

fn native_system(metas: &[Meta], data: &[u8]) -> Result<(), Fail> {
    if data.len() < 12 || metas.len() < 2 {
        return rt("system: bad instruction");
    }
    let disc = u32::from_le_bytes(data[0..4].try_into().unwrap());
    let lamports = u64::from_le_bytes(data[4..12].try_into().unwrap());
    let (from, to) = (metas[0], metas[1]);
    match disc {
        2 => system_transfer(from, to, lamports),
        0 => {
            if data.len() < 52 {
                return rt("system: bad instruction");
            }
            let space = u64::from_le_bytes(data[12..20].try_into().unwrap()) as usize;
            let owner = Pubkey::new_from_array(data[20..52].try_into().unwrap());
            let t = native_get(&to.key);
            if t.lamports > 0 {
                return rt("system: account in use");
            }
            if !to.signer {
                return rt("system: new account must sign");
            }
            if !t.data.is_empty() || t.owner != system_program::ID {
                return rt("system: account in use");
            }
            let nested = ctx().frames.len() > 1;
            if space > 10 * 1024 * 1024 || (nested && space > GROW) {
                return rt("system: space too large");
            }
            if !to.writable {
                return rt("system: new account not writable");
            }
            native_set(&to.key, |x| {
                x.data = vec![0; space];
                x.owner = owner;
            });
            system_transfer(from, to, lamports)
        }
        _ => rt("system: unsupported instruction"),
    }
}

// ---------------------------------------------------------------- transactions

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tx {
    pub ixs: Vec<Ix>,
}

/// Accounts that can never be write-locked by a transaction.
fn reserved(db: &Db, k: &Pubkey, invoked: &[Pubkey]) -> bool {
    *k == system_program::ID
        || *k == solana_program::sysvar::instructions::ID
        || *k == crate::tm::TOKEN_ID
        || *k == crate::tm::ATA_ID
        || (invoked.contains(k) && db.get(k).executable)
}

/// Runs a transaction; the database changes only if every instruction succeeds.
pub fn run_tx(db: &mut Db, tx: &Tx, clock: i64, slot: u64, fault_at: Option<u64>) -> TxResult {
    let all: Vec<Meta> = tx.ixs.iter().flat_map(|i| i.metas.iter().copied()).collect();
    let merged = merge(&all);
    let invoked: Vec<Pubkey> = tx.ixs.iter().map(|i| i.program).collect();
    let flags: BTreeMap<Pubkey, (bool, bool)> = merged
        .iter()
        .map(|x| (x.key, (x.signer, x.writable && !reserved(db, &x.key, &invoked))))
        .collect();
    let mut c = Ctx {
        db: db.clone(),
        frames: vec![],
        events: vec![],
        clock,
        slot,
        fault_at,
        stub_calls: 0,
        faulted: false,
        ix_index: 0,
        relay_note: vec![],
    };
    unsafe { CTX = &mut c };
    let mut result = Ok(());
    for (i, ix) in tx.ixs.iter().enumerate() {
        ctx().ix_index = i;
        if !ctx().db.get(&ix.program).executable {
            result = Err((i, Fail::Runtime("program is not executable".into())));
            break;
        }
        let metas: Vec<Meta> = ix
            .metas
            .iter()
            .map(|x| {
                let (s, w) = flags[&x.key];
                m(x.key, s, w)
            })
            .collect();
        if let Err(e) = run_frame(ix.program, &metas, &ix.data, None) {
            result = Err((i, e));
            break;
        }
    }
    unsafe { CTX = std::ptr::null_mut() };
    if result.is_ok() {
        for (k, (_, w)) in &flags {
            if !*w {
                continue;
            }
            let (a, b) = (db.get(k), c.db.get(k));
            let paying = |x: &Acct| x.lamports > 0 && x.lamports < rent_min(x.data.len());
            if paying(&b)
                && !(paying(&a) && a.data.len() == b.data.len() && b.lamports <= a.lamports)
            {
                result = Err((
                    tx.ixs.len(),
                    Fail::Runtime(format!("insufficient funds for rent {k}")),
                ));
                break;
            }
        }
    }
    if result.is_ok() {
        let mut n = std::mem::take(&mut c.db);
        let dead: Vec<Pubkey> = flags
            .keys()
            .filter(|k| n.map.get(k).map(|a| a.lamports == 0).unwrap_or(false))
            .copied()
            .collect();
        for k in dead {
            n.map.remove(&k);
        }
        *db = n;
    }
    TxResult { result, events: std::mem::take(&mut c.events), stub_calls: c.stub_calls }
}
