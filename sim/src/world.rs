//! The simulated world: who exists, what they want, what the network and the cluster do to
//! their transactions.  Every step is a pure function of the state and its own seed.

use crate::check::{self, viol, Ghost, Viol};
use crate::enc::{self, Req};
use crate::ext;
use crate::gen::{self, Pool, Rng};
use crate::relay::{self, Job, Order};
use crate::rt::*;
use crate::spec::*;
use crate::tm;
use solana_program::{pubkey::Pubkey, system_program};
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------ cast

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sig {
    Key,
    Relay(u8),
    Seed(usize),
    None,
}

pub struct Mint {
    pub key: Pubkey,
    pub vault: Pubkey,
    pub asset: Pubkey,
    pub md: Pubkey,
    pub edition: Pubkey,
    pub forged: Pubkey,
}

pub struct Cast {
    pub wallets: Vec<Pubkey>,
    pub slots: Vec<Pubkey>,
    pub ups: Vec<Pubkey>,
    /// accounts only the JavaScript clients make: assets, then buffers
    pub js: Vec<Pubkey>,
    pub pdas: Vec<Pubkey>,
    pub market: Vec<Pubkey>,
    pub seeds: Vec<[u8; 32]>,
    pub px: Vec<Pubkey>,
    pub stubs: Vec<Pubkey>,
    pub pa: Vec<Pubkey>,
    pub mints: Vec<Mint>,
    pub fakes: Vec<Pubkey>,
    /// members of large groups
    pub crowd: Vec<Pubkey>,
    pub treasury: Pubkey,
    pub holders: Vec<Pubkey>,
    pub all: Vec<Pubkey>,
    pub sig: BTreeMap<Pubkey, Sig>,
    pub names: BTreeMap<Pubkey, String>,
}

static mut CAST: Option<Cast> = None;

pub fn cast() -> &'static Cast {
    unsafe {
        let c = &mut *std::ptr::addr_of_mut!(CAST);
        c.get_or_insert_with(build_cast)
    }
}

pub fn label(k: &Pubkey) -> String {
    cast().names.get(k).cloned().unwrap_or_else(|| k.to_string()[..8].to_string())
}

fn derive(tag: &str, i: usize) -> Pubkey {
    Pubkey::new_from_array(solana_program::hash::hash(format!("nifty-dst {tag} {i}").as_bytes()).to_bytes())
}

fn build_cast() -> Cast {
    let mut names = BTreeMap::new();
    let mut sig = BTreeMap::new();
    let mut mk = |tag: &str, n: usize, s: Sig| -> Vec<Pubkey> {
        (0..n)
            .map(|i| {
                let k = derive(tag, i);
                names.insert(k, format!("{tag}{i}"));
                sig.insert(k, s);
                k
            })
            .collect()
    };
    let mut wallets = mk("wallet", 6, Sig::Key);
    let mut slots = mk("slot", 8, Sig::Key);
    let ups = mk("upload", 2, Sig::None);
    let js = mk("js", 4, Sig::None);
    let market = mk("market", 4, Sig::Key);
    let stubs = mk("stub", 3, Sig::Key);
    let fakes = mk("fake", 3, Sig::Key);
    let crowd = mk("crowd", 280, Sig::Key);
    let treasury = mk("treasury", 1, Sig::Key)[0];
    let mints_k = mk("mint", 5, Sig::None);
    // near-identical addresses: only the first or the last byte differs
    let mut near = |v: &mut Vec<Pubkey>, i: usize, of: usize, byte: usize, tag: &str| {
        let mut b = v[of].to_bytes();
        b[byte] ^= 1;
        let k = Pubkey::new_from_array(b);
        names.insert(k, format!("{tag}{i}"));
        sig.insert(k, Sig::Key);
        v[i] = k;
    };
    near(&mut wallets, 4, 0, 31, "wallet");
    near(&mut wallets, 5, 1, 0, "wallet");
    near(&mut slots, 7, 0, 31, "slot");
    near(&mut slots, 6, 1, 0, "slot");
    let mut add = |k: Pubkey, n: String, s: Sig| {
        names.insert(k, n);
        sig.insert(k, s);
        k
    };
    let pdas: Vec<Pubkey> = (0..3u8).map(|t| add(relay::pda(t).0, format!("pda{t}"), Sig::Relay(t))).collect();
    let seeds: Vec<[u8; 32]> = (0..3).map(|i| derive("seed", i).to_bytes()).collect();
    let px: Vec<Pubkey> = seeds
        .iter()
        .enumerate()
        .map(|(i, s)| add(relay::proxied_pda(s).0, format!("proxied{i}"), Sig::Seed(i)))
        .collect();
    let pa: Vec<Pubkey> =
        stubs.iter().enumerate().map(|(i, s)| add(ext::stub_pda(s).0, format!("stubbed{i}"), Sig::None)).collect();
    let mints: Vec<Mint> = mints_k
        .iter()
        .enumerate()
        .map(|(i, k)| Mint {
            key: *k,
            vault: add(ext::vault_pda(k).0, format!("vault{i}"), Sig::None),
            asset: add(ext::bridged_pda(k).0, format!("bridged{i}"), Sig::None),
            md: add(tm::metadata_pda(k), format!("metadata{i}"), Sig::None),
            edition: add(tm::edition_pda(k), format!("edition{i}"), Sig::None),
            forged: add(derive("forged", i), format!("forged-metadata{i}"), Sig::None),
        })
        .collect();
    for (k, n) in [
        (asset_program::ID, "asset-program"),
        (bridge_program::ID, "bridge-program"),
        (proxy_program::ID, "proxy-program"),
        (RELAY_ID, "relay-program"),
        (system_program::ID, "system-program"),
        (MARKET_ID, "market-program"),
        (MARKET2_ID, "market2-program"),
        (tm::TM_ID, "token-metadata"),
        (tm::TOKEN_ID, "token-program"),
        (tm::ATA_ID, "ata-program"),
    ] {
        add(k, n.into(), Sig::None);
    }
    let mut holders = wallets.clone();
    holders.extend(&pdas);
    holders.extend(&market);
    let mut all = holders.clone();
    all.extend(&slots);
    all.extend(&px);
    all.extend(&pa);
    all.extend(&fakes);
    all.extend(&ups);
    all.push(mints[0].asset);
    all.push(mints[0].vault);
    all.extend([asset_program::ID, system_program::ID, ZERO, treasury]);
    Cast {
        wallets,
        slots,
        ups,
        js,
        pdas,
        market,
        seeds,
        px,
        stubs,
        pa,
        mints,
        fakes,
        crowd,
        treasury,
        holders,
        all,
        sig,
        names,
    }
}

// ------------------------------------------------------------------ profile

#[derive(Clone)]
pub struct Profile {
    pub prop: u32,
    pub ops: [u32; 18],
    /// tx, deliver, upload, bridge, proxy, environment, fork, JavaScript client
    pub kinds: [u32; 8],
    pub standards: [u32; 4],
    pub types: [u32; 12],
    pub steps: usize,
    pub builders: bool,
    pub readers: bool,
    /// requests (1) and readings (2) of the JavaScript clients
    pub js: u8,
    pub group_pct: u64,
    pub odd_pct: u64,
    pub relay_pct: u64,
    pub wind_pct: u64,
    pub slots: usize,
    /// long lists (1), much data in an account (2), many members in a group (3), many transfers (4)
    pub big: u8,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub runs: u64,
    pub steps: u64,
    pub txs: u64,
    pub committed: u64,
    pub frames: u64,
    pub evaluations: u64,
    pub sim_seconds: u64,
    pub accepted: BTreeMap<String, u64>,
    pub refused: BTreeMap<String, u64>,
    /// requests refused with exactly one thing wrong, by what that was
    pub sole: BTreeMap<String, u64>,
    pub faults: BTreeMap<&'static str, u64>,
    pub reads: u64,
    pub builds: u64,
    pub surveyed: u64,
}

impl Stats {
    fn fault(&mut self, k: &'static str) {
        *self.faults.entry(k).or_default() += 1;
    }
}

#[derive(Clone)]
struct Pend {
    tx: Tx,
    tries: u8,
}

/// A client uploading an asset in chunks; what it remembers survives nothing but the plan.
#[derive(Clone)]
struct Upload {
    standard: u8,
    slot: Pubkey,
    plan: Vec<(u32, Vec<u8>)>,
    owner: Pubkey,
    mutable: bool,
    name: Vec<u8>,
    chunk: usize,
    done: bool,
}

struct Snap {
    db: Db,
    ghost: Ghost,
    clock: i64,
    left: u32,
    seen: Vec<Tx>,
    uploads: Vec<Upload>,
}

pub struct World {
    pub db: Db,
    pub clock: i64,
    pub slot: u64,
    pub p: Profile,
    pub ghost: Ghost,
    pending: Vec<Pend>,
    uploads: Vec<Upload>,
    snap: Option<Snap>,
    recent: Vec<Tx>,
    /// former owners and delegates, likely to try again
    pub past: Vec<Pubkey>,
    pub stats: Stats,
    pub viols: Vec<Viol>,
    pub trace: Option<Vec<String>>,
    pub states: BTreeSet<u64>,
    quiet: bool,
    salt: u64,
    /// those who come to hold or act; few of them in some runs, so that their parts coincide
    holders: Vec<Pubkey>,
}

/// Chance of a survey in a step.
const SURVEY_PCT: u64 = 7;
const SYS: Pubkey = system_program::ID;

fn fnv(h: u64, b: &[u8]) -> u64 {
    b.iter().fold(h, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3))
}

impl World {
    pub fn new(p: Profile, seed: u64) -> World {
        relay::reset();
        let c = cast();
        let mut r = Rng::new(seed ^ 0x5eed);
        let mut db = Db::default();
        for k in [
            asset_program::ID,
            bridge_program::ID,
            proxy_program::ID,
            RELAY_ID,
            MARKET_ID,
            MARKET2_ID,
            SYS,
            tm::TM_ID,
            tm::TOKEN_ID,
            tm::ATA_ID,
        ] {
            db.set(k, Acct::program());
        }
        db.set(tm::SYSVAR_IX, Acct { lamports: 1, data: vec![0; 8], owner: solana_program::sysvar::ID, executable: false });
        for w in &c.wallets {
            db.set(*w, Acct::wallet(2_000_000_000));
        }
        db.set(c.treasury, Acct::wallet(1 << 50));
        for (i, w) in c.market.iter().enumerate() {
            let data = if i == 3 { vec![] } else { vec![7; 16] };
            let owner = if i == 1 { MARKET2_ID } else { MARKET_ID };
            db.set(*w, Acct { lamports: rent_min(16), data, owner, executable: false });
        }
        // an account with a balance is as good a stub as an empty key
        for k in &c.stubs {
            if r.chance(40) {
                db.set(*k, Acct { lamports: 2_000_000, data: vec![], owner: SYS, executable: false });
            }
        }
        // look-alikes of assets, owned by somebody else's program
        for (i, w) in c.fakes.iter().enumerate() {
            let mut img = Img::blank();
            img.disc = (i != 2) as u8;
            img.mutable = 1;
            img.owner = c.wallets[i];
            img.authority = c.wallets[0];
            if i == 0 {
                img.exts.push(X::new(GROUPING, vec![0; 48]));
            }
            if i == 2 {
                img.mutable = 0;
                img.owner = ZERO;
                img.authority = ZERO;
                img.exts.push(X::new(BUCKET, vec![9; 24]));
            }
            img.len = img.end();
            let data = img.encode();
            db.set(*w, Acct { lamports: rent_min(data.len()), data, owner: MARKET_ID, executable: false });
        }
        for (i, t) in c.mints.iter().enumerate() {
            db.set(t.key, Acct { lamports: rent_min(82), data: vec![1; 82], owner: tm::TOKEN_ID, executable: false });
            let standard = match i {
                0 | 1 => Some(4 * (r.chance(50) as u8)),
                2 => Some(0),
                3 => Some(4),
                _ => *r.pick(&[Some(0), Some(4), Some(1), Some(2), Some(3), None]),
            };
            let n = *r.pick(&[0, 1, 2, 3, 5]);
            let mut left = 100u8;
            let ua = if i < 3 && r.chance(50) { c.wallets[0] } else { *r.pick(&c.wallets[..3]) };
            let mut list = vec![];
            for j in 0..n {
                let k = if j == 0 && r.chance(60) { ua } else { *r.pick(&c.wallets) };
                let s = if j + 1 == n { left } else { r.below(left as usize + 1) as u8 };
                left -= s;
                list.push((k, r.chance(50), s));
            }
            let collection = match r.below(4) {
                0 => None,
                1 => Some((false, c.mints[r.below(3)].key)),
                _ => Some((true, c.mints[if i == 0 { 1 } else { 0 }].key)),
            };
            let x = tm::Meta4 {
                update_authority: ua,
                mint: t.key,
                name: String::from_utf8(gen::word(&mut r, 32)).unwrap(),
                symbol: String::from_utf8(gen::word(&mut r, 10)).unwrap(),
                uri: String::from_utf8(gen::word(&mut r, 200)).unwrap(),
                fee: if r.chance(12) { 10000 } else { r.below(10001) as u16 },
                creators: (n > 0).then_some(list),
                standard,
                collection: if i == 0 && r.chance(80) { None } else { collection },
                details: r.chance(40).then_some(5),
                odd: if r.chance(50) { r.below(32) as u8 } else { 0 },
            };
            db.set(
                t.md,
                Acct { lamports: rent_min(679), data: tm::encode_metadata(&x), owner: tm::TM_ID, executable: false },
            );
            // the same in appearance, by another program, naming an authority of its own
            let y = tm::Meta4 {
                update_authority: *r.pick(&c.wallets),
                mint: x.mint,
                name: "forged".into(),
                symbol: x.symbol.clone(),
                uri: x.uri.clone(),
                fee: x.fee,
                creators: x.creators.clone(),
                standard: if r.chance(70) { Some(0) } else { x.standard },
                collection: None,
                details: None,
                odd: x.odd,
            };
            db.set(
                t.forged,
                Acct { lamports: rent_min(679), data: tm::encode_metadata(&y), owner: MARKET2_ID, executable: false },
            );
            db.set(t.edition, Acct { lamports: rent_min(42), data: vec![6; 42], owner: tm::TM_ID, executable: false });
            let h = *r.pick(&c.wallets);
            let ata = ext::tm_ata(&h, &t.key);
            db.set(ata, tm::token_account(&t.key, &h, 1));
            db.set(
                tm::record_pda(&t.key, &ata),
                Acct { lamports: rent_min(80), data: vec![11; 80], owner: tm::TM_ID, executable: false },
            );
        }
        let mut h = Rng::new(seed ^ 0xfe3);
        let mut holders = c.holders.clone();
        if h.chance(25) {
            holders = vec![c.wallets[0]];
            for _ in 0..1 + h.below(3) {
                holders.push(*h.pick(&c.holders));
            }
        }
        World {
            db,
            clock: 1_700_000_000,
            slot: 1000,
            p,
            ghost: Ghost::default(),
            pending: vec![],
            uploads: vec![],
            snap: None,
            recent: vec![],
            past: vec![],
            stats: Stats::default(),
            viols: vec![],
            trace: None,
            states: BTreeSet::new(),
            quiet: false,
            salt: seed,
            holders,
        }
    }

    /// A calm step meets no network fault.
    pub fn calm(&mut self, on: bool) {
        self.quiet = on;
    }

    /// Everything that happened, condensed: equal for equal executions.
    pub fn digest(&self) -> u64 {
        let mut h = fnv(0xcbf29ce484222325, &self.stats.txs.to_le_bytes());
        h = fnv(h, &self.stats.frames.to_le_bytes());
        for (k, n) in self.stats.accepted.iter().chain(&self.stats.refused) {
            h = fnv(fnv(h, k.as_bytes()), &n.to_le_bytes());
        }
        for (k, a) in &self.db.map {
            h = fnv(fnv(fnv(h, k.as_ref()), &a.lamports.to_le_bytes()), &a.data);
        }
        h
    }

    pub fn note(&mut self, s: impl FnOnce() -> String) {
        if let Some(t) = self.trace.as_mut() {
            t.push(s());
        }
    }

    // -------------------------------------------------------------- reading the chain

    fn img(&self, k: &Pubkey) -> Option<Img> {
        let a = self.db.map.get(k)?;
        if a.owner != pid() {
            return None;
        }
        Img::decode(&a.data).ok()
    }
    fn assets(&self) -> Vec<(Pubkey, Img)> {
        self.db
            .map
            .iter()
            .filter(|(_, a)| a.owner == pid() && a.data.first() == Some(&1))
            .filter_map(|(k, a)| Img::decode(&a.data).ok().map(|i| (*k, i)))
            .collect()
    }
    fn buffers(&self) -> Vec<(Pubkey, Img)> {
        self.db
            .map
            .iter()
            .filter(|(k, a)| a.owner == pid() && a.data.first() == Some(&0) && !cast().ups.contains(k) && !cast().js.contains(k))
            .filter_map(|(k, a)| Img::decode(&a.data).ok().map(|i| (*k, i)))
            .collect()
    }
    fn free_slots(&self) -> Vec<Pubkey> {
        cast().slots[..self.p.slots]
            .iter()
            .filter(|k| !self.db.map.contains_key(k))
            .copied()
            .collect()
    }

    // -------------------------------------------------------------- executing

    /// Executes a transaction now and judges everything it did.
    pub fn execute(&mut self, tx: &Tx, fault_at: Option<u64>) -> bool {
        let before = self.db.lamports();
        let res = run_tx(&mut self.db, tx, self.clock, self.slot, fault_at);
        self.slot += 1;
        self.stats.txs += 1;
        self.stats.frames += res.events.len() as u64;
        let ok = res.result.is_ok();
        if self.trace.is_some() {
            let s = format!("  tx {} {}", describe(tx), match &res.result {
                Ok(()) => "ok".to_string(),
                Err((i, e)) => format!("failed at instruction {i}: {e:?}"),
            });
            self.note(|| s);
        }
        if matches!(res.result, Err((_, Fail::Fault))) {
            self.stats.fault("abort inside a transaction");
        }
        let mut out = vec![];
        for ev in &res.events {
            let path = if ev.program == pid() {
                let e = evaluate(ev);
                let name = if e.op < 18 { OPS[e.op as usize] } else { "malformed" };
                check::frame(ev, &e, name, &mut out);
                if e.path.is_empty() {
                    name.to_string()
                } else if e.hard.is_empty() {
                    e.path
                } else {
                    format!("{name}/forbidden")
                }
            } else if ev.program == bridge_program::ID {
                ext::bridge(ev, &mut out)
            } else if ev.program == proxy_program::ID {
                ext::proxy(ev, self.clock, &mut out)
            } else {
                continue;
            };
            if ev.program == pid() && ev.height > 1 && self.p.builders {
                self.inner_builders(&res.events, ev, &mut out);
            }
            if let Some((p, w)) = unsafe { (*std::ptr::addr_of_mut!(check::SOLE)).take() } {
                if self.p.prop == 0 || p & (1 << self.p.prop) != 0 {
                    *self.stats.sole.entry(format!("{} {w}", names(p).join(","))).or_default() += 1;
                }
            }
            self.stats.evaluations += 1;
            let t = if ev.result.is_ok() { &mut self.stats.accepted } else { &mut self.stats.refused };
            *t.entry(path).or_default() += 1;
        }
        if ok {
            self.stats.committed += 1;
            check::remember(&mut self.ghost, &res.events);
            check::invariants(&self.db, &mut self.ghost, &mut out);
            ext::custody(&self.db, &mut out);
            self.stats.evaluations += 2;
            if self.db.lamports() != before {
                viol(&mut out, C13, "lamports created or lost");
            }
            self.learn(&res.events);
            let mut h = 0xcbf29ce484222325;
            for (k, a) in self.db.map.iter().filter(|(_, a)| a.owner == pid() || a.owner == bridge_program::ID) {
                h = fnv(fnv(h, &k.to_bytes()[..4]), &a.data);
            }
            self.states.insert(h);
            if self.p.readers {
                if self.stats.reads % 256 == 0 {
                    crate::readers::codes(&mut out);
                    if h % 8 == 0 {
                        crate::readers::blob_file(h, &mut out);
                    }
                }
                let mut keys = BTreeSet::new();
                for ev in &res.events {
                    keys.extend(ev.post.keys().copied());
                }
                for k in keys {
                    let a = self.db.get(&k);
                    if a.owner == pid() || a.owner == bridge_program::ID {
                        self.stats.reads += 1;
                        self.stats.evaluations += 1;
                        crate::readers::check(&k, &a, &mut out);
                    }
                }
            }
        }
        if ok && self.p.js & 2 != 0 {
            let mut keys = BTreeSet::new();
            for ev in &res.events {
                keys.extend(ev.post.keys().copied());
            }
            for k in keys {
                let a = self.db.get(&k);
                let seed = self.seeded(&a.data);
                if (a.owner == pid() || a.owner == bridge_program::ID) && seed % 2 == 0 && crate::js::read(&k, &a, seed, &mut out) {
                    self.stats.reads += 1;
                    self.stats.evaluations += 1;
                }
            }
            let seed = self.seeded(&[7]);
            if seed % 16 == 0 {
                let n = crate::js::search(&self.db, seed, &mut out);
                self.stats.reads += n;
                self.stats.evaluations += n;
            }
            if seed % 32 == 3 {
                let n = crate::js::vaults(&self.db, seed, &mut out);
                self.stats.reads += n;
                self.stats.evaluations += n;
            }
            if seed % 256 == 1 {
                crate::js::errors(&mut out);
            }
        }
        if !out.is_empty() {
            for v in &out {
                let s = format!("  !! {:?} {}", names(v.props), v.what);
                self.note(|| s);
            }
            self.viols.extend(out);
        }
        ok
    }

    /// Chance that takes nothing from the scheduler's.
    fn seeded(&self, b: &[u8]) -> u64 {
        let h = fnv(fnv(fnv(0xcbf29ce484222325, &self.salt.to_le_bytes()), b), &self.stats.txs.to_le_bytes());
        let h = (h ^ h >> 31).wrapping_mul(0x9e3779b97f4a7c15);
        h ^ h >> 29
    }

    fn learn(&mut self, evs: &[FrameEvent]) {
        for ev in evs.iter().filter(|e| e.program == pid() && e.result.is_ok()) {
            for (k, a) in &ev.pre {
                let (Ok(x), Some(b)) = (Img::decode(&a.data), ev.post.get(k)) else { continue };
                if a.owner != pid() || !x.live() || **a == **b {
                    continue;
                }
                self.past.push(x.owner);
                if x.has_delegate() {
                    self.past.push(x.delegate);
                }
                self.past.push(x.authority);
            }
        }
        let n = self.past.len();
        if n > 12 {
            self.past.drain(..n - 12);
        }
    }

    /// Calls made from a program with the libraries carry exactly what was asked (C19).
    fn inner_builders(&mut self, evs: &[FrameEvent], ev: &FrameEvent, out: &mut Vec<Viol>) {
        let Some(parent) = ev.parent.map(|p| &evs[p]) else { return };
        if parent.program != RELAY_ID {
            return;
        }
        let Some(o) = relay::lookup(&parent.data) else { return };
        let want = match &o.job {
            Job::Client(r) => enc::raw(r),
            Job::Iface(r) => enc::raw_iface(r),
            _ => return,
        };
        self.stats.builds += 1;
        self.stats.evaluations += 1;
        let merged: Vec<Meta> = want
            .metas
            .iter()
            .map(|x| {
                m(
                    x.key,
                    want.metas.iter().any(|y| y.key == x.key && y.signer),
                    want.metas.iter().any(|y| y.key == x.key && y.writable),
                )
            })
            .collect();
        if ev.data != want.data {
            viol(out, C19, format!("{} called with data {:?}, asked for {:?}", OPS[want.data[0] as usize], head(&ev.data), head(&want.data)));
        }
        if ev.metas != merged {
            viol(out, C19, format!("{} called with accounts {}, asked for {}", OPS[want.data[0] as usize], metas(&ev.metas), metas(&merged)));
        }
    }

    fn outer_builders(&mut self, q: &Req) {
        if self.p.js & 1 != 0 {
            let seed = self.seeded(&enc::raw(q).data);
            if seed % 3 == 0 {
                let mut out = vec![];
                if crate::js::request(q, None, seed, &mut out) {
                    self.stats.builds += 1;
                    self.stats.evaluations += 1;
                }
                self.viols.extend(out);
            }
        }
        if !self.p.builders || !enc::expressible(q) {
            return;
        }
        self.stats.builds += 1;
        self.stats.evaluations += 8;
        let mut out = vec![];
        crate::readers::request_builders(q, &mut out);
        crate::readers::interface_enum(&enc::raw(q).data, &mut out);
        self.viols.extend(out);
    }

    /// Sends a transaction into the network.
    /// A client may grant more than an instruction asks for: accounts that also serve elsewhere in
    /// its transaction come in writable, or as signers.
    fn generous(&self, r: &mut Rng, ix: &mut Ix) {
        for x in ix.metas.iter_mut() {
            if self.db.get(&x.key).executable {
                continue;
            }
            if r.chance(40) {
                x.writable = true;
            }
            if r.chance(15) && self.sig(&x.key) == Sig::Key {
                x.signer = true;
            }
        }
    }

    fn submit(&mut self, r: &mut Rng, mut tx: Tx) -> bool {
        if r.chance(4) {
            for ix in tx.ixs.iter_mut() {
                self.generous(r, ix);
            }
        }
        self.recent.push(tx.clone());
        if self.recent.len() > 8 {
            self.recent.remove(0);
        }
        if self.quiet {
            return self.execute(&tx, None);
        }
        if let Some(s) = self.snap.as_mut() {
            s.seen.push(tx.clone());
        }
        match r.below(100) {
            0..=5 => {
                self.stats.fault("delayed transaction");
                self.note(|| format!("  delayed: {}", describe(&tx)));
                self.pending.push(Pend { tx, tries: 2 });
                false
            }
            6..=8 => {
                self.stats.fault("lost transaction");
                self.note(|| format!("  lost: {}", describe(&tx)));
                false
            }
            9..=13 => {
                self.stats.fault("duplicated transaction");
                let ok = self.execute(&tx, None);
                if r.chance(50) {
                    self.execute(&tx, None);
                } else {
                    self.pending.push(Pend { tx, tries: 1 });
                }
                ok
            }
            14..=18 => {
                let at = 1 + r.below(14) as u64;
                self.execute(&tx, Some(at))
            }
            _ => self.execute(&tx, None),
        }
    }

    // -------------------------------------------------------------- wrapping requests

    fn sig(&self, k: &Pubkey) -> Sig {
        *cast().sig.get(k).unwrap_or(&Sig::None)
    }

    /// Turns an instruction of the asset program into one a client can send: through the relay
    /// when one of its derived addresses has to sign, through the proxy for its assets.
    fn wrap(&self, r: &mut Rng, ix: Ix, req: Option<&Req>, force: bool, relay_pct: u64) -> Ix {
        let c = cast();
        let mut ix = ix;
        if ix.program == pid() && !ix.metas.is_empty() && c.pa.contains(&ix.metas[0].key) && r.chance(90) {
            ix.program = proxy_program::ID;
            ix.metas[0].signer = false;
            ix.metas.push(m(pid(), false, false));
        }
        let derived = ix.metas.iter().any(|x| x.signer && matches!(self.sig(&x.key), Sig::Relay(_) | Sig::Seed(_)));
        if !(force || (derived && r.chance(93)) || r.chance(relay_pct)) {
            for x in ix.metas.iter_mut() {
                if self.sig(&x.key) != Sig::Key {
                    x.signer = false;
                }
            }
            return ix;
        }
        let mut tags = vec![];
        let mut seeds = vec![];
        for x in ix.metas.iter_mut() {
            match self.sig(&x.key) {
                Sig::Relay(t) if x.signer && !tags.contains(&t) => tags.push(t),
                Sig::Seed(i) if x.signer && !seeds.contains(&c.seeds[i]) => seeds.push(c.seeds[i]),
                Sig::None => x.signer = false,
                _ => {}
            }
        }
        let mut outer: Vec<Meta> = vec![];
        for x in &ix.metas {
            let s = x.signer && self.sig(&x.key) == Sig::Key;
            match outer.iter_mut().find(|y| y.key == x.key) {
                Some(y) => {
                    y.signer |= s;
                    y.writable |= x.writable;
                }
                None => outer.push(m(x.key, s, x.writable)),
            }
        }
        for k in [ix.program, pid()] {
            if !outer.iter().any(|y| y.key == k) {
                outer.push(m(k, false, false));
            }
        }
        let target = ix.program;
        let same = req.map(|q| ix == enc::raw(q) && enc::expressible(q)).unwrap_or(false);
        let job = match (same, r.below(4)) {
            (true, 0 | 1) => Job::Client(req.unwrap().clone()),
            (_, 3) if target == pid()
                && ix.metas.iter().skip(1).all(|x| !x.signer || self.sig(&x.key) == Sig::Key)
                && ix.metas.first().is_some_and(|x| {
                    // The interface reads the proxy extension of an asset: it has nothing to say
                    // about a buffer or an account that is not there yet.
                    c.px.contains(&x.key) && (!self.quiet || self.img(&x.key).is_some_and(|i| i.ext(PROXY).is_some()))
                }) => {
                Job::Pass { ix }
            }
            _ => {
                let q = req.cloned();
                match q {
                    Some(q)
                        if target == pid()
                            && enc::expressible(&q)
                            && ix == enc::raw(&q)
                            && r.chance(60)
                            && ix.metas[0].signer =>
                    {
                        Job::Iface(q)
                    }
                    _ => Job::Raw { ix },
                }
            }
        };
        let data = relay::order(Order { job, tags, seeds, target });
        Ix { program: RELAY_ID, metas: outer, data }
    }

    // -------------------------------------------------------------- intentions

    /// An account that can pay: nobody made an asset of it.
    fn plain(&self, k: &Pubkey) -> bool {
        let a = self.db.get(k);
        a.owner == SYS && a.data.is_empty()
    }

    fn payer(&self, r: &mut Rng) -> Pubkey {
        let c = cast();
        let k = *r.pick(&c.wallets[..4]);
        let plain = self.plain(&k);
        if plain && self.db.get(&k).lamports > 100_000_000 || r.chance(10) && (plain || !self.quiet) {
            k
        } else {
            c.treasury
        }
    }

    fn related(&self, r: &mut Rng, k: &Pubkey) -> Pubkey {
        let c = cast();
        let mut v: Vec<Pubkey> = self.past.clone();
        if let Some(i) = self.img(k) {
            v.extend([i.owner, i.authority, i.owner, i.authority, *k]);
            if i.has_delegate() {
                v.extend([i.delegate, i.delegate]);
            }
            if let Some((q, _)) = i.manager() {
                v.extend([q, q]);
            }
            v.extend(i.creators().iter().map(|c| c.0));
            if i.group != ZERO {
                v.push(i.group);
                if let Some(g) = self.img(&i.group) {
                    v.push(g.authority);
                    v.push(g.owner);
                    v.extend(g.group_delegate());
                }
            }
            v.extend(i.group_delegate());
        }
        if v.is_empty() || r.chance(40) {
            *r.pick(&c.all)
        } else {
            *r.pick(&v)
        }
    }

    fn payload(&self, r: &mut Rng, ty: u32, prefer: Option<Pubkey>) -> Vec<u8> {
        let c = cast();
        let owners = [SYS, MARKET_ID, MARKET2_ID, pid()];
        let pool = Pool { keys: &self.holders, owners: &owners, big: self.p.big };
        if r.chance(8) && !self.quiet {
            gen::bad_payload(r, ty, &pool)
        } else {
            gen::payload(r, ty, &pool, prefer)
        }
    }

    fn ext_type(&self, r: &mut Rng) -> u32 {
        r.weighted(&self.p.types) as u32
    }

    fn exts(&self, r: &mut Rng, authority: Pubkey) -> Vec<ExtIn> {
        let n = if self.p.big > 0 && r.chance(30) { 5 + r.below(8) } else { *r.pick(&[0, 0, 1, 1, 2, 2, 3, 4]) };
        let mut v: Vec<ExtIn> = vec![];
        for _ in 0..n {
            let ty = self.ext_type(r);
            if v.iter().any(|e| e.ty == ty) && !r.chance(5) {
                continue;
            }
            let d = self.payload(r, ty, Some(authority));
            v.push(ExtIn { ty, length: d.len() as u32, data: Some(d) });
        }
        v
    }

    fn proxy_ext(&self, i: usize, auth: Pubkey) -> ExtIn {
        let c = cast();
        let (_, bump) = relay::proxied_pda(&c.seeds[i]);
        let mut d = RELAY_ID.to_bytes().to_vec();
        d.extend(c.seeds[i]);
        d.push(bump);
        d.extend(auth.as_ref());
        ExtIn { ty: PROXY, length: 97, data: Some(d) }
    }

    /// A request that should work, for the operation, in the current state.
    fn legit(&self, r: &mut Rng, op: u8) -> Option<Req> {
        let c = cast();
        let assets = self.assets();
        let some = |r: &mut Rng, v: &[(Pubkey, Img)]| if v.is_empty() { None } else { Some(r.pick(v).clone()) };
        let filt = |f: &dyn Fn(&Pubkey, &Img) -> bool| -> Vec<(Pubkey, Img)> {
            assets.iter().filter(|(k, i)| f(k, i)).cloned().collect()
        };
        let able = |i: &Img, role: u8| {
            let mut v = vec![i.owner];
            if i.has_delegate() && i.roles & role != 0 {
                v.extend([i.delegate, i.delegate]);
            }
            if let Some((q, m)) = i.manager() {
                if m & role != 0 {
                    v.extend([q, q]);
                }
            }
            v
        };
        let req = |op: u8, accts: Vec<Option<Pubkey>>, args: Args| Some(Req { op, accts, args, sign: true });
        let roles = |r: &mut Rng| {
            if r.chance(25) {
                Args::Delegate(None)
            } else {
                // a role may be named more than once
                let n = if r.chance(12) { 4 + r.below(5) } else { r.below(4) };
                Args::Delegate(Some((0..n).map(|_| r.below(4) as u8).collect()))
            }
        };
        match op {
            0 => {
                let (k, _) = some(r, &self.buffers())?;
                req(0, vec![Some(k), Some(*r.pick(&c.wallets))], Args::Unit)
            }
            1 => {
                let pick = filt(&|_, i| !i.locked() && (i.group_size().unwrap_or(0) == 0));
                let any = pick.is_empty() || r.chance(10);
                let shared = filt(&|_, i| !i.locked() && i.group_size().unwrap_or(0) == 0 && able(i, R_BURN).len() > 1);
                let pick = if !shared.is_empty() && r.chance(30) { shared } else { pick };
                let (k, i) = some(r, if any { &assets } else { &pick })?;
                let s = *r.pick(&able(&i, R_BURN));
                let rec = r.chance(60).then(|| *r.pick(&c.wallets));
                let g = (i.group != ZERO).then_some(i.group);
                req(1, vec![Some(k), Some(s), rec, g], Args::Unit)
            }
            2 => self.legit_create(r, &assets),
            3 => {
                let (k, i) = some(r, &assets)?;
                let d = if i.has_delegate() && r.chance(40) { i.delegate } else { *r.pick(&self.holders) };
                let a = roles(r);
                req(3, vec![Some(k), Some(i.owner), Some(d)], a)
            }
            6 => {
                let pick = filt(&|_, i| i.has_delegate());
                let (k, i) = some(r, if pick.is_empty() { &assets } else { &pick })?;
                let s = if i.has_delegate() && r.chance(40) { i.delegate } else { i.owner };
                let a = roles(r);
                req(6, vec![Some(k), Some(s)], a)
            }
            5 | 8 => {
                let pick = filt(&|_, i| i.locked() == (op == 8));
                let any = pick.is_empty() || r.chance(10);
                let (k, i) = some(r, if any { &assets } else { &pick })?;
                let mut v = vec![];
                if !i.has_delegate() {
                    v.push(i.owner);
                } else if i.roles & R_LOCK != 0 {
                    v.push(i.delegate);
                }
                if let Some((q, m)) = i.manager() {
                    if m & R_LOCK != 0 {
                        v.push(q);
                    }
                }
                if v.is_empty() {
                    v.push(i.owner);
                }
                req(op, vec![Some(k), Some(*r.pick(&v))], Args::Unit)
            }
            7 => {
                let pick = filt(&|_, i| !i.locked() && i.standard != SOULBOUND);
                let any = pick.is_empty() || r.chance(15);
                let shared = filt(&|_, i| !i.locked() && i.standard != SOULBOUND && able(i, R_TRANSFER).len() > 1);
                let pick = if !shared.is_empty() && r.chance(25) { shared } else { pick };
                let (k, i) = some(r, if any { &assets } else { &pick })?;
                let s = *r.pick(&able(&i, R_TRANSFER));
                let to = if r.chance(10) { i.owner } else { *r.pick(&self.holders) };
                let g = (i.group != ZERO).then_some(i.group);
                req(7, vec![Some(k), Some(s), Some(to), g], Args::Unit)
            }
            9 | 11 => {
                let pick = filt(&|_, i| !i.creators().is_empty());
                let (k, i) = some(r, if pick.is_empty() { &assets } else { &pick })?;
                let list = i.creators();
                let w = if list.is_empty() { *r.pick(&self.holders) } else { r.pick(&list).0 };
                req(op, vec![Some(k), Some(w)], Args::Unit)
            }
            10 => self.legit_update(r, &assets),
            12 => {
                let v: Vec<_> = self
                    .buffers()
                    .into_iter()
                    .filter(|(_, i)| i.exts.last().map(|x| !x.complete()).unwrap_or(false))
                    .collect();
                let (k, i) = some(r, &v)?;
                let x = i.exts.last()?;
                let over = r.chance(20);
                let have = if over { 0 } else { x.data.len() };
                let left = x.decl as usize - have;
                let n = match r.below(4) {
                    0 => left,
                    1 => left.min(900),
                    _ => r.below(left + 1).min(1100),
                };
                // continue a well-formed payload when the buffer has none yet
                let full = self.fill(r, x.ty, x.decl as usize);
                let bytes = full.get(have..have + n).map(|b| b.to_vec()).unwrap_or_else(|| r.bytes(n));
                let p = self.payer(r);
                req(12, vec![Some(k), Some(p), Some(SYS)], Args::Write { overwrite: over, bytes })
            }
            4 => {
                let v: Vec<_> = self
                    .buffers()
                    .into_iter()
                    .filter(|(_, i)| i.exts.last().map(|x| x.complete()).unwrap_or(true))
                    .collect();
                let free = self.free_slots();
                let (k, i) = if !free.is_empty() && (v.is_empty() || r.chance(40)) {
                    (*r.pick(&free), Img::blank())
                } else {
                    some(r, &v)?
                };
                let ty = self.ext_type(r).max(1);
                if i.ext(ty).is_some() && !r.chance(15) {
                    return None;
                }
                let d = self.payload(r, ty, None);
                let full = d.len();
                let data = match r.below(4) {
                    0 => None,
                    1 => Some(d[..r.below(full + 1)].to_vec()),
                    _ => Some(d),
                };
                let p = self.payer(r);
                // (sometimes declares less than it brings)
                let n = data.as_ref().map(|d| d.len()).unwrap_or(0);
                let full = if n > 0 && r.chance(4) { n - 1 - r.below(n.min(12)) } else { full };
                req(4, vec![Some(k), Some(p), Some(SYS)], Args::Allocate(ExtIn { ty, length: full as u32, data }))
            }
            13 => {
                let groups = filt(&|_, i| i.group_size().is_some());
                let (g, gi) = some(r, &groups)?;
                let pick = filt(&|k, i| i.group == ZERO && i.authority == gi.authority && *k != g);
                let any = pick.is_empty() || r.chance(10);
                let (k, _) = some(r, if any { &assets } else { &pick })?;
                let s = match gi.group_delegate() {
                    Some(d) if r.chance(50) => d,
                    _ => gi.authority,
                };
                req(13, vec![Some(k), Some(g), Some(s)], Args::Unit)
            }
            14 => {
                let pick = filt(&|_, i| i.group != ZERO);
                let (k, i) = some(r, &pick)?;
                let gi = self.img(&i.group)?;
                let s = match gi.group_delegate() {
                    Some(d) if r.chance(50) => d,
                    _ => gi.authority,
                };
                req(14, vec![Some(k), Some(i.group), Some(s)], Args::Unit)
            }
            15 => {
                let (k, i) = some(r, &assets)?;
                let n = if r.chance(60) { *r.pick(&c.wallets[..2]) } else { *r.pick(&self.holders) };
                req(15, vec![Some(k), Some(i.authority), Some(n)], Args::Unit)
            }
            16 => {
                let pick = filt(&|_, i| i.is_mutable() && !i.exts.is_empty());
                let any = pick.is_empty() || r.chance(10);
                let (k, i) = some(r, if any { &assets } else { &pick })?;
                let ty = if i.exts.is_empty() || r.chance(10) { r.below(12) as u32 } else { r.pick(&i.exts).ty };
                let g = (i.group != ZERO).then_some(i.group);
                req(16, vec![Some(k), Some(i.authority), g, Some(*r.pick(&c.wallets))], Args::Remove(ty))
            }
            17 => {
                let pick = filt(&|_, i| i.is_mutable());
                let any = pick.is_empty() || r.chance(10);
                let (k, i) = some(r, if any { &assets } else { &pick })?;
                let s = if r.chance(50) {
                    None
                } else {
                    Some(*r.pick(&[0u16, 1, 5, 7, 8, 9, 15, 16, 17, 24, 33, 100, 1000, 255, 256, 4096, 10_232, 10_240, 10_241, 32_768, 65_535]))
                };
                let p = self.payer(r);
                Some(Req {
                    op: 17,
                    accts: vec![Some(k), Some(i.authority), Some(p), Some(SYS)],
                    args: Args::Resize(s),
                    sign: s.is_some() || r.chance(50),
                })
            }
            _ => None,
        }
    }

    /// A deterministic well-formed payload of exactly `n` bytes where the type allows one.
    fn fill(&self, r: &mut Rng, ty: u32, n: usize) -> Vec<u8> {
        let c = cast();
        match ty {
            BLOB if n > 4 => {
                let mut d = vec![3, b'a', b'b', b'c'];
                d.extend((4..n).map(|i| i as u8));
                d
            }
            BUCKET => (0..n).map(|i| (i * 7) as u8).collect(),
            CREATORS if n % 34 == 0 && n > 0 => {
                let mut d = vec![];
                for i in 0..n / 34 {
                    d.extend(c.wallets[i % 6].as_ref());
                    d.extend([0, if i == 0 { (100 - (n / 34 - 1)) as u8 } else { 1 }]);
                }
                d
            }
            GROUPING if n >= 16 => {
                let mut d = vec![0; n];
                d[8] = 3;
                d
            }
            MANAGER if n == 33 => {
                let mut d = c.wallets[r.below(6)].to_bytes().to_vec();
                d.push(7);
                d
            }
            ROYALTIES if n >= 16 => {
                let mut d = vec![0; n];
                d[0] = 200;
                d[8] = 5;
                d
            }
            ATTRIBUTES | LINKS | METADATA if n >= 2 => {
                // pairs of strings covering the length exactly
                let mut d = vec![];
                let mut left = n;
                while left > 0 {
                    if left == 1 {
                        d.push(0);
                        left = 0;
                        continue;
                    }
                    let a = (left - 2).min(200);
                    let a = if left - 2 - a == 1 && a > 0 { a - 1 } else { a };
                    d.push(a as u8);
                    d.extend(vec![b'x'; a]);
                    d.push(0);
                    left -= a + 2;
                }
                d
            }
            _ => vec![0; n],
        }
    }

    fn legit_create(&self, r: &mut Rng, assets: &[(Pubkey, Img)]) -> Option<Req> {
        let c = cast();
        let bufs: Vec<_> = self
            .buffers()
            .into_iter()
            .filter(|(_, i)| i.exts.last().map(|x| x.complete()).unwrap_or(true))
            .collect();
        let free = self.free_slots();
        let mut standard = r.weighted(&self.p.standards) as u8;
        let (k, b) = if !bufs.is_empty() && (free.is_empty() || r.chance(40)) {
            let (k, i) = r.pick(&bufs).clone();
            (k, Some(i))
        } else if standard == PROXIED {
            let v: Vec<usize> = (0..c.px.len()).filter(|i| !self.db.map.contains_key(&c.px[*i])).collect();
            if v.is_empty() {
                return None;
            }
            (c.px[*r.pick(&v)], None)
        } else if !free.is_empty() {
            (*r.pick(&free), None)
        } else {
            return None;
        };
        let mut authority = if r.chance(80) { *r.pick(&c.wallets[..2]) } else { *r.pick(&self.holders) };
        let mut group = None;
        let mut group_auth = None;
        let mut sign = r.chance(60);
        if r.chance(self.p.group_pct) {
            let groups: Vec<_> = assets.iter().filter(|(_, i)| i.group_size().is_some()).collect();
            if !groups.is_empty() {
                let (g, gi) = *r.pick(&groups);
                group = Some(*g);
                if r.chance(95) {
                    authority = gi.authority;
                }
                match gi.group_delegate() {
                    Some(d) if r.chance(50) => group_auth = Some(d),
                    _ => {
                        if r.chance(50) {
                            group_auth = Some(gi.authority)
                        } else {
                            sign = true
                        }
                    }
                }
            }
        }
        let mut exts = self.exts(r, authority);
        if let Some(b) = &b {
            if r.chance(70) {
                exts.clear();
            }
            exts.retain(|e| b.ext(e.ty).is_none());
            if b.ext(MANAGER).is_some() {
                standard = MANAGED;
            }
        }
        let has = |e: &Vec<ExtIn>, t: u32| e.iter().any(|x| x.ty == t) || b.as_ref().map(|b| b.ext(t).is_some()).unwrap_or(false);
        if r.chance(95) {
            exts.retain(|e| e.ty != PROXY && e.ty != 0);
            if standard == PROXIED {
                let place = c.px.iter().position(|x| *x == k);
                let auth = if r.chance(12) { ZERO } else { authority };
                let wrong = !self.quiet && r.chance(8);
                match place {
                    Some(i) if !wrong => exts.push(self.proxy_ext(i, auth)),
                    None if !wrong => standard = 0,
                    _ => {
                        // the data of another place, or of none
                        let i = r.below(c.px.len());
                        let mut e = self.proxy_ext(i, auth);
                        if let Some(d) = e.data.as_mut().filter(|_| place == Some(i) || r.chance(20)) {
                            match r.below(3) {
                                0 => d[64] = d[64].wrapping_sub(1 + r.below(3) as u8),
                                1 => d[32 + r.below(32)] ^= 1,
                                _ => d[..32].copy_from_slice(pid().as_ref()),
                            }
                        }
                        exts.push(e);
                    }
                }
            }
            if standard == MANAGED && !has(&exts, MANAGER) {
                let d = self.payload(r, MANAGER, None);
                exts.push(ExtIn { ty: MANAGER, length: d.len() as u32, data: Some(d) });
            }
            if standard != MANAGED {
                exts.retain(|e| e.ty != MANAGER);
            }
        }
        let owner = *r.pick(&self.holders);
        let p = self.payer(r);
        Some(Req {
            op: 2,
            accts: vec![Some(k), Some(authority), Some(owner), group, group_auth, Some(p), Some(SYS)],
            args: Args::Create {
                name: gen::word(r, 60),
                standard,
                mutable: r.chance(88),
                exts: if exts.is_empty() && r.chance(50) { None } else { Some(exts) },
            },
            sign,
        })
    }

    fn legit_update(&self, r: &mut Rng, assets: &[(Pubkey, Img)]) -> Option<Req> {
        let pick: Vec<_> = assets.iter().filter(|(_, i)| i.is_mutable()).cloned().collect();
        let v = if pick.is_empty() || r.chance(8) { assets } else { &pick };
        if v.is_empty() {
            return None;
        }
        let (k, i) = r.pick(v).clone();
        let name = r.chance(25).then(|| gen::word(r, 60));
        let mutable = match r.below(20) {
            0 => Some(false),
            1 => Some(true),
            _ => None,
        };
        let bufs: Vec<_> = self.buffers();
        let mut ext = None;
        let mut buf = None;
        if !bufs.is_empty() && r.chance(30) {
            buf = Some(r.pick(&bufs).0);
        } else if r.chance(85) {
            let ty = if !i.exts.is_empty() && r.chance(60) { r.pick(&i.exts).ty } else { self.ext_type(r) };
            let old = i.ext(ty).map(|x| x.data.clone());
            let mut d = self.payload(r, ty, Some(i.authority));
            if let Some(o) = &old {
                match ty {
                    CREATORS if r.chance(60) => {
                        // keep the present creators, as a well-behaved authority does
                        let keep: Vec<_> = i.creators();
                        if keep.len() < 5 || self.p.big > 0 {
                            d = o.clone();
                            let n = d.len();
                            if n >= 34 && r.chance(60) && d[33] >= 10 {
                                let s = r.below(d[33] as usize + 1) as u8;
                                d[33] -= s;
                                d.extend(r.pick(&self.holders).as_ref());
                                d.extend([r.chance(30) as u8, s]);
                            }
                            for c in d.chunks_exact_mut(34) {
                                if r.chance(20) {
                                    c[32] = r.below(2) as u8;
                                }
                            }
                        }
                    }
                    GROUPING if r.chance(50) && d.len() >= 16 => {
                        d[..8].copy_from_slice(&(r.below(4) as u64).to_le_bytes());
                        let max = i.group_size().unwrap_or(0) as i64 + r.below(3) as i64 - 1;
                        d[8..16].copy_from_slice(&(max.max(0) as u64).to_le_bytes());
                    }
                    PROXY if o.len() == 97 => {
                        d = o.clone();
                        if r.chance(70) {
                            d[65..].copy_from_slice(r.pick(&self.holders).as_ref());
                        } else {
                            let n = r.below(65);
                            d[n] ^= 1;
                        }
                    }
                    BLOB | BUCKET if r.chance(40) && o.len() > 8 => {
                        // a size near the old one
                        d = o.clone();
                        let n = (o.len() as i64 + r.below(19) as i64 - 9).max(5) as usize;
                        d.resize(n, 3);
                    }
                    _ => {}
                }
            }
            let length = match r.below(50) {
                0 => d.len() as u32 + 1,
                1 => (d.len() as u32).saturating_sub(1),
                2 => r.below(d.len() + 9) as u32,
                _ => d.len() as u32,
            };
            let data = if r.chance(3) { None } else { Some(d) };
            ext = Some(ExtIn { ty, length, data });
        }
        let p = r.chance(93).then(|| self.payer(r));
        let g = (i.group != ZERO).then_some(i.group);
        Some(Req {
            op: 10,
            accts: vec![Some(k), Some(i.authority), buf, g, p, Some(SYS)],
            args: Args::Update { name, mutable, ext },
            sign: true,
        })
    }

    /// A right request aimed at an account of the wrong kind, or one that promises more than it brings.
    fn misplaced(&self, r: &mut Rng) -> Option<Req> {
        let live = self.assets();
        let bufs = self.buffers();
        let payer = self.payer(r);
        let unit = |op: u8, accts: Vec<Option<Pubkey>>| Some(Req { op, accts, args: Args::Unit, sign: true });
        match r.below(13) {
            8 | 9 => {
                // the right request with another group, or with none
                let v: Vec<_> = live.iter().filter(|(_, i)| i.group != ZERO && !i.locked()).cloned().collect();
                if v.is_empty() {
                    return None;
                }
                let (k, i) = r.pick(&v).clone();
                let real: Vec<Pubkey> =
                    live.iter().filter(|x| x.1.group_size().is_some() && x.0 != i.group).map(|x| x.0).collect();
                let g = match r.below(4) {
                    0 => None,
                    1 => Some(r.pick(&live).0),
                    _ if real.is_empty() => None,
                    _ => Some(*r.pick(&real)),
                };
                let to = Some(*r.pick(&cast().wallets));
                let mut s = vec![i.owner, i.owner];
                s.extend(i.has_delegate().then_some(i.delegate));
                s.extend(i.manager().map(|m| m.0));
                let s = *r.pick(&s);
                match r.below(4) {
                    0 => unit(1, vec![Some(k), Some(s), to, g]),
                    1 => {
                        let mut q = self.legit_update(r, &[(k, i)])?;
                        q.accts[3] = g;
                        Some(q)
                    }
                    _ => unit(7, vec![Some(k), Some(s), to, g]),
                }
            }
            10 | 11 => {
                // what is not a group in the place of one
                let mut v: Vec<Pubkey> = live.iter().filter(|x| x.1.group_size().is_none()).map(|x| x.0).collect();
                v.extend(bufs.iter().map(|x| x.0));
                v.push(*r.pick(&cast().wallets));
                v.push(*r.pick(&cast().fakes));
                let g = *r.pick(&v);
                match r.below(4) {
                    0 if !live.is_empty() => {
                        // its own authority asks
                        let (k, i) = r.pick(&live);
                        unit(13, vec![Some(*k), Some(g), Some(i.authority)])
                    }
                    1 => {
                        let w: Vec<_> = live.iter().filter(|(_, i)| i.group != ZERO).collect();
                        if w.is_empty() {
                            return None;
                        }
                        let (k, i) = *r.pick(&w);
                        let by = self.img(&i.group).map(|x| x.authority).unwrap_or(i.authority);
                        unit(14, vec![Some(*k), Some(g), Some(by)])
                    }
                    _ => {
                        let mut q = self.legit_create(r, &live)?;
                        q.accts[3] = Some(g);
                        if r.chance(50) {
                            if let Some(i) = self.img(&g).filter(|i| i.live()) {
                                q.accts[1] = Some(i.authority);
                            }
                        }
                        q.sign = true;
                        Some(q)
                    }
                }
            }
            0 => {
                // creators of an asset still being written
                let v: Vec<_> = bufs.iter().filter(|(_, i)| !i.creators().is_empty()).collect();
                if v.is_empty() {
                    return None;
                }
                let (k, i) = *r.pick(&v);
                let who = r.pick(&i.creators()).0;
                unit(if r.chance(50) { 9 } else { 11 }, vec![Some(*k), Some(who)])
            }
            1 if !live.is_empty() => {
                let (k, i) = r.pick(&live);
                unit(0, vec![Some(*k), Some(i.owner)])
            }
            2 if !live.is_empty() => {
                let (k, _) = r.pick(&live);
                let n = 1 + r.below(60);
                let args = if r.chance(50) {
                    Args::Write { overwrite: r.chance(50), bytes: r.bytes(n) }
                } else {
                    Args::Allocate(ExtIn { ty: BUCKET, length: n as u32, data: r.chance(50).then(|| r.bytes(n)) })
                };
                Some(Req { op: if matches!(args, Args::Write { .. }) { 12 } else { 4 }, accts: vec![Some(*k), Some(payer), Some(SYS)], args, sign: true })
            }
            3 | 4 => {
                // a finished asset in the place of a buffer
                let mut q = self.legit_update(r, &live)?;
                let v: Vec<_> = live.iter().filter(|(k, i)| Some(*k) != q.accts[0] && !i.exts.is_empty()).collect();
                if v.is_empty() {
                    return None;
                }
                q.accts[2] = Some(r.pick(&v).0);
                if let Args::Update { ext, .. } = &mut q.args {
                    *ext = None;
                }
                Some(q)
            }
            5 if !live.is_empty() => {
                // over an asset that exists
                let mut q = self.legit_create(r, &live)?;
                q.accts[0] = Some(r.pick(&live).0);
                Some(q)
            }
            _ => {
                // the last extension given inline is cut short
                let mut q = self.legit_create(r, &live)?;
                let Args::Create { exts, .. } = &mut q.args else { return None };
                let v = exts.get_or_insert_with(Vec::new);
                if v.is_empty() {
                    let d = self.payload(r, BUCKET, None);
                    v.push(ExtIn { ty: BUCKET, length: d.len() as u32, data: Some(d) });
                }
                let j = if r.chance(70) { v.len() - 1 } else { r.below(v.len()) };
                match r.below(5) {
                    4 => v[j].length = v[j].length.saturating_sub(1 + r.below(9) as u32),
                    0 => v[j].length += 1 + r.below(9) as u32,
                    1 => v[j].length += 1 + r.below(400) as u32,
                    2 => v[j].data = None,
                    _ => {
                        if let Some(d) = v[j].data.as_mut() {
                            let n = r.below(d.len() + 1);
                            d.truncate(n);
                        }
                    }
                }
                Some(q)
            }
        }
    }

    /// Anything at all.
    fn random(&self, r: &mut Rng) -> Req {
        let c = cast();
        let op = r.weighted(&self.p.ops) as u8;
        let live: Vec<Pubkey> =
            self.db.map.iter().filter(|(k, a)| a.owner == pid() && !c.ups.contains(k) && !c.js.contains(k)).map(|(k, _)| *k).collect();
        let accts = enc::ROLES[op as usize]
            .iter()
            .enumerate()
            .map(|(i, (_, _, o))| {
                if *o && r.chance(40) {
                    None
                } else if (i == 0 || (op == 13 || op == 14) && i == 1) && !live.is_empty() && r.chance(80) {
                    Some(*r.pick(&live))
                } else if i > 0 && r.chance(50) && !live.is_empty() {
                    let k = *r.pick(&live);
                    Some(self.related(r, &k))
                } else {
                    Some(*r.pick(&c.all))
                }
            })
            .collect();
        let ty = r.below(12) as u32;
        let d = self.payload(r, ty, None);
        let e = ExtIn {
            ty,
            length: if r.chance(10) { r.below(2000) as u32 } else { d.len() as u32 },
            data: r.chance(90).then_some(d),
        };
        let args = match op {
            2 => Args::Create {
                name: gen::word(r, 60),
                standard: r.below(4) as u8,
                mutable: r.chance(50),
                exts: r.chance(70).then(|| vec![e.clone()]),
            },
            3 | 6 => Args::Delegate(r.chance(60).then(|| vec![r.below(4) as u8])),
            4 => Args::Allocate(e),
            10 => Args::Update { name: None, mutable: r.chance(30).then(|| r.chance(50)), ext: r.chance(70).then_some(e) },
            12 => Args::Write { overwrite: r.chance(50), bytes: { let n = r.below(200); r.bytes(n) } },
            16 => Args::Remove(ty),
            17 => Args::Resize(r.chance(60).then(|| r.below(3000) as u16)),
            _ => Args::Unit,
        };
        Req { op, accts, args, sign: r.chance(60) }
    }

    /// Exactly one thing wrong (or merely unusual) with the request.
    fn spoil(&self, r: &mut Rng, ix: &mut Ix) {
        let c = cast();
        let n = ix.metas.len();
        let i = r.below(n);
        let subject = ix.metas[0].key;
        match r.below(14) {
            0..=4 => {
                let j = if n > 1 && r.chance(80) { 1 + r.below(n - 1) } else { i };
                ix.metas[j].key = self.related(r, &subject);
            }
            5..=7 => {
                let v: Vec<usize> = (0..n).filter(|j| ix.metas[*j].signer).collect();
                if !v.is_empty() {
                    let j = *r.pick(&v);
                    let k = ix.metas[j].key;
                    if r.chance(70) {
                        for x in ix.metas.iter_mut().filter(|x| x.key == k) {
                            x.signer = false;
                        }
                    } else {
                        ix.metas[j].signer = false;
                    }
                }
            }
            8 => {
                let v: Vec<usize> = (0..n).filter(|j| ix.metas[*j].writable).collect();
                if !v.is_empty() {
                    let j = *r.pick(&v);
                    ix.metas[j].writable = false;
                }
            }
            9 => {
                let j = r.below(n);
                ix.metas[i].key = ix.metas[j].key;
            }
            10 => {
                let k = if ix.metas[i].key == pid() { *r.pick(&c.all) } else { pid() };
                ix.metas[i].key = k;
            }
            11 => {
                if r.chance(50) {
                    ix.metas.truncate(n - 1);
                } else {
                    ix.metas.push(m(*r.pick(&c.all), false, r.chance(50)));
                }
            }
            12 => {
                if !ix.data.is_empty() {
                    match r.below(3) {
                        0 => {
                            let j = r.below(ix.data.len());
                            ix.data[j] ^= 1 << r.below(8);
                        }
                        1 => {
                            let j = r.below(ix.data.len());
                            ix.data.truncate(j);
                        }
                        _ => ix.data.push(r.next() as u8),
                    }
                }
            }
            _ => {
                let j = r.below(n);
                let k = ix.metas[i].key;
                ix.metas[i].key = ix.metas[j].key;
                ix.metas[j].key = k;
            }
        }
        // an abnormal huge length is outside what a transaction can carry
        if let Some((_, Args::Allocate(e))) = parse(&ix.data) {
            if e.length > 100_000 {
                ix.data = vec![4];
            }
        }
    }

    fn one(&mut self, r: &mut Rng) -> Option<Ix> {
        let odd = self.p.odd_pct;
        let mode = r.below(100) as u64;
        if mode < odd / 3 {
            let q = self.random(r);
            self.outer_builders(&q);
            let mut ix = enc::raw(&q);
            if r.chance(20) {
                for x in ix.metas.iter_mut() {
                    if r.chance(20) {
                        x.signer = !x.signer;
                    }
                }
            }
            return Some(self.wrap(r, ix, Some(&q), false, self.p.relay_pct));
        }
        let mut q = if r.chance(5) { self.misplaced(r) } else { None };
        for _ in 0..4 {
            if q.is_some() {
                break;
            }
            let op = r.weighted(&self.p.ops) as u8;
            q = self.legit(r, op);
        }
        let q = match q {
            Some(q) => q,
            None => self.legit(r, 2).or_else(|| self.legit(r, 7))?,
        };
        self.outer_builders(&q);
        let mut ix = enc::raw(&q);
        // proxied assets sign too
        if self.img(&ix.metas[0].key).map(|i| i.standard == PROXIED).unwrap_or(false) && r.chance(93) {
            ix.metas[0].signer = true;
        }
        if mode < odd {
            self.spoil(r, &mut ix);
            if r.chance(10) {
                self.spoil(r, &mut ix);
            }
        } else if r.chance(5) {
            self.generous(r, &mut ix);
        }
        Some(self.wrap(r, ix, Some(&q), false, self.p.relay_pct))
    }

    fn tx_step(&mut self, r: &mut Rng) {
        let n = match r.below(20) {
            0..=14 => 1,
            15..=17 => 2,
            _ => 3,
        };
        let mut ixs = vec![];
        let real = self.db.clone();
        let (clock, slot) = (self.clock, self.slot);
        for j in 0..n {
            if let Some(ix) = self.one(r) {
                if n > 1 && j + 1 < n {
                    // plan the rest of the transaction on the outcome of this part
                    run_tx(&mut self.db, &Tx { ixs: vec![ix.clone()] }, clock, slot, None);
                }
                ixs.push(ix);
            }
        }
        self.db = real;
        if !ixs.is_empty() {
            self.submit(r, Tx { ixs });
        }
    }

    // -------------------------------------------------------------- bridge and proxy clients

    fn bridge_step(&mut self, r: &mut Rng) {
        let c = cast();
        let t = r.pick(&c.mints);
        let md = if r.chance(5) { t.forged } else { t.md };
        let meta = tm::decode_metadata(&self.db.get(&md)).unwrap();
        let vault = self.db.get(&t.vault);
        let payer = self.payer(r);
        let create = vault.data.is_empty();
        let mut ix = if create && !r.chance(10) || (!create && r.chance(8)) {
            let coll = match meta.collection {
                Some((true, k)) => Some(ext::bridged_pda(&k).0),
                _ => r.chance(5).then(|| c.mints[0].asset),
            };
            // now and then another group, one the same authority could well own
            let groups: Vec<Pubkey> = if coll.is_some() && r.chance(20) {
                let v: Vec<Pubkey> =
                    self.assets().into_iter().filter(|(_, i)| i.ext(GROUPING).is_some()).map(|x| x.0).collect();
                v.into_iter().filter(|k| Some(*k) != coll).collect()
            } else {
                vec![]
            };
            let coll = if groups.is_empty() { coll } else { Some(*r.pick(&groups)) };
            // or leaves it out
            let coll = coll.filter(|_| !r.chance(6));
            let sign = meta.collection.map(|x| !x.0).unwrap_or(true) || r.chance(30);
            let is_collection = r.chance(if t.key == c.mints[0].key || t.key == c.mints[1].key { 65 } else { 20 });
            let q = m(coll.unwrap_or(bridge_program::ID), false, false);
            let ix = Ix {
                program: bridge_program::ID,
                metas: vec![
                    m(t.asset, false, true),
                    m(t.vault, false, true),
                    m(t.key, false, false),
                    m(md, false, false),
                    m(meta.update_authority, sign, false),
                    q,
                    m(payer, true, true),
                    m(SYS, false, false),
                    m(pid(), false, false),
                ],
                data: vec![1, is_collection as u8],
            };
            if self.p.builders {
                let mut out = vec![];
                crate::readers::bridge_create_builders(&ix, coll, is_collection, &mut out);
                self.stats.evaluations += 1;
                self.viols.extend(out);
            }
            if self.p.js & 1 != 0 {
                let mut out = vec![];
                crate::js::bridge_create(&ix, md == t.md, self.seeded(&ix.data), &mut out);
                self.stats.builds += 1;
                self.stats.evaluations += 1;
                self.viols.extend(out);
            }
            ix
        } else {
            let idle = vault.data.get(1).copied().unwrap_or(0) == 0;
            let img = self.img(&t.asset);
            // who holds the side to give up
            let mut holder = if idle {
                c.wallets
                    .iter()
                    .find(|w| matches!(tm::parse_token(&self.db.get(&ext::tm_ata(w, &t.key))), Some((_, _, n)) if n > 0))
                    .copied()
                    .unwrap_or(c.wallets[0])
            } else {
                img.as_ref().map(|i| i.owner).unwrap_or(c.wallets[0])
            };
            if r.chance(12) {
                holder = self.related(r, &t.asset);
            }
            let tok = ext::tm_ata(&holder, &t.key);
            let vtok = ext::tm_ata(&t.vault, &t.key);
            let pnft = meta.standard == Some(4);
            let o = |k: Option<Pubkey>, w: bool| match k {
                Some(k) => m(k, false, w),
                None => m(bridge_program::ID, false, false),
            };
            let group = img.as_ref().filter(|i| i.group != ZERO).map(|i| i.group);
            let ix = Ix {
                program: bridge_program::ID,
                metas: vec![
                    m(t.asset, false, true),
                    m(t.vault, false, true),
                    m(holder, true, false),
                    m(tok, false, true),
                    m(t.key, false, false),
                    m(t.md, false, true),
                    m(t.edition, false, false),
                    o(pnft.then(|| tm::record_pda(&t.key, &tok)), true),
                    m(vtok, false, true),
                    o(pnft.then(|| tm::record_pda(&t.key, &vtok)), true),
                    m(payer, true, true),
                    m(pid(), false, false),
                    m(tm::TM_ID, false, false),
                    m(SYS, false, false),
                    m(tm::SYSVAR_IX, false, false),
                    m(tm::TOKEN_ID, false, false),
                    m(tm::ATA_ID, false, false),
                    o(None, false),
                    o(None, false),
                    o(group, false),
                ],
                data: vec![0],
            };
            if self.p.builders {
                let mut out = vec![];
                crate::readers::bridge_builders(&ix, &mut out);
                self.stats.evaluations += 1;
                self.viols.extend(out);
            }
            if self.p.js & 1 != 0 {
                let mut out = vec![];
                crate::js::bridge(&ix, pnft, self.seeded(&ix.data), &mut out);
                self.stats.builds += 1;
                self.stats.evaluations += 1;
                self.viols.extend(out);
            }
            ix
        };
        if r.below(100) < self.p.odd_pct as usize {
            let other = r.pick(&c.mints);
            match r.below(3) {
                0 => {
                    // a foreign pair's accounts mixed in
                    let j = r.below(5);
                    let k = [other.asset, other.vault, other.key, other.md, other.edition][j];
                    let v: Vec<usize> = (0..ix.metas.len())
                        .filter(|i| [t.asset, t.vault, t.key, t.md, t.edition][j] == ix.metas[*i].key)
                        .collect();
                    if let Some(i) = v.first() {
                        ix.metas[*i].key = k;
                    }
                }
                1 => {
                    let v: Vec<usize> = (0..ix.metas.len()).filter(|j| ix.metas[*j].signer).collect();
                    if !v.is_empty() {
                        ix.metas[*r.pick(&v)].signer = false;
                    }
                }
                _ => self.spoil(r, &mut ix),
            }
        }
        let ix = self.wrap(r, ix, None, false, 5);
        let mut ixs = vec![ix];
        if r.chance(8) {
            ixs.push(ixs[0].clone());
        }
        self.submit(r, Tx { ixs });
    }

    fn proxy_step(&mut self, r: &mut Rng) {
        let c = cast();
        let i = r.below(c.stubs.len());
        let (stub, asset) = (c.stubs[i], c.pa[i]);
        let img = self.img(&asset).filter(|i| i.live());
        let payer = self.payer(r);
        if let Some(img) = img.as_ref().filter(|_| r.chance(5)) {
            // a busy asset: one hand-over after another
            let mut from = img.owner;
            let same = r.chance(40);
            for _ in 0..4 + r.below(14) {
                if self.sig(&from) != Sig::Key {
                    break;
                }
                let to = if same || r.chance(20) { from } else { *r.pick(&c.wallets) };
                let q = Req { op: 7, accts: vec![Some(asset), Some(from), Some(to), None], args: Args::Unit, sign: true };
                let mut ix = enc::raw(&q);
                ix.program = proxy_program::ID;
                ix.metas[0].signer = false;
                ix.metas.push(m(pid(), false, false));
                self.submit(r, Tx { ixs: vec![ix] });
                match self.img(&asset) {
                    Some(i) => from = i.owner,
                    None => break,
                }
            }
            return;
        }
        let mut ix;
        match img {
            None => {
                let (owner, auth) = (*r.pick(&self.holders), *r.pick(&self.holders));
                let name = gen::word(r, 40);
                let mut data = vec![0];
                data.extend((name.len() as u32).to_le_bytes());
                data.extend(&name);
                ix = Ix {
                    program: proxy_program::ID,
                    metas: vec![
                        m(asset, false, true),
                        m(stub, true, false),
                        m(owner, false, false),
                        m(auth, true, false),
                        m(payer, true, true),
                        m(SYS, false, false),
                        m(pid(), false, false),
                    ],
                    data,
                };
                if self.p.js & 1 != 0 {
                    let mut out = vec![];
                    crate::js::proxy_create(&ix, &name, self.seeded(&ix.data), &mut out);
                    self.stats.builds += 1;
                    self.stats.evaluations += 1;
                    self.viols.extend(out);
                }
            }
            Some(img) => {
                let pauth = img.ext(PROXY).map(|x| Pubkey::new_from_array(x.data[65..97].try_into().unwrap())).unwrap_or(ZERO);
                let op = *r.pick(&[7u8, 7, 7, 10, 10, 3, 6, 5, 8, 1, 15, 16, 17, 13, 14, 2, 4, 12, 0, 9, 11]);
                let q = match op {
                    10 => Req {
                        op,
                        accts: vec![Some(asset), Some(pauth), None, None, Some(payer), Some(SYS)],
                        args: Args::Update {
                            name: r.chance(70).then(|| gen::word(r, 40)),
                            mutable: r.chance(6).then_some(false),
                            ext: match img.ext(PROXY) {
                                Some(x) if r.chance(15) && x.data.len() == 97 => {
                                    let mut d = x.data.clone();
                                    match r.below(4) {
                                        0 => d[64] = d[64].wrapping_add(1 + r.below(4) as u8),
                                        1 => d[r.below(64)] ^= 1,
                                        2 => d[65..].copy_from_slice(r.pick(&self.holders).as_ref()),
                                        _ => {}
                                    }
                                    Some(ExtIn { ty: PROXY, length: 97, data: Some(d) })
                                }
                                _ => r.chance(20).then(|| ExtIn { ty: 11, length: 3, data: Some(vec![1, 2, 3]) }),
                            },
                        },
                        sign: true,
                    },
                    _ => {
                        // the generator picks any asset; retarget it here
                        let mut q = match self.legit(r, op) {
                            Some(q) => q,
                            None => self.random(r),
                        };
                        q.accts[0] = Some(asset);
                        let who = |role: u8, r: &mut Rng| {
                            let mut v = vec![img.owner];
                            if img.has_delegate() && img.roles & role != 0 {
                                v.push(img.delegate);
                            }
                            *r.pick(&v)
                        };
                        match q.op {
                            7 => {
                                q.accts[1] = Some(who(R_TRANSFER, r));
                                q.accts[3] = None;
                            }
                            1 => {
                                q.accts[1] = Some(who(R_BURN, r));
                                q.accts[3] = None;
                            }
                            3 | 6 => q.accts[1] = Some(img.owner),
                            5 | 8 => {
                                q.accts[1] = Some(if img.has_delegate() { img.delegate } else { img.owner });
                            }
                            15 | 16 | 17 => {
                                q.accts[1] = Some(if r.chance(60) { asset } else { self.related(r, &asset) });
                                if q.op == 15 {
                                    q.accts[2] = Some(*r.pick(&c.wallets));
                                }
                            }
                            13 | 14 => {
                                q.accts[2] = Some(if r.chance(40) { asset } else { self.related(r, &asset) });
                            }
                            _ => {}
                        }
                        q
                    }
                };
                if self.p.js & 1 != 0 {
                    let mut out = vec![];
                    if crate::js::request(&q, Some(proxy_program::ID), self.seeded(&enc::raw(&q).data), &mut out) {
                        self.stats.builds += 1;
                        self.stats.evaluations += 1;
                    }
                    self.viols.extend(out);
                }
                ix = enc::raw(&q);
                ix.program = proxy_program::ID;
                ix.metas[0].signer = false;
                ix.metas.push(m(pid(), false, false));
                if r.chance(10) {
                    // straight at the asset program
                    ix.program = pid();
                    ix.metas.pop();
                }
            }
        }
        if r.below(100) < self.p.odd_pct as usize {
            self.spoil(r, &mut ix);
        }
        // the relay cannot sign for these; a copy of the wrap without the reroute
        let ix = if ix.program == proxy_program::ID {
            self.wrap(r, ix, None, false, 5)
        } else {
            for x in ix.metas.iter_mut() {
                x.signer &= self.sig(&x.key) == Sig::Key;
            }
            ix
        };
        self.submit(r, Tx { ixs: vec![ix] });
    }

    // -------------------------------------------------------------- uploads

    fn upload_plan(&self, r: &mut Rng) -> Vec<(u32, Vec<u8>)> {
        let c = cast();
        let owners = [SYS, MARKET_ID, MARKET2_ID, pid()];
        let pool = Pool { keys: &self.holders, owners: &owners, big: self.p.big };
        let mut v: Vec<(u32, Vec<u8>)> = vec![];
        for _ in 0..1 + r.below(4) {
            let ty = *r.pick(&[ATTRIBUTES, BLOB, BLOB, CREATORS, LINKS, METADATA, GROUPING, ROYALTIES, PROPERTIES, BUCKET]);
            if v.iter().any(|x| x.0 == ty) {
                continue;
            }
            let mut d = gen::payload(r, ty, &pool, None);
            if ty == CREATORS {
                for c in d.chunks_exact_mut(34) {
                    c[32] = 0;
                }
            }
            v.push((ty, d));
        }
        if r.chance(35) {
            // around the sizes at which clients split an upload
            let ty = *r.pick(&[BLOB, BUCKET, ATTRIBUTES, METADATA]);
            let n = match r.below(6) {
                0 | 1 => 916 + r.below(14),
                2 => 1836 + r.below(20),
                3 => 1150 + r.below(40),
                4 => 2310 + r.below(60),
                _ => 880 + r.below(2200),
            };
            let d = self.fill(r, ty, n);
            v.retain(|x| x.0 != ty);
            let at = r.below(v.len() + 1);
            v.insert(at, (ty, d));
        }
        v
    }

    /// One move of the upload client, decided only from its plan and the chain state.
    fn upload_move(&self, r: &mut Rng, u: &Upload) -> Option<Ix> {
        let payer = self.payer(r);
        let how = r.below(3);
        let mk = |op: u8, accts: Vec<Option<Pubkey>>, args: Args| {
            let q = Req { op, accts, args, sign: true };
            Some(match how {
                0 => enc::raw(&q),
                1 => enc::client::build(&q, &[], false),
                _ => enc::client::direct(&q, &[]),
            })
        };
        let close = || mk(0, vec![Some(u.slot), Some(u.owner)], Args::Unit);
        let a = self.db.get(&u.slot);
        if a.owner != pid() && a.lamports > 0 {
            return None;
        }
        let b = if a.data.is_empty() { Img::blank() } else { Img::decode(&a.data).ok()? };
        if b.live() {
            return None;
        }
        for (i, x) in b.exts.iter().enumerate() {
            let last = i + 1 == b.exts.len();
            let Some((ty, want)) = u.plan.get(i) else { return close() };
            if x.ty != *ty || x.decl as usize != want.len() {
                return close();
            }
            if want.starts_with(&x.data) {
                if x.complete() {
                    continue;
                }
                let n = (want.len() - x.data.len()).min(u.chunk);
                let bytes = want[x.data.len()..x.data.len() + n].to_vec();
                return mk(12, vec![Some(u.slot), Some(payer), Some(SYS)], Args::Write { overwrite: false, bytes });
            }
            if last && !x.complete() {
                let bytes = want[..want.len().min(u.chunk)].to_vec();
                return mk(12, vec![Some(u.slot), Some(payer), Some(SYS)], Args::Write { overwrite: true, bytes });
            }
            return close();
        }
        if let Some((ty, want)) = u.plan.get(b.exts.len()) {
            let first = match r.below(3) {
                0 => None,
                1 => Some(want[..want.len().min(u.chunk)].to_vec()),
                _ => Some(want[..r.below(want.len().min(u.chunk) + 1)].to_vec()),
            };
            let e = ExtIn { ty: *ty, length: want.len() as u32, data: first };
            return mk(4, vec![Some(u.slot), Some(payer), Some(SYS)], Args::Allocate(e));
        }
        let q = Req {
            op: 2,
            accts: vec![Some(u.slot), Some(u.owner), Some(u.owner), None, None, Some(payer), Some(SYS)],
            args: Args::Create { name: u.name.clone(), standard: 0, mutable: u.mutable, exts: None },
            sign: false,
        };
        Some(enc::raw(&q))
    }

    fn upload_done(&mut self, i: usize) {
        let u = self.uploads[i].clone();
        let Some(img) = self.img(&u.slot) else { return };
        if !img.live() || u.done {
            return;
        }
        self.uploads[i].done = true;
        self.stats.evaluations += 1;
        let mut bad = vec![];
        if img.exts.len() != u.plan.len() {
            bad.push(format!("{} extensions, planned {}", img.exts.len(), u.plan.len()));
        }
        if bad.is_empty() && img.exts.iter().zip(&u.plan).any(|(x, p)| x.ty != p.0) {
            bad.push("extensions out of order".into());
        }
        for (ty, d) in &u.plan {
            match img.ext(*ty) {
                None => bad.push(format!("extension {ty} missing")),
                Some(x) if x.ty == CREATORS => {
                    let strip = |d: &[u8]| -> Vec<u8> {
                        let mut d = d.to_vec();
                        for c in d.chunks_exact_mut(34) {
                            c[32] = 0;
                        }
                        d
                    };
                    if strip(&x.data) != *d {
                        bad.push("creators differ".into());
                    }
                }
                Some(x) if x.data != *d => bad.push(format!("extension {ty} differs")),
                _ => {}
            }
        }
        if img.owner != u.owner
            || img.authority != u.owner
            || img.name != Img::name_from(&u.name)
            || img.standard != u.standard
            || (img.mutable != 0) != u.mutable
            || img.group != ZERO
            || img.delegate != ZERO
            || img.roles != 0
            || img.locked()
        {
            bad.push("header differs".into());
        }
        if !bad.is_empty() {
            self.viols.push(Viol { props: C11, what: format!("upload to {}: {}", label(&u.slot), bad.join(", ")) });
        }
    }

    /// The upload client lets its outstanding transactions expire before it goes on.
    fn expire(&mut self, slot: &Pubkey) {
        let on = |tx: &Tx| tx.ixs.iter().any(|ix| ix.metas.iter().any(|x| x.key == *slot));
        self.pending.retain(|p| !on(&p.tx));
        self.recent.retain(|tx| !on(tx));
        if let Some(s) = self.snap.as_mut() {
            s.seen.retain(|tx| !on(tx));
        }
    }

    fn upload_step(&mut self, r: &mut Rng) {
        let c = cast();
        match r.below(10) {
            0 => return self.mint_step(r),
            1 => return self.relay_upload_step(r),
            2 => return self.bad_upload_step(r),
            _ => {}
        }
        if self.uploads.len() < c.ups.len() {
            let slot = c.ups[self.uploads.len()];
            let plan = self.upload_plan(r);
            let u = Upload {
                slot,
                plan,
                owner: *r.pick(&c.wallets),
                mutable: r.chance(80),
                standard: 0,
                name: gen::word(r, 30),
                chunk: *r.pick(&[1usize, 7, 8, 100, 500, 900, 925]),
                done: false,
            };
            self.uploads.push(u);
        }
        let i = r.below(self.uploads.len());
        if self.uploads[i].done || self.img(&self.uploads[i].slot).map(|x| x.live()).unwrap_or(false) {
            // recycle: burn and plan something else
            let u = self.uploads[i].clone();
            if self.snap.is_some() {
                return;
            }
            if let Some(img) = self.img(&u.slot).filter(|x| x.live()) {
                if self.sig(&img.owner) == Sig::Key && !img.locked() && img.group == ZERO {
                    let q = Req {
                        op: 1,
                        accts: vec![Some(u.slot), Some(img.owner), Some(u.owner), None],
                        args: Args::Unit,
                        sign: true,
                    };
                    let ix = enc::raw(&q);
                    self.submit(r, Tx { ixs: vec![ix] });
                }
            }
            if !self.db.map.contains_key(&u.slot) {
                let plan = self.upload_plan(r);
                let chunk = *r.pick(&[3usize, 8, 50, 400, 900, 925]);
                self.expire(&u.slot);
                let v = &mut self.uploads[i];
                v.plan = plan;
                v.chunk = chunk;
                v.done = false;
            }
            return;
        }
        for _ in 0..1 + r.below(4) {
            let u = self.uploads[i].clone();
            let Some(mut ix) = self.upload_move(r, &u) else { break };
            if matches!(ix.data.first(), Some(0 | 2)) {
                self.expire(&u.slot);
            }
            let mut tx = Tx { ixs: vec![ix.clone()] };
            if r.chance(10) {
                // the client crashed before seeing the answer and comes back with another chunk size
                self.stats.fault("upload client crash and restart");
                self.uploads[i].chunk = *r.pick(&[1usize, 9, 64, 300, 925]);
            }
            if r.chance(6) {
                self.stats.fault("upload chunk sent twice");
                tx.ixs.push(ix.clone());
            }
            if r.chance(6) {
                // somebody without the key tries the same
                ix.metas[0].signer = false;
                self.execute(&Tx { ixs: vec![ix] }, None);
            }
            self.submit(r, tx);
            self.upload_done(i);
        }
    }

    /// Contents that must not get into a finished extension, written piece by piece.
    fn bad_upload_step(&mut self, r: &mut Rng) {
        let c = cast();
        let free = self.free_slots();
        if free.is_empty() {
            return;
        }
        let slot = *r.pick(&free);
        let payer = self.payer(r);
        let ty = self.ext_type(r).max(1);
        let owners = [SYS, MARKET_ID, MARKET2_ID, pid()];
        let pool = Pool { keys: &self.holders, owners: &owners, big: self.p.big };
        let d = gen::bad_payload(r, ty, &pool);
        let put = |op: u8, args: Args| enc::raw(&Req { op, accts: vec![Some(slot), Some(payer), Some(SYS)], args, sign: true });
        let a = r.below(d.len() + 1);
        let first = if r.chance(50) { None } else { Some(d[..a].to_vec()) };
        let from = first.as_ref().map(|x| x.len()).unwrap_or(0);
        let mut ixs = vec![put(4, Args::Allocate(ExtIn { ty, length: d.len() as u32, data: first }))];
        let cut = from + r.below(d.len() - from + 1);
        if cut > from && r.chance(40) {
            ixs.push(put(12, Args::Write { overwrite: false, bytes: d[from..cut].to_vec() }));
            ixs.push(put(12, Args::Write { overwrite: false, bytes: d[cut..].to_vec() }));
        } else if r.chance(30) {
            ixs.push(put(12, Args::Write { overwrite: true, bytes: d.clone() }));
        } else {
            ixs.push(put(12, Args::Write { overwrite: false, bytes: d[from..].to_vec() }));
        }
        let owner = *r.pick(&c.wallets);
        let q = Req {
            op: 2,
            accts: vec![Some(slot), Some(owner), Some(owner), None, None, Some(payer), Some(SYS)],
            args: Args::Create { name: gen::word(r, 30), standard: if ty == MANAGER { 1 } else { 0 }, mutable: true, exts: None },
            sign: false,
        };
        ixs.push(enc::raw(&q));
        if r.chance(50) {
            for ix in ixs {
                self.submit(r, Tx { ixs: vec![ix] });
            }
        } else {
            self.submit(r, Tx { ixs });
        }
    }

    /// The client crate's `mint` helper, start to end.
    fn mint_step(&mut self, r: &mut Rng) {
        use nifty_asset::{mint, AssetArgs, ExtensionArgs, MintAccounts, MintIxArgs};
        let c = cast();
        let free = self.free_slots();
        if free.is_empty() {
            return;
        }
        let slot = *r.pick(&free);
        let mut plan = self.upload_plan(r);
        if r.chance(5) {
            plan.clear();
        }
        let (standard, mutable) = (if r.chance(25) { 2 } else { 0 }, r.chance(75));
        let owner = *r.pick(&c.wallets[..4]);
        let payer = if r.chance(50) { Some(self.payer(r)) } else { None };
        let name = gen::word(r, 30);
        let args = MintIxArgs {
            accounts: MintAccounts { asset: slot, owner, payer },
            asset_args: AssetArgs {
                name: String::from_utf8(name.clone()).unwrap(),
                standard: match standard {
                    0 => nifty_asset::types::Standard::NonFungible,
                    _ => nifty_asset::types::Standard::Soulbound,
                },
                mutable,
            },
            extension_args: plan
                .iter()
                .map(|(t, d)| ExtensionArgs { extension_type: enc::client::ety(*t), data: d.clone() })
                .collect(),
        };
        let ixs = match mint(args) {
            Ok(v) => v,
            Err(e) => {
                self.viols.push(Viol { props: C11 | C19, what: format!("mint helper failed: {e:?}") });
                return;
            }
        };
        let pays = payer.unwrap_or(owner);
        if self.db.get(&pays).lamports < 200_000_000 || !self.plain(&pays) {
            return;
        }
        self.stats.evaluations += 1;
        let mut bad = vec![];
        for ix in &ixs {
            let ix = Ix::from(ix);
            // one transaction each: 1232 bytes with signatures, keys and blockhash
            let mut keys: Vec<Pubkey> = ix.metas.iter().map(|x| x.key).collect();
            keys.push(ix.program);
            keys.sort();
            keys.dedup();
            let mut signers: Vec<Pubkey> = ix.metas.iter().filter(|x| x.signer).map(|x| x.key).collect();
            signers.sort();
            signers.dedup();
            if signers.iter().any(|k| *k != slot && *k != pays) {
                bad.push("an instruction of the mint helper asks for somebody else's signature".into());
            }
            let size = 1 + 64 * signers.len() + 3 + 1 + 32 * keys.len() + 32 + 1 + 1 + 1 + ix.metas.len() + 2 + ix.data.len();
            if size > 1232 {
                bad.push(format!("instruction of {size} bytes does not fit a transaction"));
            }
            if !self.execute(&Tx { ixs: vec![ix] }, None) {
                bad.push("an instruction of the mint helper was refused".into());
                break;
            }
        }
        self.uploads.push(Upload { slot, plan, owner, mutable, standard, name, chunk: 1, done: false });
        let n = self.uploads.len() - 1;
        if bad.is_empty() {
            if self.img(&slot).map(|x| !x.live()).unwrap_or(true) {
                bad.push("the mint helper left no asset".into());
            }
            self.upload_done(n);
        }
        self.uploads.pop();
        if !bad.is_empty() {
            self.viols.push(Viol { props: C11 | C19, what: bad.join(", ") });
        }
    }

    /// Upload from inside a program with the client crate's macros.
    fn relay_upload_step(&mut self, r: &mut Rng) {
        let c = cast();
        let free = self.free_slots();
        if free.is_empty() {
            return;
        }
        let slot = *r.pick(&free);
        let plan = self.upload_plan(r);
        let payer = self.payer(r);
        if self.db.get(&payer).lamports < 500_000_000 || !self.plain(&payer) {
            return;
        }
        let owner = *r.pick(&c.wallets);
        let name = gen::word(r, 30);
        let metas =
            vec![m(slot, true, true), m(payer, true, true), m(SYS, false, false), m(pid(), false, false), m(owner, false, false)];
        let mut ixs: Vec<Ix> = plan
            .iter()
            .map(|(ty, d)| Ix {
                program: RELAY_ID,
                metas: metas.clone(),
                data: relay::order(Order {
                    job: Job::Upload { asset: slot, payer, ty: *ty, data: d.clone() },
                    tags: vec![],
                    seeds: vec![],
                    target: pid(),
                }),
            })
            .collect();
        let q = Req {
            op: 2,
            accts: vec![Some(slot), Some(owner), Some(owner), None, None, Some(payer), Some(SYS)],
            args: Args::Create { name: name.clone(), standard: 0, mutable: true, exts: None },
            sign: false,
        };
        ixs.push(enc::raw(&q));
        let mut ok = true;
        for ix in ixs {
            ok &= self.execute(&Tx { ixs: vec![ix] }, None);
        }
        self.stats.evaluations += 1;
        if !ok {
            self.viols.push(Viol { props: C11 | C19, what: "the allocate-and-write helper failed".into() });
            return;
        }
        self.uploads.push(Upload { slot, plan, owner, mutable: true, standard: 0, name, chunk: 1, done: false });
        let n = self.uploads.len() - 1;
        if self.img(&slot).map(|x| !x.live()).unwrap_or(true) {
            self.viols.push(Viol { props: C11, what: "the allocate-and-write helper left no asset".into() });
        }
        self.upload_done(n);
        self.uploads.pop();
    }

    // -------------------------------------------------------------- JavaScript clients

    fn js_step(&mut self, r: &mut Rng) {
        if self.p.js & 1 != 0 && r.chance(10) {
            let mut out = vec![];
            crate::js::helpers(r, &mut out);
            self.stats.evaluations += 1;
            self.viols.extend(out);
        }
        match r.below(5) {
            0 | 1 => self.js_mint(r),
            _ => self.js_update(r),
        }
    }

    /// A plan in transactions as the network would take them; `None` when it would take none.
    fn js_plan(&mut self, what: &str, v: Result<serde_json::Value, String>, may_sign: &[Pubkey]) -> Option<Vec<Tx>> {
        let mut bad = vec![];
        let txs = match v {
            Err(e) => Err(format!("could not be made: {e}")),
            Ok(v) => crate::js::transactions(&v).ok_or_else(|| format!("unreadable plan {v}")),
        };
        let mut out = vec![];
        match txs {
            Err(e) => bad.push(e),
            Ok(txs) => {
                for t in txs {
                    let mut keys: BTreeSet<Pubkey> = BTreeSet::new();
                    let mut signers: BTreeSet<Pubkey> = BTreeSet::new();
                    let mut gathered: BTreeSet<Pubkey> = BTreeSet::new();
                    let mut n = 0;
                    for p in &t {
                        // the documented marks, wherever the account is there
                        let op = p.ix.data.first().copied().unwrap_or(255) as usize;
                        for (i, x) in p.ix.metas.iter().enumerate() {
                            let Some((s, w, _)) = enc::ROLES.get(op).and_then(|v| v.get(i)) else { continue };
                            let free = (op == 2 && i == 1) || (op == 17 && i == 2);
                            if x.key != pid() && (x.writable != *w || (x.signer != *s && !free)) {
                                bad.push(format!("account {i} of {} is not marked as documented", OPS[op]));
                            }
                        }
                        keys.extend(p.ix.metas.iter().map(|x| x.key));
                        keys.insert(p.ix.program);
                        signers.extend(p.ix.metas.iter().filter(|x| x.signer).map(|x| x.key));
                        gathered.extend(&p.signers);
                        n += 1 + 1 + p.ix.metas.len() + if p.ix.data.len() > 127 { 2 } else { 1 } + p.ix.data.len();
                    }
                    if signers != gathered {
                        bad.push("the signatures gathered are not the ones asked for".into());
                    }
                    if signers.iter().any(|k| !may_sign.contains(k)) {
                        bad.push("somebody else's signature is asked for".into());
                    }
                    let size = 1 + 64 * signers.len() + 3 + 1 + 32 * keys.len() + 32 + 1 + n;
                    // an update names as many accounts as its caller gives
                    if size > 1232 && t.iter().all(|p| p.ix.data.first() != Some(&10)) {
                        bad.push(format!("transaction of {size} bytes cannot be sent"));
                    }
                    if !t.is_empty() {
                        out.push(Tx { ixs: t.into_iter().map(|p| p.ix).collect() });
                    }
                }
            }
        }
        self.stats.builds += 1;
        self.stats.evaluations += 1;
        if bad.is_empty() {
            return Some(out);
        }
        self.viols.push(Viol { props: C22, what: format!("JavaScript {what}: {}", bad.join(", ")) });
        None
    }

    /// The faults a client meets between two transactions of a plan; `None` when it crashed for good.
    fn js_between(&mut self, r: &mut Rng, tx: &Tx) -> Option<bool> {
        let mut disturbed = false;
        if r.chance(5) {
            self.stats.fault("JavaScript client crash mid-plan");
            return None;
        }
        if r.chance(8) {
            let mut on = self.db.clone();
            let res = run_tx(&mut on, tx, self.clock, self.slot, Some(1 + r.below(8) as u64));
            if matches!(res.result, Err((_, Fail::Fault))) {
                self.stats.fault("abort inside a transaction");
                self.stats.fault("JavaScript client resends");
            }
        }
        if r.chance(6) {
            self.stats.fault("JavaScript client stalled while others go on");
            disturbed = true;
            for _ in 0..1 + r.below(3) {
                self.tx_step(r);
            }
        }
        Some(disturbed)
    }

    /// The JavaScript `mint` helper, start to end or to wherever the client dies.
    fn js_mint(&mut self, r: &mut Rng) {
        use serde_json::json;
        let c = cast();
        let free: Vec<Pubkey> = c.js[..3].iter().filter(|k| !self.db.map.contains_key(k)).copied().collect();
        if free.is_empty() || self.snap.is_some() {
            return;
        }
        let slot = *r.pick(&free);
        let mut plan = self.upload_plan(r);
        let mut standard = if r.chance(25) { 2 } else { 0 };
        if r.chance(15) {
            plan.push((MANAGER, self.payload(r, MANAGER, None)));
            standard = 1;
        }
        plan.retain(|(t, d)| crate::js::typed(*t, d, true).is_some());
        if plan.iter().all(|x| x.0 != MANAGER) && standard == 1 {
            standard = 0;
        }
        let mutable = r.chance(75);
        let owner = *r.pick(&c.wallets[..4]);
        let payer = self.payer(r);
        if self.db.get(&payer).lamports < 500_000_000 || !self.plain(&payer) {
            return;
        }
        let name = gen::word(r, 30);
        let Ok(text) = String::from_utf8(name.clone()) else { return };
        let mut input = json!({
            "asset": crate::js::s(&slot), "payer": crate::js::s(&payer), "name": text, "standard": standard, "mutable": mutable,
        });
        let mut identity = Pubkey::new_from_array([201; 32]);
        let how = r.below(3);
        match how {
            0 => identity = owner,
            1 => {
                input["authority"] = crate::js::k(&owner);
                input["owner"] = crate::js::k(&owner);
            }
            _ => {
                input["authority"] = crate::js::s(&owner);
                input["owner"] = crate::js::k(&owner);
            }
        }
        if r.chance(40) {
            input["systemProgram"] = crate::js::k(&SYS);
        }
        let (mut group, mut steward) = (None, None);
        if r.chance(30) {
            let v: Vec<_> = self.assets().into_iter().filter(|x| x.1.group_size().is_some()).collect();
            if !v.is_empty() {
                let (g, gi) = r.pick(&v).clone();
                group = Some(g);
                input["group"] = crate::js::k(&g);
                if self.sig(&gi.authority) == Sig::Key && r.chance(85) {
                    steward = Some(gi.authority);
                    input["groupAuthority"] = crate::js::s(&gi.authority);
                }
            }
        }
        let alone = enc::raw(&Req {
            op: 2,
            accts: vec![Some(slot), Some(owner), Some(owner), group, steward, Some(payer), Some(SYS)],
            args: Args::Create { name: name.clone(), standard, mutable, exts: None },
            sign: how != 1,
        });
        if !plan.is_empty() || r.chance(50) {
            let v: Option<Vec<_>> = plan.iter().map(|(t, d)| crate::js::written(*t, d, r)).collect();
            let Some(v) = v else { return };
            input["extensions"] = json!(v);
        }
        let v = crate::js::ask(json!({
            "op": "send", "f": "mint", "input": input, "identity": identity.to_string(),
            "payer": if r.chance(75) { payer } else { Pubkey::new_from_array([202; 32]) }.to_string(),
        }));
        let Some(txs) = self.js_plan("mint", v, &[slot, payer, owner, steward.unwrap_or(owner)]) else { return };
        let n = txs.len();
        let mut disturbed = false;
        let mut stopped = false;
        for (i, tx) in txs.iter().enumerate() {
            match self.js_between(r, tx) {
                None => {
                    stopped = true;
                    break;
                }
                Some(d) => disturbed |= d,
            }
            if tx.ixs.iter().any(|ix| ix.data.first() == Some(&2)) {
                // the last request, with nothing left to the client
                let mut on = self.db.clone();
                let res = run_tx(&mut on, &Tx { ixs: vec![alone.clone()] }, self.clock, self.slot, None);
                let ok = self.execute(tx, None);
                let want = res.result.is_ok();
                if ok != want || ok && [Some(slot), group].iter().flatten().any(|k| *self.db.get(k) != *on.get(k)) {
                    self.viols.push(Viol {
                        props: C22,
                        what: format!("JavaScript mint: the creation was {}, alone it is {} or differs", word(ok), word(want)),
                    });
                }
                if !ok {
                    stopped = true;
                    break;
                }
            } else if !self.execute(tx, None) {
                stopped = true;
                if !disturbed {
                    self.viols.push(Viol { props: C22, what: format!("JavaScript mint: transaction {i} of {n} was refused") });
                }
                break;
            }
        }
        self.stats.evaluations += 1;
        let live = self.img(&slot).map(|x| x.live()).unwrap_or(false);
        if stopped && live {
            self.viols.push(Viol { props: C22, what: "JavaScript mint: an asset from an unfinished plan".into() });
        }
        if stopped {
            // what is left can be taken back
            if self.db.get(&slot).owner == pid() && !live {
                let q = Req { op: 0, accts: vec![Some(slot), Some(payer)], args: Args::Unit, sign: true };
                self.execute(&Tx { ixs: vec![enc::raw(&q)] }, None);
            }
            return;
        }
        if !live {
            self.viols.push(Viol { props: C22, what: "JavaScript mint: no asset at the end of the plan".into() });
            return;
        }
        if group.is_some() {
            return;
        }
        let at = self.viols.len();
        self.uploads.push(Upload { slot, plan, owner, mutable, standard, name, chunk: 1, done: false });
        let n = self.uploads.len() - 1;
        self.upload_done(n);
        self.uploads.pop();
        for v in &mut self.viols[at..] {
            v.props = C22;
            v.what = format!("JavaScript mint: {}", v.what);
        }
    }

    /// The JavaScript `updateWithBuffer` helper (or `write` alone).
    fn js_update(&mut self, r: &mut Rng) {
        use serde_json::json;
        let c = cast();
        let buffer = c.js[3];
        if self.snap.is_some() || self.db.map.contains_key(&buffer) {
            return;
        }
        let mut assets = self.assets();
        let proxied: Vec<_> = assets.iter().filter(|x| c.pa.contains(&x.0)).cloned().collect();
        if !proxied.is_empty() && r.chance(25) {
            assets = proxied;
        }
        let Some(mut q) = self.legit_update(r, &assets) else { return };
        let asset = q.accts[0].unwrap();
        let Args::Update { name, mutable, ext } = q.args.clone() else { return };
        let through = c.pa.contains(&asset);
        let Some(img) = self.img(&asset) else { return };
        if img.standard == PROXIED && !through {
            return;
        }
        let ty = match ext {
            Some(e) if !through && r.chance(60) => e.ty,
            _ => *r.pick(&[BLOB, BUCKET, ATTRIBUTES, METADATA, LINKS, PROPERTIES, CREATORS, ROYALTIES]),
        };
        let mut d = match r.below(3) {
            0 if matches!(ty, BLOB | BUCKET | ATTRIBUTES | METADATA) => {
                let n = 800 + r.below(2000);
                self.fill(r, ty, n)
            }
            _ => self.payload(r, ty, Some(img.authority)),
        };
        if ty == CREATORS && r.chance(80) {
            for x in d.chunks_exact_mut(34) {
                x[32] = 0;
            }
        }
        if ty == GROUPING && d.len() >= 8 && r.chance(80) {
            d[..8].fill(0);
        }
        if crate::js::typed(ty, &d, true).is_none() {
            return;
        }
        let auth = if through {
            img.ext(PROXY).filter(|x| x.data.len() == 97).map(|x| Pubkey::new_from_array(x.data[65..97].try_into().unwrap())).unwrap_or(ZERO)
        } else {
            img.authority
        };
        let payer = self.payer(r);
        if self.sig(&auth) != Sig::Key || self.db.get(&payer).lamports < 500_000_000 || !self.plain(&payer) {
            return;
        }
        let txt = |b: &[u8]| String::from_utf8(b.to_vec()).ok();
        let Some(e) = crate::js::written(ty, &d, r) else { return };
        let mut input = json!({"asset": crate::js::k(&asset), "payer": crate::js::s(&payer), "extension": e});
        let mut identity = Pubkey::new_from_array([201; 32]);
        if r.chance(40) {
            identity = auth;
        } else {
            input["authority"] = crate::js::s(&auth);
        }
        let group = q.accts[3];
        if let Some(g) = group {
            input["group"] = crate::js::k(&g);
        }
        if let Some(n) = &name {
            let Some(t) = txt(n) else { return };
            input["name"] = json!(t);
        }
        if let Some(b) = mutable {
            input["mutable"] = json!(b);
        }
        let chunk = if r.chance(60) { *r.pick(&[1usize, 10, 33, 200, 600, 849, 850]) } else { 850 };
        let chunk = chunk.max(d.len() / 12);
        let chunked = d.len() > chunk;
        // marks without a signature do not stay in a buffer
        if chunk > 850 || chunked && ty == CREATORS && d.chunks_exact(34).any(|x| x[32] != 0) {
            return;
        }
        if chunk != 850 || r.chance(30) {
            input["chunkSize"] = json!(chunk);
        }
        if through {
            input["proxy"] = crate::js::k(&proxy_program::ID);
        }
        let v = crate::js::ask(json!({
            "op": "send", "f": "updateWithBuffer", "input": input, "identity": identity.to_string(),
            "payer": if r.chance(75) { payer } else { Pubkey::new_from_array([202; 32]) }.to_string(), "keys": [buffer.to_string()],
        }));
        let how = if through { "updateWithBuffer through a proxy" } else { "updateWithBuffer" };
        let Some(txs) = self.js_plan(how, v, &[buffer, payer, auth]) else { return };
        // the same, with nothing left to the client
        q.accts = vec![Some(asset), Some(auth), chunked.then_some(buffer), group, Some(payer), Some(SYS)];
        let e = ExtIn { ty, length: d.len() as u32, data: Some(d.clone()) };
        q.args = Args::Update { name, mutable, ext: (!chunked).then(|| e.clone()) };
        let mut update = enc::raw(&q);
        if through {
            update.program = proxy_program::ID;
            update.metas.push(m(pid(), false, false));
        }
        let put = |op: u8, args: Args| enc::raw(&Req { op, accts: vec![Some(buffer), Some(payer), Some(SYS)], args, sign: true });
        let put = vec![
            put(4, Args::Allocate(ExtIn { data: None, ..e })),
            put(12, Args::Write { overwrite: true, bytes: d.clone() }),
        ];
        let close = enc::raw(&Req { op: 0, accts: vec![Some(buffer), Some(payer)], args: Args::Unit, sign: true });
        let direct = |w: &World, ixs: Vec<Ix>| {
            let mut on = w.db.clone();
            let res = run_tx(&mut on, &Tx { ixs }, w.clock, w.slot, None);
            (res.result.is_ok(), on)
        };
        let fits = !chunked || direct(self, put).0;
        let is_update = |tx: &Tx| tx.ixs.iter().any(|ix| ix.data.first() == Some(&10));
        let n = txs.len();
        let start = self.db.get(&payer).lamports;
        let (mut disturbed, mut stopped, mut updated) = (false, false, false);
        let mut bad: Vec<String> = vec![];
        let mut want_payer = None;
        for (i, tx) in txs.iter().enumerate() {
            match self.js_between(r, tx) {
                None => {
                    stopped = true;
                    break;
                }
                Some(x) => disturbed |= x,
            }
            let mut want = None;
            if is_update(tx) {
                if chunked {
                    let have = self.img(&buffer).filter(|b| !b.live() && b.exts.len() == 1 && b.exts[0].ty == ty);
                    if have.map(|b| b.exts[0].data != d || !b.exts[0].complete()).unwrap_or(true) {
                        bad.push("the buffer does not hold what was meant".into());
                        break;
                    }
                }
                want = Some(direct(self, vec![update.clone()]));
                if chunked {
                    let (ok, on) = direct(self, vec![update.clone(), close.clone()]);
                    want_payer = ok.then(|| on.get(&payer).lamports);
                }
            }
            let was = self.db.get(&asset);
            let ok = self.execute(tx, None);
            updated |= ok && want.is_some();
            if let Some((w, on)) = want {
                if w != ok {
                    bad.push(format!("the update was {}, alone it is {}", word(ok), word(w)));
                } else if *self.db.get(&asset) != *on.get(&asset) {
                    bad.push("the asset is not what was meant".into());
                }
            } else if *was != *self.db.get(&asset) {
                bad.push("the asset changed before its update".into());
            }
            if !ok {
                if fits && !disturbed && !is_update(tx) {
                    bad.push(format!("transaction {i} of {n} was refused"));
                }
                stopped = true;
                break;
            }
        }
        self.stats.evaluations += 2;
        if !stopped && bad.is_empty() {
            if !updated {
                bad.push("a plan without its update".into());
            }
            if chunked && self.db.map.contains_key(&buffer) {
                bad.push("the buffer was left behind".into());
            } else if chunked && !disturbed && want_payer.is_some() && want_payer != Some(self.db.get(&payer).lamports) {
                bad.push(format!("{} lamports were not returned (of {start})", want_payer.unwrap() as i64 - self.db.get(&payer).lamports as i64));
            }
        }
        if !bad.is_empty() {
            self.viols.push(Viol { props: C22, what: format!("JavaScript {how}: {}", bad.join(", ")) });
        }
        if self.db.get(&buffer).owner == pid() {
            self.execute(&Tx { ixs: vec![close] }, None);
        }
    }

    // -------------------------------------------------------------- environment

    fn env_step(&mut self, r: &mut Rng) {
        let c = cast();
        match r.below(8) {
            6 | 7 => {
                // somebody with the key of an address makes the account himself, zeroed, any size
                let v = self.free_slots();
                if v.is_empty() {
                    return;
                }
                let k = *r.pick(&v);
                let n = *r.pick(&[0usize, 40, 100, 167, 168, 169, 175, 176, 183, 184, 185, 200, 256, 1000]);
                let n = if n < 168 && r.chance(60) { 168 + r.below(200) } else { n };
                let rent = crate::rt::rent_min(n);
                if self.db.get(&c.treasury).lamports > 2 * rent {
                    self.stats.fault("account made outside the program");
                    self.note(|| format!("  {} made with {n} zero bytes", label(&k)));
                    self.lamports(c.treasury, k, rent);
                    let mut a = (*self.db.get(&k)).clone();
                    a.owner = pid();
                    a.data = vec![0; n];
                    self.db.set(k, a);
                }
            }
            0 => {
                let d = *r.pick(&[1i64, 60, 86_400, 31_536_000, -5, -3600, 3_000_000_000]);
                self.clock += d;
                self.stats.sim_seconds += d.unsigned_abs();
                self.stats.fault(if d < 0 { "clock set back" } else { "clock jump" });
                self.note(|| format!("  clock {d:+}"));
            }
            1 => {
                // a payer runs dry
                let w = *r.pick(&c.wallets[..4]);
                let n = self.db.get(&w).lamports;
                let keep = *r.pick(&[0u64, 1_000_000, 3_000_000]);
                if n > keep && self.db.get(&w).owner == SYS {
                    self.stats.fault("payer out of funds");
                    self.note(|| format!("  {} drained to {keep}", label(&w)));
                    self.lamports(w, c.treasury, n - keep);
                }
            }
            2 => {
                for w in &c.wallets[..4] {
                    let n = self.db.get(w).lamports;
                    if n < 2_000_000_000 {
                        self.lamports(c.treasury, *w, 2_000_000_000 - n);
                    }
                }
                self.note(|| "  wallets refilled".into());
            }
            3 | 4 => {
                // unsolicited lamports on an account of the program
                let v: Vec<Pubkey> = self.db.map.iter().filter(|(_, a)| a.owner == pid()).map(|(k, _)| *k).collect();
                if !v.is_empty() {
                    let k = *r.pick(&v);
                    let n = *r.pick(&[1u64, 6959, 6960, 6961, 55_679, 55_680, 55_681, 111_359, 1_000_000, 5_000_000_000]);
                    if self.db.get(&c.treasury).lamports < 2 * n {
                        return;
                    }
                    self.stats.fault("unsolicited deposit");
                    self.note(|| format!("  {n} lamports sent to {}", label(&k)));
                    self.lamports(c.treasury, k, n);
                }
            }
            _ if r.chance(25) => {
                // the token's own people change what Token Metadata says about it
                let t = r.pick(&c.mints);
                let a = self.db.get(&t.md);
                let mut x = tm::decode_metadata(&a).unwrap();
                match r.below(5) {
                    0 => x.update_authority = *r.pick(&c.wallets),
                    1 => x.collection = x.collection.map(|q| (!q.0, q.1)),
                    2 => x.fee = *r.pick(&[0, 1, 500, 9999, 10000]),
                    3 => x.odd = r.below(32) as u8,
                    _ => {
                        for q in x.creators.iter_mut().flatten() {
                            q.1 = r.chance(50);
                        }
                    }
                }
                self.stats.fault("token metadata changed by its people");
                self.note(|| format!("  token metadata of {} changed", label(&t.key)));
                self.db.set(t.md, Acct { data: tm::encode_metadata(&x), ..(*a).clone() });
            }
            _ if r.chance(50) => {
                // lamports at a derived address nothing lives at yet
                let mut v: Vec<Pubkey> = c.mints.iter().flat_map(|m| [m.asset, m.vault]).collect();
                v.extend(&c.pa);
                let k = *r.pick(&v);
                let n = *r.pick(&[1u64, 890_880, 1_141_440, 2_000_000, 20_000_000]);
                if self.db.get(&k).owner == SYS && self.db.get(&c.treasury).lamports > 2 * n {
                    self.stats.fault("deposit before creation");
                    self.note(|| format!("  {n} lamports sent to {} before it exists", label(&k)));
                    self.lamports(c.treasury, k, n);
                }
            }
            _ => {
                // a plain wallet account appears or is funded
                let k = if r.chance(30) { *r.pick(&c.stubs) } else { *r.pick(&c.pdas) };
                self.lamports(c.treasury, k, 2_000_000);
            }
        }
    }

    fn lamports(&mut self, from: Pubkey, to: Pubkey, n: u64) {
        let mut a = (*self.db.get(&from)).clone();
        let mut b = (*self.db.get(&to)).clone();
        a.lamports -= n;
        b.lamports += n;
        if a.lamports == 0 && a.data.is_empty() {
            self.db.map.remove(&from);
        } else {
            self.db.set(from, a);
        }
        self.db.set(to, b);
    }

    /// Makes what only many requests in a row make: an asset of many large extensions, a group of
    /// many members.
    fn scale_step(&mut self, r: &mut Rng) {
        let c = cast();
        let pay = c.treasury;
        if !self.plain(&pay) {
            return;
        }
        let free = self.free_slots();
        let who = *r.pick(&c.wallets[..2]);
        let put = |w: &mut World, q: Req| w.execute(&Tx { ixs: vec![enc::raw(&q)] }, None);
        let create = |k: Pubkey, who: Pubkey, g: Option<Pubkey>, exts: Option<Vec<ExtIn>>| Req {
            op: 2,
            accts: vec![Some(k), Some(who), Some(who), g, None, Some(pay), Some(SYS)],
            args: Args::Create { name: b"large".to_vec(), standard: 0, mutable: true, exts },
            sign: true,
        };
        if self.p.big == 4 {
            // the same asset changes hands again and again
            let v: Vec<(Pubkey, Img)> = self
                .assets()
                .into_iter()
                .filter(|(k, i)| c.pa.contains(k) && !i.locked() && self.sig(&i.owner) == Sig::Key)
                .collect();
            if v.is_empty() {
                return self.proxy_step(r);
            }
            let (k, _) = r.pick(&v).clone();
            for _ in 0..*r.pick(&[3, 9, 12, 30, 101, 260]) {
                let Some(i) = self.img(&k) else { return };
                let mut to = *r.pick(&c.wallets[..4]);
                if to == i.owner {
                    to = c.wallets[0];
                }
                let q = Req { op: 7, accts: vec![Some(k), Some(i.owner), Some(to), None], args: Args::Unit, sign: true };
                let mut ix = enc::raw(&q);
                ix.program = proxy_program::ID;
                ix.metas[0].signer = false;
                ix.metas.push(m(pid(), false, false));
                self.clock += 1;
                if !self.execute(&Tx { ixs: vec![ix] }, None) {
                    return;
                }
            }
            return;
        }
        if self.p.big == 2 {
            let own: Vec<(Pubkey, Img)> = self
                .assets()
                .into_iter()
                .filter(|(_, i)| i.is_mutable() && i.exts.len() > 2 && self.sig(&i.authority) == Sig::Key)
                .collect();
            if !own.is_empty() && (free.is_empty() || r.chance(70)) {
                // the first parts move those behind them
                let (k, i) = r.pick(&own).clone();
                let n = match r.below(3) {
                    0 => r.below(2),
                    1 => i.exts.len() - 1,
                    _ => r.below(i.exts.len()),
                };
                let x = &i.exts[n];
                if [MANAGER, PROXY, GROUPING, CREATORS].contains(&x.ty) {
                    return;
                }
                let d = self.payload(r, x.ty, Some(i.authority));
                put(self, Req {
                    op: 10,
                    accts: vec![Some(k), Some(i.authority), None, None, Some(pay), Some(SYS)],
                    args: Args::Update { name: None, mutable: None, ext: Some(ExtIn { ty: x.ty, length: d.len() as u32, data: Some(d) }) },
                    sign: true,
                });
                return;
            }
            let Some(k) = free.first().copied() else { return };
            let mut types = [ATTRIBUTES, LINKS, BLOB, CREATORS, METADATA, GROUPING, ROYALTIES, PROPERTIES, BUCKET];
            for i in (1..types.len()).rev() {
                types.swap(i, r.below(i + 1));
            }
            let owners = [SYS, MARKET_ID, MARKET2_ID, pid()];
            let most = Pool { keys: &c.holders, owners: &owners, big: 9 };
            let all = r.chance(50);
            for ty in types.iter().take(if all { 9 } else { 4 + r.below(6) }) {
                let d = if all { gen::payload(r, *ty, &most, None) } else { self.payload(r, *ty, None) };
                put(self, Req {
                    op: 4,
                    accts: vec![Some(k), Some(pay), Some(SYS)],
                    args: Args::Allocate(ExtIn { ty: *ty, length: d.len() as u32, data: Some(d) }),
                    sign: true,
                });
            }
            put(self, create(k, who, None, None));
            return;
        }
        let groups: Vec<(Pubkey, Img)> = self
            .assets()
            .into_iter()
            .filter(|(_, i)| i.group_size().is_some() && self.sig(&i.authority) == Sig::Key)
            .collect();
        let (g, who) = match groups.first() {
            Some((g, i)) if free.is_empty() || r.chance(80) => (*g, i.authority),
            _ => {
                let Some(g) = free.first().copied() else { return };
                let max = *r.pick(&[0u64, 0, 17, 20, 33, 256, 257, 264]);
                let mut d = vec![0; 48];
                d[8..16].copy_from_slice(&max.to_le_bytes());
                put(self, create(g, who, None, Some(vec![ExtIn { ty: GROUPING, length: 48, data: Some(d) }])));
                (g, who)
            }
        };
        let absent: Vec<Pubkey> = c.crowd.iter().filter(|k| !self.db.map.contains_key(k)).copied().collect();
        let n = if r.chance(12) { 280 } else { 6 + r.below(14) };
        for k in absent.into_iter().take(n) {
            put(self, create(k, who, Some(g), None));
        }
    }

    fn fork_step(&mut self, r: &mut Rng) {
        if self.snap.is_none() {
            self.snap = Some(Snap {
                db: self.db.clone(),
                ghost: self.ghost.clone(),
                clock: self.clock,
                left: 1 + r.below(6) as u32,
                seen: vec![],
                uploads: self.uploads.clone(),
            });
        }
    }

    /// Forks that go nowhere: from one state, everybody with a stake in an asset tries something,
    /// each on a fork of their own that is then abandoned.
    fn survey_step(&mut self, r: &mut Rng) {
        let assets = self.assets();
        if assets.is_empty() {
            return;
        }
        // the more there is to an asset, and the more its parties coincide, the likelier
        let w: Vec<u32> = assets
            .iter()
            .map(|(k, i)| {
                let mut n = 1;
                n += (i.group != ZERO) as u32 + i.has_delegate() as u32 * 2 + i.locked() as u32 + !i.is_mutable() as u32 * 2;
                n += (i.owner == i.authority) as u32 + (i.delegate == i.authority) as u32 + (i.owner == *k) as u32;
                n += i.exts.iter().filter(|x| [MANAGER, ROYALTIES, GROUPING, CREATORS, PROXY].contains(&x.ty)).count() as u32;
                n += (i.exts.len() > 2) as u32;
                n * n
            })
            .collect();
        let (k, i) = assets[r.weighted(&w)].clone();
        let c = cast();
        let groups: Vec<Pubkey> = assets.iter().filter(|(_, i)| i.group_size().is_some()).map(|(k, _)| *k).collect();
        let mut who = vec![i.owner, i.authority];
        if i.has_delegate() {
            who.push(i.delegate);
        }
        who.extend(i.manager().map(|x| x.0));
        who.extend(i.group_delegate());
        who.extend(i.creators().iter().take(3).map(|c| c.0));
        if let Some(g) = self.img(&i.group) {
            who.extend([g.authority, g.owner]);
            who.extend(g.group_delegate());
            who.extend(g.manager().map(|x| x.0));
        }
        who.extend(self.past.last().copied());
        who.push(*r.pick(&c.wallets));
        who.push(k);
        who.sort();
        who.dedup();
        who.retain(|x| self.sig(x) != Sig::None);
        if who.is_empty() {
            return;
        }
        let (db, ghost, clock, slot) = (self.db.clone(), self.ghost.clone(), self.clock, self.slot);
        let (uploads, past) = (self.uploads.clone(), self.past.clone());
        self.stats.fault("fork survey");
        self.note(|| format!("  survey of {}", label(&k)));
        let n = 12 + r.below(14);
        let full = r.chance(6);
        let mut plan: Vec<(u8, Pubkey)> = vec![];
        if full {
            for op in 0..18 {
                plan.extend(who.iter().map(|s| (op, *s)));
            }
        } else {
            for _ in 0..n {
                plan.push((r.weighted(&self.p.ops) as u8, *r.pick(&who)));
            }
        }
        for (op, s) in plan {
            let g = (i.group != ZERO && !r.chance(6)).then_some(i.group);
            let any = if r.chance(70) { *r.pick(&self.holders) } else { *r.pick(&who) };
            let pay = self.payer(r);
            let roles = if r.chance(30) {
                Args::Delegate(None)
            } else {
                let n = if r.chance(10) { 4 + r.below(4) } else { 1 + r.below(3) };
                Args::Delegate(Some((0..n).map(|_| r.below(4) as u8).collect()))
            };
            let ty = if i.exts.is_empty() || r.chance(25) { r.below(12) as u32 } else { r.pick(&i.exts).ty };
            let (accts, args) = match op {
                0 => (vec![Some(k), Some(any)], Args::Unit),
                1 => (vec![Some(k), Some(s), r.chance(50).then_some(any), g], Args::Unit),
                2 => (
                    vec![Some(k), Some(s), Some(any), g, None, Some(pay), Some(SYS)],
                    Args::Create { name: b"again".to_vec(), standard: r.below(4) as u8, mutable: r.chance(50), exts: None },
                ),
                3 => (vec![Some(k), Some(s), Some(any)], roles),
                4 => {
                    let d = self.payload(r, ty, None);
                    (vec![Some(k), Some(pay), Some(SYS)], Args::Allocate(ExtIn { ty, length: d.len() as u32, data: Some(d) }))
                }
                6 => (vec![Some(k), Some(s)], roles),
                5 | 8 | 9 | 11 => (vec![Some(k), Some(s)], Args::Unit),
                7 => (vec![Some(k), Some(s), Some(any), g], Args::Unit),
                10 => {
                    let (name, mutable, ext) = match r.below(5) {
                        0 => (Some(gen::word(r, 35)), None, None),
                        1 => (None, Some(r.chance(60)), None),
                        2 => (None, None, None),
                        _ => {
                            let d = self.payload(r, ty, Some(s));
                            (r.chance(20).then(|| b"both".to_vec()), None, Some(ExtIn { ty, length: d.len() as u32, data: Some(d) }))
                        }
                    };
                    let buf = (ext.is_none() && r.chance(30)).then(|| self.buffers().first().map(|x| x.0)).flatten();
                    (vec![Some(k), Some(s), buf, g, Some(pay), Some(SYS)], Args::Update { name, mutable, ext })
                }
                12 => (vec![Some(k), Some(pay), Some(SYS)], Args::Write { overwrite: r.chance(50), bytes: vec![7; 9] }),
                13 | 14 => {
                    let g = if op == 14 && i.group != ZERO && r.chance(85) || groups.is_empty() { i.group } else { *r.pick(&groups) };
                    if r.chance(30) && i.group_size().is_some() && assets.len() > 1 {
                        // the asset as the group of another
                        let j = r.pick(&assets).0;
                        (vec![Some(j), Some(k), Some(s)], Args::Unit)
                    } else {
                        (vec![Some(k), Some(g), Some(s)], Args::Unit)
                    }
                }
                15 => (vec![Some(k), Some(s), Some(any)], Args::Unit),
                16 => (vec![Some(k), Some(s), g, Some(any)], Args::Remove(ty)),
                _ => (
                    vec![Some(k), Some(s), Some(pay), Some(SYS)],
                    Args::Resize(r.chance(60).then(|| *r.pick(&[0u16, 1, 8, 40, 300]))),
                ),
            };
            let q = Req { op, accts, args, sign: true };
            let mut ix = enc::raw(&q);
            if i.standard == PROXIED && r.chance(80) {
                ix.metas[0].signer = true;
            }
            let ix = self.wrap(r, ix, Some(&q), false, self.p.relay_pct / 2);
            self.stats.surveyed += 1;
            if self.execute(&Tx { ixs: vec![ix] }, None) {
                self.db = db.clone();
                self.ghost = ghost.clone();
            }
        }
        self.clock = clock;
        self.slot = slot;
        self.uploads = uploads;
        self.past = past;
    }

    fn rollback(&mut self, r: &mut Rng) {
        let Some(s) = self.snap.take() else { return };
        self.stats.fault("fork rollback");
        self.note(|| "  fork abandoned, state rolled back".into());
        self.db = s.db;
        self.ghost = s.ghost;
        self.clock = s.clock;
        self.uploads = s.uploads;
        // the clients' transactions land again, in another order, perhaps not all of them
        // (an upload client binds its Create and Close to the fork it read)
        let bound = |tx: &Tx| {
            tx.ixs.iter().any(|ix| {
                matches!(ix.data.first(), Some(0 | 2)) && ix.metas.first().map(|x| cast().ups.contains(&x.key)).unwrap_or(false)
            })
        };
        self.pending.retain(|p| !bound(&p.tx));
        self.recent.retain(|tx| !bound(tx));
        let mut v = s.seen;
        while !v.is_empty() {
            let tx = v.remove(r.below(v.len()));
            if !bound(&tx) && r.chance(75) {
                self.pending.push(Pend { tx, tries: 1 });
            }
        }
        while self.pending.len() > 10 {
            self.pending.remove(0);
        }
        for i in 0..self.uploads.len() {
            self.upload_done(i);
        }
    }

    pub fn step(&mut self, seed: u64) {
        let mut r = Rng::new(seed);
        self.stats.steps += 1;
        PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if r.chance(3) {
            self.clock += r.below(400) as i64;
            self.stats.sim_seconds += 200;
        }
        self.clock += 1;
        self.stats.sim_seconds += 1;
        let kind = r.weighted(&self.p.kinds);
        self.note(|| format!("step {seed:016x} {}", ["tx", "deliver", "upload", "bridge", "proxy", "environment", "fork", "JavaScript client"][kind]));
        match kind {
            _ if self.p.big > 1 && r.chance(8) => self.scale_step(&mut r),
            _ if r.chance(SURVEY_PCT) => self.survey_step(&mut r),
            0 => self.tx_step(&mut r),
            1 => {
                if self.pending.is_empty() {
                    if !self.recent.is_empty() {
                        let tx = r.pick(&self.recent).clone();
                        self.stats.fault("replayed transaction");
                        self.execute(&tx, None);
                    }
                } else {
                    let i = r.below(self.pending.len());
                    let mut p = self.pending.remove(i);
                    self.stats.fault("reordered delivery");
                    let ok = self.execute(&p.tx, None);
                    p.tries -= 1;
                    if !ok && p.tries > 0 {
                        self.pending.push(p);
                    }
                }
                for i in 0..self.uploads.len() {
                    self.upload_done(i);
                }
            }
            2 => self.upload_step(&mut r),
            3 => self.bridge_step(&mut r),
            4 => self.proxy_step(&mut r),
            5 => self.env_step(&mut r),
            6 => self.fork_step(&mut r),
            _ => self.js_step(&mut r),
        }
        if let Some(s) = self.snap.as_mut() {
            if s.left == 0 {
                self.rollback(&mut r);
            } else {
                s.left -= 1;
            }
        }
    }

    // -------------------------------------------------------------- wind-down

    /// Faults stop; everybody finishes and retires what it has.  Bounded progress (C18).
    pub fn wind_down(&mut self, seed: u64) {
        let mut r = Rng::new(seed);
        let c = cast();
        self.quiet = true;
        self.snap = None;
        self.pending.clear();
        if !self.plain(&c.treasury) {
            return;
        }
        self.note(|| "wind-down: faults stop".into());
        for w in &c.wallets {
            let n = self.db.get(w).lamports;
            if n < 5_000_000_000 {
                self.lamports(c.treasury, *w, 5_000_000_000 - n);
            }
        }
        let stuck = |w: &mut World, what: String| {
            w.note(|| format!("  !! stuck: {what}"));
            w.viols.push(Viol { props: C18, what });
        };
        // uploads complete within a bounded number of requests
        for i in 0..self.uploads.len() {
            let mut u = self.uploads[i].clone();
            if self.db.get(&u.slot).owner == pid() && self.img(&u.slot).map(|x| x.live()).unwrap_or(false) {
                continue;
            }
            if self.db.get(&u.slot).owner != pid() && self.db.map.contains_key(&u.slot) {
                // somebody sent lamports there: the slot is gone
                continue;
            }
            u.chunk = 900;
            let bound: usize = 4 + 2 * u.plan.iter().map(|(_, d)| 2 + d.len() / 900).sum::<usize>();
            let mut n = 0;
            while n < bound {
                let Some(ix) = self.upload_move(&mut r, &u) else { break };
                self.execute(&Tx { ixs: vec![ix] }, None);
                n += 1;
            }
            self.stats.evaluations += 1;
            if !self.img(&u.slot).map(|x| x.live()).unwrap_or(false) {
                let s = format!("upload to {} not finished after {bound} requests without faults", label(&u.slot));
                self.viols.push(Viol { props: C11, what: s.clone() });
                stuck(self, s);
            } else {
                self.upload_done(i);
            }
        }
        // cross every bridged pair back
        for pass in 0..24 {
            let before: Vec<(Pubkey, Pubkey)> = self.assets().iter().map(|(k, i)| (*k, i.group)).collect();
            // unlock everything whose lock holder can act
            for (k, i) in self.assets() {
                if !i.locked() {
                    continue;
                }
                let mut v = vec![];
                if !i.has_delegate() {
                    v.push(i.owner);
                } else if i.roles & R_LOCK != 0 {
                    v.push(i.delegate);
                }
                if let Some((q, m)) = i.manager() {
                    if m & R_LOCK != 0 {
                        v.push(q);
                    }
                }
                for w in v {
                    if self.acts(&k, &w) {
                        let q = Req { op: 8, accts: vec![Some(k), Some(w)], args: Args::Unit, sign: true };
                        if !self.send(&mut r, q, &i) {
                            stuck(self, format!("{} cannot be unlocked by its lock holder {}", label(&k), label(&w)));
                        }
                        break;
                    }
                }
            }
            // members leave their groups
            for (k, i) in self.assets() {
                if i.group == ZERO {
                    continue;
                }
                let Some(g) = self.img(&i.group) else { continue };
                for w in [Some(g.authority), g.group_delegate()].into_iter().flatten() {
                    if self.acts(&k, &w) && self.acts(&i.group, &w) {
                        let q = Req { op: 14, accts: vec![Some(k), Some(i.group), Some(w)], args: Args::Unit, sign: true };
                        if (pass > 1 || r.chance(60)) && !self.send(&mut r, q, &i) {
                            stuck(self, format!("{} cannot leave its group", label(&k)));
                        }
                        break;
                    }
                }
            }
            // last wishes while the assets exist
            for (k, i) in self.assets() {
                if i.is_mutable() && self.acts(&k, &i.authority) && !c.pa.contains(&k) {
                    let q = Req {
                        op: 17,
                        accts: vec![Some(k), Some(i.authority), Some(c.treasury), Some(SYS)],
                        args: Args::Resize(None),
                        sign: true,
                    };
                    if r.chance(30) && !self.send(&mut r, q, &i) {
                        stuck(self, format!("{} cannot be trimmed by its authority", label(&k)));
                    }
                    let Some(i) = self.img(&k) else { continue };
                    let q = Req {
                        op: 10,
                        accts: vec![Some(k), Some(i.authority), None, None, Some(c.treasury), Some(SYS)],
                        args: Args::Update {
                            name: Some(b"last".to_vec()),
                            mutable: None,
                            ext: Some(ExtIn { ty: BUCKET, length: 5, data: Some(vec![1, 2, 3, 4, 5]) }),
                        },
                        sign: true,
                    };
                    if r.chance(30) && !self.send(&mut r, q, &i) {
                        stuck(self, format!("{} cannot be updated by its authority", label(&k)));
                    }
                }
            }
            // owners burn what they can
            for (k, _) in self.assets() {
                let Some(i) = self.img(&k) else { continue };
                if i.locked() || i.group_size().unwrap_or(0) > 0 || !self.acts(&k, &i.owner) {
                    continue;
                }
                if i.group != ZERO && self.img(&i.group).is_none() {
                    continue;
                }
                let g = (i.group != ZERO).then_some(i.group);
                let q = Req {
                    op: 1,
                    accts: vec![Some(k), Some(i.owner), Some(if k == c.wallets[0] { c.treasury } else { c.wallets[0] }), g],
                    args: Args::Unit,
                    sign: true,
                };
                if !self.send(&mut r, q, &i) {
                    stuck(self, format!("{} cannot be burned by its owner {}", label(&k), label(&i.owner)));
                }
            }
            let after: Vec<(Pubkey, Pubkey)> = self.assets().iter().map(|(k, i)| (*k, i.group)).collect();
            if pass > 2 && before == after {
                break;
            }
        }
        let mut buffers = self.buffers();
        let stubs = self.db.map.iter().filter(|(_, a)| a.owner == pid() && a.data.len() < ASSET_LEN);
        buffers.extend(stubs.map(|(k, _)| (*k, Img::blank())));
        for (k, i) in buffers {
            if self.sig(&k) == Sig::Key || matches!(self.sig(&k), Sig::Seed(_) | Sig::Relay(_)) {
                let q = Req { op: 0, accts: vec![Some(k), Some(if k == c.wallets[1] { c.treasury } else { c.wallets[1] })], args: Args::Unit, sign: true };
                if !self.send(&mut r, q, &i) {
                    stuck(self, format!("buffer {} cannot be closed", label(&k)));
                }
            }
        }
        // nothing is left but what has a reason to stay
        let left: Vec<(Pubkey, Option<Img>)> =
            self.db.map.iter().filter(|(_, a)| a.owner == pid()).map(|(k, a)| (*k, Img::decode(&a.data).ok())).collect();
        self.stats.evaluations += 1;
        for (k, i) in left {
            let ok = match &i {
                None => false,
                Some(i) if !i.live() => self.sig(&k) == Sig::None,
                Some(i) => {
                    let lock_holder = {
                        let own = if !i.has_delegate() {
                            Some(i.owner)
                        } else if i.roles & R_LOCK != 0 {
                            Some(i.delegate)
                        } else {
                            None
                        };
                        let man = i.manager().filter(|(_, m)| m & R_LOCK != 0).map(|x| x.0);
                        [own, man].into_iter().flatten().any(|w| self.acts(&k, &w))
                    };
                    !self.acts(&k, &i.owner) || (i.locked() && !lock_holder) || i.group_size().unwrap_or(0) > 0
                }
            };
            if !ok {
                stuck(self, format!("{} could not be retired", label(&k)));
            }
        }
    }

    /// The party can sign a request about the asset.
    fn acts(&self, asset: &Pubkey, who: &Pubkey) -> bool {
        let c = cast();
        let s = self.sig(who);
        if c.pa.contains(asset) || c.px.contains(asset) {
            return (s == Sig::Key || matches!(s, Sig::Relay(_))) && who != asset;
        }
        s == Sig::Key || matches!(s, Sig::Relay(_) | Sig::Seed(_))
    }

    fn send(&mut self, r: &mut Rng, q: Req, subject: &Img) -> bool {
        let mut ix = enc::raw(&q);
        let key = ix.metas[0].key;
        if subject.standard == PROXIED {
            ix.metas[0].signer = true;
        }
        if cast().pa.contains(&key) {
            ix.program = proxy_program::ID;
            ix.metas[0].signer = false;
            ix.metas.push(m(pid(), false, false));
        }
        let derived = ix.metas.iter().any(|x| x.signer && matches!(self.sig(&x.key), Sig::Relay(_) | Sig::Seed(_)));
        let ix = self.wrap(r, ix, Some(&q), derived, 0);
        self.execute(&Tx { ixs: vec![ix] }, None)
    }
}

fn word(ok: bool) -> &'static str {
    if ok {
        "accepted"
    } else {
        "refused"
    }
}

pub fn names(p: Props) -> Vec<String> {
    (1..=23).filter(|i| p & (1 << i) != 0).map(|i| format!("C{i:02}")).collect()
}

fn head(d: &[u8]) -> &[u8] {
    &d[..d.len().min(40)]
}

pub fn metas(v: &[Meta]) -> String {
    v.iter()
        .map(|x| format!("{}{}{}", label(&x.key), if x.signer { "*" } else { "" }, if x.writable { "+" } else { "" }))
        .collect::<Vec<_>>()
        .join(",")
}

pub fn describe_ix(ix: &Ix) -> String {
    let args = |d: &[u8]| match parse(d) {
        Some((op, Args::Unit)) => OPS[op as usize].to_string(),
        Some((op, a)) => {
            let mut s = format!("{} {a:?}", OPS[op as usize]);
            s.truncate(200);
            s
        }
        None => format!("{:?}", head(d)),
    };
    if ix.program == RELAY_ID {
        if let Some(o) = relay::lookup(&ix.data) {
            let s = match &o.job {
                Job::Raw { ix } => format!("raw {}", describe_ix(ix)),
                Job::Pass { ix } => format!("pass {}", describe_ix(ix)),
                Job::Client(q) => format!("client {}", describe_ix(&enc::raw(q))),
                Job::Iface(q) => format!("interface {}", describe_ix(&enc::raw(q))),
                Job::Upload { asset, ty, data, .. } => format!("upload of {} bytes to {} type {ty}", data.len(), label(asset)),
                Job::Many(_) => "many".into(),
            };
            return format!("relay[{s}]");
        }
    }
    let d = if ix.program == pid() || ix.program == proxy_program::ID { args(&ix.data) } else { format!("{:?}", head(&ix.data)) };
    format!("{} {d} ({})", label(&ix.program), metas(&ix.metas))
}

pub fn describe(tx: &Tx) -> String {
    tx.ixs.iter().map(describe_ix).collect::<Vec<_>>().join(" ; ")
}
