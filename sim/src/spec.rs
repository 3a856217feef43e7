//! The reference model: what every asset-program instruction must do, written from the
//! documentation over a decoded image of the accounts, independent of the program's code.

use crate::rt::{rent_min, Acct, FrameEvent, Meta, GROW};
use solana_program::{pubkey::Pubkey, system_program};
use std::collections::BTreeMap;
use std::rc::Rc;

pub type Props = u32;
pub const fn p(n: u32) -> Props {
    1 << n
}
pub const C01: Props = p(1);
pub const C02: Props = p(2);
pub const C03: Props = p(3);
pub const C04: Props = p(4);
pub const C05: Props = p(5);
pub const C06: Props = p(6);
pub const C07: Props = p(7);
pub const C08: Props = p(8);
pub const C09: Props = p(9);
pub const C10: Props = p(10);
pub const C11: Props = p(11);
pub const C12: Props = p(12);
pub const C13: Props = p(13);
pub const C14: Props = p(14);
pub const C15: Props = p(15);
pub const C16: Props = p(16);
pub const C17: Props = p(17);
pub const C18: Props = p(18);
pub const C19: Props = p(19);
pub const C20: Props = p(20);
pub const C21: Props = p(21);
pub const C22: Props = p(22);
pub const C23: Props = p(23);

pub const ASSET_LEN: usize = 168;
pub const EXT_LEN: usize = 16;
pub fn pid() -> Pubkey {
    asset_program::ID
}
pub fn align8(n: usize) -> usize {
    (n + 7) & !7
}

pub const ATTRIBUTES: u32 = 1;
pub const BLOB: u32 = 2;
pub const CREATORS: u32 = 3;
pub const LINKS: u32 = 4;
pub const METADATA: u32 = 5;
pub const GROUPING: u32 = 6;
pub const ROYALTIES: u32 = 7;
pub const MANAGER: u32 = 8;
pub const PROXY: u32 = 9;
pub const PROPERTIES: u32 = 10;
pub const BUCKET: u32 = 11;

pub const NONFUNGIBLE: u8 = 0;
pub const MANAGED: u8 = 1;
pub const SOULBOUND: u8 = 2;
pub const PROXIED: u8 = 3;

pub const R_TRANSFER: u8 = 1;
pub const R_LOCK: u8 = 2;
pub const R_BURN: u8 = 4;

// ------------------------------------------------------------------ account image

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct X {
    pub ty: u32,
    pub decl: u32,
    /// bytes present so far; `data.len() < decl` only for the last extension of a buffer
    pub data: Vec<u8>,
}
impl X {
    pub fn new(ty: u32, data: Vec<u8>) -> X {
        X { ty, decl: data.len() as u32, data }
    }
    pub fn complete(&self) -> bool {
        self.data.len() == self.decl as usize
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Img {
    pub disc: u8,
    pub state: u8,
    pub standard: u8,
    pub mutable: u8,
    pub owner: Pubkey,
    pub group: Pubkey,
    pub authority: Pubkey,
    pub delegate: Pubkey,
    pub roles: u8,
    pub name: [u8; 35],
    pub exts: Vec<X>,
    pub len: usize,
}

fn key(b: &[u8]) -> Pubkey {
    Pubkey::new_from_array(b[..32].try_into().unwrap())
}
fn u32at(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap())
}
pub fn u64at(b: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(b[o..o + 8].try_into().unwrap())
}
pub const ZERO: Pubkey = Pubkey::new_from_array([0; 32]);

impl Img {
    pub fn blank() -> Img {
        Img {
            disc: 0,
            state: 0,
            standard: 0,
            mutable: 0,
            owner: ZERO,
            group: ZERO,
            authority: ZERO,
            delegate: ZERO,
            roles: 0,
            name: [0; 35],
            exts: vec![],
            len: ASSET_LEN,
        }
    }

    /// Strict decoding: any deviation from the documented layout is an error.
    pub fn decode(d: &[u8]) -> Result<Img, String> {
        if d.len() < ASSET_LEN {
            return Err(format!("account of {} bytes", d.len()));
        }
        if d[0] > 1 || d[1] > 1 || d[2] > 3 || d[3] > 1 {
            return Err(format!("header bytes {:?}", &d[..4]));
        }
        let mut img = Img {
            disc: d[0],
            state: d[1],
            standard: d[2],
            mutable: d[3],
            owner: key(&d[4..]),
            group: key(&d[36..]),
            authority: key(&d[68..]),
            delegate: key(&d[100..]),
            roles: d[132],
            name: d[133..168].try_into().unwrap(),
            exts: vec![],
            len: d.len(),
        };
        let mut c = ASSET_LEN;
        while c + EXT_LEN <= d.len() {
            let ty = u32at(d, c);
            if ty == 0 {
                // no further extension: the rest is free space
                if u32at(d, c + 4) != 0 || u32at(d, c + 8) != 0 {
                    return Err(format!("untyped extension header at {c}"));
                }
                break;
            }
            if ty > 11 {
                return Err(format!("unknown extension type {ty} at {c}"));
            }
            let decl = u32at(d, c + 4);
            let b = u32at(d, c + 8) as usize;
            if b != align8(c + EXT_LEN + decl as usize) {
                return Err(format!("extension {ty} at {c}, length {decl}: boundary {b}"));
            }
            if img.exts.iter().any(|x| x.ty == ty) {
                return Err(format!("duplicate extension {ty}"));
            }
            let avail = (decl as usize).min(d.len() - c - EXT_LEN);
            img.exts.push(X { ty, decl, data: d[c + EXT_LEN..c + EXT_LEN + avail].to_vec() });
            if b > d.len() && img.disc == 1 {
                return Err(format!("extension {ty} ends at {b} beyond the account ({})", d.len()));
            }
            c = b;
            if c > d.len() {
                break;
            }
        }
        if img.disc == 0 && d[1..ASSET_LEN].iter().any(|b| *b != 0) {
            return Err("buffer with a used header".into());
        }
        Ok(img)
    }

    /// Offset of the header of extension `i`.
    pub fn off(&self, i: usize) -> usize {
        let mut c = ASSET_LEN;
        for x in &self.exts[..i] {
            c = align8(c + EXT_LEN + x.decl as usize);
        }
        c
    }
    /// Boundary of the last extension (header length when there is none).
    pub fn end(&self) -> usize {
        self.off(self.exts.len())
    }
    pub fn ext(&self, ty: u32) -> Option<&X> {
        self.exts.iter().find(|x| x.ty == ty)
    }
    pub fn ext_mut(&mut self, ty: u32) -> Option<&mut X> {
        self.exts.iter_mut().find(|x| x.ty == ty)
    }
    pub fn live(&self) -> bool {
        self.disc == 1
    }
    pub fn locked(&self) -> bool {
        self.state == 1
    }
    pub fn is_mutable(&self) -> bool {
        self.mutable != 0
    }
    pub fn has_delegate(&self) -> bool {
        self.delegate != ZERO
    }
    pub fn manager(&self) -> Option<(Pubkey, u8)> {
        let x = self.ext(MANAGER)?;
        (x.data.len() >= 33).then(|| (key(&x.data), x.data[32]))
    }
    /// A delegate (own or manager) with the role.
    pub fn delegated(&self, k: &Pubkey, role: u8) -> bool {
        (self.has_delegate() && self.delegate == *k && self.roles & role != 0) || self.managed_by(k, role)
    }
    pub fn managed_by(&self, k: &Pubkey, role: u8) -> bool {
        self.manager().map(|(a, r)| a == *k && r & role != 0).unwrap_or(false)
    }
    pub fn group_size(&self) -> Option<u64> {
        let x = self.ext(GROUPING)?;
        (x.data.len() >= 16).then(|| u64at(&x.data, 0))
    }
    pub fn group_max(&self) -> u64 {
        self.ext(GROUPING).filter(|x| x.data.len() >= 16).map(|x| u64at(&x.data, 8)).unwrap_or(0)
    }
    pub fn group_delegate(&self) -> Option<Pubkey> {
        let x = self.ext(GROUPING)?;
        if x.data.len() < 48 {
            return None;
        }
        Some(key(&x.data[16..])).filter(|k| *k != ZERO)
    }
    pub fn name_from(s: &[u8]) -> [u8; 35] {
        let mut n = [0; 35];
        let l = s.len().min(35);
        n[..l].copy_from_slice(&s[..l]);
        n
    }
    pub fn clear_delegate(&mut self) {
        self.delegate = ZERO;
        self.roles = 0;
    }
    pub fn creators(&self) -> Vec<(Pubkey, bool, u8)> {
        self.ext(CREATORS).map(|x| creators_of(&x.data)).unwrap_or_default()
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut d = vec![0u8; self.len.max(ASSET_LEN)];
        d[0] = self.disc;
        d[1] = self.state;
        d[2] = self.standard;
        d[3] = self.mutable;
        d[4..36].copy_from_slice(self.owner.as_ref());
        d[36..68].copy_from_slice(self.group.as_ref());
        d[68..100].copy_from_slice(self.authority.as_ref());
        d[100..132].copy_from_slice(self.delegate.as_ref());
        d[132] = self.roles;
        d[133..168].copy_from_slice(&self.name);
        let mut c = ASSET_LEN;
        for x in &self.exts {
            let b = align8(c + EXT_LEN + x.decl as usize);
            let n = d.len();
            if c + EXT_LEN + x.data.len() > n {
                d.resize(c + EXT_LEN + x.data.len(), 0);
            }
            d[c..c + 4].copy_from_slice(&x.ty.to_le_bytes());
            d[c + 4..c + 8].copy_from_slice(&x.decl.to_le_bytes());
            d[c + 8..c + 12].copy_from_slice(&(b as u32).to_le_bytes());
            d[c + EXT_LEN..c + EXT_LEN + x.data.len()].copy_from_slice(&x.data);
            c = b;
        }
        d
    }
}

pub fn creators_of(d: &[u8]) -> Vec<(Pubkey, bool, u8)> {
    d.chunks_exact(34).map(|c| (key(c), c[32] != 0, c[33])).collect()
}

pub fn ext_props(ty: u32) -> Props {
    C10 | match ty {
        CREATORS => C07,
        GROUPING => C05 | C06,
        ROYALTIES => C08,
        MANAGER | PROXY => C09,
        _ => 0,
    }
}

// ------------------------------------------------------------------ constraints

#[derive(Clone, Debug)]
pub enum Con {
    And(Vec<Con>),
    Or(Vec<Con>),
    Not(Box<Con>),
    OwnedBy(u64, Vec<Pubkey>),
    KeyMatch(u64, Vec<Pubkey>),
    Empty,
}

/// Parses one constraint; `None` when it is not in canonical form.
pub fn parse_con(d: &[u8]) -> Option<(Con, usize)> {
    if d.len() < 8 {
        return None;
    }
    let (op, size) = (u32at(d, 0), u32at(d, 4) as usize);
    if d.len() < 8 + size || size % 8 != 0 {
        return None;
    }
    let body = &d[8..8 + size];
    let many = || {
        let mut v = vec![];
        let mut o = 0;
        while o < body.len() {
            let (c, n) = parse_con(&body[o..])?;
            v.push(c);
            o += n;
        }
        Some(v)
    };
    let keys = || {
        if body.len() < 8 || (body.len() - 8) % 32 != 0 || u64at(body, 0) > 2 {
            return None;
        }
        Some((u64at(body, 0), body[8..].chunks_exact(32).map(key).collect::<Vec<_>>()))
    };
    let c = match op {
        0 => Con::And(many()?),
        1 => {
            let (c, n) = parse_con(body)?;
            if n != body.len() {
                return None;
            }
            Con::Not(Box::new(c))
        }
        2 => Con::Or(many()?),
        3 => keys().map(|(a, k)| Con::OwnedBy(a, k))?,
        4 => keys().map(|(a, k)| Con::KeyMatch(a, k))?,
        5 => {
            if size != 0 {
                return None;
            }
            Con::Empty
        }
        _ => return None,
    };
    Some((c, 8 + size))
}

/// `t[0]` asset, `t[1]` signer, `t[2]` recipient: (key, owner, empty).
pub fn eval_con(c: &Con, t: &[(Pubkey, Pubkey, bool); 3]) -> bool {
    match c {
        Con::And(v) => v.iter().all(|c| eval_con(c, t)),
        Con::Or(v) => v.iter().any(|c| eval_con(c, t)),
        Con::Not(c) => !eval_con(c, t),
        Con::OwnedBy(a, k) => {
            let x = &t[*a as usize];
            k.contains(&x.1) && !x.2
        }
        Con::KeyMatch(a, k) => k.contains(&t[*a as usize].0),
        Con::Empty => true,
    }
}

// ------------------------------------------------------------------ extension contents

fn pstr(d: &[u8]) -> Option<usize> {
    let n = *d.first()? as usize;
    (d.len() > n).then_some(1 + n)
}
fn pstr_utf8(d: &[u8]) -> Option<(usize, bool)> {
    let n = pstr(d)?;
    Some((n, std::str::from_utf8(&d[1..n]).is_ok()))
}

pub enum Content {
    Ok,
    Bad(String),
    /// not canonical: acceptance is unspecified
    Odd(String),
}

/// Whether the bytes are a readable extension of the type.
pub fn content(ty: u32, d: &[u8]) -> Content {
    let bad = |s: &str| Content::Bad(format!("{s} (type {ty}, {} bytes)", d.len()));
    let mut odd = false;
    match ty {
        ATTRIBUTES | LINKS => {
            let mut o = 0;
            while o < d.len() {
                for _ in 0..2 {
                    match pstr_utf8(&d[o..]) {
                        Some((n, u)) => {
                            o += n;
                            odd |= !u;
                        }
                        None => return bad("truncated string"),
                    }
                }
            }
        }
        BLOB => match pstr_utf8(d) {
            Some((_, u)) => odd |= !u,
            None => return bad("truncated string"),
        },
        CREATORS => {
            if d.len() % 34 != 0 {
                return bad("creators length");
            }
        }
        METADATA => {
            let mut o = 0;
            for i in 0..4 {
                if i == 3 && o == d.len() {
                    break;
                }
                match pstr_utf8(&d[o..]) {
                    Some((n, u)) => {
                        o += n;
                        odd |= !u;
                    }
                    None => return bad("truncated string"),
                }
            }
            odd |= o != d.len();
        }
        GROUPING => {
            if d.len() < 16 || d.len() > 48 {
                return bad("grouping length");
            }
            odd |= d.len() != 16 && d.len() != 48;
        }
        ROYALTIES => {
            if d.len() < 16 {
                return bad("royalties length");
            }
            match parse_con(&d[8..]) {
                Some((_, n)) => odd |= n + 8 != d.len(),
                None => odd = true,
            }
        }
        MANAGER => {
            if d.len() < 33 {
                return bad("manager length");
            }
            odd |= d.len() != 33;
        }
        PROXY => {
            if d.len() != 97 {
                return bad("proxy length");
            }
        }
        PROPERTIES => {
            let mut o = 0;
            while o < d.len() {
                match pstr_utf8(&d[o..]) {
                    Some((n, u)) => {
                        o += n;
                        odd |= !u;
                    }
                    None => return bad("truncated property name"),
                }
                match d.get(o) {
                    Some(0) => match pstr_utf8(&d[o + 1..]) {
                        Some((n, u)) => {
                            o += 1 + n;
                            odd |= !u;
                        }
                        None => return bad("truncated property"),
                    },
                    Some(1) if d.len() >= o + 9 => o += 9,
                    Some(2) if d.len() >= o + 2 => {
                        odd |= d[o + 1] > 1;
                        o += 2;
                    }
                    _ => return bad("property value"),
                }
            }
        }
        BUCKET => {}
        _ => return bad("unknown extension"),
    }
    if odd {
        Content::Odd(format!("non-canonical contents (type {ty})"))
    } else {
        Content::Ok
    }
}

// ------------------------------------------------------------------ evaluation

pub enum Expect {
    Img { img: Img, lamports: u64, unordered: bool },
    Gone,
    /// only the lamports change
    Lamports(u64),
    /// a buffer consumed by an update: same bytes, or the validated form of them
    Buffer { img: Img, alt: Img, lamports: u64 },
    /// exactly this account
    Exact(Acct),
    /// judged elsewhere
    Any,
}

pub struct Eval {
    pub op: u8,
    pub hard: Vec<(Props, String)>,
    pub soft: Vec<String>,
    pub post: BTreeMap<Pubkey, Expect>,
    /// properties whose promise includes that this instruction works
    pub live: Props,
    /// properties blamed when the effect is wrong
    pub effect: Props,
    /// what the instruction would do, for the history checks
    pub path: String,
}

pub const OPS: [&str; 18] = [
    "Close", "Burn", "Create", "Approve", "Allocate", "Lock", "Revoke", "Transfer", "Unlock", "Unverify", "Update",
    "Verify", "Write", "Group", "Ungroup", "Handover", "Remove", "Resize",
];
pub const NACC: [usize; 18] = [2, 4, 7, 3, 3, 2, 2, 4, 2, 2, 6, 2, 3, 3, 3, 3, 4, 4];

pub fn op_props(op: u8) -> Props {
    match op {
        0 => C14 | C12 | C13,
        1 => C14 | C01 | C13 | C05,
        2 => C09 | C10 | C11 | C12 | C14,
        3 => C03,
        4 => C11 | C12,
        5 | 8 => C02,
        6 => C03,
        7 => C01 | C03,
        9 | 11 => C07,
        10 => C04 | C10,
        12 => C11 | C12,
        13 | 14 => C05 | C06,
        15 => C04,
        16 => C10 | C04,
        17 => C10 | C13 | C04,
        _ => 0,
    }
}

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn u8(&mut self) -> Option<u8> {
        Some(self.take(1)?[0])
    }
    fn u32(&mut self) -> Option<u32> {
        Some(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn bool(&mut self) -> Option<bool> {
        match self.u8()? {
            0 => Some(false),
            1 => Some(true),
            _ => None,
        }
    }
    fn opt(&mut self) -> Option<bool> {
        self.bool()
    }
    fn bytes(&mut self) -> Option<Vec<u8>> {
        let n = self.u32()? as usize;
        Some(self.take(n)?.to_vec())
    }
    fn string(&mut self) -> Option<Vec<u8>> {
        let b = self.bytes()?;
        std::str::from_utf8(&b).ok()?;
        Some(b)
    }
    fn ext(&mut self) -> Option<ExtIn> {
        let ty = self.u8()?;
        if ty > 11 {
            return None;
        }
        let length = self.u32()?;
        let data = if self.opt()? { Some(self.bytes()?) } else { None };
        Some(ExtIn { ty: ty as u32, length, data })
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ExtIn {
    pub ty: u32,
    pub length: u32,
    pub data: Option<Vec<u8>>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Args {
    Unit,
    Create { name: Vec<u8>, standard: u8, mutable: bool, exts: Option<Vec<ExtIn>> },
    Delegate(Option<Vec<u8>>),
    Allocate(ExtIn),
    Update { name: Option<Vec<u8>>, mutable: Option<bool>, ext: Option<ExtIn> },
    Write { overwrite: bool, bytes: Vec<u8> },
    Remove(u32),
    Resize(Option<u16>),
}

pub fn parse(data: &[u8]) -> Option<(u8, Args)> {
    let mut r = Rd(data);
    let op = r.u8()?;
    let a = match op {
        0 | 1 | 5 | 7 | 8 | 9 | 11 | 13 | 14 | 15 => Args::Unit,
        2 => {
            let name = r.string()?;
            let standard = r.u8()?;
            if standard > 3 {
                return None;
            }
            let mutable = r.bool()?;
            let exts = if r.opt()? {
                let n = r.u32()?;
                let mut v = vec![];
                for _ in 0..n {
                    v.push(r.ext()?);
                }
                Some(v)
            } else {
                None
            };
            Args::Create { name, standard, mutable, exts }
        }
        3 | 6 => Args::Delegate(match r.u8()? {
            0 => None,
            1 => {
                let v = r.bytes()?;
                if v.iter().any(|x| *x > 3) {
                    return None;
                }
                Some(v)
            }
            _ => return None,
        }),
        4 => Args::Allocate(r.ext()?),
        10 => {
            let name = if r.opt()? { Some(r.string()?) } else { None };
            let mutable = if r.opt()? { Some(r.bool()?) } else { None };
            let ext = if r.opt()? { Some(r.ext()?) } else { None };
            Args::Update { name, mutable, ext }
        }
        12 => Args::Write { overwrite: r.bool()?, bytes: r.bytes()? },
        16 => {
            let t = r.u8()?;
            if t > 11 {
                return None;
            }
            Args::Remove(t as u32)
        }
        17 => Args::Resize(match r.u8()? {
            0 => None,
            1 => Some(u16::from_le_bytes(r.take(2)?.try_into().unwrap())),
            _ => return None,
        }),
        _ => return None,
    };
    r.0.is_empty().then_some((op, a))
}

struct Env<'a> {
    ev: &'a FrameEvent,
    e: Eval,
    lam: BTreeMap<Pubkey, u64>,
}

impl<'a> Env<'a> {
    fn acct(&self, k: &Pubkey) -> Rc<Acct> {
        self.ev.pre.get(k).cloned().unwrap_or_else(|| Rc::new(Acct::empty()))
    }
    fn lamports(&self, k: &Pubkey) -> u64 {
        *self.lam.get(k).unwrap_or(&self.acct(k).lamports)
    }
    fn hard(&mut self, ps: Props, why: impl Into<String>) {
        self.e.hard.push((ps, why.into()));
    }
    fn soft(&mut self, why: impl Into<String>) {
        self.e.soft.push(why.into());
    }
    fn need_sign(&mut self, x: &Meta, ps: Props, who: &str) {
        if !x.signer {
            self.hard(ps, format!("{who} did not sign"));
        }
    }
    /// A live asset of the program, or a recorded rejection.
    fn live(&mut self, k: &Pubkey, ps: Props, who: &str) -> Option<Img> {
        let a = self.acct(k);
        if a.owner != pid() {
            self.hard(ps | C21, format!("{who} is not an account of the program"));
            return None;
        }
        match Img::decode(&a.data) {
            Ok(i) if i.live() => Some(i),
            Ok(_) => {
                self.hard(ps | C12, format!("{who} is an uninitialised buffer"));
                None
            }
            Err(_) if a.data.first() != Some(&1) || a.data.len() < ASSET_LEN => {
                self.hard(ps | C12, format!("{who} is not an asset"));
                None
            }
            Err(e) => {
                // already reported as a layout violation
                self.soft(format!("{who} malformed: {e}"));
                self.e.hard.clear();
                None
            }
        }
    }
    fn put(&mut self, k: Pubkey, img: Img) {
        let lamports = self.lamports(&k);
        self.e.post.insert(k, Expect::Img { img, lamports, unordered: false });
    }
    fn add(&mut self, k: &Pubkey, n: u64) {
        let v = self.lamports(k).wrapping_add(n);
        self.lam.insert(*k, v);
    }
    fn sub(&mut self, k: &Pubkey, n: u64) {
        let v = self.lamports(k).wrapping_sub(n);
        self.lam.insert(*k, v);
    }
    /// A payment through the system program.
    fn pay(&mut self, from: Option<Meta>, to: Meta, n: u64, sys: Option<Meta>) {
        let Some(f) = from else {
            self.hard(C13, "no payer for the rent");
            return;
        };
        let a = self.acct(&f.key);
        if !f.signer {
            self.hard(C13, "payer did not sign");
        }
        match sys {
            None => self.soft("no system program"),
            Some(s) if s.key != system_program::ID => self.soft("wrong system program"),
            _ => {}
        }
        if a.owner != system_program::ID || !a.data.is_empty() || self.lamports(&f.key) < n {
            self.soft("payer cannot pay");
        }
        if f.key == to.key {
            self.soft("payer is the account itself");
        }
        self.sub(&f.key, n);
        self.add(&to.key, n);
    }
    /// Change of the account length with the rent rules.
    fn resize(&mut self, acct: Meta, from: usize, to: usize, payer: Option<Meta>, sys: Option<Meta>) {
        let need = rent_min(to);
        let have = self.lamports(&acct.key);
        if to < from {
            let back = have.saturating_sub(need);
            match payer {
                None => self.soft("nobody to refund"),
                Some(q) => {
                    self.add(&q.key, back);
                    self.sub(&acct.key, back);
                }
            }
        } else {
            if to - from > GROW {
                self.soft("growth beyond the permitted increase");
            }
            let delta = need.saturating_sub(have);
            if delta > 0 {
                self.pay(payer, acct, delta, sys);
            }
        }
    }

    fn check_content(&mut self, ty: u32, d: &[u8]) {
        match content(ty, d) {
            Content::Ok => {}
            Content::Bad(s) => self.hard(ext_props(ty) | C11, s),
            Content::Odd(s) => self.soft(s),
        }
    }

    fn share_check(&mut self, d: &[u8]) {
        let total: u64 = creators_of(d).iter().map(|c| c.2 as u64).sum();
        if total != 100 {
            self.hard(C07, format!("creator shares total {total}"));
        }
    }

    /// Creation of an extension; returns the stored bytes.
    fn on_create(&mut self, ty: u32, d: &[u8], authority: Option<Pubkey>) -> Vec<u8> {
        let mut d = d.to_vec();
        self.check_content(ty, &d);
        match ty {
            CREATORS => {
                for c in d.chunks_exact_mut(34) {
                    c[32] = (authority.is_some() && Some(key(c)) == authority) as u8;
                }
                self.share_check(&d);
            }
            GROUPING if d.len() >= 16 => {
                if u64at(&d, 0) != 0 {
                    self.hard(C05 | C06, "group created with members");
                }
            }
            ROYALTIES if d.len() >= 8 => {
                if u64at(&d, 0) > 10000 {
                    self.hard(C08, "royalty basis points above 10000");
                }
            }
            _ => {}
        }
        d
    }

    fn on_update(&mut self, ty: u32, old: &[u8], new: &[u8], authority: Pubkey) -> Vec<u8> {
        let mut d = new.to_vec();
        self.check_content(ty, &d);
        match ty {
            CREATORS => {
                let prev = creators_of(old);
                for c in d.chunks_exact_mut(34) {
                    let k = key(c);
                    c[32] = match prev.iter().find(|x| x.0 == k) {
                        Some(x) => x.1 as u8,
                        None => (k == authority) as u8,
                    };
                }
                self.share_check(&d);
                let now = creators_of(&d);
                for x in prev.iter().filter(|x| x.1) {
                    match now.iter().find(|y| y.0 == x.0) {
                        None => self.hard(C07, "verified creator removed by the authority"),
                        Some(y) if !y.1 => self.soft("repeated creator with differing flags"),
                        _ => {}
                    }
                }
            }
            GROUPING if d.len() >= 16 && old.len() >= 16 => {
                let size = u64at(old, 0);
                d[..8].copy_from_slice(&old[..8]);
                let max = u64at(&d, 8);
                if max != 0 && max < size {
                    self.hard(C05 | C06, "group maximum below the current size");
                }
            }
            ROYALTIES if d.len() >= 8 => {
                if u64at(&d, 0) > 10000 {
                    self.hard(C08, "royalty basis points above 10000");
                }
            }
            PROXY if d.len() == 97 && old.len() == 97 => {
                if d[..65] != old[..65] {
                    self.hard(C09 | C15, "proxy derivation data changed");
                }
            }
            _ => {}
        }
        d
    }

    /// Royalty rules of `img` for moving the asset; true when it carries a rule.
    fn royalties(&mut self, img: &Img, asset: &Meta, signer: &Meta, recipient: &Meta, strict: bool) -> bool {
        let Some(x) = img.ext(ROYALTIES) else { return false };
        let t = |k: &Pubkey| {
            let a = self.acct(k);
            (*k, a.owner, a.data.is_empty())
        };
        let (a, s, r) = (t(&asset.key), t(&signer.key), t(&recipient.key));
        let wallets = self.ev.height == 1 && s.1 == system_program::ID && r.1 == system_program::ID;
        if wallets {
            return true;
        }
        match x.data.get(8..).and_then(parse_con) {
            None => self.soft("malformed royalty constraint"),
            Some((c, _)) => {
                if !eval_con(&c, &[a, s, r]) {
                    if strict {
                        self.hard(C08, "royalty constraint not satisfied");
                    } else {
                        self.soft("royalty constraint not satisfied");
                    }
                }
            }
        }
        true
    }

    fn group_rules(&mut self, asset: &Img, akey: Pubkey, group: Meta, signer: Meta) -> Option<Img> {
        self.need_sign(&signer, C06 | C05, "group authority");
        if akey == group.key {
            self.hard(C05 | C06, "asset grouped into itself");
            return None;
        }
        let g = self.live(&group.key, C06 | C05, "group")?;
        if asset.group != ZERO {
            self.hard(C06 | C05, "asset already in a group");
        }
        if g.authority != asset.authority {
            self.hard(C06, "group and asset authorities differ");
        }
        if g.group_size().is_none() {
            self.hard(C06 | C05, "group without the Grouping extension");
            return None;
        }
        if signer.key != g.authority && g.group_delegate() != Some(signer.key) {
            self.hard(C06, "signer is neither group authority nor grouping delegate");
        }
        let (size, max) = (g.group_size().unwrap(), g.group_max());
        if max != 0 && size >= max {
            self.hard(C06 | C05, format!("group is full ({size}/{max})"));
        }
        Some(g)
    }
}

fn set_size(g: &mut Img, delta: i64) {
    if let Some(x) = g.ext_mut(GROUPING) {
        let n = u64at(&x.data, 0).wrapping_add(delta as u64);
        x.data[..8].copy_from_slice(&n.to_le_bytes());
    }
}

/// What the instruction in this frame is required to do.
pub fn evaluate(ev: &FrameEvent) -> Eval {
    let mut v = Env {
        ev,
        e: Eval {
            op: 255,
            hard: vec![],
            soft: vec![],
            post: BTreeMap::new(),
            live: 0,
            effect: C21,
            path: String::new(),
        },
        lam: BTreeMap::new(),
    };
    let Some((op, args)) = parse(&ev.data) else {
        v.soft("malformed instruction");
        return v.e;
    };
    v.e.op = op;
    let base = op_props(op);
    v.e.live = base | C18;
    v.e.effect = base;
    if ev.metas.len() < NACC[op as usize] {
        v.soft("too few accounts");
        return v.e;
    }
    let a = |i: usize| ev.metas[i];
    let opt = |i: usize| Some(ev.metas[i]).filter(|x| x.key != pid());

    // proxied assets sign everything they are the subject of
    let first = v.acct(&a(0).key);
    if first.owner == pid() && first.data.len() > 2 {
        if first.data[2] == PROXIED {
            v.e.live |= C15;
            v.e.effect |= C15;
            if !a(0).signer {
                v.hard(C15, "proxied asset did not sign");
            }
        }
    }
    let blocked = matches!(op, 1 | 3 | 5 | 6 | 7);
    for (i, x) in ev.metas.iter().enumerate() {
        let q = v.acct(&x.key);
        if q.owner == pid() && q.data.len() > 1 && q.data[0] == 1 && q.data[1] == 1 && blocked {
            if x.key == a(0).key {
                v.hard(C02 | if op == 7 || op == 1 { C01 } else { 0 }, "asset is locked");
            } else {
                v.soft(format!("account {i} is a locked asset"));
            }
        }
    }
    v.e.path = OPS[op as usize].to_string();

    match (op, args) {
        (0, _) => close(&mut v, a(0), a(1)),
        (1, _) => burn(&mut v, a(0), a(1), opt(2), opt(3)),
        (2, Args::Create { name, standard, mutable, exts }) => {
            let arr = [opt(3), opt(4), opt(5), opt(6)];
            create(&mut v, [a(0), a(1), a(2)], arr, &name, standard, mutable, exts)
        }
        (3, Args::Delegate(roles)) => {
            let Some(mut i) = v.live(&a(0).key, C03 | C21, "asset") else { return done(v) };
            v.need_sign(&a(1), C03 | C01, "owner");
            if i.owner != a(1).key {
                v.hard(C03 | C01, "approved by someone other than the owner");
            }
            let mask = match &roles {
                None => 7,
                Some(r) => r.iter().fold(0u8, |m, r| m | if *r == 0 { 0 } else { 1 << (*r - 1) }),
            };
            if i.has_delegate() && i.delegate == a(2).key {
                i.roles |= mask;
                v.e.path += "/add-roles";
            } else {
                i.delegate = a(2).key;
                i.roles = mask;
            }
            v.put(a(0).key, i);
        }
        (6, Args::Delegate(roles)) => {
            let Some(mut i) = v.live(&a(0).key, C03 | C21, "asset") else { return done(v) };
            v.need_sign(&a(1), C03 | C01, "signer");
            if i.owner != a(1).key && !(i.has_delegate() && i.delegate == a(1).key) {
                v.hard(C03 | C01, "revoked by a stranger");
            }
            match roles {
                None => i.clear_delegate(),
                Some(r) => {
                    if i.has_delegate() {
                        for r in r {
                            if r > 0 {
                                i.roles &= !(1 << (r - 1));
                            }
                        }
                        if i.roles == 0 {
                            i.clear_delegate();
                            v.e.path += "/last-role";
                        }
                    }
                }
            }
            v.put(a(0).key, i);
        }
        (5, _) | (8, _) => {
            let Some(mut i) = v.live(&a(0).key, C02, "asset") else { return done(v) };
            v.need_sign(&a(1), C02, "signer");
            let k = a(1).key;
            let ok = if i.has_delegate() {
                i.delegated(&k, R_LOCK)
            } else {
                i.owner == k || i.managed_by(&k, R_LOCK)
            };
            if !ok {
                v.hard(C02 | C03, "lock state changed without authority");
            }
            if i.has_delegate() {
                v.e.path += "/delegate";
                v.e.live |= C03;
            }
            if i.manager().is_some() {
                v.e.path += "/managed";
                v.e.live |= C09 | C03;
            }
            i.state = (op == 5) as u8;
            v.put(a(0).key, i);
        }
        (7, _) => transfer(&mut v, a(0), a(1), a(2), opt(3)),
        (9, _) | (11, _) => {
            v.need_sign(&a(1), C07, "creator");
            let Some(mut i) = v.live(&a(0).key, C07, "asset") else { return done(v) };
            let k = a(1).key;
            match i.ext_mut(CREATORS) {
                None => v.hard(C07, "no creators"),
                Some(x) => {
                    let mut found = false;
                    for c in x.data.chunks_exact_mut(34) {
                        if key(c) == k {
                            c[32] = (op == 11) as u8;
                            found = true;
                        }
                    }
                    if !found {
                        v.hard(C07, "not a creator");
                    }
                }
            }
            v.put(a(0).key, i);
        }
        (13, _) => {
            let Some(mut i) = v.live(&a(0).key, C06, "asset") else { return done(v) };
            if let Some(mut g) = v.group_rules(&i, a(0).key, a(1), a(2)) {
                if a(2).key != g.authority {
                    v.e.path += "/delegate";
                }
                i.group = a(1).key;
                set_size(&mut g, 1);
                v.put(a(0).key, i);
                v.put(a(1).key, g);
            }
        }
        (14, _) => {
            v.need_sign(&a(2), C05 | C06, "authority");
            let Some(mut i) = v.live(&a(0).key, C06, "asset") else { return done(v) };
            if i.group != a(1).key {
                v.hard(C05 | C06, "asset is not in that group");
            }
            let Some(mut g) = v.live(&a(1).key, C05 | C06, "group") else { return done(v) };
            if g.group_size().is_none() {
                v.hard(C05 | C06, "group without the Grouping extension");
                return done(v);
            }
            if a(2).key != g.authority {
                v.e.path += "/delegate";
                if g.group_delegate() != Some(a(2).key) {
                    v.hard(C06, "signer is neither group authority nor grouping delegate");
                }
            }
            if a(0).key == a(1).key {
                v.hard(C05 | C06, "asset ungrouped from itself");
            } else {
                i.group = ZERO;
                set_size(&mut g, -1);
                v.put(a(0).key, i);
                v.put(a(1).key, g);
            }
        }
        (15, _) => {
            v.need_sign(&a(1), C04, "authority");
            v.need_sign(&a(2), C04, "new authority");
            let Some(mut i) = v.live(&a(0).key, C04, "asset") else { return done(v) };
            authority_of(&mut v, &i, &a(1));
            i.authority = a(2).key;
            v.put(a(0).key, i);
        }
        (10, Args::Update { name, mutable, ext }) => {
            let accs = [opt(2), opt(4), opt(5)];
            update(&mut v, a(0), a(1), accs, name, mutable, ext)
        }
        (16, Args::Remove(ty)) => remove(&mut v, a(0), a(1), a(3), ty),
        (17, Args::Resize(s)) => {
            v.need_sign(&a(1), C04, "authority");
            let Some(mut i) = v.live(&a(0).key, C04 | C10, "asset") else { return done(v) };
            authority_of(&mut v, &i, &a(1));
            let to = match s {
                None => i.end(),
                Some(n) => i.len + n as usize,
            };
            let from = i.len;
            v.resize(a(0), from, to, Some(a(2)), opt(3));
            i.len = to;
            v.put(a(0).key, i);
        }
        (4, Args::Allocate(x)) => {
            v.need_sign(&a(0), C11 | C12, "buffer");
            let first = v.acct(&a(0).key);
            if first.data.is_empty() {
                if let Some(img) = allocate(&mut v, Img::blank(), &x, false, a(0), opt(1), opt(2)) {
                    let n = img.len;
                    new_account(&mut v, a(0), n, opt(1), opt(2));
                    v.put(a(0).key, img);
                }
            } else if let Some(b) = buffer(&mut v, &a(0).key) {
                if let Some(img) = allocate(&mut v, b, &x, true, a(0), opt(1), opt(2)) {
                    v.put(a(0).key, img);
                }
            }
        }
        (12, Args::Write { overwrite, bytes }) => write(&mut v, a(0), a(1), a(2), overwrite, bytes),
        _ => v.soft("unmodelled"),
    }
    done(v)
}

fn authority_of(v: &mut Env, i: &Img, who: &Meta) {
    if i.authority != who.key {
        v.hard(C04, "not the update authority");
    }
    if !i.is_mutable() {
        v.hard(C04, "asset is immutable");
    }
}

fn done(mut v: Env) -> Eval {
    // lamport-only effects and write locks
    let lam = std::mem::take(&mut v.lam);
    for (k, n) in lam {
        match v.e.post.get_mut(&k) {
            Some(Expect::Img { lamports, .. } | Expect::Buffer { lamports, .. }) => *lamports = n,
            Some(_) => {}
            None => {
                if v.acct(&k).lamports != n {
                    v.e.post.insert(k, Expect::Lamports(n));
                }
            }
        }
    }
    let keys: Vec<Pubkey> = v.e.post.keys().copied().collect();
    for k in keys {
        if !v.ev.metas.iter().any(|x| x.key == k && x.writable) {
            let same = match &v.e.post[&k] {
                Expect::Img { img, lamports, .. } => {
                    let q = v.acct(&k);
                    q.lamports == *lamports && Img::decode(&q.data).as_ref() == Ok(img)
                }
                _ => false,
            };
            if !same {
                v.soft(format!("{k} is not writable"));
            }
        }
        if v.acct(&k).executable {
            v.soft("executable account");
        }
    }
    v.e
}

fn close(v: &mut Env, b: Meta, r: Meta) {
    v.need_sign(&b, C12 | C14, "buffer");
    let q = v.acct(&b.key);
    if q.owner != pid() {
        v.hard(C12 | C14 | C21, "not an account of the program");
        return;
    }
    if q.data.first().copied().unwrap_or(0) != 0 {
        v.hard(C12 | C14 | C01, "live asset closed as a buffer");
    }
    gone(v, b, r);
}

fn gone(v: &mut Env, x: Meta, r: Meta) {
    if x.key == r.key {
        v.hard(C14 | C13, "refund to the closed account itself");
        return;
    }
    let n = v.acct(&x.key).lamports;
    v.add(&r.key, n);
    v.sub(&x.key, n);
    v.e.post.insert(x.key, Expect::Gone);
}

fn burn(v: &mut Env, x: Meta, s: Meta, r: Option<Meta>, g: Option<Meta>) {
    v.need_sign(&s, C01 | C14, "signer");
    let Some(i) = v.live(&x.key, C01 | C14, "asset") else { return };
    if i.owner != s.key {
        v.e.live |= C03;
        v.e.path += if i.managed_by(&s.key, R_BURN) { "/manager" } else { "/delegate" };
        if !i.delegated(&s.key, R_BURN) {
            v.hard(C01 | C03, "burnt without the owner or a burn delegate");
        }
        if i.manager().is_some() {
            v.e.live |= C09;
        }
    }
    if i.group != ZERO {
        v.e.path += "/grouped";
        match g {
            None => v.hard(C05 | C14, "burnt member without its group"),
            Some(g) if g.key != i.group => v.hard(C05 | C14, "burnt member with another group"),
            Some(g) => {
                if let Some(mut gi) = v.live(&g.key, C05, "group") {
                    match gi.group_size() {
                        None => v.hard(C05, "group without the Grouping extension"),
                        Some(0) => v.hard(C05, "group size below zero"),
                        Some(_) => {
                            set_size(&mut gi, -1);
                            v.put(g.key, gi);
                        }
                    }
                }
            }
        }
    }
    if i.group_size().unwrap_or(0) != 0 {
        v.hard(C05 | C14, "group with members burnt");
    }
    gone(v, x, r.unwrap_or(s));
}

fn transfer(v: &mut Env, x: Meta, s: Meta, r: Meta, g: Option<Meta>) {
    v.need_sign(&s, C01, "signer");
    let Some(mut i) = v.live(&x.key, C01, "asset") else { return };
    let me = i.owner == r.key;
    let own = v.royalties(&i.clone(), &x, &s, &r, !me);
    if own {
        v.e.live |= C08;
        v.e.path += "/own-royalties";
    }
    if i.standard == SOULBOUND {
        v.hard(C09 | C01, "soulbound asset moved");
    }
    if i.owner != s.key {
        v.e.live |= C03;
        v.e.path += if i.managed_by(&s.key, R_TRANSFER) { "/manager" } else { "/delegate" };
        if !i.delegated(&s.key, R_TRANSFER) {
            v.hard(C01 | C03, "moved without the owner or a transfer delegate");
        }
        if i.manager().is_some() {
            v.e.live |= C09;
        }
    }
    if me {
        v.e.path += "/self";
        v.put(x.key, i);
        return;
    }
    if i.group != ZERO && !own {
        v.e.path += "/grouped";
        match g {
            None => v.hard(C08, "grouped asset moved without its group"),
            Some(g) if g.key != i.group => v.hard(C08, "grouped asset moved with another group"),
            Some(g) => {
                if let Some(gi) = v.live(&g.key, C08, "group") {
                    if v.royalties(&gi, &x, &s, &r, true) {
                        v.e.live |= C08;
                        v.e.path += "/group-royalties";
                    }
                }
            }
        }
    }
    i.owner = r.key;
    i.clear_delegate();
    v.put(x.key, i);
}

/// An uninitialised account of the program, or a recorded rejection.
fn buffer(v: &mut Env, k: &Pubkey) -> Option<Img> {
    let q = v.acct(k);
    if q.owner != pid() {
        v.hard(C12 | C21, "not an account of the program");
        return None;
    }
    if q.data.first() != Some(&0) {
        v.hard(C12 | C14, "live asset used as a buffer");
        return None;
    }
    match Img::decode(&q.data) {
        Ok(i) => Some(i),
        Err(e) => {
            if q.data.len() < ASSET_LEN {
                v.hard(C10 | C11 | C12, "account too short");
            } else {
                v.soft(format!("malformed buffer: {e}"));
            }
            None
        }
    }
}

fn new_account(v: &mut Env, x: Meta, len: usize, payer: Option<Meta>, sys: Option<Meta>) {
    let q = v.acct(&x.key);
    if q.lamports > 0 || q.owner != system_program::ID {
        v.soft("address already in use");
    }
    if len > GROW {
        v.soft("account too large to create");
    }
    v.pay(payer, x, rent_min(len), sys);
}

/// Adds an extension to a buffer (existing ones are resized and funded here).
fn allocate(v: &mut Env, mut b: Img, x: &ExtIn, exists: bool, m: Meta, payer: Option<Meta>, sys: Option<Meta>) -> Option<Img> {
    if x.ty == 0 {
        v.hard(C10 | C11, "extension without a type");
        return None;
    }
    if b.ext(x.ty).is_some() {
        v.hard(C10 | C11, "extension added twice");
        return None;
    }
    if b.exts.last().map(|l| !l.complete()).unwrap_or(false) {
        v.hard(C11 | C10, "previous extension incomplete");
        return None;
    }
    let data = x.data.clone().unwrap_or_default();
    if data.len() > x.length as usize {
        v.hard(C11 | C10, "more data than declared");
        return None;
    }
    let off = b.end();
    let complete = data.len() == x.length as usize;
    // (an account made larger than needed keeps its room, unless data is still to be appended)
    let len = if complete { align8(off + EXT_LEN + data.len()).max(b.len) } else { off + EXT_LEN + data.len() };
    if exists {
        let from = b.len;
        v.resize(m, from, len, payer, sys);
    }
    b.exts.push(X { ty: x.ty, decl: x.length, data });
    b.len = len;
    if !complete {
        v.e.path += "/partial";
    }
    Some(b)
}

fn write(v: &mut Env, x: Meta, payer: Meta, sys: Meta, overwrite: bool, bytes: Vec<u8>) {
    v.need_sign(&x, C11 | C12, "buffer");
    if !payer.signer {
        v.soft("payer did not sign");
    }
    if sys.key != system_program::ID {
        v.soft("wrong system program");
    }
    let Some(mut b) = buffer(v, &x.key) else { return };
    if b.exts.is_empty() {
        v.hard(C11, "nothing to write to");
        return;
    }
    let n = b.exts.len() - 1;
    let off = b.off(n) + EXT_LEN;
    let decl = b.exts[n].decl as usize;
    let boundary = align8(off + decl);
    if b.exts[n].complete() && b.len > off + decl {
        v.soft("extension already complete");
    }
    let mut data = if overwrite { vec![] } else { b.exts[n].data.clone() };
    data.extend_from_slice(&bytes);
    if data.len() > decl {
        v.hard(C11 | C10, "more data than declared");
        return;
    }
    let to = if data.len() == decl { boundary } else { off + data.len() };
    let from = b.len;
    v.resize(x, from, to, Some(payer), Some(sys));
    v.e.path += if overwrite { "/overwrite" } else { "/append" };
    if data.len() == decl {
        v.e.path += "/complete";
        let ty = b.exts[n].ty;
        data = v.on_create(ty, &data, None);
    }
    b.exts[n].data = data;
    b.len = to;
    v.put(x.key, b);
}

#[allow(clippy::too_many_arguments)]
fn create(
    v: &mut Env,
    [x, authority, owner]: [Meta; 3],
    [group, group_auth, payer, sys]: [Option<Meta>; 4],
    name: &[u8],
    standard: u8,
    mutable: bool,
    exts: Option<Vec<ExtIn>>,
) {
    v.need_sign(&x, C14 | C12, "asset");
    let q = v.acct(&x.key);
    let fresh = q.data.is_empty();
    let mut img = if fresh {
        Img::blank()
    } else {
        v.e.path += "/from-buffer";
        match buffer(v, &x.key) {
            Some(b) => b,
            None => return,
        }
    };
    for e in exts.unwrap_or_default() {
        match allocate(v, img, &e, !fresh, x, payer, sys) {
            Some(b) => img = b,
            None => return,
        }
    }
    if !fresh && img.len > q.data.len() + GROW {
        v.soft("growth beyond the permitted increase");
    }
    if let Some(l) = img.exts.last() {
        if !l.complete() {
            v.hard(C11 | C10, "asset created from an incomplete extension");
            return;
        }
    }
    if !fresh && img.len < img.end() {
        v.soft("buffer without final padding");
    }
    let len = img.end().max(img.len);
    img.len = len;
    if fresh {
        new_account(v, x, len, payer, sys);
    }
    for i in 0..img.exts.len() {
        let (ty, d) = (img.exts[i].ty, img.exts[i].data.clone());
        img.exts[i].data = v.on_create(ty, &d, Some(authority.key).filter(|_| authority.signer));
        if ty == CREATORS {
            v.e.live |= C07;
        }
    }
    img.disc = 1;
    img.standard = standard;
    img.mutable = mutable as u8;
    img.owner = owner.key;
    img.authority = authority.key;
    img.name = Img::name_from(name);
    if (standard == MANAGED) != img.ext(MANAGER).is_some() {
        v.hard(C09, "manager extension and standard disagree");
    }
    match img.ext(PROXY) {
        None if standard == PROXIED => v.hard(C09 | C15, "proxied asset without the proxy extension"),
        Some(_) if standard != PROXIED => v.hard(C09 | C15, "proxy extension on a non-proxied asset"),
        Some(px) if px.data.len() == 97 => {
            v.e.live |= C15;
            let d = &px.data;
            let k = Pubkey::create_program_address(&[&d[32..64], &d[64..65]], &key(d));
            if k.ok() != Some(x.key) {
                v.hard(C09 | C15, "proxied asset is not the derived address");
            }
        }
        _ => {}
    }
    if let Some(g) = group {
        v.e.live |= C05 | C06;
        v.e.effect |= C05 | C06;
        v.e.path += "/grouped";
        let signer = group_auth.unwrap_or(authority);
        if let Some(mut gi) = v.group_rules(&img, x.key, g, signer) {
            img.group = g.key;
            set_size(&mut gi, 1);
            v.put(g.key, gi);
        }
    }
    let lamports = v.lamports(&x.key);
    v.e.post.insert(x.key, Expect::Img { img, lamports, unordered: true });
}

fn update(
    v: &mut Env,
    x: Meta,
    authority: Meta,
    [buf, payer, sys]: [Option<Meta>; 3],
    name: Option<Vec<u8>>,
    mutable: Option<bool>,
    ext: Option<ExtIn>,
) {
    v.need_sign(&authority, C04, "authority");
    let Some(mut i) = v.live(&x.key, C04 | C10, "asset") else { return };
    authority_of(v, &i, &authority);
    if let Some(n) = name {
        i.name = Img::name_from(&n);
    }
    if let Some(m) = mutable {
        i.mutable = m as u8;
    }
    if ext.is_some() && buf.is_some() {
        v.hard(C10 | C12, "both inline data and a buffer");
        return;
    }
    let mut from_buffer: Option<(Pubkey, Img)> = None;
    let (ty, data) = if let Some(b) = buf {
        v.e.effect |= C12 | C11;
        v.e.live |= C12;
        v.e.path += "/buffer";
        if b.key == x.key {
            v.hard(C12, "the asset as its own buffer");
            return;
        }
        let Some(bi) = buffer(v, &b.key) else { return };
        let Some(first) = bi.exts.first().cloned() else {
            v.hard(C12 | C11, "buffer without an extension");
            return;
        };
        if !first.complete() || bi.len < align8(ASSET_LEN + EXT_LEN + first.decl as usize) {
            if first.complete() {
                v.soft("buffer without final padding");
            } else {
                v.hard(C12 | C11, "update from an incomplete buffer");
                return;
            }
        }
        from_buffer = Some((b.key, bi));
        (first.ty, first.data)
    } else if let Some(e) = ext {
        v.e.path += "/inline";
        let d = e.data.clone().unwrap_or_default();
        if d.len() != e.length as usize {
            v.hard(C10 | C11, "data does not have the declared length");
            return;
        }
        (e.ty, d)
    } else {
        v.put(x.key, i);
        return;
    };
    if ty == 0 {
        v.hard(C10, "extension without a type");
        return;
    }
    v.e.effect |= ext_props(ty);
    v.e.live |= ext_props(ty);
    let from = i.len;
    let at = i.exts.iter().position(|e| e.ty == ty);
    let stored = match at {
        None => {
            v.e.path += "/new";
            if ty == MANAGER || ty == PROXY {
                v.hard(C09 | C15, "manager or proxy added after creation");
            }
            let d = v.on_create(ty, &data, Some(authority.key));
            i.exts.push(X::new(ty, d.clone()));
            let to = i.end();
            v.resize(x, from, to, payer, sys);
            i.len = to;
            d
        }
        Some(n) => {
            let old = i.exts[n].data.clone();
            let d = v.on_update(ty, &old, &data, authority.key);
            let before = i.end();
            i.exts[n] = X::new(ty, d.clone());
            let to = i.end();
            if to != before {
                v.e.path += if to > before { "/grow" } else { "/shrink" };
                v.resize(x, from, to, payer, sys);
                i.len = to;
            } else {
                v.e.path += "/same";
            }
            d
        }
    };
    v.e.path += &format!("/t{ty}");
    if let Some((k, bi)) = from_buffer {
        let mut alt = bi.clone();
        alt.exts[0].data = stored;
        let lamports = v.lamports(&k);
        v.e.post.insert(k, Expect::Buffer { img: bi, alt, lamports });
    }
    v.put(x.key, i);
}

fn remove(v: &mut Env, x: Meta, authority: Meta, recipient: Meta, ty: u32) {
    v.need_sign(&authority, C04, "authority");
    let Some(mut i) = v.live(&x.key, C04 | C10, "asset") else { return };
    authority_of(v, &i, &authority);
    v.e.effect |= ext_props(ty);
    if ty == MANAGER || ty == PROXY {
        v.hard(C09 | C15, "manager or proxy removed");
    }
    let Some(n) = i.exts.iter().position(|e| e.ty == ty) else {
        v.hard(C10, "removal of an absent extension");
        return;
    };
    if ty == GROUPING && i.group_size().unwrap_or(0) != 0 {
        v.hard(C05, "grouping removed from a group with members");
    }
    v.e.path += if n + 1 == i.exts.len() { "/last" } else { "/inner" };
    let before = i.end();
    i.exts.remove(n);
    let to = i.len - (before - i.end());
    let from = i.len;
    v.resize(x, from, to, Some(recipient), None);
    i.len = to;
    v.put(x.key, i);
}
