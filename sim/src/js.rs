//! The repository's JavaScript clients as clients of the simulation: one node process per
//! simulator process, asked one thing at a time, deciding nothing.

use crate::check::{viol, Viol};
use crate::enc::{self, Req};
use crate::gen::Rng;
use crate::rt::{m, Acct, Db, Ix, Meta};
use crate::spec::*;
use crate::world::metas;
use serde_json::{json, Map, Value};
use solana_program::pubkey::Pubkey;
use std::io::{BufRead, BufReader, Write};
use std::os::fd::AsRawFd;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::str::FromStr;

struct Node {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
static mut NODE: Option<Node> = None;

fn start() -> Node {
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let file = std::env::var("NIFTY_JS").unwrap_or_else(|_| format!("{dir}/target/driver.cjs"));
    let child = Command::new("node").arg(&file).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::inherit()).spawn();
    let Ok(mut child) = child else {
        eprintln!("cannot run node on {file}");
        std::process::exit(3);
    };
    let (to, from) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
    Node { child, to, from }
}

fn exchange(n: &mut Node, line: &str) -> Option<String> {
    n.to.write_all(line.as_bytes()).ok()?;
    n.to.write_all(b"\n").ok()?;
    n.to.flush().ok()?;
    let mut s = String::new();
    if n.from.buffer().is_empty() {
        let mut fd = libc::pollfd { fd: n.from.get_ref().as_raw_fd(), events: libc::POLLIN, revents: 0 };
        if unsafe { libc::poll(&mut fd, 1, 60_000) } <= 0 {
            return None;
        }
    }
    n.from.read_line(&mut s).ok()?;
    s.ends_with('\n').then_some(s)
}

/// `Err` is what the client threw.
pub fn ask(q: Value) -> Result<Value, String> {
    let slot = unsafe { &mut *std::ptr::addr_of_mut!(NODE) };
    if slot.is_none() {
        let mut n = start();
        if exchange(&mut n, r#"{"op":"call","lib":"asset","f":"empty","a":[]}"#).is_none() {
            eprintln!("the JavaScript clients do not start");
            std::process::exit(3);
        }
        *slot = Some(n);
    }
    match exchange(slot.as_mut().unwrap(), &q.to_string()) {
        Some(s) => {
            let mut v: Value = serde_json::from_str(&s).map_err(|e| e.to_string())?;
            match v.get("err") {
                Some(e) => Err(e.as_str().unwrap_or("?").to_string()),
                None => Ok(v["ok"].take()),
            }
        }
        None => {
            if let Some(mut n) = slot.take() {
                let _ = n.child.kill();
                let _ = n.child.wait();
            }
            Err("no answer from the client within a minute".into())
        }
    }
}

pub fn k(k: &Pubkey) -> Value {
    json!(k.to_string())
}
pub fn s(k: &Pubkey) -> Value {
    json!({"$": "s", "v": k.to_string()})
}
fn nk(k: &Pubkey) -> Value {
    if *k == ZERO {
        Value::Null
    } else {
        json!(k.to_string())
    }
}
fn n(v: u64) -> Value {
    json!({"$": "n", "v": v.to_string()})
}
fn hx(d: &[u8]) -> String {
    d.iter().map(|b| format!("{b:02x}")).collect()
}
fn unhx(v: &str) -> Option<Vec<u8>> {
    (0..v.len() / 2).map(|i| u8::from_str_radix(v.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}
fn key(d: &[u8]) -> Pubkey {
    Pubkey::new_from_array(d[..32].try_into().unwrap())
}

// ------------------------------------------------------------------ typed values

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn b(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    /// A string that means the same everywhere: valid and without NUL.
    fn s(&mut self) -> Option<&'a str> {
        let n = self.b(1)?[0] as usize;
        text(self.b(n)?)
    }
}
fn text(b: &[u8]) -> Option<&str> {
    // a decoder drops a byte order mark at the front
    std::str::from_utf8(b).ok().filter(|s| !s.contains('\0') && !s.starts_with('\u{feff}'))
}

const WHO: [&str; 3] = ["Asset", "Authority", "Recipient"];
fn con(c: &Con) -> Value {
    let all = |v: &[Con]| v.iter().map(con).collect::<Vec<_>>();
    let ks = |v: &[Pubkey]| v.iter().map(k).collect::<Vec<_>>();
    match c {
        Con::And(v) => json!({"type": "And", "constraints": all(v)}),
        Con::Or(v) => json!({"type": "Or", "constraints": all(v)}),
        Con::Not(c) => json!({"type": "Not", "constraint": con(c)}),
        Con::OwnedBy(a, v) => json!({"type": "OwnedBy", "account": WHO[*a as usize], "owners": ks(v)}),
        Con::KeyMatch(a, v) => json!({"type": "PubkeyMatch", "account": WHO[*a as usize], "pubkeys": ks(v)}),
        Con::Empty => json!({"type": "Empty"}),
    }
}
fn con_call(c: &Con) -> Value {
    let call = |f: &str, a: Value| json!({"$": "call", "f": f, "a": a});
    let all = |v: &[Con]| Value::Array(v.iter().map(con_call).collect());
    let ks = |v: &[Pubkey]| Value::Array(v.iter().map(k).collect());
    match c {
        Con::And(v) => call("and", json!([all(v)])),
        Con::Or(v) => call("or", json!([all(v)])),
        Con::Not(c) => call("not", json!([con_call(c)])),
        Con::OwnedBy(a, v) => call("ownedBy", json!([WHO[*a as usize], ks(v)])),
        Con::KeyMatch(a, v) => call("pubkeyMatch", json!([WHO[*a as usize], ks(v)])),
        Con::Empty => call("empty", json!([])),
    }
}

fn roles(mask: u8) -> Vec<u8> {
    if mask == 0 {
        return vec![0];
    }
    (0..3).filter(|i| mask & (1 << i) != 0).map(|i| i + 1).collect()
}

/// The extension as the client shows it; `None` when the bytes have no single meaning.
/// `complete` asks for the current layout, the only one the client writes.
pub fn typed(ty: u32, d: &[u8], complete: bool) -> Option<Value> {
    if !matches!(content(ty, d), Content::Ok) {
        return None;
    }
    let mut r = Rd(d);
    let mut v = match ty {
        ATTRIBUTES | LINKS => {
            let mut out = vec![];
            while !r.0.is_empty() {
                let (a, b) = (r.s()?, r.s()?);
                out.push(if ty == LINKS { json!({"name": a, "uri": b}) } else { json!({"name": a, "value": b}) });
            }
            json!({"values": out})
        }
        BLOB => json!({"contentType": r.s()?, "data": r.0}),
        BUCKET => json!({"data": d}),
        CREATORS => {
            if d.chunks_exact(34).any(|c| c[32] > 1) {
                return None;
            }
            let v: Vec<Value> = d
                .chunks_exact(34)
                .map(|c| json!({"address": key(c).to_string(), "verified": c[32] == 1, "share": c[33]}))
                .collect();
            json!({"values": v})
        }
        METADATA => {
            let (a, b, c) = (r.s()?, r.s()?, r.s()?);
            if r.0.is_empty() && complete {
                return None;
            }
            let i = if r.0.is_empty() { "" } else { r.s()? };
            json!({"symbol": a, "description": b, "uri": c, "imageUri": i})
        }
        GROUPING => {
            let (a, b) = (u64at(r.b(8)?, 0), u64at(r.b(8)?, 0));
            if r.0.is_empty() && complete {
                return None;
            }
            let w = if r.0.is_empty() { ZERO } else { key(r.b(32)?) };
            json!({"size": n(a), "maxSize": n(b), "delegate": nk(&w)})
        }
        ROYALTIES => {
            let bp = u64at(r.b(8)?, 0);
            let (c, used) = parse_con(r.0)?;
            if used != r.0.len() {
                return None;
            }
            json!({"basisPoints": n(bp), "constraint": con(&c)})
        }
        MANAGER => {
            let w = key(r.b(32)?);
            let mask = r.b(1)?[0];
            if mask > 7 {
                return None;
            }
            json!({"delegate": {"address": nk(&w), "roles": roles(mask)}})
        }
        PROXY => {
            let p = key(r.b(32)?);
            let seeds = r.b(32)?;
            let bump = r.b(1)?[0];
            json!({"program": k(&p), "seeds": seeds, "bump": bump, "authority": nk(&key(r.b(32)?))})
        }
        PROPERTIES => {
            let mut out = vec![];
            while !r.0.is_empty() {
                let name = r.s()?;
                let t = r.b(1)?[0];
                let v = match t {
                    0 => json!(r.s()?),
                    1 => n(u64at(r.b(8)?, 0)),
                    _ => json!(r.b(1)?[0] == 1),
                };
                out.push(json!({"name": name, "type": t, "value": v}));
            }
            json!({"values": out})
        }
        _ => return None,
    };
    v["type"] = json!(ty);
    Some(v)
}

/// The same extension, as a user of the client would write it down.
pub fn written(ty: u32, d: &[u8], r: &mut Rng) -> Option<Value> {
    let plain = typed(ty, d, true)?;
    if r.chance(40) {
        let mut v = plain;
        if ty == MANAGER && d[32] == 0 && r.chance(50) {
            v["delegate"]["roles"] = json!([]);
        }
        if ty == ROYALTIES && u64at(d, 0) < 1 << 40 && r.chance(50) {
            v["basisPoints"] = json!(u64at(d, 0));
        }
        return Some(v);
    }
    let call = |f: &str, a: Value| Some(json!({"$": "call", "f": f, "a": a}));
    let bytes = |d: &Value, r: &mut Rng| -> Value {
        if r.chance(50) {
            return d.clone();
        }
        let v: Vec<u8> = d.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
        json!({"$": "b", "v": hx(&v)})
    };
    match ty {
        ATTRIBUTES => call("attributes", json!([plain["values"]])),
        LINKS => call("links", json!([plain["values"]])),
        BLOB => call("blob", json!([plain["contentType"], bytes(&plain["data"], r)])),
        BUCKET => call("bucket", json!([bytes(&plain["data"], r)])),
        CREATORS => {
            if d.chunks_exact(34).any(|c| c[32] != 0) {
                return Some(plain);
            }
            let v: Vec<Value> = d.chunks_exact(34).map(|c| json!({"address": key(c).to_string(), "share": c[33]})).collect();
            call("creators", json!([v]))
        }
        METADATA => {
            let mut o = Map::new();
            for f in ["symbol", "description", "uri", "imageUri"] {
                if plain[f] != json!("") || r.chance(50) {
                    o.insert(f.into(), plain[f].clone());
                }
            }
            if o.is_empty() {
                call("metadata", json!([]))
            } else {
                call("metadata", json!([Value::Object(o)]))
            }
        }
        GROUPING => {
            if u64at(d, 0) != 0 {
                return Some(plain);
            }
            let max = u64at(d, 8);
            let mx = if max < 1 << 50 && r.chance(50) { json!(max) } else { n(max) };
            let w = key(&d[16..]);
            match (w == ZERO, max == 0) {
                (true, true) if r.chance(50) => call("grouping", json!([])),
                (true, _) if r.chance(50) => call("grouping", json!([mx])),
                _ => call("grouping", json!([mx, k(&w)])),
            }
        }
        ROYALTIES => {
            let c = parse_con(&d[8..])?.0;
            let bp = if u64at(d, 0) < 1 << 50 && r.chance(50) { json!(u64at(d, 0)) } else { n(u64at(d, 0)) };
            if matches!(c, Con::Empty) && r.chance(70) {
                call("royalties", json!([bp]))
            } else {
                call("royalties", json!([bp, con_call(&c)]))
            }
        }
        MANAGER => {
            let mut v = roles(d[32]);
            let who = nk(&key(d));
            // naming a role again, or none besides, and in any order, grants the same
            if r.chance(20) {
                for _ in 0..1 + r.below(3) {
                    let again = if r.chance(25) { 0 } else { *r.pick(&v) };
                    let at = r.below(v.len() + 1);
                    v.insert(at, again);
                }
            }
            if v.len() == 1 && r.chance(50) {
                call("manager", json!([who, v[0]]))
            } else {
                call("manager", json!([who, v]))
            }
        }
        PROPERTIES => {
            let mut v = plain["values"].as_array().unwrap().clone();
            for x in v.iter_mut() {
                x.as_object_mut().unwrap().remove("type");
            }
            call("properties", json!([v]))
        }
        _ => Some(plain),
    }
}

// ------------------------------------------------------------------ requests

pub const FUNCTIONS: [&str; 18] = [
    "close", "burn", "create", "approve", "allocate", "lock", "revoke", "transfer", "unlock", "unverify", "update",
    "verify", "write", "group", "ungroup", "handover", "remove", "resize",
];
const NAMES: [&[&str]; 18] = [
    &["buffer", "recipient"],
    &["asset", "signer", "recipient", "group"],
    &["asset", "authority", "owner", "group", "groupAuthority", "payer", "systemProgram"],
    &["asset", "owner", "delegate"],
    &["asset", "payer", "systemProgram"],
    &["asset", "signer"],
    &["asset", "signer"],
    &["asset", "signer", "recipient", "group"],
    &["asset", "signer"],
    &["asset", "creator"],
    &["asset", "authority", "buffer", "group", "payer", "systemProgram"],
    &["asset", "creator"],
    &["asset", "payer", "systemProgram"],
    &["asset", "group", "authority"],
    &["asset", "group", "authority"],
    &["asset", "authority", "newAuthority"],
    &["asset", "authority", "group", "recipient"],
    &["asset", "authority", "payer", "systemProgram"],
];
/// The account that is the client's identity when it is not named.
const IDENTITY: [Option<usize>; 18] = [
    None, None, Some(1), Some(1), None, Some(1), Some(1), Some(1), Some(1), None, Some(1), None, None, Some(2), Some(2),
    Some(1), Some(1), Some(1),
];

pub struct Planned {
    pub ix: Ix,
    /// who the client makes sign
    pub signers: Vec<Pubkey>,
}
/// Transactions of a plan.
pub fn transactions(v: &Value) -> Option<Vec<Vec<Planned>>> {
    let pk = |v: &Value| Pubkey::from_str(v.as_str()?).ok();
    v.as_array()?
        .iter()
        .map(|t| {
            t["ixs"]
                .as_array()?
                .iter()
                .map(|i| {
                    let metas = i["keys"]
                        .as_array()?
                        .iter()
                        .map(|x| Some(m(pk(&x[0])?, x[1].as_bool()?, x[2].as_bool()?)))
                        .collect::<Option<Vec<Meta>>>()?;
                    let ix = Ix { program: pk(&i["program"])?, metas, data: unhx(i["data"].as_str()?)? };
                    Some(Planned { ix, signers: i["signers"].as_array()?.iter().map(pk).collect::<Option<_>>()? })
                })
                .collect::<Option<Vec<_>>>()
        })
        .collect()
}

fn ext_input(e: &ExtIn, r: &mut Rng) -> Option<Value> {
    let d = e.data.as_ref()?;
    if d.len() != e.length as usize {
        return None;
    }
    written(e.ty, d, r)
}

/// Compares one built request.
fn agree(who: &str, got: Result<Value, String>, want: &Ix, props: Props, out: &mut Vec<Viol>) {
    let got = match got {
        Ok(v) => v,
        Err(e) => return viol(out, props, format!("JavaScript {who}: could not be made: {e}")),
    };
    let Some(t) = transactions(&got) else {
        return viol(out, props, format!("JavaScript {who}: unreadable request {got}"));
    };
    if t.len() != 1 || t[0].len() != 1 {
        return viol(out, props, format!("JavaScript {who}: {} transactions for one request", t.len()));
    }
    let p = &t[0][0];
    if p.ix.program != want.program {
        viol(out, props, format!("JavaScript {who}: sent to {}, not {}", p.ix.program, want.program));
    }
    if p.ix.data != want.data {
        let at = p.ix.data.iter().zip(&want.data).position(|(a, b)| a != b).unwrap_or(p.ix.data.len().min(want.data.len()));
        viol(
            out,
            props,
            format!("JavaScript {who}: data of {} bytes differs from the {} meant at byte {at}", p.ix.data.len(), want.data.len()),
        );
    }
    if p.ix.metas != want.metas {
        viol(out, props, format!("JavaScript {who}: accounts {} instead of {}", metas(&p.ix.metas), metas(&want.metas)));
    }
    if p.ix.metas.iter().any(|x| x.signer != p.signers.contains(&x.key)) && p.ix.metas == want.metas {
        // the same key may be named twice, once without signing
        let signing: Vec<Pubkey> = p.ix.metas.iter().filter(|x| x.signer).map(|x| x.key).collect();
        if signing.iter().any(|k| !p.signers.contains(k)) || p.signers.iter().any(|k| !signing.contains(k)) {
            viol(out, props, format!("JavaScript {who}: the signatures gathered are not the ones asked for"));
        }
    }
}

/// The query for a request and what it has to come to; `None` when the client has no words for it.
pub fn query_for(q: &Req, proxy: Option<Pubkey>, r: &mut Rng) -> Option<(Value, Ix)> {
    let op = q.op as usize;
    if !enc::expressible(q) || op == 12 {
        return None;
    }
    if proxy.is_some() && matches!(op, 0 | 2 | 4) {
        return None;
    }
    let mut want = enc::raw(q);
    let mut input = Map::new();
    let other = Pubkey::new_from_array([201; 32]);
    let mut identity = other;
    let mut payer = Pubkey::new_from_array([202; 32]);
    let mut omitted = None;
    if let Some(i) = IDENTITY[op] {
        if r.chance(40) && (op != 2 || q.sign) {
            if let Some(k) = q.accts[i] {
                identity = k;
                omitted = Some(i);
            }
        }
    }
    for (i, a) in q.accts.iter().enumerate() {
        let name = NAMES[op][i];
        let (mut signs, _, _) = enc::ROLES[op][i];
        if (op == 2 && i == 1) || (op == 17 && i == 2) {
            signs = q.sign;
        }
        let Some(a) = a else {
            // with a payer, the system program is understood
            if name == "systemProgram" {
                let p = NAMES[op].iter().position(|x| *x == "payer").unwrap();
                if q.accts[p].is_some() {
                    want.metas[i] = m(solana_program::system_program::ID, false, false);
                }
            }
            continue;
        };
        if omitted == Some(i) {
            continue;
        }
        if (op == 2 && i == 2 || op == 16 && i == 3) && *a == identity && r.chance(60) {
            continue;
        }
        if op == 17 && i == 2 && signs && r.chance(30) {
            payer = *a;
            continue;
        }
        if name == "systemProgram" && *a == solana_program::system_program::ID && r.chance(60) {
            let p = NAMES[op].iter().position(|x| *x == "payer").unwrap();
            if q.accts[p].is_some() {
                continue;
            }
        }
        let v = match signs {
            true => s(a),
            false if r.chance(15) => json!({"$": "pda", "v": a.to_string()}),
            false => k(a),
        };
        input.insert(name.into(), v);
    }
    let txt = |b: &[u8]| String::from_utf8(b.to_vec()).unwrap();
    match &q.args {
        Args::Unit => {}
        Args::Create { name, standard, mutable, exts } => {
            input.insert("name".into(), json!(txt(name)));
            if *standard > 3 {
                return None;
            }
            if *standard != 0 || r.chance(50) {
                input.insert("standard".into(), json!(standard));
            }
            if !*mutable || r.chance(50) {
                input.insert("mutable".into(), json!(mutable));
            }
            if let Some(v) = exts {
                let v = v.iter().map(|e| ext_input(e, r)).collect::<Option<Vec<_>>>()?;
                input.insert("extensions".into(), json!(v));
            }
        }
        Args::Delegate(d) => {
            let v = match d {
                None if r.chance(50) => json!({"$": "call", "f": "delegateInput", "a": ["All"]}),
                None => json!({"__kind": "All"}),
                Some(v) if v.iter().any(|x| *x > 3) => return None,
                Some(v) if r.chance(50) => json!({"$": "call", "f": "delegateInput", "a": ["Some", {"roles": v}]}),
                Some(v) => json!({"__kind": "Some", "roles": v}),
            };
            input.insert("delegateInput".into(), v);
        }
        Args::Allocate(e) => {
            input.insert("extension".into(), ext_input(e, r)?);
        }
        Args::Update { name, mutable, ext } => {
            if let Some(n) = name {
                input.insert("name".into(), json!(txt(n)));
            }
            if let Some(b) = mutable {
                input.insert("mutable".into(), json!(b));
            }
            if let Some(e) = ext {
                input.insert("extension".into(), ext_input(e, r)?);
            }
        }
        Args::Write { .. } => return None,
        Args::Remove(t) => {
            if *t > 11 {
                return None;
            }
            input.insert("extensionType".into(), json!(t));
        }
        Args::Resize(v) => {
            let v = match v {
                None if r.chance(50) => json!({"$": "call", "f": "strategy", "a": ["Trim"]}),
                None => json!({"__kind": "Trim"}),
                Some(n) if r.chance(50) => json!({"$": "call", "f": "strategy", "a": ["Extend", {"value": n}]}),
                Some(n) => json!({"__kind": "Extend", "value": n}),
            };
            input.insert("strategy".into(), v);
        }
    }
    if let Some(p) = proxy {
        input.insert("proxy".into(), k(&p));
        want.program = p;
        want.metas.push(m(pid(), false, false));
    }
    let ask = json!({
        "op": "send", "f": FUNCTIONS[op], "input": input, "identity": identity.to_string(), "payer": payer.to_string(),
    });
    Some((ask, want))
}

pub fn request(q: &Req, proxy: Option<Pubkey>, seed: u64, out: &mut Vec<Viol>) -> bool {
    let mut r = Rng::new(seed);
    let Some((v, want)) = query_for(q, proxy, &mut r) else { return false };
    let who = format!("{}{}", FUNCTIONS[q.op as usize], if proxy.is_some() { " through a proxy" } else { "" });
    agree(&who, ask(v), &want, C22, out);
    true
}

/// Bridge and proxy requests, from the mint or stub alone wherever the client can work the rest out.
pub fn bridge_create(ix: &Ix, usual: bool, seed: u64, out: &mut Vec<Viol>) {
    let mut r = Rng::new(seed);
    let a = &ix.metas;
    let mut input = Map::new();
    input.insert("mint".into(), k(&a[2].key));
    if !usual {
        input.insert("metadata".into(), k(&a[3].key));
    }
    let mut identity = Pubkey::new_from_array([201; 32]);
    let mut payer = Pubkey::new_from_array([202; 32]);
    if a[4].signer && r.chance(40) {
        identity = a[4].key;
    } else {
        input.insert("updateAuthority".into(), if a[4].signer { s(&a[4].key) } else { k(&a[4].key) });
    }
    if a[5].key != bridge_program::ID {
        input.insert("collection".into(), k(&a[5].key));
    }
    if r.chance(40) {
        payer = a[6].key;
    } else {
        input.insert("payer".into(), s(&a[6].key));
    }
    let mut want = ix.clone();
    for (i, f) in [(0, "asset"), (1, "vault"), (7, "systemProgram"), (8, "niftyAssetProgram")] {
        // a caller may insist on another account than the usual one
        if r.chance(20) {
            let x = if r.chance(50) { a[i].key } else { Pubkey::new_from_array([206; 32]) };
            want.metas[i].key = x;
            input.insert(f.into(), k(&x));
        }
    }
    input.insert("isCollection".into(), json!(ix.data[1] == 1));
    let q = json!({"op": "send", "lib": "bridge", "f": "create", "input": input, "identity": identity.to_string(), "payer": payer.to_string()});
    agree("bridge create", ask(q), &want, C22, out);
}

pub fn bridge(ix: &Ix, pnft: bool, seed: u64, out: &mut Vec<Viol>) {
    let mut r = Rng::new(seed);
    let mut want = ix.clone();
    let a = &ix.metas;
    let mut input = Map::new();
    input.insert("mint".into(), k(&a[4].key));
    input.insert("owner".into(), s(&a[2].key));
    let mut payer = Pubkey::new_from_array([202; 32]);
    if r.chance(40) {
        payer = a[10].key;
    } else {
        input.insert("payer".into(), s(&a[10].key));
    }
    if pnft {
        input.insert("tokenStandard".into(), json!(4));
        want.metas[17] = m(solana_program::pubkey!("auth9SigNpDKz4sJJ1DfCTuZrZNSAgh9sFD3rboVmgg"), false, false);
    } else if r.chance(30) {
        input.insert("tokenStandard".into(), json!(0));
    }
    if r.chance(20) {
        let x = Pubkey::new_from_array([204; 32]);
        input.insert("authorizationRules".into(), k(&x));
        want.metas[18] = m(x, false, false);
    }
    if r.chance(10) {
        let x = Pubkey::new_from_array([205; 32]);
        input.insert("authorizationRulesProgram".into(), k(&x));
        want.metas[17] = m(x, false, false);
    }
    if a[19].key != bridge_program::ID {
        input.insert("groupAsset".into(), k(&a[19].key));
    }
    for (i, f) in [
        (0, "asset"),
        (1, "vault"),
        (3, "token"),
        (5, "metadata"),
        (6, "masterEdition"),
        (8, "vaultToken"),
        (11, "niftyAssetProgram"),
        (12, "tokenMetadataProgram"),
        (13, "systemProgram"),
        (14, "sysvarInstructions"),
        (15, "splTokenProgram"),
        (16, "splAtaProgram"),
    ] {
        if r.chance(15) {
            input.insert(f.into(), k(&a[i].key));
        }
    }
    // a caller may insist on another account than the usual one; nothing else is derived from these
    for (i, f) in [
        (0, "asset"),
        (5, "metadata"),
        (6, "masterEdition"),
        (7, "tokenRecord"),
        (9, "vaultTokenRecord"),
        (11, "niftyAssetProgram"),
        (12, "tokenMetadataProgram"),
        (13, "systemProgram"),
        (14, "sysvarInstructions"),
        (15, "splTokenProgram"),
        (16, "splAtaProgram"),
    ] {
        if r.chance(4) {
            let x = Pubkey::new_from_array([206 + i as u8; 32]);
            want.metas[i] = m(x, false, [0, 5, 7, 9].contains(&i));
            input.insert(f.into(), k(&x));
        }
    }
    let q = json!({"op": "send", "lib": "bridge", "f": "bridge", "input": input, "payer": payer.to_string()});
    agree("bridge", ask(q), &want, C22, out);
}

pub fn proxy_create(ix: &Ix, name: &[u8], seed: u64, out: &mut Vec<Viol>) {
    let mut r = Rng::new(seed);
    let a = &ix.metas;
    let Ok(name) = std::str::from_utf8(name) else { return };
    let mut input = Map::new();
    let mut identity = Pubkey::new_from_array([201; 32]);
    input.insert("stub".into(), s(&a[1].key));
    input.insert("owner".into(), k(&a[2].key));
    if r.chance(40) {
        identity = a[3].key;
    } else {
        input.insert("authority".into(), s(&a[3].key));
    }
    input.insert("payer".into(), s(&a[4].key));
    input.insert("name".into(), json!(name));
    let mut want = ix.clone();
    for (i, f) in [(0, "asset"), (5, "systemProgram"), (6, "niftyAssetProgram")] {
        if r.chance(20) {
            let x = if r.chance(50) { a[i].key } else { Pubkey::new_from_array([206; 32]) };
            want.metas[i].key = x;
            input.insert(f.into(), k(&x));
        }
    }
    let q = json!({"op": "send", "lib": "proxy", "f": "create", "input": input, "identity": identity.to_string()});
    agree("proxy create", ask(q), &want, C22, out);
}

/// The shortest forms of the extension helpers.
pub fn helpers(r: &mut Rng, out: &mut Vec<Viol>) {
    let call = |f: &str, a: Value| json!({"$": "call", "f": f, "a": a});
    let key = Pubkey::new_from_array([7; 32]);
    let text = |n: usize| vec![0u8; n];
    if r.chance(15) {
        for (f, kinds) in [("isStrategy", ["Trim", "Extend"]), ("isDelegateInput", ["All", "Some"])] {
            for a in kinds {
                for b in kinds {
                    let v = ask(json!({"op": "call", "f": f, "a": [a, {"__kind": b}]}));
                    if v != Ok(json!(a == b)) {
                        viol(out, C22, format!("JavaScript {f} {a} of {b}: {v:?}"));
                    }
                }
            }
        }
    }
    let (what, want) = match r.below(12) {
        0 => (call("metadata", json!([])), text(4)),
        1 => (call("metadata", json!([{}])), text(4)),
        2 => (call("metadata", json!([{"imageUri": "x"}])), vec![0, 0, 0, 1, b'x']),
        3 => (call("metadata", json!([{"symbol": "x"}])), vec![1, b'x', 0, 0, 0]),
        4 => (call("grouping", json!([])), text(48)),
        5 => (call("grouping", json!([7])), [7u64, 0, 0, 0, 0].iter().fold(text(8), |mut v, x| {
            v.extend(x.to_le_bytes());
            v
        })),
        6 => (call("attributes", json!([[]])), vec![]),
        7 => (call("links", json!([[]])), vec![]),
        8 => (call("properties", json!([[]])), vec![]),
        9 => (call("bucket", json!([[]])), vec![]),
        10 => (call("blob", json!(["", []])), text(1)),
        _ => {
            let role = 1 + r.below(3) as u8;
            let mut v = key.to_bytes().to_vec();
            v.push(1 << (role - 1));
            (call("manager", json!([k(&key), role])), v)
        }
    };
    match ask(json!({"op": "encode", "input": what})) {
        Ok(v) if v == json!(hx(&want)) => {}
        v => viol(out, C22, format!("JavaScript {what}: {v:?}, meant {}", hx(&want))),
    }
}

// ------------------------------------------------------------------ reads

fn stored(id: &Pubkey, a: &Acct) -> Value {
    json!({"key": k(id), "owner": k(&a.owner), "lamports": a.lamports, "data": hx(&a.data)})
}

/// What the client has to show for a live asset; `None` when something stored has no single meaning.
fn shown(id: &Pubkey, img: &Img) -> Option<Value> {
    let end = img.name.iter().position(|b| *b == 0).unwrap_or(35);
    if img.name[end..].iter().any(|b| *b != 0) || img.roles > 7 {
        return None;
    }
    let exts = img.exts.iter().map(|x| typed(x.ty, &x.data, false)).collect::<Option<Vec<_>>>()?;
    Some(json!({
        "publicKey": k(id),
        "discriminator": 1,
        "state": img.locked() as u8,
        "standard": img.standard,
        "mutable": img.is_mutable(),
        "owner": k(&img.owner),
        "group": nk(&img.group),
        "authority": k(&img.authority),
        "delegate": if img.has_delegate() { json!({"address": k(&img.delegate), "roles": roles(img.roles)}) } else { Value::Null },
        "name": text(&img.name[..end])?,
        "extensions": exts,
    }))
}

fn first_difference(a: &Value, b: &Value) -> String {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for f in x.keys().chain(y.keys()) {
                if x.get(f) != y.get(f) {
                    return format!("{f}: {}", first_difference(x.get(f).unwrap_or(&Value::Null), y.get(f).unwrap_or(&Value::Null)));
                }
            }
            "equal".into()
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
            match x.iter().zip(y).position(|(p, q)| p != q) {
                Some(i) => format!("[{i}] {}", first_difference(&x[i], &y[i])),
                None => "equal".into(),
            }
        }
        _ => {
            let cut = |v: &Value| v.to_string().chars().take(80).collect::<String>();
            format!("shows {}, stored {}", cut(a), cut(b))
        }
    }
}

pub fn read(id: &Pubkey, a: &Acct, seed: u64, out: &mut Vec<Viol>) -> bool {
    let mut r = Rng::new(seed);
    if a.owner == bridge_program::ID {
        let d = &a.data;
        if d.len() < 36 || d[0] == 0 {
            return false;
        }
        let want = json!({
            "publicKey": k(id), "discriminator": d[0], "state": d[1], "bump": d[2],
            "mint": k(&key(&d[3..])), "assetBump": d[35],
        });
        match ask(json!({"op": "vault", "account": stored(id, a)})) {
            Ok(v) if v == want => {}
            Ok(v) => viol(out, C23, format!("JavaScript vault: {}", first_difference(&v, &want))),
            Err(e) => viol(out, C23, format!("JavaScript vault: cannot be read: {e}")),
        }
        let mint = key(&d[3..]);
        for (f, w) in [("findVaultPda", crate::ext::vault_pda(&mint)), ("findBridgeAssetPda", crate::ext::bridged_pda(&mint))] {
            let v = ask(json!({"op": "call", "lib": "bridge", "f": f, "context": true, "a": [{"mint": k(&mint)}]}));
            if v != Ok(json!([k(&w.0), w.1])) {
                viol(out, C23, format!("JavaScript {f}: {v:?}, derived {w:?}"));
            }
        }
        return true;
    }
    let Ok(img) = Img::decode(&a.data) else { return false };
    if !img.live() {
        // a buffer is not an asset
        if a.data.len() >= 168 {
            let v = ask(json!({"op": "read", "account": stored(id, a)}));
            if let Ok(v) = v {
                viol(out, C23, format!("JavaScript: a buffer is shown as an asset: {}", v["asset"]["name"]));
            }
        }
        return true;
    }
    let Some(want) = shown(id, &img) else { return false };
    let types: Vec<u32> = (1..12).collect();
    // properties by name and kind: those there are, and some there are not
    let mut props: Vec<Value> = vec![];
    if let Some(x) = want["extensions"].as_array().unwrap().iter().find(|x| x["type"] == json!(PROPERTIES)) {
        for p in x["values"].as_array().unwrap().iter().take(4) {
            props.push(json!([p["name"], p["type"]]));
            props.push(json!([p["name"], r.below(3)]));
        }
    }
    props.push(json!(["size", 1]));
    let v = match ask(json!({"op": "read", "account": stored(id, a), "extensions": types, "properties": props})) {
        Ok(v) => v,
        Err(e) => {
            viol(out, C23, format!("JavaScript: asset of {} bytes with extensions {:?} cannot be read: {e}", a.data.len(), img.exts.iter().map(|x| (x.ty, x.data.len())).collect::<Vec<_>>()));
            return true;
        }
    };
    if v["asset"] != want {
        return {
            viol(out, C23, format!("JavaScript asset: {}", first_difference(&v["asset"], &want)));
            true
        };
    }
    let exts = want["extensions"].as_array().unwrap();
    for (i, t) in types.iter().enumerate() {
        let w = exts.iter().find(|x| x["type"] == json!(t)).cloned().unwrap_or(Value::Null);
        if v["found"][i] != w {
            viol(out, C23, format!("JavaScript getExtension {t}: {}", first_difference(&v["found"][i], &w)));
        }
    }
    for (i, p) in props.iter().enumerate() {
        let w = exts
            .iter()
            .find(|x| x["type"] == json!(PROPERTIES))
            .and_then(|x| x["values"].as_array().unwrap().iter().find(|y| y["name"] == p[0] && y["type"] == p[1]).cloned())
            .unwrap_or(Value::Null);
        if v["properties"][i] != w {
            viol(out, C23, format!("JavaScript getProperty {p}: {}", first_difference(&v["properties"][i], &w)));
        }
    }
    true
}

/// Fetches and queries over everything stored.
pub fn search(db: &Db, seed: u64, out: &mut Vec<Viol>) -> u64 {
    let mut r = Rng::new(seed);
    let all: Vec<(Pubkey, &Acct, Img)> = db
        .map
        .iter()
        .filter(|(_, a)| a.owner == pid() && a.data.len() >= 168)
        .filter_map(|(k, a)| Some((*k, &**a, Img::decode(&a.data).ok()?)))
        .collect();
    if all.is_empty() {
        return 0;
    }
    let accounts: Vec<Value> = all.iter().map(|(k, a, _)| stored(k, a)).collect();
    // by field
    let pick = r.pick(&all).2.clone();
    let name_of = |i: &Img| {
        let end = i.name.iter().position(|b| *b == 0).unwrap_or(35);
        text(&i.name[..end]).map(|s| s.to_string()).filter(|_| i.name[end..].iter().all(|b| *b == 0))
    };
    let mut wanted: Vec<Value> = vec![];
    let mut on: Vec<usize> = vec![];
    for f in 0..10 {
        if r.chance(25) {
            let v = match f {
                0 => json!(["discriminator", pick.live() as u8]),
                1 => json!(["state", pick.locked() as u8]),
                2 if pick.standard <= 3 => json!(["standard", pick.standard]),
                3 => json!(["mutable", pick.mutable != 0]),
                4 => json!(["owner", k(&pick.owner)]),
                5 => json!(["group", nk(&pick.group)]),
                6 => json!(["authority", k(&pick.authority)]),
                7 => json!(["delegate", nk(&pick.delegate)]),
                8 if pick.roles <= 7 => json!(["roles", roles(pick.roles)]),
                9 => match name_of(&pick) {
                    Some(n) => json!(["name", n]),
                    None => continue,
                },
                _ => continue,
            };
            wanted.push(v);
            on.push(f);
        }
    }
    let same = |i: &Img| {
        on.iter().all(|f| match f {
            0 => i.live() == pick.live(),
            1 => i.locked() == pick.locked(),
            2 => i.standard == pick.standard,
            3 => (i.mutable != 0) == (pick.mutable != 0),
            4 => i.owner == pick.owner,
            5 => i.group == pick.group,
            6 => i.authority == pick.authority,
            7 => i.delegate == pick.delegate,
            8 => i.roles == pick.roles,
            _ => i.name == pick.name,
        })
    };
    let want: Vec<Value> = all.iter().filter(|x| same(&x.2)).map(|x| k(&x.0)).collect();
    match ask(json!({"op": "query", "f": "getAssetGpaBuilder", "where": wanted, "accounts": accounts})) {
        Ok(v) if v == json!(want) => {}
        Ok(v) => viol(
            out,
            C23,
            format!("JavaScript query by {:?}: {} found, {} stored", wanted, v.as_array().map(|x| x.len()).unwrap_or(0), want.len()),
        ),
        Err(e) => viol(out, C23, format!("JavaScript query by {wanted:?} fails: {e}")),
    }
    // by address
    let live: Vec<(Pubkey, Value)> =
        all.iter().filter(|x| x.2.live()).filter_map(|x| Some((x.0, shown(&x.0, &x.2)?))).collect();
    if live.is_empty() {
        return 1;
    }
    let readable: Vec<Value> = all.iter().filter(|x| live.iter().any(|y| y.0 == x.0)).map(|x| stored(&x.0, x.1)).collect();
    let one = r.pick(&live).clone();
    let gone = Pubkey::new_from_array([203; 32]);
    let some: Vec<(Pubkey, Value)> = live.iter().filter(|_| r.chance(60)).cloned().collect();
    let keys: Vec<Value> = some.iter().map(|x| k(&x.0)).collect();
    let mut with_gone = keys.clone();
    with_gone.insert(r.below(keys.len() + 1), k(&gone));
    let vals = Value::Array(some.iter().map(|x| x.1.clone()).collect());
    let mut fetch = |f: &str, input: Value, want: Option<Value>| {
        let got = ask(json!({"op": "fetch", "f": f, "input": input, "accounts": readable}));
        match (got, want) {
            (Ok(v), Some(w)) if v == w => {}
            (Err(_), None) => {}
            (Ok(v), Some(w)) => viol(out, C23, format!("JavaScript {f}: {}", first_difference(&v, &w))),
            (Ok(_), None) => viol(out, C23, format!("JavaScript {f}: found what is not there")),
            (Err(e), Some(_)) => viol(out, C23, format!("JavaScript {f} fails: {e}")),
        }
    };
    match r.below(7) {
        6 => fetch("fetchAllAsset", json!(with_gone), None),
        0 => fetch("fetchAsset", k(&one.0), Some(one.1)),
        1 => fetch("safeFetchAsset", k(&one.0), Some(one.1)),
        2 => fetch("safeFetchAsset", k(&gone), Some(Value::Null)),
        3 => fetch("fetchAsset", k(&gone), None),
        4 => fetch("fetchAllAsset", json!(keys), Some(vals)),
        _ => fetch("safeFetchAllAsset", json!(with_gone), Some(vals)),
    }
    2
}

/// The names of the refusals.
pub fn errors(out: &mut Vec<Viol>) {
    use num_traits::FromPrimitive;
    for c in 0..40u32 {
        let program = asset_program::error::AssetError::from_u32(c).map(|e| format!("{e:?}"));
        let bridge = nifty_bridge::errors::BridgeError::from_u32(c).map(|e| format!("{e:?}"));
        for (lib, f, want) in [
            ("asset", "getAssetErrorFromCode", program),
            // the proxy's errors are the bridge's
            ("proxy", "getProxyErrorFromCode", bridge.clone()),
            ("bridge", "getBridgeErrorFromCode", bridge),
        ] {
            let got = ask(json!({"op": "error", "lib": lib, "f": f, "code": c}));
            let name = got.as_ref().ok().and_then(|v| v["name"].as_str()).map(|s| s.to_string());
            if got.is_err() || name != want || (want.is_some() && got.as_ref().unwrap()["code"] != json!(c)) {
                viol(out, C23, format!("JavaScript {lib} error {c}: {got:?}, meant {want:?}"));
            }
            if let Some(w) = want {
                let got = ask(json!({"op": "error", "lib": lib, "f": f.replace("Code", "Name"), "code": w}));
                if got.as_ref().map(|v| v["code"] != json!(c)).unwrap_or(true) {
                    viol(out, C23, format!("JavaScript {lib} error named {w}: {got:?}, meant {c}"));
                }
            }
        }
    }
}

/// Fetches and queries over the vaults.
pub fn vaults(db: &Db, seed: u64, out: &mut Vec<Viol>) -> u64 {
    let mut r = Rng::new(seed);
    let all: Vec<(Pubkey, &Acct)> =
        db.map.iter().filter(|(_, a)| a.owner == bridge_program::ID && a.data.len() >= 36).map(|(k, a)| (*k, &**a)).collect();
    let good: Vec<&(Pubkey, &Acct)> = all.iter().filter(|x| x.1.data[0] == 1).collect();
    if good.is_empty() {
        return 0;
    }
    let accounts: Vec<Value> = all.iter().map(|(k, a)| stored(k, a)).collect();
    let (id, a) = **r.pick(&good);
    let mint = key(&a.data[3..]);
    let mut wanted = vec![];
    let mut on = vec![];
    for (i, (f, v)) in
        [("state", json!(a.data[1])), ("bump", json!(a.data[2])), ("mint", k(&mint)), ("assetBump", json!(a.data[35]))].into_iter().enumerate()
    {
        if r.chance(35) {
            wanted.push(json!([f, v]));
            on.push([1..2, 2..3, 3..35, 35..36][i].clone());
        }
    }
    let want: Vec<Value> =
        good.iter().filter(|x| on.iter().all(|f| x.1.data[f.clone()] == a.data[f.clone()])).map(|x| k(&x.0)).collect();
    match ask(json!({"op": "query", "lib": "bridge", "f": "getVaultGpaBuilder", "where": wanted, "accounts": accounts})) {
        Ok(v) if v == json!(want) => {}
        v => viol(out, C23, format!("JavaScript vaults by {wanted:?}: {v:?}, stored {want:?}")),
    }
    let shown = json!({
        "publicKey": k(&id), "discriminator": 1, "state": a.data[1], "bump": a.data[2], "mint": k(&mint), "assetBump": a.data[35],
    });
    let gone = Pubkey::new_from_array([203; 32]);
    let (f, input, want) = match r.below(5) {
        0 => ("fetchVault", k(&id), Some(shown)),
        1 => ("safeFetchVault", k(&gone), Some(Value::Null)),
        2 => ("fetchVaultFromSeeds", json!({"mint": k(&mint)}), Some(shown)),
        3 => ("safeFetchAllVault", json!([k(&gone), k(&id)]), Some(json!([shown]))),
        _ => ("fetchVaultFromSeeds", json!({"mint": k(&gone)}), None),
    };
    // a vault lies at the address its mint gives
    if f == "fetchVaultFromSeeds" && want.is_some() && crate::ext::vault_pda(&mint).0 != id {
        return 1;
    }
    match (ask(json!({"op": "fetch", "lib": "bridge", "f": f, "input": input, "accounts": accounts})), want) {
        (Ok(v), Some(w)) if v == w => {}
        (Err(_), None) => {}
        (v, w) => viol(out, C23, format!("JavaScript {f}: {v:?}, stored {w:?}")),
    }
    2
}
