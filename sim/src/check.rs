//! Comparison of what a program did with what the model requires, and the state invariants.

use crate::rt::{rent_min, Acct, Db, Fail, FrameEvent};
use crate::spec::*;
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Viol {
    pub props: Props,
    pub what: String,
}

pub fn viol(out: &mut Vec<Viol>, props: Props, what: impl Into<String>) {
    if props != 0 {
        out.push(Viol { props, what: what.into() });
    }
}

pub fn short(k: &Pubkey) -> String {
    crate::world::label(k)
}

/// Differences between two images, with the properties each field belongs to.
pub fn diff(want: &Img, got: &Img, unordered: bool) -> Vec<(Props, String)> {
    let mut v = vec![];
    let mut f = |p: Props, n: &str, a: String, b: String| {
        if a != b {
            v.push((p, format!("{n} is {b}, expected {a}")));
        }
    };
    f(C12 | C14, "discriminator", want.disc.to_string(), got.disc.to_string());
    f(C02, "lock state", want.state.to_string(), got.state.to_string());
    f(C09, "standard", want.standard.to_string(), got.standard.to_string());
    f(C04, "mutability", want.mutable.to_string(), got.mutable.to_string());
    f(C01, "owner", short(&want.owner), short(&got.owner));
    f(C05 | C06, "group", short(&want.group), short(&got.group));
    f(C04, "authority", short(&want.authority), short(&got.authority));
    f(C03, "delegate", short(&want.delegate), short(&got.delegate));
    if want.has_delegate() {
        f(C03, "roles", want.roles.to_string(), got.roles.to_string());
    }
    f(C04, "name", String::from_utf8_lossy(&want.name).into(), String::from_utf8_lossy(&got.name).into());
    f(C10 | C13, "account length", want.len.to_string(), got.len.to_string());
    let order = |i: &Img| {
        let mut o: Vec<u32> = i.exts.iter().map(|x| x.ty).collect();
        if unordered {
            o.sort();
        }
        o
    };
    let (a, b) = (order(want), order(got));
    if a != b {
        let mut p = C10;
        for t in 1..=11 {
            if a.contains(&t) != b.contains(&t) {
                p |= ext_props(t);
            }
        }
        v.push((p, format!("extensions are {b:?}, expected {a:?}")));
    }
    for x in &want.exts {
        if let Some(y) = got.ext(x.ty) {
            if x != y {
                let at = x.data.iter().zip(&y.data).position(|(a, b)| a != b);
                v.push((
                    ext_props(x.ty),
                    format!(
                        "extension {} holds {}/{} bytes, expected {}/{} (first difference at {at:?})",
                        x.ty,
                        y.data.len(),
                        y.decl,
                        x.data.len(),
                        x.decl
                    ),
                ));
            }
        }
    }
    v
}

fn field_change(pre: &Acct, post: &Acct) -> (Props, String) {
    if pre.owner == pid() {
        if let (Ok(a), Ok(b)) = (Img::decode(&pre.data), Img::decode(&post.data)) {
            let d = diff(&a, &b, false);
            if !d.is_empty() {
                let p = d.iter().fold(0, |p, x| p | x.0);
                return (p, d.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join("; "));
            }
        }
        if post.owner != pid() {
            return (C14 | C01, "no longer an account of the program".into());
        }
    }
    if pre.lamports != post.lamports {
        return (C13, format!("balance {} -> {}", pre.lamports, post.lamports));
    }
    (0, "bytes changed".into())
}

/// Checks the effect of an accepted instruction on every account it was given.
pub fn effect(ev: &FrameEvent, e: &Eval, name: &str, out: &mut Vec<Viol>) {
    for (k, pre) in &ev.pre {
        let Some(post) = ev.post.get(k) else { continue };
        let tag = |s: &str| format!("{name} on {}: {s}", short(k));
        match e.post.get(k) {
            None => {
                if pre != post {
                    let (p, s) = field_change(pre, post);
                    viol(out, C21 | p | e.effect, tag(&format!("not part of the effect, yet {s}")));
                }
            }
            Some(Expect::Any) => {}
            Some(Expect::Exact(a)) => {
                if *a != **post {
                    let what = if a.lamports != post.lamports {
                        format!("balance {} expected {}", post.lamports, a.lamports)
                    } else {
                        format!("contents {:?} expected {:?}", &post.data[..post.data.len().min(48)], &a.data[..a.data.len().min(48)])
                    };
                    let p = if a.lamports != post.lamports { C13 } else { 0 };
                    viol(out, e.effect | p, tag(&what));
                }
            }
            Some(Expect::Lamports(n)) => {
                if post.lamports != *n {
                    viol(
                        out,
                        C13 | C21 | if matches!(e.op, 0 | 1) { C14 } else { 0 },
                        tag(&format!("balance {} -> {}, expected {n}", pre.lamports, post.lamports)),
                    );
                }
                if post.data != pre.data || post.owner != pre.owner {
                    let (p, s) = field_change(pre, post);
                    viol(out, C21 | p | e.effect, tag(&s));
                }
            }
            Some(Expect::Gone) => {
                if post.lamports != 0 || !post.data.is_empty() || post.owner == pid() {
                    viol(
                        out,
                        C14 | C13 | e.effect,
                        tag(&format!("left {} lamports and {} bytes behind", post.lamports, post.data.len())),
                    );
                }
            }
            Some(Expect::Img { img, lamports, unordered }) => {
                if post.owner != pid() {
                    viol(out, e.effect | C21, tag("not an account of the program afterwards"));
                    continue;
                }
                match Img::decode(&post.data) {
                    Err(s) => viol(out, C10 | C18 | e.effect, tag(&format!("malformed afterwards: {s}"))),
                    Ok(got) => {
                        let d = diff(img, &got, *unordered);
                        if !d.is_empty() {
                            // fields the operation should not have touched also break its frame
                            let was = Img::decode(&pre.data).ok();
                            let mut ps = 0;
                            for (p, _) in &d {
                                ps |= p;
                            }
                            if let Some(w) = was {
                                let moved = diff(&w, &got, *unordered);
                                let meant = diff(&w, img, *unordered);
                                if moved.iter().any(|m| {
                                    let f = |x: &(Props, String)| x.1.split(' ').next().map(|s| s.to_string());
                                    !meant.iter().any(|n| f(n) == f(m) && n.0 == m.0)
                                }) {
                                    ps |= C21;
                                }
                            } else {
                                ps |= C21;
                            }
                            ps |= e.effect;
                            let s = d.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join("; ");
                            viol(out, ps, tag(&s));
                        }
                    }
                }
                if post.lamports != *lamports {
                    viol(
                        out,
                        C13,
                        tag(&format!("balance {} -> {}, expected {lamports}", pre.lamports, post.lamports)),
                    );
                }
            }
            Some(Expect::Buffer { img, alt, lamports }) => match Img::decode(&post.data) {
                Ok(got) if diff(img, &got, false).is_empty() || diff(alt, &got, false).is_empty() => {
                    if post.lamports != *lamports {
                        viol(out, C13 | C12, tag("balance of the buffer changed"));
                    }
                }
                _ => viol(out, C12 | C21 | C10, tag("buffer damaged")),
            },
        }
    }
}

/// The request just judged was forbidden for one reason only, and refused.
pub static mut SOLE: Option<(Props, String)> = None;

pub fn frame(ev: &FrameEvent, e: &Eval, name: &str, out: &mut Vec<Viol>) {
    if let (Err(f), [(p, w)], []) = (&ev.result, &e.hard[..], &e.soft[..]) {
        if *f != Fail::Fault && !ev.faulted {
            let w: String = w.chars().filter(|c| !c.is_ascii_digit()).collect();
            unsafe { SOLE = Some((*p, format!("{name}: {w}"))) };
        }
    }
    match &ev.result {
        Ok(()) => {
            if !e.hard.is_empty() {
                let p = e.hard.iter().fold(0, |p, x| p | x.0);
                let s = e.hard.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join("; ");
                viol(out, p, format!("{name} was accepted: {s}"));
                return;
            }
            if !e.soft.is_empty() && e.post.is_empty() {
                return;
            }
            effect(ev, e, name, out);
        }
        Err(Fail::Fault) => {}
        Err(f) => {
            if e.hard.is_empty() && e.soft.is_empty() && !ev.faulted {
                viol(out, e.live, format!("{name} was refused ({f:?}) although nothing forbids it ({})", e.path));
            }
        }
    }
}

// ------------------------------------------------------------------ state invariants

/// Facts remembered about each asset over its life.
#[derive(Clone, Default)]
pub struct Ghost {
    /// standard and, once immutable, the frozen image
    pub born: BTreeMap<Pubkey, (u8, Option<Vec<u8>>)>,
    /// creators that signed for being verified, per asset
    pub consent: BTreeMap<Pubkey, BTreeSet<Pubkey>>,
}

fn frozen(i: &Img) -> Vec<u8> {
    let mut f = i.clone();
    // what other operations may still change
    f.state = 0;
    f.owner = ZERO;
    f.group = ZERO;
    f.clear_delegate();
    for x in f.exts.iter_mut() {
        if x.ty == CREATORS {
            for c in x.data.chunks_exact_mut(34) {
                c[32] = 0;
            }
        }
        if x.ty == GROUPING && x.data.len() >= 8 {
            x.data[..8].fill(0);
        }
    }
    f.encode()
}

/// Updates the ghost state from the frames of a committed transaction (in order).
pub fn remember(g: &mut Ghost, events: &[FrameEvent]) {
    for ev in events.iter().filter(|e| e.program == pid() && e.result.is_ok()) {
        let Some(x) = ev.metas.first() else { continue };
        let op = ev.data.first().copied().unwrap_or(255);
        if matches!(op, 0 | 1) {
            g.born.remove(&x.key);
            g.consent.remove(&x.key);
        }
        if matches!(op, 2 | 10 | 11) {
            let s: Vec<Pubkey> = ev.metas.iter().filter(|m| m.signer).map(|m| m.key).collect();
            g.consent.entry(x.key).or_default().extend(s);
        }
        if op == 9 {
            if let (Some(c), Some(s)) = (ev.metas.get(1), g.consent.get_mut(&x.key)) {
                s.remove(&c.key);
            }
        }
    }
}

pub fn invariants(db: &Db, g: &mut Ghost, out: &mut Vec<Viol>) {
    let mut members: BTreeMap<Pubkey, u64> = BTreeMap::new();
    let mut groups: Vec<(Pubkey, u64, u64)> = vec![];
    let mut live: BTreeSet<Pubkey> = BTreeSet::new();
    for (k, a) in db.map.iter().filter(|(_, a)| a.owner == pid()) {
        if a.lamports < rent_min(a.data.len()) {
            viol(out, C13, format!("{} holds {} lamports, below rent for {} bytes", short(k), a.lamports, a.data.len()));
        }
        let i = match Img::decode(&a.data) {
            Ok(i) => i,
            // made by somebody outside the program, and unusable
            Err(_) if a.data.len() < ASSET_LEN && a.data.iter().all(|b| *b == 0) => continue,
            Err(e) => {
                viol(out, C10, format!("{} is malformed: {e}", short(k)));
                continue;
            }
        };
        if !i.live() {
            g.born.remove(k);
            g.consent.remove(k);
            continue;
        }
        live.insert(*k);
        for x in &i.exts {
            if let Content::Bad(s) = content(x.ty, &x.data) {
                viol(out, ext_props(x.ty), format!("{} stores unreadable contents: {s}", short(k)));
            }
        }
        if i.group != ZERO {
            *members.entry(i.group).or_default() += 1;
            if i.group == *k {
                viol(out, C05 | C06, format!("{} is a member of itself", short(k)));
            }
        }
        if let Some(n) = i.group_size() {
            groups.push((*k, n, i.group_max()));
        }
        if i.ext(CREATORS).is_some() {
            let c = i.creators();
            let t: u32 = c.iter().map(|c| c.2 as u32).sum();
            if t != 100 {
                viol(out, C07, format!("creator shares of {} total {t}", short(k)));
            }
            for (w, v, _) in c {
                if v && !g.consent.get(k).map(|s| s.contains(&w)).unwrap_or(false) {
                    viol(out, C07, format!("{} shows {} as verified without its signature", short(k), short(&w)));
                }
            }
        }
        if let Some(x) = i.ext(ROYALTIES) {
            if x.data.len() >= 8 && u64at(&x.data, 0) > 10000 {
                viol(out, C08, format!("{} stores a royalty above 100 percent", short(k)));
            }
        }
        if (i.standard == MANAGED) != i.ext(MANAGER).is_some() {
            viol(out, C09, format!("{}: standard {} and manager extension disagree", short(k), i.standard));
        }
        if (i.standard == PROXIED) != i.ext(PROXY).is_some() {
            viol(out, C09 | C15, format!("{}: standard {} and proxy extension disagree", short(k), i.standard));
        }
        if let Some(x) = i.ext(PROXY).filter(|x| x.data.len() == 97) {
            let d = &x.data;
            let prog = Pubkey::new_from_array(d[..32].try_into().unwrap());
            if !derived(&d[32..65], &prog, k) {
                viol(out, C09 | C15, format!("{} is not derived from its proxy data", short(k)));
            }
        }
        match g.born.get_mut(k) {
            None => {
                let f = (!i.is_mutable()).then(|| frozen(&i));
                g.born.insert(*k, (i.standard, f));
            }
            Some((s, f)) => {
                if *s != i.standard {
                    viol(out, C09, format!("standard of {} changed from {s} to {}", short(k), i.standard));
                }
                match f {
                    Some(was) => {
                        if i.is_mutable() || *was != frozen(&i) {
                            viol(out, C04, format!("immutable asset {} changed", short(k)));
                        }
                    }
                    None => {
                        if !i.is_mutable() {
                            *f = Some(frozen(&i));
                        }
                    }
                }
            }
        }
    }
    for (k, n, max) in groups {
        let real = members.remove(&k).unwrap_or(0);
        if real != n {
            viol(out, C05, format!("group {} records {n} members, has {real}", short(&k)));
        }
        if max != 0 && n > max {
            viol(out, C06, format!("group {} has {n} members, maximum {max}", short(&k)));
        }
    }
    for (k, n) in members {
        let why = if live.contains(&k) { "is not a group" } else { "does not exist" };
        viol(out, C05, format!("{n} assets name {} as their group, which {why}", short(&k)));
    }
    g.born.retain(|k, _| live.contains(k));
    g.consent.retain(|k, _| live.contains(k));
}

static mut PDA_CACHE: BTreeMap<(Vec<u8>, Pubkey), Option<Pubkey>> = BTreeMap::new();

/// `key` is the address derived from the 32-byte seed and bump (cached; derivation is slow).
pub fn derived(seed: &[u8], program: &Pubkey, key: &Pubkey) -> bool {
    let c = unsafe { &mut *std::ptr::addr_of_mut!(PDA_CACHE) };
    if c.len() > 4096 {
        c.clear();
    }
    *c.entry((seed.to_vec(), *program)).or_insert_with(|| {
        Pubkey::create_program_address(&[&seed[..32], &seed[32..33]], program).ok()
    }) == Some(*key)
}
