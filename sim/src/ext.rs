//! Reference model of the bridge and of the example proxy program.

use crate::check::{self, viol, Viol};
use crate::rt::{m, rent_min, Acct, FrameEvent, Meta};
use crate::spec::*;
use crate::tm;
use solana_program::{pubkey::Pubkey, system_program};
use std::collections::BTreeMap;
use std::rc::Rc;

fn blank() -> Eval {
    Eval { op: 254, hard: vec![], soft: vec![], post: BTreeMap::new(), live: 0, effect: C21, path: String::new() }
}

fn acct(ev: &FrameEvent, k: &Pubkey) -> Rc<Acct> {
    ev.pre.get(k).cloned().unwrap_or_else(|| Rc::new(Acct::empty()))
}

static mut CACHE: BTreeMap<(u8, Pubkey), (Pubkey, u8)> = BTreeMap::new();
fn cached(tag: u8, k: &Pubkey, f: impl FnOnce() -> (Pubkey, u8)) -> (Pubkey, u8) {
    let c = unsafe { &mut *std::ptr::addr_of_mut!(CACHE) };
    if c.len() > 4096 {
        c.clear();
    }
    *c.entry((tag, *k)).or_insert_with(f)
}
pub fn vault_pda(mint: &Pubkey) -> (Pubkey, u8) {
    cached(0, mint, || Pubkey::find_program_address(&[b"vault", mint.as_ref()], &bridge_program::ID))
}
pub fn bridged_pda(mint: &Pubkey) -> (Pubkey, u8) {
    cached(1, mint, || Pubkey::find_program_address(&[b"asset", mint.as_ref()], &bridge_program::ID))
}
pub fn stub_pda(stub: &Pubkey) -> (Pubkey, u8) {
    cached(2, stub, || Pubkey::find_program_address(&[stub.as_ref()], &proxy_program::ID))
}

/// The frame an inner call to the asset program would be.
fn inner(ev: &FrameEvent, metas: Vec<Meta>, data: Vec<u8>) -> FrameEvent {
    let merged: Vec<Meta> = metas
        .iter()
        .map(|x| {
            m(
                x.key,
                metas.iter().any(|y| y.key == x.key && y.signer),
                metas.iter().any(|y| y.key == x.key && y.writable),
            )
        })
        .collect();
    FrameEvent {
        program: pid(),
        height: ev.height + 1,
        parent: None,
        ix_index: ev.ix_index,
        metas: merged,
        data,
        pre: ev.pre.clone(),
        post: BTreeMap::new(),
        result: Ok(()),
        faulted: false,
    }
}

const TOKEN22: Pubkey = solana_program::pubkey!("TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb");

// ------------------------------------------------------------------ bridge

pub fn bridge(ev: &FrameEvent, out: &mut Vec<Viol>) -> String {
    match ev.data.first() {
        Some(0) if ev.data.len() == 1 => cross(ev, out),
        Some(1) if ev.data.len() == 2 && ev.data[1] < 2 => bridge_create(ev, ev.data[1] == 1, out),
        _ => {
            if ev.result.is_ok() {
                viol(out, C16 | C17, "bridge accepted a malformed instruction");
            }
            "Bridge/malformed".into()
        }
    }
}

fn cross(ev: &FrameEvent, out: &mut Vec<Viol>) -> String {
    let mut e = blank();
    e.path = "Cross".into();
    if ev.metas.len() < 20 {
        e.soft.push("too few accounts".into());
        check::frame(ev, &e, "Bridge", out);
        return e.path;
    }
    let a = |i: usize| ev.metas[i];
    let opt = |i: usize| Some(ev.metas[i]).filter(|x| x.key != bridge_program::ID);
    let (asset, vault, owner, token, mint, vtoken, payer) = (a(0), a(1), a(2), a(3), a(4), a(8), a(10));
    e.effect = C16 | C21;
    let mut hard = |w: &str| e.hard.push((C16, w.to_string()));
    if !owner.signer {
        hard("holder did not sign");
    }
    let vk = vault_pda(&mint.key);
    let ak = bridged_pda(&mint.key);
    let v = acct(ev, &vault.key);
    let good_vault = v.owner == bridge_program::ID && v.data.len() == 36 && v.data[0] == 1;
    if vault.key != vk.0 || !good_vault || v.data[3..35] != mint.key.to_bytes() {
        hard("not the vault of the mint");
    }
    if asset.key != ak.0 {
        hard("not the asset of the mint");
    }
    let x = acct(ev, &asset.key);
    let img = Img::decode(&x.data).ok().filter(|i| i.live() && x.owner == pid());
    if img.is_none() {
        hard("bridged asset does not exist");
    }
    if !e.hard.is_empty() {
        check::frame(ev, &e, "Bridge", out);
        return e.path;
    }
    let img = img.unwrap();
    let idle = v.data[1] == 0;
    e.path += if idle { "/to-asset" } else { "/to-token" };
    let held = |k: &Pubkey| tm::parse_token(&acct(ev, k)).filter(|t| t.0 == mint.key);
    let (src, src_owner, dst, dst_owner) =
        if idle { (token, owner, vtoken, vault) } else { (vtoken, vault, token, owner) };
    match held(&src.key) {
        Some((_, o, n)) if o == src_owner.key && n >= 1 => {}
        _ => e.hard.push((C16, "the party does not hold the token".into())),
    }
    // the asset leg, through the asset model
    let to = if idle { owner } else { vault };
    let sg = if idle { vault } else { owner };
    let group = opt(19);
    let leg = inner(
        ev,
        vec![
            m(asset.key, false, true),
            m(sg.key, true, false),
            m(to.key, false, false),
            group.map(|g| m(g.key, false, false)).unwrap_or(m(pid(), false, false)),
        ],
        vec![7],
    );
    let le = evaluate(&leg);
    for (p, w) in &le.hard {
        e.hard.push((C16 | p, w.clone()));
    }
    e.soft.extend(le.soft.iter().cloned());
    // everything the token side insists on
    let md = acct(ev, &a(5).key);
    let meta = tm::decode_metadata(&md);
    let pnft = meta.as_ref().and_then(|q| q.standard) == Some(4);
    let nf = matches!(meta.as_ref().and_then(|q| q.standard), Some(0) | Some(4));
    let rec = |i: usize, t: &Pubkey| a(i).key == tm::record_pda(&mint.key, t);
    let (srec, drec) = if idle { (7, 9) } else { (9, 7) };
    let soft = !payer.signer
        || !payer.writable
        || a(11).key != pid()
        || a(12).key != tm::TM_ID
        || a(13).key != system_program::ID
        || a(14).key != tm::SYSVAR_IX
        || a(15).key != tm::TOKEN_ID
        || a(16).key != tm::ATA_ID
        || opt(17).is_some()
        || opt(18).is_some()
        || a(5).key != tm::metadata_pda(&mint.key)
        || md.owner != tm::TM_ID
        || meta.as_ref().map(|q| q.mint != mint.key).unwrap_or(true)
        || !nf
        || acct(ev, &mint.key).owner != tm::TOKEN_ID
        || dst.key != tm::ata(&dst_owner.key, &mint.key)
        || (pnft && (!rec(srec, &src.key) || !rec(drec, &dst.key) || acct(ev, &a(srec).key).owner != tm::TM_ID))
        || acct(ev, &payer.key).lamports < rent_min(165) + rent_min(80)
        || !acct(ev, &payer.key).data.is_empty()
        || acct(ev, &payer.key).owner != system_program::ID
        || [0usize, 1, 3, 5, 8].iter().any(|i| !a(*i).writable)
        || (pnft && (!a(7).writable || !a(9).writable))
        || (opt(7).is_some() && !pnft && !a(7).writable)
        || (opt(9).is_some() && !pnft && !a(9).writable)
        || src.key == dst.key
        || (held(&dst.key).is_none() && !acct(ev, &dst.key).data.is_empty())
        || held(&dst.key).map(|t| t.1 != dst_owner.key).unwrap_or(false)
        || !acct(ev, &tm::TM_ID).executable
        || payer.key == asset.key
        || payer.key == vault.key
        || owner.key == vault.key
        || owner.key == asset.key;
    if soft {
        e.soft.push("token side".into());
    }
    e.live = C16 | C18;
    // the effect
    let mut nv = (*v).clone();
    nv.data[1] = idle as u8;
    e.post.insert(vault.key, Expect::Exact(nv));
    let mut ni = img.clone();
    if ni.owner != to.key {
        ni.owner = to.key;
        ni.clear_delegate();
    }
    e.post.insert(asset.key, Expect::Img { img: ni, lamports: x.lamports, unordered: false });
    for k in [src.key, dst.key, a(7).key, a(9).key, payer.key] {
        e.post.entry(k).or_insert(Expect::Any);
    }
    let bad = !e.hard.is_empty();
    check::frame(ev, &e, "Bridge", out);
    if ev.result.is_ok() && !bad {
        let n = |k: &Pubkey, o: &Pubkey, post: bool| {
            let q = if post { ev.post.get(k).cloned() } else { Some(acct(ev, k)) };
            q.and_then(|q| tm::parse_token(&q)).filter(|t| t.0 == mint.key && t.1 == *o).map(|t| t.2).unwrap_or(0)
        };
        if n(&src.key, &src_owner.key, true) + 1 != n(&src.key, &src_owner.key, false)
            || n(&dst.key, &dst_owner.key, true) != n(&dst.key, &dst_owner.key, false) + 1
        {
            viol(out, C16, "crossing did not move the token between holder and vault");
        }
    }
    e.path
}

fn bridge_create(ev: &FrameEvent, is_collection: bool, out: &mut Vec<Viol>) -> String {
    let mut e = blank();
    e.path = "BridgeCreate".into();
    if ev.metas.len() < 9 {
        e.soft.push("too few accounts".into());
        check::frame(ev, &e, "Bridge Create", out);
        return e.path;
    }
    let a = |i: usize| ev.metas[i];
    let (asset, vault, mint, md, ua, payer) = (a(0), a(1), a(2), a(3), a(4), a(6));
    let coll = Some(a(5)).filter(|x| x.key != bridge_program::ID);
    e.effect = C17 | C21;
    e.live = C17 | C18;
    let mut hard: Vec<&str> = vec![];
    let mo = acct(ev, &mint.key).owner;
    if mo != tm::TOKEN_ID && mo != TOKEN22 {
        hard.push("not a mint");
    }
    let mda = acct(ev, &md.key);
    let meta = tm::decode_metadata(&mda).filter(|_| mda.owner == tm::TM_ID);
    match &meta {
        None => hard.push("not a token metadata account"),
        Some(x) => {
            if !matches!(x.standard, Some(0) | Some(4)) {
                hard.push("not a non-fungible token");
            }
            if x.mint != mint.key {
                hard.push("metadata of another mint");
            }
            if x.update_authority != ua.key {
                hard.push("not the update authority");
            }
            match x.collection {
                Some((true, c)) => {
                    e.path += "/collection";
                    let ok = coll
                        .map(|k| {
                            let q = acct(ev, &k.key);
                            k.key == bridged_pda(&c).0 && q.owner == pid() && q.data.first() == Some(&1)
                        })
                        .unwrap_or(false);
                    if !ok {
                        hard.push("collection is not bridged");
                    }
                }
                _ => {
                    if !ua.signer {
                        hard.push("update authority did not sign");
                    }
                }
            }
        }
    }
    let (vk, ak) = (vault_pda(&mint.key), bridged_pda(&mint.key));
    if vault.key != vk.0 {
        hard.push("not the vault address of the mint");
    }
    if asset.key != ak.0 {
        hard.push("not the asset address of the mint");
    }
    let (v, x) = (acct(ev, &vault.key), acct(ev, &asset.key));
    if !v.data.is_empty() {
        hard.push("already bridged");
    }
    e.hard = hard.iter().map(|w| (C17, w.to_string())).collect();
    if !e.hard.is_empty() {
        check::frame(ev, &e, "Bridge Create", out);
        return e.path;
    }
    let meta = meta.unwrap();
    let fine_creators = meta
        .creators
        .as_ref()
        .map(|c| !c.is_empty() && c.iter().map(|c| c.2 as u32).sum::<u32>() == 100)
        .unwrap_or(true);
    let p = acct(ev, &payer.key);
    if !payer.signer
        || !payer.writable
        || a(7).key != system_program::ID
        || a(8).key != pid()
        || !asset.writable
        || !vault.writable
        || v.owner != system_program::ID
        || x.owner != system_program::ID
        || !x.data.is_empty()
        || p.owner != system_program::ID
        || !p.data.is_empty()
        || p.lamports < 20_000_000
        || !fine_creators
        || meta.fee > 10000
        || ev.height > 3
        || [asset.key, vault.key].contains(&payer.key)
    {
        e.soft.push("conditions outside the bridge".into());
    }
    let nv = Acct {
        lamports: rent_min(36),
        owner: bridge_program::ID,
        executable: false,
        data: {
            let mut d = vec![1, 0, vk.1];
            d.extend(mint.key.as_ref());
            d.push(ak.1);
            d
        },
    };
    e.post.insert(vault.key, Expect::Exact(nv));
    e.post.insert(asset.key, Expect::Any);
    e.post.insert(payer.key, Expect::Any);
    check::frame(ev, &e, "Bridge Create", out);
    if ev.result.is_ok() {
        let q = &ev.post[&asset.key];
        let want_group = is_collection || meta.details.is_some();
        match Img::decode(&q.data).ok().filter(|i| i.live() && q.owner == pid()) {
            None => viol(out, C17, "bridge created no asset"),
            Some(i) => {
                let mut bad = |w: String| viol(out, C17, format!("bridged asset is not faithful: {w}"));
                if i.owner != vault.key {
                    bad("not owned by the vault".into());
                }
                if i.authority != ua.key {
                    bad("authority".into());
                }
                if i.name != Img::name_from(meta.name.as_bytes()) {
                    bad(format!("name {:?} for {:?}", String::from_utf8_lossy(&i.name), meta.name));
                }
                if i.standard != 0 || i.state != 0 || !i.is_mutable() || i.group != ZERO || i.has_delegate() {
                    bad("header".into());
                }
                let strs = |d: &[u8]| {
                    let mut v = vec![];
                    let mut o = 0;
                    while o < d.len() && o + 1 + d[o] as usize <= d.len() {
                        let n = d[o] as usize;
                        v.push(String::from_utf8_lossy(&d[o + 1..o + 1 + n]).trim_end_matches('\0').to_string());
                        o += 1 + n;
                    }
                    v
                };
                let s = i.ext(METADATA).map(|x| strs(&x.data)).unwrap_or_default();
                if s.first() != Some(&meta.symbol) || s.get(2) != Some(&meta.uri) {
                    bad(format!("metadata {s:?}"));
                }
                if s.get(1).map(|s| !s.is_empty()).unwrap_or(false) || s.get(3).map(|s| !s.is_empty()).unwrap_or(false) {
                    bad(format!("metadata {s:?}"));
                }
                match &meta.creators {
                    None => {
                        if i.ext(CREATORS).is_some() {
                            bad("creators from nowhere".into());
                        }
                    }
                    Some(c) => {
                        let got: Vec<(Pubkey, u8)> = i.creators().iter().map(|c| (c.0, c.2)).collect();
                        let want: Vec<(Pubkey, u8)> = c.iter().map(|c| (c.0, c.2)).collect();
                        if got != want {
                            bad("creators".into());
                        }
                    }
                }
                match i.ext(GROUPING) {
                    Some(x) => {
                        if !want_group || i.group_size() != Some(0) || i.group_max() != 0 || i.group_delegate().is_some() {
                            bad(format!("group role {:?}", x.data));
                        }
                    }
                    None => {
                        if want_group {
                            bad("no group role".into());
                        }
                    }
                }
                let want_roy = want_group && meta.standard == Some(4);
                match i.ext(ROYALTIES) {
                    Some(x) => {
                        if !want_roy || u64at(&x.data, 0) != meta.fee as u64 || !matches!(parse_con(&x.data[8..]), Some((Con::Empty, _))) {
                            bad("royalties".into());
                        }
                    }
                    None => {
                        if want_roy {
                            bad("no royalties".into());
                        }
                    }
                }
                if i.exts.iter().any(|x| ![METADATA, CREATORS, GROUPING, ROYALTIES].contains(&x.ty)) {
                    bad("unexpected extension".into());
                }
            }
        }
        // what somebody sent to the two addresses beforehand goes to whoever pays for them
        let spent = p.lamports as i128 - ev.post[&payer.key].lamports as i128 + v.lamports as i128 + x.lamports as i128;
        if spent != (rent_min(36) + rent_min(q.data.len())) as i128 {
            viol(out, C13, format!("bridge creation cost {spent}"));
        }
    }
    e.path
}

/// The custody invariant over the whole chain state.
pub fn custody(db: &crate::rt::Db, out: &mut Vec<Viol>) {
    for (k, v) in db.map.iter().filter(|(_, v)| v.owner == bridge_program::ID) {
        if v.data.len() != 36 || v.data[0] != 1 || v.data[1] > 1 {
            viol(out, C16 | C17, format!("vault {} is malformed", check::short(k)));
            continue;
        }
        let mint = Pubkey::new_from_array(v.data[3..35].try_into().unwrap());
        if vault_pda(&mint).0 != *k {
            viol(out, C16 | C17, format!("vault {} is not at its address", check::short(k)));
            continue;
        }
        let ak = bridged_pda(&mint).0;
        let x = db.get(&ak);
        let img = Img::decode(&x.data).ok().filter(|i| i.live() && x.owner == pid());
        if v.data[1] == 0 {
            match img {
                None => viol(out, C17 | C16, format!("vault {} without its asset", check::short(k))),
                Some(i) => {
                    if i.owner != *k {
                        viol(out, C16, format!("vault {} is idle but does not own the asset", check::short(k)));
                    }
                }
            }
        } else {
            let t = tm::parse_token(&db.get(&tm_ata(k, &mint)));
            if !matches!(t, Some((mm, o, n)) if mm == mint && o == *k && n >= 1) {
                viol(out, C16, format!("vault {} is active but does not hold the token", check::short(k)));
            }
        }
    }
}

pub fn tm_ata(owner: &Pubkey, mint: &Pubkey) -> Pubkey {
    static mut C: BTreeMap<(Pubkey, Pubkey), Pubkey> = BTreeMap::new();
    let c = unsafe { &mut *std::ptr::addr_of_mut!(C) };
    *c.entry((*owner, *mint)).or_insert_with(|| tm::ata(owner, mint))
}

// ------------------------------------------------------------------ example proxy

fn str_in(d: &[u8], o: &mut usize) -> Option<Vec<u8>> {
    let n = *d.get(*o)? as usize;
    let v = d.get(*o + 1..*o + 1 + n)?.to_vec();
    *o += 1 + n;
    Some(v)
}
fn counter(i: &Img) -> Option<i64> {
    let d = &i.ext(ATTRIBUTES)?.data;
    let mut o = 0;
    while o < d.len() {
        let (k, v) = (str_in(d, &mut o)?, str_in(d, &mut o)?);
        if k == b"transfers" {
            return std::str::from_utf8(&v).ok()?.trim().parse().ok();
        }
    }
    None
}
fn stamp(i: &Img) -> Option<u64> {
    let d = &i.ext(PROPERTIES)?.data;
    let mut o = 0;
    while o < d.len() {
        let k = str_in(d, &mut o)?;
        let t = *d.get(o)?;
        o += 1;
        let at = o;
        match t {
            0 => {
                str_in(d, &mut o)?;
            }
            1 => o += 8,
            _ => o += 1,
        }
        if k == b"last_transferred" && t == 1 {
            return d.get(at..at + 8).map(|b| u64at(b, 0));
        }
    }
    None
}

pub fn proxy(ev: &FrameEvent, clock: i64, out: &mut Vec<Viol>) -> String {
    // its own Create: 0, borsh string
    if ev.data.first() == Some(&0) && ev.data.len() >= 5 {
        let n = u32::from_le_bytes(ev.data[1..5].try_into().unwrap()) as usize;
        if ev.data.len() == 5 + n && std::str::from_utf8(&ev.data[5..]).is_ok() {
            return proxy_create(ev, clock, &ev.data[5..], out);
        }
    }
    let mut e = blank();
    let Some((op, args)) = parse(&ev.data) else {
        e.soft.push("malformed".into());
        check::frame(ev, &e, "proxy", out);
        return "Proxy/malformed".into();
    };
    e.op = op;
    e.path = format!("Proxy/{}", OPS[op as usize]);
    e.effect = C15 | C21;
    e.live = C15 | C18;
    if ev.metas.len() < NACC[op as usize] {
        e.soft.push("too few accounts".into());
        check::frame(ev, &e, &e.path.clone(), out);
        return e.path;
    }
    let a = |i: usize| ev.metas[i];
    let x = acct(ev, &a(0).key);
    let img = Img::decode(&x.data).ok().filter(|i| i.live() && x.owner == pid());
    let mine = img
        .as_ref()
        .and_then(|i| i.ext(PROXY))
        .map(|p| p.data.len() == 97 && p.data[..32] == proxy_program::ID.to_bytes())
        .unwrap_or(false);
    if !mine {
        e.hard.push((C15, "not an asset of this proxy".into()));
        check::frame(ev, &e, &e.path.clone(), out);
        return e.path;
    }
    let img = img.unwrap();
    // whoever has to consent must have signed the request made to the proxy
    let consent: &[usize] = match op {
        13 | 14 => &[2],
        15 => &[1, 2],
        0 | 2 | 4 => &[],
        _ => &[1],
    };
    for i in consent {
        if !a(*i).signer {
            e.hard.push((C15 | op_props(op) & (C01 | C03 | C04 | C06 | C07), format!("account {i} of {} did not sign", OPS[op as usize])));
        }
    }
    let dup = ev.metas[1..].iter().any(|y| y.key == a(0).key);
    if dup {
        e.soft.push("asset named twice".into());
    }
    let has_nifty = ev.metas.iter().any(|y| y.key == pid());
    if !has_nifty || ev.height > 3 {
        e.soft.push("asset program missing".into());
    }
    match (op, args) {
        (7, _) => {
            if !ev.metas[4..].iter().any(|y| y.key == pid()) {
                e.soft.push("asset program missing".into());
            }
            if !a(0).writable {
                e.soft.push("not writable".into());
            }
            if !img.is_mutable() {
                e.soft.push("immutable: the proxy cannot count".into());
            }
            let leg = inner(
                ev,
                vec![m(a(0).key, true, true), m(a(1).key, a(1).signer, false), m(a(2).key, false, false), m(pid(), false, false)],
                vec![7],
            );
            let le = evaluate(&leg);
            e.hard.extend(le.hard.iter().map(|(p, w)| (C15 | p, w.clone())));
            e.soft.extend(le.soft.iter().cloned());
            let (Some(n), Some(_)) = (counter(&img), stamp(&img)) else {
                e.soft.push("no counter".into());
                check::frame(ev, &e, &e.path.clone(), out);
                return e.path;
            };
            e.post.insert(a(0).key, Expect::Any);
            let bad = !e.hard.is_empty();
            check::frame(ev, &e, "Transfer through the proxy", out);
            if ev.result.is_ok() && !bad {
                let q = &ev.post[&a(0).key];
                match Img::decode(&q.data) {
                    Err(w) => viol(out, C15 | C10, format!("proxied asset malformed: {w}")),
                    Ok(g) => {
                        if counter(&g) != Some(n + 1) {
                            viol(out, C15, format!("transfer counter {n} became {:?}", counter(&g)));
                        }
                        if stamp(&g) != Some(clock as u64) {
                            viol(out, C15, format!("time of transfer {:?}, clock {clock}", stamp(&g)));
                        }
                        let mut w = img.clone();
                        if w.owner != a(2).key {
                            w.owner = a(2).key;
                            w.clear_delegate();
                        }
                        for t in [ATTRIBUTES, BLOB, PROPERTIES] {
                            if let (Some(y), Some(z)) = (w.ext_mut(t), g.ext(t)) {
                                *y = z.clone();
                            }
                        }
                        let d = check::diff(&w, &g, false);
                        let d: Vec<_> = d.into_iter().filter(|x| !x.1.starts_with("account length")).collect();
                        for (p, s) in d {
                            viol(out, C15 | p, format!("transfer through the proxy: {s}"));
                        }
                    }
                }
            }
            return e.path;
        }
        (10, Args::Update { name, mutable, .. }) => {
            if !ev.metas[6..].iter().any(|y| y.key == pid()) {
                e.soft.push("asset program missing".into());
            }
            if !a(0).writable {
                e.soft.push("not writable".into());
            }
            let auth = Pubkey::new_from_array(img.ext(PROXY).unwrap().data[65..].try_into().unwrap());
            if auth == ZERO || auth != a(1).key {
                e.hard.push((C15 | C04, "not the proxy authority".into()));
            }
            if !img.is_mutable() {
                e.hard.push((C15 | C04, "asset is immutable".into()));
            }
            let mut w = img.clone();
            if let Some(n) = name {
                w.name = Img::name_from(&n);
            }
            if let Some(b) = mutable {
                w.mutable = b as u8;
            }
            e.post.insert(a(0).key, Expect::Img { img: w, lamports: x.lamports, unordered: false });
        }
        _ => {
            // plain forwarding: the asset model decides, with the caller's signatures only
            let mut metas = ev.metas.clone();
            for y in metas.iter_mut().skip(1) {
                if y.key == a(0).key {
                    y.signer = a(0).signer;
                }
            }
            metas[0].signer = true;
            let mut leg = inner(ev, metas.clone(), ev.data.clone());
            // undo the merge of the asset's signature into other roles
            for (i, y) in leg.metas.iter_mut().enumerate().skip(1) {
                if y.key == a(0).key {
                    y.signer = metas[i].signer;
                }
            }
            let le = evaluate(&leg);
            e.hard.extend(le.hard.iter().map(|(p, w)| (C15 | p, w.clone())));
            e.soft.extend(le.soft.iter().cloned());
            e.effect |= le.effect;
            e.live |= le.live;
            e.post = le.post;
        }
    }
    check::frame(ev, &e, &e.path.clone(), out);
    e.path
}

fn proxy_create(ev: &FrameEvent, clock: i64, name: &[u8], out: &mut Vec<Viol>) -> String {
    let mut e = blank();
    e.path = "Proxy/Create".into();
    e.effect = C15 | C21;
    e.live = C15 | C18;
    if ev.metas.len() < 7 {
        e.soft.push("too few accounts".into());
        check::frame(ev, &e, "Proxy Create", out);
        return e.path;
    }
    let a = |i: usize| ev.metas[i];
    let opt = |i: usize| Some(a(i)).filter(|x| x.key != proxy_program::ID);
    let (asset, stub, owner, auth) = (a(0), a(1), a(2), a(3));
    let (pda, bump) = stub_pda(&stub.key);
    let mut hard = |w: &str| e.hard.push((C15, w.to_string()));
    if !stub.signer {
        hard("stub did not sign");
    }
    if !auth.signer {
        hard("authority did not sign");
    }
    if asset.key != pda {
        hard("asset is not derived from the stub");
    }
    let x = acct(ev, &asset.key);
    if !x.data.is_empty() {
        hard("asset already exists");
    }
    if !e.hard.is_empty() {
        check::frame(ev, &e, "Proxy Create", out);
        return e.path;
    }
    let p = opt(4).map(|q| acct(ev, &q.key));
    let fine = p.as_ref().map(|p| p.owner == system_program::ID && p.data.is_empty() && p.lamports > 30_000_000).unwrap_or(false)
        && opt(4).map(|q| q.signer && q.writable && q.key != asset.key).unwrap_or(false)
        && opt(5).map(|q| q.key) == Some(system_program::ID)
        && a(6).key == pid()
        && asset.writable
        && x.owner == system_program::ID
        && ev.height <= 3;
    if !fine {
        e.soft.push("conditions outside the proxy".into());
    }
    e.post.insert(asset.key, Expect::Any);
    if let Some(q) = opt(4) {
        e.post.insert(q.key, Expect::Any);
    }
    check::frame(ev, &e, "Proxy Create", out);
    if ev.result.is_ok() {
        let q = &ev.post[&asset.key];
        match Img::decode(&q.data) {
            Err(w) => viol(out, C15 | C10, format!("proxied asset malformed: {w}")),
            Ok(i) => {
                let mut bad = |w: &str| viol(out, C15, format!("proxied asset: {w}"));
                if !i.live() || i.standard != PROXIED {
                    bad("not a proxied asset");
                }
                if i.owner != owner.key || i.group != ZERO || i.has_delegate() || i.state != 0 {
                    bad("header");
                }
                if i.authority != asset.key {
                    bad("authority is not the asset itself");
                }
                if i.name != Img::name_from(name) {
                    bad("name");
                }
                if counter(&i) != Some(0) || stamp(&i) != Some(clock as u64) {
                    bad("counter or time");
                }
                let mut w = proxy_program::ID.to_bytes().to_vec();
                w.extend(stub.key.as_ref());
                w.push(bump);
                w.extend(auth.key.as_ref());
                if i.ext(PROXY).map(|x| x.data != w).unwrap_or(true) {
                    bad("proxy data");
                }
            }
        }
    }
    e.path
}
