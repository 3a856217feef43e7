//! Reading back (C20) and building (C19) with the shipped libraries, against the bytes that the
//! simulated chain holds.

use crate::check::{viol, Viol};
use crate::enc::{self, Req};
use crate::rt::*;
use crate::spec::*;
use borsh::{BorshDeserialize, BorshSerialize};
use nifty_asset::extensions as e;
use nifty_asset::extensions::{ExtensionBuilder, ExtensionData, ExtensionType};
use nifty_asset::{constraints as k, types as g};
use nifty_asset_types::state::{Asset, Delegate, DelegateRole, Discriminator, Standard, State};
use nifty_asset_types::podded::ZeroCopy;
use nifty_bridge::instructions as bx;
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use std::panic::{catch_unwind, AssertUnwindSafe};

type R = Result<(), String>;

macro_rules! same {
    ($what:expr, $got:expr, $want:expr) => {{
        let (got, want) = (&$got, &$want);
        if got != want {
            return Err(format!("{}: read {:?}, stored {:?}", $what, got, want));
        }
    }};
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
}

fn guarded(out: &mut Vec<Viol>, props: Props, who: &str, f: impl FnOnce() -> R) {
    let before = NOW.swap(if props & C20 != 0 { 100 } else { 101 }, std::sync::atomic::Ordering::Relaxed);
    PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let r = catch_unwind(AssertUnwindSafe(f));
    NOW.store(before, std::sync::atomic::Ordering::Relaxed);
    match r {
        Ok(Ok(())) => {}
        Ok(Err(s)) => viol(out, props, format!("{who}: {s}")),
        Err(p) => viol(out, props, format!("{who}: panicked: {}", panic_text(p))),
    }
}

fn ety(t: u32) -> ExtensionType {
    use ExtensionType::*;
    [None, Attributes, Blob, Creators, Links, Metadata, Grouping, Royalties, Manager, Proxy, Properties, Bucket][t as usize]
}

/// A cursor over length-prefixed strings, written independently of the library.
struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn s(&mut self) -> &'a str {
        let n = self.0[0] as usize;
        let s = std::str::from_utf8(&self.0[1..1 + n]).unwrap();
        self.0 = &self.0[1 + n..];
        s
    }
    fn b(&mut self, n: usize) -> &'a [u8] {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn more(&self) -> bool {
        !self.0.is_empty()
    }
}

fn key(b: &[u8]) -> Pubkey {
    Pubkey::new_from_array(b[..32].try_into().unwrap())
}
fn opt(k: Pubkey) -> Option<Pubkey> {
    (k != ZERO).then_some(k)
}

pub fn check(id: &Pubkey, a: &Acct, out: &mut Vec<Viol>) {
    let who = crate::check::short(id);
    if a.owner == bridge_program::ID {
        return guarded(out, C20, &format!("vault {who}"), || vault(&a.data));
    }
    let Ok(img) = Img::decode(&a.data) else { return };
    guarded(out, C20, &who, || account(&img, &a.data));
    for x in &img.exts {
        let clean = matches!(content(x.ty, &x.data), Content::Ok);
        // any byte other than zero is true; a builder writes one
        let loose = x.ty == PROPERTIES && !clean && loose_booleans(&x.data);
        if x.complete() && (clean || loose) {
            guarded(out, C20, &format!("{who} extension {:?}", ety(x.ty)), || extension(&img, &a.data, x));
        }
        if x.complete() && clean {
            guarded(out, C20, &format!("builder of {:?}", ety(x.ty)), || builder(x));
        }
    }
}

fn vault(d: &[u8]) -> R {
    let v = nifty_bridge::accounts::Vault::from_bytes(d).map_err(|e| e.to_string())?;
    same!("discriminator", v.discriminator as u8, d[0]);
    same!("state", v.state as u8, d[1]);
    same!("bump", v.bump, d[2]);
    same!("mint", v.mint, key(&d[3..]));
    same!("asset bump", v.asset_bump, d[35]);
    let w = crate::ext::vault_pda(&v.mint);
    same!("vault address", nifty_bridge::accounts::Vault::find_pda(&v.mint), w);
    same!("vault address by bump", nifty_bridge::accounts::Vault::create_pda(v.mint, v.bump).ok(), Some(w.0));
    Ok(())
}

fn account(img: &Img, d: &[u8]) -> R {
    let live = img.live();
    // ---- walking the extensions
    let want: Vec<ExtensionType> = img.exts.iter().map(|x| ety(x.ty)).collect();
    same!("list of extensions", Asset::get_extensions(d), want);
    let whole = img.exts.iter().all(|x| x.complete());
    for t in 1..12 {
        same!(format!("presence of {:?}", ety(t)), Asset::contains(ety(t), d), img.ext(t).is_some());
        let got = Asset::get_extension(ety(t), d).map(|(h, o)| (h.length(), h.boundary() as usize, o));
        let at = img.exts.iter().position(|x| x.ty == t);
        let want = at.map(|i| (img.exts[i].decl, img.off(i + 1), img.off(i) + EXT_LEN));
        if whole || img.exts.last().map(|x| x.ty) != Some(t) {
            same!(format!("header of {:?}", ety(t)), got, want);
        }
    }
    let mut w = d.to_vec();
    macro_rules! absent {
        ($($ty:ident $t:ident $m:ident),*) => {
            $(if img.ext($ty).is_none() {
                same!("absent extension", Asset::get::<e::$t>(d).is_some(), false);
                same!("absent extension", e::Extension::get::<e::$t>(&d[ASSET_LEN..]).is_some(), false);
                same!("absent extension (mut)", Asset::get_mut::<e::$m>(&mut w).is_some(), false);
            })*
        };
    }
    absent!(
        ATTRIBUTES Attributes AttributesMut, BLOB Blob BlobMut, CREATORS Creators CreatorsMut, LINKS Links LinksMut,
        METADATA Metadata MetadataMut, GROUPING Grouping GroupingMut, ROYALTIES Royalties RoyaltiesMut,
        MANAGER Manager ManagerMut, PROXY Proxy ProxyMut, PROPERTIES Properties PropertiesMut, BUCKET Bucket BucketMut
    );
    let n = img.exts.len();
    let first = Asset::first_extension(d).map(|(h, o)| (h.try_extension_type().ok(), o));
    same!("first extension", first, (n > 0).then(|| (Some(want[0]), img.off(0) + EXT_LEN)));
    let last = Asset::last_extension(d).map(|(h, o)| (h.try_extension_type().ok(), o));
    same!("last extension", last, (n > 0).then(|| (Some(want[n - 1]), img.off(n - 1) + EXT_LEN)));
    // ---- header
    let a = Asset::load(&d[..Asset::LEN]);
    let std = [Standard::NonFungible, Standard::Managed, Standard::Soulbound, Standard::Proxied];
    same!("discriminator", a.discriminator, if live { Discriminator::Asset } else { Discriminator::Uninitialized });
    if !live {
        return Ok(());
    }
    same!("state", a.state, if img.locked() { State::Locked } else { State::Unlocked });
    same!("standard", a.standard, std[img.standard as usize]);
    same!("mutable", <bool>::from(a.mutable), img.is_mutable());
    same!("owner", a.owner, img.owner);
    same!("authority", a.authority, img.authority);
    same!("group", a.group.value().map(|x| **x), opt(img.group));
    same!("delegate", a.delegate.value().map(|x| *x.address), img.has_delegate().then_some(img.delegate));
    let mask = a.delegate.value().map(|x| x.roles);
    same!("delegate roles", mask, img.has_delegate().then_some(img.roles));
    if let Some(x) = a.delegate.value() {
        for (r, b) in [(DelegateRole::Transfer, R_TRANSFER), (DelegateRole::Lock, R_LOCK), (DelegateRole::Burn, R_BURN)] {
            same!(format!("delegate role {r:?}"), x.is_active(r), img.roles & b != 0);
        }
        same!("delegate roles", roles(&Delegate::decode_roles(x.roles)), img.roles & 7);
        same!("delegate has roles", x.has_active_roles(), img.roles != 0);
    }
    let end = img.name.iter().position(|c| *c == 0).unwrap_or(35);
    let utf8 = std::str::from_utf8(&img.name[..end]).is_ok();
    if utf8 {
        same!("name", a.name.trim_end_matches(char::from(0)).as_bytes(), &img.name[..end]);
    }
    // ---- generated client
    let c = nifty_asset::Asset::from_bytes(d).map_err(|e| format!("client cannot read the account: {e}"))?;
    same!("client discriminator", c.discriminator as u8, img.disc);
    same!("client state", c.state as u8, img.state);
    same!("client standard", c.standard as u8, img.standard);
    same!("client mutable", c.mutable, img.is_mutable());
    same!("client owner", c.owner, img.owner);
    same!("client group", c.group.to_option(), opt(img.group));
    same!("client authority", c.authority, img.authority);
    same!("client delegate", c.delegate.address.to_option(), opt(img.delegate));
    if img.roles < 8 {
        same!("client delegate roles", roles(&c.delegate.roles.to_vec()), img.roles);
    }
    same!("client name", c.name, img.name);
    let mut again = vec![];
    c.serialize(&mut again).map_err(|e| e.to_string())?;
    same!("client image of the header", again, d[..ASSET_LEN].to_vec());
    let (mut l, mut w, k, o) = (1u64, d.to_vec(), pid(), pid());
    let info = AccountInfo::new(&k, false, false, &mut l, &mut w, &o, false, 0);
    let x = nifty_asset::Asset::try_from(&info).map_err(|e| e.to_string())?;
    same!("client asset from a handle", x, c);
    use nifty_asset_types::podded::pod::Nullable;
    same!("no group", a.group.value().is_none(), img.group == ZERO);
    if img.live() {
        same!("no delegate", a.delegate.value().is_none(), img.delegate == ZERO);
    }
    let n = nifty_asset_types::state::NullablePubkey::from(img.group);
    same!("null key", (n.is_none(), n.is_some()), (img.group == ZERO, img.group != ZERO));
    let n = e::NullableU64::new(d.len() as u64 % 3);
    same!("null number", (n.is_none(), n.is_some()), (d.len() % 3 == 0, d.len() % 3 != 0));
    let n = Delegate { address: img.delegate.into(), roles: img.roles };
    same!("null delegate", (n.is_none(), n.is_some()), (img.delegate == ZERO, img.delegate != ZERO));
    if d.len() % 5 == 0 {
        let j = serde_json::to_string(&c).map_err(|e| e.to_string())?;
        same!("client asset through json", serde_json::from_str::<nifty_asset::Asset>(&j).map_err(|e| e.to_string())?, c);
    }
    Ok(())
}

fn roles(v: &[DelegateRole]) -> u8 {
    v.iter().fold(0, |m, r| m | match r {
        DelegateRole::None => 0,
        DelegateRole::Transfer => R_TRANSFER,
        DelegateRole::Lock => R_LOCK,
        DelegateRole::Burn => R_BURN,
    })
}

fn got<'a, T: ExtensionData<'a>>(d: &'a [u8]) -> Result<T, String> {
    let x = Asset::get::<T>(d).ok_or("not found by Asset::get")?;
    if e::Extension::get::<T>(&d[ASSET_LEN..]).is_none() {
        return Err("not found by Extension::get".into());
    }
    Ok(x)
}
fn client<T: BorshDeserialize>(d: &[u8]) -> Result<T, String> {
    T::try_from_slice(d).map_err(|e| format!("client cannot read it: {e}"))
}

fn extension(img: &Img, d: &[u8], x: &X) -> R {
    let b = &x.data[..];
    let mut w = d.to_vec();
    let untouched = d;
    macro_rules! also {
        ($($ty:ident $t:ident),*) => {
            match x.ty {
                $($ty => same!("mutable view of the extensions", e::Extension::get_mut::<e::$t>(&mut w[ASSET_LEN..]).is_some(), true),)*
                _ => {}
            }
        };
    }
    also!(
        ATTRIBUTES AttributesMut, BLOB BlobMut, CREATORS CreatorsMut, LINKS LinksMut, METADATA MetadataMut, GROUPING GroupingMut,
        ROYALTIES RoyaltiesMut, MANAGER ManagerMut, PROXY ProxyMut, PROPERTIES PropertiesMut, BUCKET BucketMut
    );
    match x.ty {
        ATTRIBUTES => {
            let mut r = Rd(b);
            let mut want = vec![];
            while r.more() {
                want.push((r.s().to_string(), r.s().to_string()));
            }
            let v = got::<e::Attributes>(d)?;
            same!("attributes", v.iter().map(|t| (t.name.to_string(), t.value.to_string())).collect::<Vec<_>>(), want);
            for (n, _) in &want {
                let s = want.iter().find(|x| x.0 == *n).map(|x| x.1.as_str());
                same!("attribute by name", v.get(n), s);
            }
            same!("attributes length", v.length(), b.len());
            let m = Asset::get_mut::<e::AttributesMut>(&mut w).ok_or("no mutable view")?;
            same!("attribute lengths (mut)", m.iter().map(|t| t.length()).sum::<usize>(), b.len());
            same!("attributes (mut)", m.iter().map(|t| (t.name.to_string(), t.value.to_string())).collect::<Vec<_>>(), want);
            let c: g::Attributes = client(b)?;
            same!("attributes (client)", c.values.iter().map(|t| (t.name.to_string(), t.value.to_string())).collect::<Vec<_>>(), want);
            let j = want
                .iter()
                .map(|(name, value)| nifty_asset::JsonAttribute { name: name.clone(), value: value.clone() })
                .collect();
            same!("attributes (json)", nifty_asset::ExtensionValue::JsonAttribute(j).into_data(), b.to_vec());
        }
        LINKS => {
            let mut r = Rd(b);
            let mut want = vec![];
            while r.more() {
                want.push((r.s().to_string(), r.s().to_string()));
            }
            let v = got::<e::Links>(d)?;
            same!("links", v.iter().map(|t| (t.name.to_string(), t.uri.to_string())).collect::<Vec<_>>(), want);
            same!("links length", v.length(), b.len());
            let m = Asset::get_mut::<e::LinksMut>(&mut w).ok_or("no mutable view")?;
            same!("link lengths (mut)", m.iter().map(|t| t.length()).sum::<usize>(), b.len());
            same!("links (mut)", m.iter().map(|t| (t.name.to_string(), t.uri.to_string())).collect::<Vec<_>>(), want);
            let c: g::Links = client(b)?;
            same!("links (client)", c.values.iter().map(|t| (t.name.to_string(), t.uri.to_string())).collect::<Vec<_>>(), want);
            let j = want.iter().map(|(name, uri)| nifty_asset::JsonLink { name: name.clone(), uri: uri.clone() }).collect();
            same!("links (json)", nifty_asset::ExtensionValue::JsonLink(j).into_data(), b.to_vec());
        }
        BLOB => {
            let mut r = Rd(b);
            let ct = r.s();
            let v = got::<e::Blob>(d)?;
            same!("blob content type", v.content_type.as_str(), ct);
            same!("blob data", v.data, r.0);
            same!("blob length", v.length(), b.len());
            {
                let m = Asset::get_mut::<e::BlobMut>(&mut w).ok_or("no mutable view")?;
                same!("blob content type (mut)", m.content_type.as_str(), ct);
                same!("blob data (mut)", &*m.data, r.0);
                if let Some(z) = m.data.last_mut() {
                    *z ^= 0xff;
                }
            }
            if !r.0.is_empty() {
                only(img, x, d, &mut w, b.len() - 1, &[b[b.len() - 1] ^ 0xff])?;
            }
            let c: g::Blob = client(b)?;
            same!("blob content type (client)", &*c.content_type, ct);
            same!("blob data (client)", &c.data[..], r.0);
        }
        CREATORS => {
            let want = creators_of(b);
            let v = got::<e::Creators>(d)?;
            let f = |c: &e::Creator| (c.address, <bool>::from(c.verified), c.share);
            same!("creators", v.values.iter().map(f).collect::<Vec<_>>(), want);
            for (a, ..) in &want {
                same!("creator by address", v.get(a).map(f), want.iter().find(|x| x.0 == *a).copied());
            }
            same!("creators length", v.length(), b.len());
            let mut m = Asset::get_mut::<e::CreatorsMut>(&mut w).ok_or("no mutable view")?;
            same!("creators (mut)", m.creators.iter().map(f).collect::<Vec<_>>(), want);
            for (a, ..) in &want {
                same!("creator by address (mut)", m.get(a).map(|c| f(c)), want.iter().find(|x| x.0 == *a).copied());
            }
            if let Some(z) = m.creators.last_mut() {
                z.share ^= 0x55;
                only(img, x, d, &mut w, b.len() - 1, &[b[b.len() - 1] ^ 0x55])?;
            }
            if b.chunks_exact(34).all(|c| c[32] < 2) {
                let c: g::Creators = client(b)?;
                same!("creators (client)", c.values.iter().map(|c| (c.address, c.verified, c.share)).collect::<Vec<_>>(), want);
                let j: Vec<_> = want
                    .iter()
                    .map(|(address, verified, share)| nifty_asset::JsonCreator { address: *address, verified: *verified, share: *share })
                    .collect();
                for (i, c) in j.iter().enumerate() {
                    same!("creator (json)", nifty_asset::JsonCreator::from_data(&b[34 * i..34 * i + 34]), *c);
                }
                same!("creators (json)", nifty_asset::ExtensionValue::JsonCreator(j).into_data(), b.to_vec());
            }
        }
        METADATA => {
            let mut r = Rd(b);
            let s = [r.s(), r.s(), r.s(), if r.more() { r.s() } else { "" }];
            let v = got::<e::Metadata>(d)?;
            same!("metadata", [v.symbol.as_str(), v.description.as_str(), v.uri.as_str(), v.image_uri.as_str()], s);
            let m = Asset::get_mut::<e::MetadataMut>(&mut w).ok_or("no mutable view")?;
            same!("metadata (mut)", [m.symbol.as_str(), m.description.as_str(), m.uri.as_str(), m.image_uri.as_str()], s);
            let full = s.iter().map(|s| s.len() + 1).sum::<usize>();
            if full == b.len() {
                same!("metadata length", v.length(), b.len());
                let c: g::Metadata = client(b)?;
                same!("metadata (client)", [&*c.symbol, &*c.description, &*c.uri, &*c.image_uri], s);
            } else {
                let j = nifty_asset::JsonMetadata { symbol: s[0].into(), description: s[1].into(), uri: s[2].into() };
                same!("metadata (json)", nifty_asset::ExtensionValue::JsonMetadata(j).into_data(), b.to_vec());
            }
        }
        GROUPING => {
            let want = (u64at(b, 0), u64at(b, 8), if b.len() == 48 { opt(key(&b[16..])) } else { None });
            let v = got::<e::Grouping>(d)?;
            same!(
                "grouping",
                (*v.size, v.max_size.value().map(|x| **x).unwrap_or(0), v.delegate.value().map(|x| **x)),
                want
            );
            let m = Asset::get_mut::<e::GroupingMut>(&mut w).ok_or("no mutable view")?;
            same!(
                "grouping (mut)",
                (*m.size, m.max_size.value().map(|x| **x).unwrap_or(0), m.delegate.value().map(|x| **x)),
                want
            );
            *m.size ^= 0x1_0000_0101;
            only(img, x, d, &mut w, 0, &(u64at(b, 0) ^ 0x1_0000_0101).to_le_bytes())?;
            if b.len() == 48 {
                same!("grouping length", v.length(), b.len());
                let c: g::Grouping = client(b)?;
                same!("grouping (client)", (c.size, c.max_size, c.delegate.to_option()), want);
            }
        }
        ROYALTIES => {
            let v = got::<e::Royalties>(d)?;
            same!("royalties", *v.basis_points, u64at(b, 0));
            same!("royalties length", v.length(), b.len());
            let (c, n) = parse_con(&b[8..]).unwrap();
            same!("constraint size", v.constraint.size(), n);
            same!("constraint bytes", v.constraint.as_bytes(), b[8..8 + n].to_vec());
            let m = Asset::get_mut::<e::RoyaltiesMut>(&mut w).ok_or("no mutable view")?;
            same!("royalties (mut)", *m.basis_points, u64at(b, 0));
            same!("constraint bytes (mut)", m.constraint.as_bytes(), b[8..8 + n].to_vec());
            *m.basis_points ^= 0xffff_0000_1234;
            drop(m);
            only(img, x, d, &mut w, 0, &(u64at(b, 0) ^ 0xffff_0000_1234).to_le_bytes())?;
            // lists of the file format: the items given, in order, negated for a list of exclusions
            let items = match &c {
                Con::KeyMatch(0, v) => Some((nifty_asset::RoyaltiesKind::Allowlist, v)),
                Con::Not(y) => match &**y {
                    Con::OwnedBy(0, v) => Some((nifty_asset::RoyaltiesKind::Denylist, v)),
                    _ => None,
                },
                _ => None,
            };
            if let Some((kind, v)) = items {
                let j = nifty_asset::JsonRoyalties { kind, basis_points: u64at(b, 0), items: v.clone() };
                same!("royalties (json)", nifty_asset::ExtensionValue::JsonRoyalities(j).into_data(), b[..8 + n].to_vec());
            }
            // the constraint means what it is documented to mean, for anybody
            let cast = crate::world::cast();
            for i in 0..6 {
                let who = |j: usize| {
                    let k = cast.all[(i * 7 + j * 5) % cast.all.len()];
                    let o = [solana_program::system_program::ID, MARKET_ID, MARKET2_ID, pid()][(i + j) % 4];
                    (k, o, (i + 2 * j) % 3 == 0)
                };
                let t = [who(0), who(1), who(2)];
                let tt = t.map(|(k, o, e)| Who(k, o, e));
                let cx = k::Context { asset: &tt[0], authority: &tt[1], recipient: Some(&tt[2]) };
                use k::Assertable;
                let got = v.constraint.assert(&cx).map_err(|e| format!("constraint cannot be evaluated: {e:?}"))?;
                same!("constraint outcome", got == k::Assertion::Pass, eval_con(&c, &t));
                // with nobody receiving, what turns on the recipient cannot be answered; the rest can
                let cx = k::Context { asset: &tt[0], authority: &tt[1], recipient: None };
                if let Ok(got) = v.constraint.assert(&cx) {
                    same!("constraint outcome without recipient", Some(got == k::Assertion::Pass), eval_some(&c, &t));
                }
            }
        }
        MANAGER => {
            let v = got::<e::Manager>(d)?;
            same!("manager", (*v.delegate.address, v.delegate.roles), (key(b), b[32]));
            same!("manager length", v.length(), b.len());
            let m = Asset::get_mut::<e::ManagerMut>(&mut w).ok_or("no mutable view")?;
            same!("manager (mut)", (*m.delegate.address, m.delegate.roles), (key(b), b[32]));
            m.delegate.roles ^= 7;
            only(img, x, d, &mut w, 32, &[b[32] ^ 7])?;
            let c: g::Manager = client(b)?;
            same!("manager (client)", c.delegate.address.to_option(), opt(key(b)));
            if b[32] < 8 {
                same!("manager roles (client)", roles(&c.delegate.roles.to_vec()), b[32]);
            }
        }
        PROXY => {
            let want = (key(b), b[32..64].to_vec(), b[64], key(&b[65..]));
            let v = got::<e::Proxy>(d)?;
            same!("proxy", (*v.program, v.seeds.to_vec(), *v.bump, v.authority.value().map(|x| **x).unwrap_or(ZERO)), want);
            same!("proxy length", v.length(), b.len());
            let m = Asset::get_mut::<e::ProxyMut>(&mut w).ok_or("no mutable view")?;
            same!("proxy (mut)", (*m.program, m.seeds.to_vec(), *m.bump, *m.authority), want);
            *m.bump ^= 0x0f;
            only(img, x, d, &mut w, 64, &[b[64] ^ 0x0f])?;
            let c: g::Proxy = client(b)?;
            same!("proxy (client)", (c.program, c.seeds.to_vec(), c.bump, c.authority.to_option().unwrap_or(ZERO)), want);
        }
        PROPERTIES => {
            let want = props(b);
            let v = got::<e::Properties>(d)?;
            let f = |p: &e::Property| (p.name.to_string(), format!("{:?}", p.value), p.size());
            let size = |p: &(String, P)| p.0.len() + 2 + match &p.1 {
                P::T(s) => s.len() + 1,
                P::N(_) => 8,
                P::B(_) => 1,
            };
            same!("number of properties", v.len(), want.len());
            for (p, q) in v.iter().map(f).zip(&want) {
                same!("property name", p.0, q.0);
                same!("property size", p.2, size(q));
            }
            same!("properties length", v.length(), b.len());
            let m = Asset::get_mut::<e::PropertiesMut>(&mut w).ok_or("no mutable view")?;
            same!("number of properties (mut)", m.len(), want.len());
            for (n, _) in &want {
                let first = &want.iter().find(|x| x.0 == *n).unwrap().1;
                // asked for as another type, there is no such property
                let is = |t: u8| matches!((first, t), (P::T(_), 0) | (P::N(_), 1) | (P::B(_), 2));
                same!("property as a text", v.get::<e::Text>(n).is_some(), is(0));
                same!("property as a number", v.get::<e::Number>(n).is_some(), is(1));
                same!("property as a boolean", v.get::<e::Boolean>(n).is_some(), is(2));
                same!("property as a text (mut)", m.get::<e::Text>(n).is_some(), is(0));
                same!("property as a number (mut)", m.get::<e::Number>(n).is_some(), is(1));
                same!("property as a boolean (mut)", m.get::<e::Boolean>(n).is_some(), is(2));
                match first {
                    P::T(s) => {
                        same!("text property", v.get::<e::Text>(n).map(|t| t.value.to_string()), Some(s.clone()));
                        same!("text property (mut)", m.get::<e::Text>(n).map(|t| t.value.to_string()), Some(s.clone()));
                    }
                    P::N(x) => {
                        same!("number property", v.get::<e::Number>(n).map(|t| u64::from_le_bytes(*t.value)), Some(*x));
                        let num = v.get::<e::Number>(n).unwrap();
                        let at: &u64 = num;
                        same!("alignment of a number property", std::hint::black_box(at as *const u64 as *const u8) as usize % std::mem::align_of::<u64>(), 0);
                        same!("number property", *at, *x);
                        same!("number property (mut)", m.get::<e::Number>(n).map(|t| u64::from_le_bytes(*t.value)), Some(*x));
                    }
                    P::B(x) => {
                        same!("boolean property", v.get::<e::Boolean>(n).map(|t| **t as u8), Some((*x != 0) as u8));
                        same!("boolean property", v.get::<e::Boolean>(n).map(|t| *t.value), Some(*x));
                        same!("boolean property (mut)", m.get::<e::Boolean>(n).map(|t| *t.value), Some(*x));
                    }
                }
            }
            same!("unknown property", v.get::<e::Text>("\u{1}no such name").is_some(), false);
            if let Some((n, _)) = want.get(b.len() % want.len().max(1)) {
                // forgetting one by name leaves the others, in order
                let mut m = m;
                m.remove(n);
                let left: Vec<_> = m.iter().map(|p| p.name.to_string()).collect();
                same!("properties left", left, want.iter().filter(|x| x.0 != *n).map(|x| x.0.clone()).collect::<Vec<_>>());
            }
        }
        BUCKET => {
            let v = got::<e::Bucket>(d)?;
            same!("bucket", v.data, b);
            same!("bucket length", v.length(), b.len());
            let m = Asset::get_mut::<e::BucketMut>(&mut w).ok_or("no mutable view")?;
            same!("bucket (mut)", &*m.data, b);
            if let Some(z) = m.data.first_mut() {
                *z ^= 0xff;
                only(img, x, d, &mut w, 0, &[b[0] ^ 0xff])?;
            }
            let c: g::Bucket = client(b)?;
            same!("bucket (client)", &c.data[..], b);
        }
        _ => {}
    }
    if w != untouched {
        return Err("taking a mutable view changed the account".into());
    }
    Ok(())
}

/// A write through a mutable view changed exactly the bytes meant; the copy is restored.
fn only(img: &Img, x: &X, d: &[u8], w: &mut Vec<u8>, at: usize, bytes: &[u8]) -> R {
    let i = img.exts.iter().position(|y| y.ty == x.ty).unwrap();
    let at = img.off(i) + EXT_LEN + at;
    let mut want = d.to_vec();
    want[at..at + bytes.len()].copy_from_slice(bytes);
    if *w != want {
        return Err("writing through the mutable view changed other bytes".into());
    }
    w.copy_from_slice(d);
    Ok(())
}

struct Who(Pubkey, Pubkey, bool);
impl k::Target for Who {
    fn key(&self) -> &Pubkey {
        &self.0
    }
    fn owner(&self) -> &Pubkey {
        &self.1
    }
    fn is_empty(&self) -> bool {
        self.2
    }
}

/// Well-formed but for booleans of other bytes than zero and one.
fn loose_booleans(b: &[u8]) -> bool {
    let mut d = b.to_vec();
    let mut o = 0;
    while o < d.len() {
        o += 1 + d[o] as usize;
        match d.get(o) {
            Some(0) => o += 2 + d.get(o + 1).copied().unwrap_or(0) as usize,
            Some(1) => o += 9,
            Some(2) if o + 1 < d.len() => {
                d[o + 1] &= 1;
                o += 2;
            }
            _ => return false,
        }
    }
    matches!(content(PROPERTIES, &d), Content::Ok)
}

enum P {
    T(String),
    N(u64),
    B(u8),
}
fn props(b: &[u8]) -> Vec<(String, P)> {
    let mut r = Rd(b);
    let mut v = vec![];
    while r.more() {
        let n = r.s().to_string();
        let p = match r.b(1)[0] {
            0 => P::T(r.s().into()),
            1 => P::N(u64at(r.b(8), 0)),
            _ => P::B(r.b(1)[0]),
        };
        v.push((n, p));
    }
    v
}

fn account_of(n: u64) -> k::Account {
    [k::Account::Asset, k::Account::Authority, k::Account::Recipient][n as usize]
}

struct Built(Vec<u8>);
impl k::ConstraintBuilder for Built {
    fn build(&mut self) -> Vec<u8> {
        std::mem::take(&mut self.0)
    }
}

/// `how`: a fresh builder, one that built something else before, or one that was set before.
fn con_builder(c: &Con, how: u64) -> Vec<u8> {
    use k::ConstraintBuilder;
    let next = how / 3 + 7;
    let old = [Pubkey::new_from_array([77; 32])];
    match c {
        Con::And(v) => {
            let mut b = k::AndBuilder::default();
            if how % 3 == 1 {
                b.add(&mut k::EmptyBuilder::default());
                b.build();
            }
            for x in v {
                b.add(&mut Built(con_builder(x, next)));
            }
            b.build()
        }
        Con::Or(v) => {
            let mut b = k::OrBuilder::default();
            if how % 3 == 1 {
                b.build();
            }
            for x in v {
                b.add(&mut Built(con_builder(x, next)));
            }
            b.build()
        }
        Con::Not(x) => {
            let mut b = k::NotBuilder::default();
            if how % 3 > 0 {
                b.set(&mut k::EmptyBuilder::default());
            }
            if how % 3 == 1 {
                b.build();
            }
            b.set(&mut Built(con_builder(x, next)));
            b.build()
        }
        Con::OwnedBy(a, v) => {
            let mut b = k::OwnedByBuilder::default();
            if how % 3 > 0 {
                b.set(k::Account::Recipient, &old);
            }
            if how % 3 == 1 {
                b.build();
            }
            b.set(account_of(*a), v);
            b.build()
        }
        Con::KeyMatch(a, v) => {
            let mut b = k::PubkeyMatchBuilder::default();
            if how % 3 > 0 {
                b.set(k::Account::Recipient, &old);
            }
            if how % 3 == 1 {
                b.build();
            }
            b.set(account_of(*a), v);
            b.build()
        }
        Con::Empty => {
            let mut b = k::EmptyBuilder::default();
            if how % 3 == 1 {
                b.build();
            }
            b.build()
        }
    }
}

/// What a builder shows before it hands its bytes over.
fn shown<'a, T: ExtensionData<'a>>(bytes: &[u8], built: T) -> Result<(), String> {
    let n = bytes.len();
    if built.length() != n {
        return Err(format!("the built value covers {} of {n} bytes", built.length()));
    }
    Ok(())
}

/// The shipped builder, given what the bytes mean, produces the same bytes, however it was made
/// and whatever it built before.
fn builder(x: &X) -> R {
    let b = &x.data[..];
    let h = b.iter().fold(x.ty as u64, |h, c| (h ^ *c as u64).wrapping_mul(0x100000001b3)) >> 9;
    let again = h % 4 == 0;
    let mut r = Rd(b);
    macro_rules! mk {
        ($t:ident) => {
            match h % 3 {
                0 => e::$t::with_buffer(vec![0xa5u8; 40]),
                1 => e::$t::with_capacity(h as usize % 100),
                _ => e::$t::default(),
            }
        };
    }
    macro_rules! done {
        ($k:expr) => {{
            same!("bytes shown by the builder", head(&$k), head(b));
            shown(&$k, $k.build())?;
            $k.data()
        }};
    }
    let got = match x.ty {
        ATTRIBUTES => {
            let mut k = mk!(AttributesBuilder);
            if again {
                k.add("other", "thing");
                k.data();
            }
            while r.more() {
                k.add(r.s(), r.s());
            }
            done!(k)
        }
        LINKS => {
            let mut k = mk!(LinksBuilder);
            if again {
                k.add("other", "thing");
                k.data();
            }
            while r.more() {
                k.add(r.s(), r.s());
            }
            done!(k)
        }
        BLOB => {
            let mut k = mk!(BlobBuilder);
            if again {
                k.set_data("image/other", &[1, 2, 3]);
            }
            k.set_data(r.s(), r.0);
            done!(k)
        }
        CREATORS => {
            let mut k = mk!(CreatorsBuilder);
            if again {
                k.add(&pid(), true, 100);
                k.data();
            }
            for (a, v, s) in creators_of(b) {
                k.add(&a, v, s);
            }
            if b.chunks_exact(34).any(|c| c[32] > 1) {
                return Ok(());
            }
            done!(k)
        }
        METADATA => {
            let s = [r.s(), r.s(), r.s(), if r.more() { r.s() } else { return Ok(()) }];
            let mut k = mk!(MetadataBuilder);
            if again {
                k.set(Some("old"), Some("older"), None, Some("oldest"));
            }
            let f = |t: &'_ str| -> bool { t.is_empty() };
            k.set(
                if f(s[0]) { None } else { Some(s[0]) },
                if f(s[1]) { None } else { Some(s[1]) },
                if f(s[2]) { None } else { Some(s[2]) },
                if f(s[3]) { None } else { Some(s[3]) },
            );
            done!(k)
        }
        GROUPING => {
            if b.len() != 48 {
                return Ok(());
            }
            let mut k = if h % 2 == 0 { e::GroupingBuilder::with_buffer(vec![0xa5; 40]) } else { e::GroupingBuilder::default() };
            if again {
                k.set(Some(3), Some(&pid()));
            }
            let (max, del) = (u64at(b, 8), key(&b[16..]));
            if max > 0 || del != ZERO || h % 2 == 0 || again {
                k.set((max > 0).then_some(max), opt(del).as_ref());
            }
            shown(&k, k.build())?;
            let mut v = k.data();
            same!("size of a new group", v[..8].to_vec(), vec![0; 8]);
            v[..8].copy_from_slice(&b[..8]);
            v
        }
        ROYALTIES => {
            let (c, _) = parse_con(&b[8..]).unwrap();
            let mut k = mk!(RoyaltiesBuilder);
            if again {
                k.set(7, &mut k::EmptyBuilder::default());
            }
            k.set(u64at(b, 0), &mut Built(con_builder(&c, h)));
            done!(k)
        }
        MANAGER => {
            let mut k = mk!(ManagerBuilder);
            if again {
                k.set(&Delegate { address: pid().into(), roles: 5 });
            }
            k.set(&Delegate { address: key(b).into(), roles: b[32] });
            same!("bytes shown by the builder", head(&k), head(b));
            shown(&k, e::ManagerBuilder::build(&k))?;
            if h % 2 == 0 {
                shown(&k, <e::ManagerBuilder as e::ExtensionBuilder<e::Manager>>::build(&k))?;
                <e::ManagerBuilder as e::ExtensionBuilder<e::Manager>>::data(&mut k)
            } else {
                e::ManagerBuilder::data(&mut k)
            }
        }
        PROXY => {
            let mut k = mk!(ProxyBuilder);
            if again {
                k.set(&pid(), &[3; 32], 9, Some(&pid()));
            }
            k.set(&key(b), b[32..64].try_into().unwrap(), b[64], opt(key(&b[65..])).as_ref());
            same!("bytes shown by the builder", head(&k), head(b));
            shown(&k, e::ProxyBuilder::build(&k))?;
            if h % 2 == 0 {
                shown(&k, <e::ProxyBuilder as e::ExtensionBuilder<e::Proxy>>::build(&k))?;
                <e::ProxyBuilder as e::ExtensionBuilder<e::Proxy>>::data(&mut k)
            } else {
                e::ProxyBuilder::data(&mut k)
            }
        }
        PROPERTIES => {
            let mut k = mk!(PropertiesBuilder);
            if again {
                k.add("other", 7);
                k.data();
            }
            #[allow(deprecated)]
            for (i, (n, p)) in props(b).into_iter().enumerate() {
                let old = (h >> i) & 1 == 1;
                match p {
                    P::T(s) if old => k.add_text(&n, s.as_str()),
                    P::N(x) if old => k.add_number(&n, x),
                    P::B(x) if old => k.add_boolean(&n, x == 1),
                    P::T(s) if h % 5 == 0 => k.add(&n, s),
                    P::T(s) => k.add(&n, s.as_str()),
                    P::N(x) => k.add(&n, x),
                    P::B(x) => k.add(&n, x == 1),
                };
            }
            done!(k)
        }
        BUCKET => {
            let mut k = mk!(BucketBuilder);
            if again {
                k.set_data(&[9; 5]);
            }
            k.set_data(b);
            done!(k)
        }
        _ => return Ok(()),
    };
    if got != b {
        return Err(format!("built {} bytes {:?}, documented {} bytes {:?}", got.len(), head(&got), b.len(), head(b)));
    }
    Ok(())
}

/// A blob named by a file of the asset description.
pub fn blob_file(seed: u64, out: &mut Vec<Viol>) {
    let mut r = crate::gen::Rng::new(seed);
    let path = std::env::temp_dir().join(format!("nifty-dst-blob-{}", std::process::id()));
    let n = r.below(400);
    let data = r.bytes(n);
    let ct = String::from_utf8(crate::gen::word(&mut r, 30)).unwrap();
    if std::fs::write(&path, &data).is_err() {
        return;
    }
    guarded(out, C20, "blob from a file", || {
        let j = nifty_asset::JsonBlob { content_type: ct.clone(), path: path.to_str().unwrap().into() };
        let mut want = vec![ct.len() as u8];
        want.extend(ct.as_bytes());
        want.extend(&data);
        let file = nifty_asset::AssetFile {
            name: ct.clone(),
            standard: g::Standard::Managed,
            mutable: n % 2 == 0,
            extensions: vec![nifty_asset::JsonExtension {
                extension_type: g::ExtensionType::Blob,
                value: nifty_asset::ExtensionValue::JsonBlob(j.clone()),
            }],
            owner: pid(),
            asset_keypair_path: None,
        };
        let text = serde_json::to_string(&file).map_err(|e| e.to_string())?;
        let back: nifty_asset::AssetFile = serde_json::from_str(&text).map_err(|e| e.to_string())?;
        same!("asset description through json", back, file);
        same!("blob (json)", nifty_asset::ExtensionValue::JsonBlob(j).into_data(), want);
        Ok(())
    });
    let _ = std::fs::remove_file(&path);
}

/// Codes of the enumerations, documented in the account layout.
pub fn codes(out: &mut Vec<Viol>) {
    guarded(out, C20, "codes", || {
        use nifty_asset_types::extensions::Type;
        for n in 0..4u8 {
            same!("standard", u8::from(Standard::from(n)), n);
            same!("delegate role", u8::from(DelegateRole::from(n)), n);
            same!("delegate role", DelegateRole::from(n).mask(), [0, R_TRANSFER, R_LOCK, R_BURN][n as usize]);
        }
        let s = [Standard::NonFungible, Standard::Managed, Standard::Soulbound, Standard::Proxied].map(u8::from);
        same!("standards", s, [0, 1, 2, 3]);
        let s = [DelegateRole::None, DelegateRole::Transfer, DelegateRole::Lock, DelegateRole::Burn].map(u8::from);
        same!("delegate roles", s, [0, 1, 2, 3]);
        same!("states", [State::Unlocked, State::Locked].map(u8::from), [0, 1]);
        same!("states", [0u8, 1].map(State::from), [State::Unlocked, State::Locked]);
        same!("discriminators", [Discriminator::Uninitialized, Discriminator::Asset].map(u8::from), [0, 1]);
        same!("discriminators", [0u8, 1].map(Discriminator::from), [Discriminator::Uninitialized, Discriminator::Asset]);
        same!("property types", [Type::Text, Type::Number, Type::Boolean].map(u8::from), [0, 1, 2]);
        same!("property types", [0u8, 1, 2].map(|n| u8::from(Type::from(n))), [0, 1, 2]);
        for (n, t) in [k::Account::Asset, k::Account::Authority, k::Account::Recipient].into_iter().zip(["asset", "authority", "recipient"]) {
            same!("account name", n.to_string(), t);
            same!("account name", k::Account::from(t) as u64, n as u64);
        }
        let mut o = [0u8; 8];
        k::Operator::load_mut(&mut o).set_operator_type(k::OperatorType::PubkeyMatch);
        k::Operator::load_mut(&mut o).set_size(77);
        same!("operator header", o, [4, 0, 0, 0, 77, 0, 0, 0]);
        for t in 0..12u32 {
            same!("extension type", ExtensionType::try_from(t).ok(), Some(ety(t)));
            same!("extension type", u32::from(ety(t)), t);
            same!("client extension type", crate::enc::client::ety(t) as u32, t);
        }
        same!("unknown extension type", ExtensionType::try_from(12).is_err(), true);
        use k::OperatorType::*;
        for (n, o) in [And, Not, Or, OwnedBy, PubkeyMatch, Empty].into_iter().enumerate() {
            same!("operator", u32::from(o), n as u32);
            same!("operator", k::OperatorType::from(n as u32), o);
        }
        for m in 0..8u8 {
            for (r, bit) in [(DelegateRole::Transfer, R_TRANSFER), (DelegateRole::Lock, R_LOCK), (DelegateRole::Burn, R_BURN)] {
                let mut d = Delegate { address: pid().into(), roles: m };
                d.enable(r);
                same!("enabled role", d.roles, m | bit);
                d.disable(r);
                same!("disabled role", d.roles, m & !bit);
                same!("roles", roles(&Delegate::decode_roles(m)), m);
            }
        }
        Ok(())
    });
}

fn head(d: &[u8]) -> &[u8] {
    &d[..d.len().min(48)]
}

/// Account handles for cross-program calls, one per key, for as long as `f` runs.
fn handles<T>(keys: &[Pubkey], f: impl for<'a> FnOnce(&[AccountInfo<'a>]) -> T) -> T {
    let mut uniq: Vec<Pubkey> = vec![];
    for k in keys {
        if !uniq.contains(k) {
            uniq.push(*k);
        }
    }
    let mut lamports = vec![1u64; uniq.len()];
    let owner = solana_program::system_program::ID;
    let v: Vec<AccountInfo> = uniq
        .iter()
        .zip(lamports.iter_mut())
        .map(|(k, l)| AccountInfo::new(k, true, true, l, &mut [], &owner, false, 0))
        .collect();
    f(&v)
}

/// What a cross-program builder requested, against the documented request.
fn requested(n: &str, calls: Vec<Call>, panicked: bool, want: &Ix, seeds: usize) -> R {
    if panicked {
        return Err(format!("{n}: panicked"));
    }
    if calls.len() != 1 {
        return Err(format!("{n}: {} calls requested", calls.len()));
    }
    let (ix, given, groups) = &calls[0];
    agree_ix(n, ix, want)?;
    if let Some(x) = want.metas.iter().find(|x| x.key != ix.program && !given.contains(&x.key)) {
        return Err(format!("{n}: account {} is not handed over", crate::world::label(&x.key)));
    }
    if *groups != seeds {
        return Err(format!("{n}: {groups} signing groups instead of {seeds}"));
    }
    Ok(())
}

/// Two accounts a caller appends, with every combination of marks over time.
fn appended(n: u64) -> Vec<Meta> {
    let k = |i: u8| Pubkey::new_from_array([200 + i; 32]);
    (0..(n % 3) as u8).map(|i| crate::rt::m(k(i), n >> (3 + 2 * i) & 1 == 1, n >> (4 + 2 * i) & 1 == 1)).collect()
}

fn digest(ix: &Ix) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in ix.data.iter().chain(ix.metas.iter().flat_map(|x| x.key.as_ref().iter())) {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h >> 7
}

const SEEDS: &[&[&[u8]]] = &[&[b"a"], &[b"b", &[7]]];

/// The remaining accounts of a cross-program builder: documented as (account, writable, signer).
fn marks(n: &str, calls: &mut [Call], base: usize, want: &[Meta]) -> R {
    let Some((ix, _, _)) = calls.first_mut() else { return Ok(()) };
    if ix.metas.len() != base + want.len() || want.is_empty() {
        return Ok(());
    }
    let got = ix.metas[base..].to_vec();
    let swapped: Vec<Meta> = want.iter().map(|x| crate::rt::m(x.key, x.writable, x.signer)).collect();
    if got != want && got == swapped {
        ix.metas[base..].clone_from_slice(want);
        return Err(format!("{n}: the (writable, signer) marks of a remaining account arrive as (signer, writable)"));
    }
    Ok(())
}

/// One request through every builder of the client and interface crates.
pub fn request_builders(q: &Req, out: &mut Vec<Viol>) {
    use solana_program::instruction::AccountMeta;
    let base = enc::raw(q);
    let h = digest(&base);
    let extra = appended(h);
    let plain: Vec<AccountMeta> = extra
        .iter()
        .map(|x| AccountMeta { pubkey: x.key, is_signer: x.signer, is_writable: x.writable })
        .collect();
    let lazy = h >> 9 & 1 == 1;
    let seeds = &SEEDS[..(h >> 10) as usize % 3];
    let with = |mut ix: Ix| {
        ix.metas.extend(extra.iter().copied());
        ix
    };
    let (client, iface) = (with(base.clone()), with(enc::raw_iface(q)));
    let op = OPS[q.op as usize];
    guarded(out, C19, "client builder", || agree_ix(op, &enc::client::build(q, &plain, lazy), &client));
    guarded(out, C19, "client accounts", || agree_ix(op, &enc::client::direct(q, &plain), &client));
    guarded(out, C19, "interface builder", || agree_ix(op, &enc::iface::build(q, &plain, lazy), &iface));
    guarded(out, C19, "interface accounts", || agree_ix(op, &enc::iface::direct(q, &plain), &iface));
    let mut keys: Vec<Pubkey> = q.accts.iter().flatten().copied().collect();
    keys.extend(extra.iter().map(|x| x.key));
    keys.push(crate::spec::pid());
    let n = base.metas.len();
    handles(&keys, |infos| {
        let program = find(infos, &crate::spec::pid());
        let pairs: Vec<_> = extra.iter().map(|x| (find(infos, &x.key), x.writable, x.signer)).collect();
        for (name, want, calls) in [
            ("client cross-program builder", &client, capture(|| enc::client::cpi(q, program, infos, seeds, &pairs, lazy))),
            ("client cross-program accounts", &client, capture(|| enc::client::cpi_direct(q, program, infos, seeds, &pairs))),
            ("interface cross-program builder", &iface, capture(|| enc::iface::cpi(q, program, infos, seeds, &pairs, lazy))),
            ("interface cross-program accounts", &iface, capture(|| enc::iface::cpi_direct(q, program, infos, seeds, &pairs))),
        ] {
            judge_call(name, op, calls, n, &extra, want, seeds.len(), out);
        }
    });
}

fn find<'a, 'b>(infos: &'b [AccountInfo<'a>], k: &Pubkey) -> &'b AccountInfo<'a> {
    infos.iter().find(|i| i.key == k).expect("handle")
}

#[allow(clippy::too_many_arguments)]
fn judge_call(
    name: &str,
    op: &str,
    got: (Vec<Call>, Option<solana_program::entrypoint::ProgramResult>),
    n: usize,
    extra: &[Meta],
    want: &Ix,
    seeds: usize,
    out: &mut Vec<Viol>,
) {
    let (mut calls, r) = got;
    let m = marks("cross-program builders", &mut calls, n, extra);
    guarded(out, C19, "libraries", || m);
    guarded(out, C19, name, || requested(op, calls, !matches!(r, Some(Ok(()))), want, seeds));
}

/// The interface's own enumeration of requests agrees with the wire format.
pub fn interface_enum(data: &[u8], out: &mut Vec<Viol>) {
    guarded(out, C19, "interface enumeration", || {
        let x = nifty_asset_interface::Interface::try_from_slice(data)
            .map_err(|e| format!("cannot read {} {:?}: {e}", OPS[data[0] as usize], head(data)))?;
        let mut v = vec![];
        x.serialize(&mut v).map_err(|e| e.to_string())?;
        same!(format!("{}", OPS[data[0] as usize]), v, data.to_vec());
        Ok(())
    });
}

crate::enc::finish!(bx: Create CreateBuilder CreateCpi CreateCpiBuilder, Bridge BridgeBuilder BridgeCpi BridgeCpiBuilder);

pub fn bridge_create_builders(ix: &Ix, coll: Option<Pubkey>, is_collection: bool, out: &mut Vec<Viol>) {
    guarded(out, C19, "bridge create builder", || {
        let k = |i: usize| ix.metas[i].key;
        let direct = nifty_bridge::instructions::Create {
            asset: k(0),
            vault: k(1),
            mint: k(2),
            metadata: k(3),
            update_authority: (k(4), ix.metas[4].signer),
            collection: coll,
            payer: k(6),
            system_program: k(7),
            nifty_asset_program: k(8),
        }
        .instruction(nifty_bridge::instructions::CreateInstructionArgs { is_collection });
        agree("accounts", &direct, ix)?;
        let built = nifty_bridge::instructions::CreateBuilder::new()
            .asset(k(0))
            .vault(k(1))
            .mint(k(2))
            .metadata(k(3))
            .update_authority(k(4), ix.metas[4].signer)
            .collection(coll)
            .payer(k(6))
            .nifty_asset_program(k(8))
            .is_collection(is_collection)
            .finish(&[]);
        agree("builder", &built, ix)?;
        let mut lazy = nifty_bridge::instructions::CreateBuilder::new();
        lazy.asset(k(0)).vault(k(1)).mint(k(2)).metadata(k(3)).update_authority(k(4), ix.metas[4].signer);
        lazy.collection(coll).payer(k(6)).is_collection(is_collection);
        agree("builder with defaults", &lazy.instruction(), ix)
    });
    let h = digest(ix);
    let extra = appended(h);
    let seeds = &SEEDS[..(h >> 10) as usize % 3];
    let mut want = ix.clone();
    want.metas.extend(extra.iter().copied());
    let keys: Vec<Pubkey> = want.metas.iter().map(|x| x.key).chain([bridge_program::ID]).collect();
    handles(&keys, |infos| {
        use nifty_bridge::instructions as b;
        let program = find(infos, &bridge_program::ID);
        let pairs: Vec<_> = extra.iter().map(|x| (find(infos, &x.key), x.writable, x.signer)).collect();
        let a = |i: usize| find(infos, &ix.metas[i].key);
        let coll = coll.map(|c| find(infos, &c));
        let sign = ix.metas[4].signer;
        let built = capture(|| {
            b::CreateCpiBuilder::new(program)
                .asset(a(0))
                .vault(a(1))
                .mint(a(2))
                .metadata(a(3))
                .update_authority(a(4), sign)
                .collection(coll)
                .payer(a(6))
                .system_program(a(7))
                .nifty_asset_program(a(8))
                .is_collection(is_collection)
                .finish_cpi(seeds, &pairs)
        });
        judge_call("bridge create cross-program builder", "create", built, ix.metas.len(), &extra, &want, seeds.len(), out);
        let plain = capture(|| {
            b::CreateCpi::new(
                program,
                b::CreateCpiAccounts {
                    asset: a(0),
                    vault: a(1),
                    mint: a(2),
                    metadata: a(3),
                    update_authority: (a(4), sign),
                    collection: coll,
                    payer: a(6),
                    system_program: a(7),
                    nifty_asset_program: a(8),
                },
                b::CreateInstructionArgs { is_collection },
            )
            .finish_cpi(seeds, &pairs)
        });
        judge_call("bridge create cross-program accounts", "create", plain, ix.metas.len(), &extra, &want, seeds.len(), out);
    });
}

fn agree(n: &str, got: &solana_program::instruction::Instruction, want: &Ix) -> R {
    agree_ix(n, &got.into(), want)
}

fn agree_ix(n: &str, got: &Ix, want: &Ix) -> R {
    if got != want {
        return Err(format!(
            "{n}: {} {:?}, documented {} {:?}",
            crate::world::metas(&got.metas),
            head(&got.data),
            crate::world::metas(&want.metas),
            head(&want.data)
        ));
    }
    Ok(())
}

pub fn bridge_builders(ix: &Ix, out: &mut Vec<Viol>) {
    guarded(out, C19, "bridge builder", || {
        let k = |i: usize| ix.metas[i].key;
        let o = |i: usize| (k(i) != bridge_program::ID).then(|| k(i));
        let direct = nifty_bridge::instructions::Bridge {
            asset: k(0),
            vault: k(1),
            owner: k(2),
            token: k(3),
            mint: k(4),
            metadata: k(5),
            master_edition: k(6),
            token_record: o(7),
            vault_token: k(8),
            vault_token_record: o(9),
            payer: k(10),
            nifty_asset_program: k(11),
            token_metadata_program: k(12),
            system_program: k(13),
            sysvar_instructions: k(14),
            spl_token_program: k(15),
            spl_ata_program: k(16),
            authorization_rules_program: o(17),
            authorization_rules: o(18),
            group_asset: o(19),
        }
        .instruction();
        agree("accounts", &direct, ix)?;
        let built = nifty_bridge::instructions::BridgeBuilder::new()
            .asset(k(0))
            .vault(k(1))
            .owner(k(2))
            .token(k(3))
            .mint(k(4))
            .metadata(k(5))
            .master_edition(k(6))
            .token_record(o(7))
            .vault_token(k(8))
            .vault_token_record(o(9))
            .payer(k(10))
            .authorization_rules_program(o(17))
            .authorization_rules(o(18))
            .group_asset(o(19))
            .instruction();
        agree("builder with defaults", &built, ix)?;
        let built = nifty_bridge::instructions::BridgeBuilder::new()
            .asset(k(0))
            .vault(k(1))
            .owner(k(2))
            .token(k(3))
            .mint(k(4))
            .metadata(k(5))
            .master_edition(k(6))
            .token_record(o(7))
            .vault_token(k(8))
            .vault_token_record(o(9))
            .payer(k(10))
            .nifty_asset_program(k(11))
            .token_metadata_program(k(12))
            .system_program(k(13))
            .sysvar_instructions(k(14))
            .spl_token_program(k(15))
            .spl_ata_program(k(16))
            .authorization_rules_program(o(17))
            .authorization_rules(o(18))
            .group_asset(o(19))
            .instruction();
        agree("builder", &built, ix)
    });
    let h = digest(ix);
    let extra = appended(h);
    let seeds = &SEEDS[..(h >> 10) as usize % 3];
    let mut want = ix.clone();
    want.metas.extend(extra.iter().copied());
    let keys: Vec<Pubkey> = want.metas.iter().map(|x| x.key).chain([bridge_program::ID]).collect();
    handles(&keys, |infos| {
        use nifty_bridge::instructions as b;
        let program = find(infos, &bridge_program::ID);
        let pairs: Vec<_> = extra.iter().map(|x| (find(infos, &x.key), x.writable, x.signer)).collect();
        let a = |i: usize| find(infos, &ix.metas[i].key);
        let o = |i: usize| (ix.metas[i].key != bridge_program::ID).then(|| a(i));
        let built = capture(|| {
            b::BridgeCpiBuilder::new(program)
                .asset(a(0))
                .vault(a(1))
                .owner(a(2))
                .token(a(3))
                .mint(a(4))
                .metadata(a(5))
                .master_edition(a(6))
                .token_record(o(7))
                .vault_token(a(8))
                .vault_token_record(o(9))
                .payer(a(10))
                .nifty_asset_program(a(11))
                .token_metadata_program(a(12))
                .system_program(a(13))
                .sysvar_instructions(a(14))
                .spl_token_program(a(15))
                .spl_ata_program(a(16))
                .authorization_rules_program(o(17))
                .authorization_rules(o(18))
                .group_asset(o(19))
                .finish_cpi(seeds, &pairs)
        });
        judge_call("bridge cross-program builder", "bridge", built, ix.metas.len(), &extra, &want, seeds.len(), out);
        let plain = capture(|| {
            b::BridgeCpi::new(
                program,
                b::BridgeCpiAccounts {
                    asset: a(0),
                    vault: a(1),
                    owner: a(2),
                    token: a(3),
                    mint: a(4),
                    metadata: a(5),
                    master_edition: a(6),
                    token_record: o(7),
                    vault_token: a(8),
                    vault_token_record: o(9),
                    payer: a(10),
                    nifty_asset_program: a(11),
                    token_metadata_program: a(12),
                    system_program: a(13),
                    sysvar_instructions: a(14),
                    spl_token_program: a(15),
                    spl_ata_program: a(16),
                    authorization_rules_program: o(17),
                    authorization_rules: o(18),
                    group_asset: o(19),
                },
            )
            .finish_cpi(seeds, &pairs)
        });
        judge_call("bridge cross-program accounts", "bridge", plain, ix.metas.len(), &extra, &want, seeds.len(), out);
    });
}

/// The outcome of a constraint when there is no recipient: `None` when it depends on one.
fn eval_some(c: &Con, t: &[(Pubkey, Pubkey, bool); 3]) -> Option<bool> {
    let all = |v: &[Con], stop: bool| {
        let w: Vec<_> = v.iter().map(|c| eval_some(c, t)).collect();
        if w.contains(&Some(stop)) {
            Some(stop)
        } else if w.contains(&None) {
            None
        } else {
            Some(!stop)
        }
    };
    match c {
        Con::And(v) => all(v, false),
        Con::Or(v) => all(v, true),
        Con::Not(c) => eval_some(c, t).map(|x| !x),
        Con::OwnedBy(2, _) | Con::KeyMatch(2, _) => None,
        _ => Some(eval_con(c, t)),
    }
}
