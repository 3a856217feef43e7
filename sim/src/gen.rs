//! Seeded randomness and the payloads of the simulated clients.

use crate::spec::*;
use solana_program::pubkey::Pubkey;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        let mut r = Rng(s ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.next() % 100 < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    /// Index drawn with the given weights.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let t: u64 = w.iter().map(|x| *x as u64).sum();
        if t == 0 {
            return self.below(w.len());
        }
        let mut n = self.next() % t;
        for (i, x) in w.iter().enumerate() {
            if n < *x as u64 {
                return i;
            }
            n -= *x as u64;
        }
        0
    }
}

/// A word, now and then as long as its length byte can say.
fn long(r: &mut Rng, max: usize) -> Vec<u8> {
    if !r.chance(5) {
        return word(r, max);
    }
    let n = *r.pick(&[127, 128, 200, 254, 255]);
    let mut v = word(r, n);
    if r.chance(60) {
        v.resize_with(n.max(v.len()), || b'a' + r.below(26) as u8);
    }
    v
}

pub fn word(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = match r.below(10) {
        0 => 0,
        1 => max,
        _ => r.below(max.min(24) + 1),
    };
    if r.chance(12) {
        // letters of one to four bytes, never more than `n` bytes and always whole
        let mut o = String::new();
        while o.len() < n {
            let c = *r.pick(&['z', 'é', 'ß', '語', '€', '🦀']);
            if o.len() + c.len_utf8() > n {
                break;
            }
            o.push(c);
        }
        return o.into_bytes();
    }
    if r.chance(6) {
        // space at the ends, capitals, digits, marks
        return (0..n).map(|_| *r.pick(b"  aA09-_.\"\\/\t\n")).collect();
    }
    (0..n).map(|_| b'a' + r.below(26) as u8).collect()
}
fn put(o: &mut Vec<u8>, s: &[u8]) {
    o.push(s.len() as u8);
    o.extend(s);
}

/// A constraint tree over the keys of the world.
pub fn con(r: &mut Rng, keys: &[Pubkey], owners: &[Pubkey], depth: usize, big: bool, heavy: bool) -> Vec<u8> {
    let op = if depth == 0 { 3 + r.below(3) } else { r.below(6) };
    let body: Vec<u8> = match op {
        0 | 2 => {
            let n = if big && r.chance(40) { 3 + r.below(7) } else { r.below(4) };
            (0..n).flat_map(|_| con(r, keys, owners, depth - 1, big && n < 4, false)).collect()
        }
        1 => con(r, keys, owners, depth - 1, big, heavy),
        3 | 4 => {
            let mut b = (r.below(3) as u64).to_le_bytes().to_vec();
            let n = if heavy && r.chance(50) {
                100 + r.below(180)
            } else if big && r.chance(60) {
                3 + r.below(26)
            } else {
                r.below(4)
            };
            for _ in 0..n {
                let k = if n > 4 && r.chance(70) {
                    // nobody's
                    Pubkey::new_from_array(r.bytes(32).try_into().unwrap())
                } else if op == 3 {
                    *r.pick(owners)
                } else {
                    *r.pick(keys)
                };
                b.extend(k.as_ref());
            }
            b
        }
        _ => vec![],
    };
    let mut o = (op as u32).to_le_bytes().to_vec();
    o.extend((body.len() as u32).to_le_bytes());
    o.extend(body);
    o
}

/// Close to as much as one request can bring.
fn full(r: &mut Rng, most: bool) -> usize {
    if most {
        9700 + r.below(450)
    } else if r.chance(50) {
        8500 + r.below(1200)
    } else {
        3000 + r.below(6500)
    }
}

pub struct Pool<'a> {
    pub keys: &'a [Pubkey],
    pub owners: &'a [Pubkey],
    /// 1: long lists, 2: much data
    pub big: u8,
}

/// Well-formed contents of an extension.
pub fn payload(r: &mut Rng, ty: u32, p: &Pool, prefer: Option<Pubkey>) -> Vec<u8> {
    let mut o = vec![];
    let most = p.big == 9;
    let big = most || p.big > 0 && r.chance(70);
    let heavy = most || p.big == 2 && big;
    match ty {
        ATTRIBUTES | LINKS => {
            let goal = if heavy { full(r, most) } else { 0 };
            while o.len() < goal {
                let n = r.below(256).min(goal - o.len());
                put(&mut o, &long(r, 40));
                put(&mut o, &vec![b'v'; n]);
            }
            o.truncate(if o.len() > 10_200 { 0 } else { o.len() });
            for _ in 0..if big { r.below(24) } else { r.below(4) } * (goal == 0) as usize {
                put(&mut o, &long(r, 40));
                put(&mut o, &long(r, 60));
            }
        }
        BLOB => {
            put(&mut o, &word(r, 20));
            let n = match r.below(8) {
                0 => 0,
                _ if heavy => full(r, most),
                1 => 1000 + r.below(2600),
                _ => r.below(300),
            };
            o.extend(r.bytes(n));
        }
        CREATORS => {
            let n = if heavy {
                full(r, most) / 34
            } else if big {
                4 + r.below(30)
            } else {
                1 + r.below(4)
            };
            let mut left = 100u32;
            let mut used: Vec<Pubkey> = vec![];
            for i in 0..n {
                let mut k = *r.pick(p.keys);
                if i == 0 && r.chance(60) {
                    k = prefer.unwrap_or(k);
                }
                if used.contains(&k) && !r.chance(15) {
                    k = *r.pick(p.keys);
                }
                if n > 4 && r.chance(70) {
                    k = Pubkey::new_from_array(r.bytes(32).try_into().unwrap());
                }
                used.push(k);
                let s = if i + 1 == n { left } else { r.below(left as usize + 1) as u32 };
                left -= s;
                o.extend(k.as_ref());
                o.push(r.chance(30) as u8);
                o.push(s as u8);
            }
        }
        METADATA => {
            for i in 0..4 {
                if i < 3 || r.chance(70) {
                    put(&mut o, &long(r, 80));
                }
            }
        }
        GROUPING => {
            o.extend(0u64.to_le_bytes());
            let max = match r.below(4) {
                _ if r.chance(12) => *r.pick(&[
                    16, 31, 255, 256, 257, 300, 65_535, 65_536, 65_537, u32::MAX as u64, 1 << 32, (1 << 32) + 1, 1 << 63, u64::MAX,
                ]),
                0 => 0,
                1 => 1,
                2 => 2,
                _ => r.below(6) as u64,
            };
            o.extend(max.to_le_bytes());
            if r.chance(75) {
                let k = if r.chance(60) { *r.pick(p.keys) } else { ZERO };
                o.extend(k.as_ref());
            }
        }
        ROYALTIES => {
            o.extend((if r.chance(12) { 10000 } else { r.below(10001) } as u64).to_le_bytes());
            if most {
                o.extend([4u32.to_le_bytes(), (8 + 32 * 296u32).to_le_bytes()].concat());
                o.extend(2u64.to_le_bytes());
                for i in 0..296 {
                    let k = if i % 40 == 39 { r.pick(p.keys).to_bytes().to_vec() } else { r.bytes(32) };
                    o.extend(k);
                }
                return o;
            }
            let d = if big { r.below(6) } else { r.below(3) };
            o.extend(con(r, p.keys, p.owners, d, big, heavy));
        }
        MANAGER => {
            o.extend(r.pick(p.keys).as_ref());
            o.push(if r.chance(50) { 7 } else { r.below(8) as u8 });
        }
        PROXY => {
            o = r.bytes(97);
        }
        PROPERTIES => {
            let goal = if heavy { full(r, most) } else { 0 };
            while o.len() < goal {
                put(&mut o, &long(r, 40));
                o.push(0);
                put(&mut o, &vec![b'v'; r.below(200)]);
            }
            o.truncate(if o.len() > 10_200 { 0 } else { o.len() });
            for _ in 0..if big { r.below(24) } else { r.below(4) } * (goal == 0) as usize {
                put(&mut o, &word(r, 30));
                let t = r.below(3) as u8;
                o.push(t);
                match t {
                    0 => put(&mut o, &long(r, 40)),
                    1 => o.extend(r.next().to_le_bytes()),
                    _ => o.push(if r.chance(8) { r.next() as u8 } else { r.chance(50) as u8 }),
                }
            }
        }
        _ => {
            let n = match r.below(10) {
                0 => 0,
                _ if heavy => full(r, most),
                1 => 900 + r.below(2000),
                _ => r.below(120),
            };
            o = r.bytes(n);
        }
    }
    o
}

/// Contents that must be refused.
pub fn bad_payload(r: &mut Rng, ty: u32, p: &Pool) -> Vec<u8> {
    let mut o = payload(r, ty, p, None);
    match ty {
        CREATORS => match r.below(6) {
            0 => {
                // shares that only add up to 100 modulo 256
                o = vec![];
                for s in [200u8, 156] {
                    o.extend(r.pick(p.keys).as_ref());
                    o.extend([0, s]);
                }
            }
            1 => {
                let n = o.len();
                o[n - 1] = o[n - 1].wrapping_add(1 + r.below(5) as u8);
            }
            2 => {
                o.pop();
            }
            4 => {
                let n = 1 + r.below(33);
                o.extend(r.bytes(n));
            }
            5 => {
                let n = o.len();
                o.truncate(n - 1 - r.below(33));
            }
            _ => o = vec![],
        },
        GROUPING => match r.below(3) {
            0 => o[0] = 1 + r.below(5) as u8,
            1 => o.truncate(8 + r.below(8)),
            _ => o.resize(49 + r.below(20), 1),
        },
        ROYALTIES => match r.below(2) {
            0 => {
                let v = if r.chance(60) { 10001 } else { 10001 + r.below(60000) as u64 };
                o[..8].copy_from_slice(&v.to_le_bytes());
            }
            _ => o.truncate(r.below(16)),
        },
        MANAGER => o.truncate(r.below(33)),
        PROXY => o.truncate(r.below(97)),
        ATTRIBUTES | LINKS => match r.below(3) {
            0 => {
                put(&mut o, b"name");
                o.push(9);
                o.extend(b"short");
            }
            1 => {
                // a name cut short
                o.push(9);
                let n = r.below(9);
                o.extend(&b"unfinished"[..n]);
            }
            _ => put(&mut o, b"alone"),
        },
        METADATA => {
            let mut cuts = vec![0];
            let mut at = 0;
            while at < o.len() {
                at += 1 + o[at] as usize;
                cuts.push(at);
            }
            // one of the fields is cut short
            let i = r.below(cuts.len() - 1);
            o.truncate(cuts[i.min(3)]);
            o.push(200);
            let n = r.below(40);
            o.extend(vec![b'x'; n]);
        }
        BLOB => o = if r.chance(50) { vec![] } else { vec![50, 1, 2] },
        PROPERTIES => match r.below(6) {
            0 => {
                put(&mut o, b"p");
                o.extend([1, 2, 3]);
            }
            1 => {
                o.push(9);
                let n = r.below(9);
                o.extend(&b"unfinished"[..n]);
            }
            2 => put(&mut o, b"untyped"),
            3 => {
                put(&mut o, b"p");
                o.push(3 + r.below(250) as u8);
                o.extend(r.bytes(9));
            }
            4 => {
                put(&mut o, b"t");
                o.extend([0, 12]);
                o.extend(b"cut");
            }
            _ => {
                put(&mut o, b"b");
                o.push(2);
            }
        },
        _ => {}
    }
    o
}
