//! What the clients of a simulated run are like, per property.

use crate::gen::Rng;
use crate::world::Profile;

const BASE: Profile = Profile {
    prop: 0,
    // Close Burn Create Approve Allocate Lock Revoke Transfer Unlock Unverify Update Verify Write Group Ungroup Handover Remove Resize
    ops: [3, 5, 14, 7, 5, 5, 4, 9, 5, 3, 12, 4, 5, 6, 4, 4, 5, 5],
    kinds: [70, 6, 6, 6, 6, 4, 2, 0],
    standards: [50, 18, 14, 18],
    types: [0, 10, 6, 12, 6, 6, 14, 10, 8, 4, 8, 10],
    steps: 60,
    builders: false,
    readers: false,
    js: 0,
    group_pct: 40,
    odd_pct: 30,
    relay_pct: 18,
    wind_pct: 10,
    slots: 6,
    big: 0,
};

pub fn profile(prop: u32, seed: u64) -> Profile {
    let mut r = Rng::new(seed ^ 0x70f11e);
    let mut p = BASE;
    p.prop = prop;
    // a third of the runs of every property are the general population
    if !r.chance(30) {
        special(&mut p);
    }
    // swarm: every run leaves some request kinds out and favours others
    let keep = p.ops;
    for (i, w) in p.ops.iter_mut().enumerate() {
        *w *= match r.below(6) {
            0 if i != 2 => 0,
            1 => 4,
            _ => 2,
        };
    }
    if p.ops.iter().sum::<u32>() == 0 {
        p.ops = keep;
    }
    for w in p.types.iter_mut().skip(1) {
        *w *= [0, 1, 2, 4][r.below(4)];
    }
    if p.types.iter().sum::<u32>() == 0 {
        p.types[11] = 1;
    }
    p.steps = match r.below(5) {
        0 => p.steps / 2,
        1 => p.steps * 2,
        _ => p.steps,
    };
    p.slots = [3, 4, 6, 8][r.below(4)];
    // some runs are about size
    let x = r.below(1000);
    p.big = match prop {
        5 | 6 if x < 30 => 3,
        15 if x < 15 => 4,
        _ if x < 4 => 3,
        _ if x < 34 => 2,
        7 | 8 if x < 260 => 1,
        _ if x < 110 => 1,
        _ => 0,
    };
    match prop {
        19 => p.builders = true,
        20 => p.readers = true,
        22 => {
            p.js = 1;
            p.kinds[7] = 12;
        }
        23 => {
            p.js = 2;
            p.kinds[7] = 4;
        }
        0 => {
            p.builders = r.chance(50);
            p.readers = r.chance(50);
        }
        _ => {}
    }
    p
}

fn special(p: &mut Profile) {
    let only = |p: &mut Profile, ops: &[(usize, u32)]| {
        for w in p.ops.iter_mut() {
            *w = (*w + 3) / 4;
        }
        for (i, w) in ops {
            p.ops[*i] = *w;
        }
    };
    match p.prop {
        1 => {
            only(p, &[(1, 8), (2, 12), (3, 14), (5, 6), (6, 7), (7, 24), (8, 5)]);
            p.types[8] = 20;
        }
        2 => {
            only(p, &[(1, 6), (2, 12), (3, 12), (5, 14), (6, 7), (7, 12), (8, 14), (10, 6)]);
            p.types[8] = 20;
        }
        3 => only(p, &[(2, 12), (3, 20), (5, 8), (6, 14), (7, 12), (8, 6), (1, 5)]),
        4 => only(p, &[(2, 14), (10, 20), (15, 14), (16, 8), (17, 8), (13, 8), (14, 5), (9, 3), (11, 3)]),
        5 => {
            only(p, &[(1, 10), (2, 22), (13, 16), (14, 12), (10, 10), (16, 6), (17, 5), (0, 3)]);
            p.types[6] = 60;
            p.group_pct = 70;
        }
        6 => {
            only(p, &[(2, 24), (13, 20), (14, 10), (10, 8), (15, 6)]);
            p.types[6] = 60;
            p.group_pct = 75;
        }
        7 => {
            only(p, &[(2, 14), (9, 12), (11, 14), (10, 20), (16, 6), (4, 5), (12, 5)]);
            p.types[3] = 80;
        }
        8 => {
            only(p, &[(2, 14), (7, 18), (10, 12), (13, 8), (3, 6)]);
            p.types[7] = 80;
            p.types[6] = 30;
            p.group_pct = 60;
        }
        9 => {
            only(p, &[(2, 22), (4, 8), (12, 6), (10, 14), (16, 10), (7, 6)]);
            p.types[8] = 40;
            p.types[9] = 30;
            p.standards = [30, 25, 15, 30];
        }
        10 => {
            only(p, &[(2, 16), (4, 8), (10, 26), (12, 8), (16, 14), (17, 12), (13, 4)]);
            p.steps = 70;
        }
        11 => {
            only(p, &[(0, 6), (2, 12), (4, 18), (12, 24)]);
            p.kinds = [40, 12, 36, 1, 1, 6, 4, 0];
            p.slots = 4;
        }
        12 => {
            only(p, &[(0, 14), (2, 10), (4, 18), (10, 16), (12, 20)]);
            p.kinds = [60, 10, 16, 1, 3, 5, 4, 0];
        }
        13 => {
            only(p, &[(0, 10), (1, 14), (2, 16), (4, 8), (10, 14), (12, 10), (16, 8), (17, 14)]);
            p.kinds = [70, 5, 6, 4, 4, 10, 2, 0];
        }
        14 => {
            only(p, &[(0, 14), (1, 22), (2, 18), (4, 8), (12, 6), (7, 5)]);
            p.slots = 4;
        }
        15 => {
            p.kinds = [30, 6, 2, 0, 56, 4, 2, 0];
            p.standards = [15, 10, 5, 70];
        }
        16 => {
            p.kinds = [18, 8, 0, 66, 0, 4, 4, 0];
            only(p, &[(7, 10), (1, 4), (10, 4)]);
            p.steps = 50;
        }
        17 => {
            p.kinds = [10, 5, 0, 80, 0, 4, 3, 0];
            p.steps = 40;
        }
        18 => {
            p.wind_pct = 80;
            p.kinds = [62, 6, 16, 4, 4, 6, 2, 0];
        }
        19 => {
            p.relay_pct = 55;
            p.kinds = [70, 2, 12, 8, 2, 2, 1, 0];
        }
        20 => {
            only(p, &[(2, 20), (4, 10), (10, 24), (12, 8), (16, 8), (17, 6), (3, 8), (7, 5), (11, 5)]);
            p.kinds = [70, 4, 10, 8, 4, 2, 1, 0];
        }
        21 => {
            p.odd_pct = 50;
        }
        22 => {
            p.kinds = [50, 2, 2, 10, 12, 4, 1, 20];
            p.steps = 40;
        }
        23 => {
            only(p, &[(2, 20), (4, 10), (10, 24), (12, 8), (16, 8), (17, 6), (3, 8), (7, 5), (11, 5)]);
            p.kinds = [66, 4, 10, 8, 4, 2, 1, 4];
            p.steps = 40;
        }
        _ => {}
    }
}
