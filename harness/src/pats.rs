//! Index patterns that stress the hierarchical bit sets: word, layer and range boundaries.
use crate::Rng;

pub const LIMIT: u32 = 1 << 24;

/// Indexes at the boundaries of bit set words and layers.
pub const EDGES: &[u32] = &[
    0, 1, 2, 31, 32, 62, 63, 64, 65, 127, 128, 4031, 4032, 4094, 4095, 4096, 4097, 4159, 4160, 8191, 8192,
    65535, 65536, 262_142, 262_143, 262_144, 262_145, 266_239, 266_240, 524_287, 524_288, 1_048_575,
    1_048_576, 8_388_607, 8_388_608, 16_777_214, 16_777_215,
];

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Pat {
    Tiny,
    Small,
    Words,
    Edges,
    Sparse,
    Wide,
}

pub fn pick_pat(rng: &mut Rng, cap: u32) -> Pat {
    let p = match rng.below(16) {
        0..=3 => Pat::Tiny,
        4..=8 => Pat::Small,
        9..=10 => Pat::Words,
        11..=12 => Pat::Edges,
        13..=14 => Pat::Sparse,
        _ => Pat::Wide,
    };
    if cap <= 70_000 && p == Pat::Wide {
        Pat::Sparse
    } else {
        p
    }
}

/// A universe of `n` candidate indexes below `cap`.
pub fn universe(rng: &mut Rng, pat: Pat, n: usize, cap: u32) -> Vec<u32> {
    let mut v: Vec<u32> = match pat {
        Pat::Tiny => (0..n.min(6) as u32).collect(),
        Pat::Small => (0..n as u32).collect(),
        Pat::Words => {
            let base = 64 * rng.below(80) as u32 + 32;
            (0..n as u32).map(|i| base + i).collect()
        }
        Pat::Edges => {
            let e: Vec<u32> = EDGES.iter().copied().filter(|i| *i < cap).collect();
            (0..n).map(|_| *rng.pick(&e)).collect()
        }
        Pat::Sparse => (0..n).map(|_| rng.below(cap.min(70_000) as u64) as u32).collect(),
        Pat::Wide => (0..n).map(|_| rng.below(cap as u64) as u32).collect(),
    };
    v.retain(|i| *i < cap);
    v.sort();
    v.dedup();
    if v.is_empty() {
        v.push(0);
    }
    v
}

/// An index outside of the given universe, below the cap.
pub fn outside(rng: &mut Rng, u: &[u32], cap: u32) -> u32 {
    loop {
        let i = if rng.bool() {
            rng.below(cap as u64) as u32
        } else {
            rng.pick(u).wrapping_add(rng.below(3) as u32).wrapping_sub(1) % cap
        };
        if u.binary_search(&i).is_err() || u.len() as u32 >= cap {
            return i;
        }
    }
}
