//! The harness' own account of the consistent hashing ring.

/// The tablet that owns a position: the first one clockwise at or after it.
pub fn owner(ids: &[u32], key: u32) -> u32 {
    *ids.iter()
        .filter(|id| **id >= key)
        .min()
        .unwrap_or_else(|| ids.iter().min().unwrap())
}

/// All tablets that own some position in from..=to.
pub fn cover(ids: &[u32], from: u32, to: u32) -> Vec<u32> {
    let last = owner(ids, to);
    let mut all: Vec<u32> = ids
        .iter()
        .copied()
        .filter(|id| (*id >= from && *id <= to) || *id == last)
        .collect();
    all.sort();
    all.dedup();
    all
}

pub fn regions(size: u32) -> Vec<(u32, u32)> {
    let mut all = Vec::new();
    let mut from = 0u64;
    while from <= u32::MAX as u64 {
        let to = (from + size as u64 - 1).min(u32::MAX as u64);
        all.push((from as u32, to as u32));
        from = to + 1;
    }
    all
}

/// Positions worth trying: the ends of the ring, region boundaries, tablets and their neighbours.
pub fn interesting(rng: &mut vcommon::Rng, size: u32, ids: &[u32]) -> u32 {
    let near = |rng: &mut vcommon::Rng, v: u32| match rng.below(3) {
        0 => v,
        1 => v.wrapping_sub(1),
        _ => v.wrapping_add(1),
    };
    match rng.below(10) {
        0 => 0,
        1 => u32::MAX,
        2 | 3 | 4 => {
            let all = regions(size);
            let at = rng.pick(&all).0;
            near(rng, at)
        }
        5 | 6 | 7 if !ids.is_empty() => {
            let at = *rng.pick(ids);
            near(rng, at)
        }
        _ => rng.next() as u32,
    }
}

pub const REGION_SIZES: [u32; 8] = [
    u32::MAX,
    1 << 31,
    (1 << 31) - 1,
    (1 << 31) + 1,
    1 << 30,
    0x5555_5555,
    0x5555_5556,
    u32::MAX / 8,
];
