//! C04: Vector is an indexed sequence.
use archery::{ArcK, ArcTK, RcK};
use rv::elem::E;
use rv::engine::*;
use rv::hist;
use rv::with_sub;

pub struct C;

impl Check for C {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "A case is a Vector with a number of bits (1..63), a pointer kind, an initial size (often just around a power of the branching factor, up to about a million elements) and a history of push_back, drop_last, set, get_mut, IndexMut, extend and collect in persistent and in-place form with clones kept and resumed; after each step all indices, accessors and both iteration directions are compared with a VecDeque. Non-trivial: the history grows, shrinks and either modifies an element or shares nodes with a kept version."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["element Eq/Ord/Hash are consistent and deterministic"]
    }
    fn budget(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 150_000,
            Tier::Thorough => 3_000_000,
        }
    }
    fn generate(&self, r: &mut Rng, i: u64, tier: Tier) -> Case {
        let c = if tier == Tier::Thorough { i % 2000 } else { i % 20_000 };
        let (bits, n0, bulk);
        if c == 11 {
            // heights of several levels with the default branching
            bits = r.pick(&[0, 1, 4]);
            n0 = r.pick(&[32_768, 1_048_576, 1_048_576 + 32, 1_050_000]) + r.below(3) - 1;
            bulk = r.range(2, 4);
        } else if c % 250 == 5 {
            bits = r.below(12);
            let b = u32::from(rv::subj::BITS[bits as usize]);
            let k = r.range(1, (16 / b).max(1));
            n0 = ((1u64 << (u64::from(b * k)).min(16)) as u32).saturating_sub(3) + r.below(6);
            bulk = r.range(1, 4);
        } else {
            bits = r.below(12);
            let b = u32::from(rv::subj::BITS[bits as usize]);
            let k = r.range(1, (9 / b).max(1));
            n0 = if r.chance(1, 2) { 0 } else if b > 9 { r.below(40) } else { (1u32 << (b * k)).saturating_sub(2) + r.below(5) };
            bulk = r.weighted(&[8, 8, 2]);
        }
        let cfg = vec![0, r.below(3), 0, bits, 0, r.below(8), bulk, n0, r.below(16)];
        let n = if n0 > 30_000 { r.range(4, 16) } else if n0 > 2000 { r.range(2, 30) } else { 1 + r.skewed(100) };
        Case { cfg, ops: hist::gen_ops(r, n) }
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        let sel = [3u32][c.c(0) as usize % [3u32].len()];
        match c.c(1) % 3 {
            0 => with_sub!(sel, E, RcK, S => hist::run::<S>(c, cx)),
            1 => with_sub!(sel, E, ArcTK, S => hist::run::<S>(c, cx)),
            _ => with_sub!(sel, E, ArcK, S => hist::run::<S>(c, cx)),
        }
    }
}
