//! C06: red-black tree map and set are sorted finite maps.
use archery::{ArcK, ArcTK, RcK};
use rv::elem::E;
use rv::engine::*;
use rv::hist;
use rv::with_sub;

pub struct C;

impl Check for C {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "A case is RedBlackTreeMap or RedBlackTreeSet with a pointer kind, a key universe, an initial content (ascending, descending, strided, scattered) and a history of insert, remove and get_mut in persistent and in-place form with clones kept and resumed; after each step size, first, last, all lookups (by key and by borrowed form, present and absent) and all iterators in both directions are compared with a BTreeMap. Non-trivial: the history grows, shrinks and either modifies an element or shares nodes with a kept version."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["element Eq/Ord/Hash are consistent and deterministic"]
    }
    fn budget(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 500_000,
            Tier::Thorough => 2_000_000,
        }
    }
    fn generate(&self, r: &mut Rng, i: u64, tier: Tier) -> Case {
        let _ = tier;
        let big = mix(i) % 300 == 7;
        let bulk = if big { r.range(2, 4) } else { r.weighted(&[8, 6, 1]) };
        let uni = if big { r.range(4, 7) } else { r.below(8) };
        let n0 = if r.chance(1, 2) { 0 } else { r.skewed(if big { 20_000 } else { 40 }) };
        let cfg = vec![(i % 2) as u32, r.below(3), 0, 0, 0, uni, bulk, n0, r.below(16)];
        let n = if big { r.range(2, 12) } else { 1 + r.skewed(150) };
        Case { cfg, ops: hist::gen_ops(r, n) }
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        let sel = [5u32, 7][c.c(0) as usize % [5u32, 7].len()];
        match c.c(1) % 3 {
            0 => with_sub!(sel, E, RcK, S => hist::run::<S>(c, cx)),
            1 => with_sub!(sel, E, ArcTK, S => hist::run::<S>(c, cx)),
            _ => with_sub!(sel, E, ArcK, S => hist::run::<S>(c, cx)),
        }
    }
}
