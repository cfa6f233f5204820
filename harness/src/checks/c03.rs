//! C03: Queue is FIFO.
use archery::{ArcK, ArcTK, RcK};
use rv::elem::E;
use rv::engine::*;
use rv::hist;
use rv::with_sub;

pub struct C;

impl Check for C {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "A case is a Queue with a pointer kind, an initial construction (enqueues or from_iter) and a history of persistent and in-place enqueue/dequeue with clones kept and resumed; after each step peek, len, is_empty and the iteration are compared with a VecDeque. Non-trivial: the history grows, shrinks and either modifies an element or shares nodes with a kept version."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["element Eq/Ord/Hash are consistent and deterministic"]
    }
    fn budget(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 2_500_000,
            Tier::Thorough => 20_000_000,
        }
    }
    fn generate(&self, r: &mut Rng, i: u64, tier: Tier) -> Case {
        let _ = tier;
        let big = i % 400 == 7;
        let bulk = if big { r.range(3, 5) } else { r.weighted(&[8, 8, 3]) };
        let n0 = if r.chance(1, 2) { 0 } else { r.skewed(if big { 60_000 } else { 60 }) };
        let cfg = vec![0, r.below(3), 0, 0, 0, r.below(8), bulk, n0, r.below(16)];
        let n = if big { r.range(2, 12) } else { 1 + r.skewed(120) };
        Case { cfg, ops: hist::gen_ops(r, n) }
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        let sel = [2u32][c.c(0) as usize % [2u32].len()];
        match c.c(1) % 3 {
            0 => with_sub!(sel, E, RcK, S => hist::run::<S>(c, cx)),
            1 => with_sub!(sel, E, ArcTK, S => hist::run::<S>(c, cx)),
            _ => with_sub!(sel, E, ArcK, S => hist::run::<S>(c, cx)),
        }
    }
}
