//! C26: in-place updates of a version that shares nothing reuse its nodes.
use rv::elem::{self, CLONE, E};
use rv::engine::*;
use rv::ensure;
use rv::ptrs::{self, CountK};
use rv::subj::*;
use rv::with_sub;

pub struct C;

/// Reference-count increments and allocations expected at most for each element added or removed.
/// Inserting into a hash trie may split a leaf into a chain of nodes; a vector has one node per level.
fn limits(name: &str, act: &Act, n: u64) -> (u64, u64) {
    let grows = !matches!(act, Act::Del { .. } | Act::BulkDel { .. });
    let clones = if name.starts_with("HashTrie") && grows { 32 } else { 8 };
    (clones, 24 + 2 * u64::from(n.max(1).ilog2()))
}

/// At most how many elements an update adds or removes.
fn weight(act: &Act) -> u64 {
    match act {
        Act::BulkAdd { n, .. } | Act::BulkDel { n, .. } | Act::Extend { n, .. } => u64::from(*n).max(1),
        _ => 1,
    }
}

fn run<S: Sub<E>>(case: &Case, cx: &mut Cx) -> R {
    elem::set_fuel(1_000_000_000);
    // a hash function that spreads well
    let mut conf = Conf::decode(case.c(2), case.c(3), 0, 7);
    conf.hash.seed = u64::from(case.c(4));
    let n0 = case.c(1);
    let mut tag = 0;
    let (mut s, mut m) = (S::empty(&conf), S::model(&conf));
    s.act_mut(&mut m, &Act::BulkAdd { n: n0, start: case.c(6), tag: 0 }, &conf)?;
    let mut others: Vec<(S, M)> = vec![];
    let mut measured = 0;
    for (k, op) in case.ops.iter().enumerate() {
        let act = decode(S::KIND, &[op[0], op[1], op[2], op[2] >> 16], &m, &conf, &mut tag, 40);
        let n = m.len();
        match op[3] % 8 {
            // other versions come and go
            0 => others.push((s.clone(), m.clone())),
            1 => {
                if let Some(x) = s.act_ref(&m, &act, &conf)? {
                    (s, m) = x;
                    cx.log(|| format!("{k}: persistent {act:?}, the old version is dropped -> {}", m.brief()));
                }
            }
            2 => {
                if let Some((t, tm)) = others.last_mut() {
                    let act = decode(S::KIND, &[op[0], op[1], op[2], 0], tm, &conf, &mut tag, 40);
                    t.act_mut(tm, &act, &conf)?;
                }
            }
            3 => {
                if let Some(x) = others.pop() {
                    cx.log(|| format!("{k}: going on with another version {}", x.1.brief()));
                    (s, m) = x;
                }
            }
            _ => {
                let must_panic = S::NAME == "Vector" && matches!(act, Act::Mod2 { id, .. } if id as usize >= n);
                if matches!(act, Act::Rebuild) || must_panic {
                    continue;
                }
                // whatever could share nodes goes
                others.clear();
                elem::arm(CLONE, u64::MAX);
                let before = ptrs::counts();
                s.act_mut(&mut m, &act, &conf)?;
                let c = ptrs::counts().minus(&before);
                let copies = elem::disarm();
                let w = weight(&act);
                let (clones, allocs) = limits(S::NAME, &act, n as u64 + w);
                cx.log(|| format!("{k}: in place {act:?} on {n} elements: {} allocations, {} clones", c.allocs, c.clones));
                ensure!(c.clones <= clones * w, "{}: step {k}, {act:?} in place on {n} elements that no other version shares makes {} new references to nodes or elements (at most {} expected)", S::NAME, c.clones, clones * w);
                ensure!(c.allocs <= allocs * w, "{}: step {k}, {act:?} in place on {n} elements that no other version shares allocates {} nodes or elements (at most {} expected)", S::NAME, c.allocs, allocs * w);
                ensure!(copies == 0, "{}: step {k}, {act:?} in place on {n} elements that no other version shares clones {copies} elements", S::NAME);
                measured += 1;
                cx.checks += 1;
            }
        }
        if others.len() > 3 {
            others.remove(0);
        }
    }
    cx.label(S::NAME);
    if n0 >= 300 && measured >= 3 {
        cx.nontrivial = true;
    }
    Ok(())
}

impl Check for C {
    fn id(&self) -> &'static str {
        "C26"
    }
    fn rule(&self) -> &'static str {
        "A case is a structure (8) over a counting pointer kind, a size and a history in which other versions come and go. When no other version is left, an in-place update must not copy existing nodes: the references made and the nodes and elements allocated are counted and must not exceed a constant (for each element added or removed), which a copy of the path to the element does; no element may be cloned. Non-trivial: at least 300 elements at the start and 3 measured updates."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["copying a node shows as new references to its children", "keys are hashed with a well-spread function"]
    }
    fn budget(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 60_000,
            Tier::Thorough => 3_000_000,
        }
    }
    fn generate(&self, r: &mut Rng, i: u64, _: Tier) -> Case {
        let n0 = if mix(i) % 50 == 0 { r.below(20_000) } else if r.chance(3, 4) { r.range(300, 2500) } else { r.skewed(400) };
        let bits = if r.chance(1, 2) { 0 } else { r.below(8) };
        let cfg = vec![(i % 8) as u32, n0, r.below(6), bits, r.u32(), 0, r.u32()];
        let w = [r.range(1, 6), r.range(1, 6), r.range(1, 4), r.range(1, 4), r.below(2), r.below(2), 0, r.below(2)];
        let h = [1, 1, r.below(3), r.below(2), r.range(1, 4), r.range(1, 4), 1, 1];
        let ops = (0..r.range(4, 40)).map(|_| [r.weighted(&w), r.u32(), r.u32(), r.weighted(&h)]).collect();
        Case { cfg, ops }
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        with_sub!(c.c(0), E, CountK, S => run::<S>(c, cx))
    }
}
