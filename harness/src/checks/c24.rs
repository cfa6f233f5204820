//! C24: a panicking callback leaves the version being updated in place intact.
use archery::{ArcK, ArcTK, RcK};
use rv::elem::{self, E};
use rv::engine::*;
use rv::ensure;
use rv::ptrs::CountK;
use rv::subj::*;
use rv::with_sub;

pub struct C;

const MASKS: [u32; 8] = [31, elem::EQ, elem::CMP, elem::HASH, elem::CLONE, elem::ITER, elem::CLONE | elem::EQ, elem::CMP | elem::CLONE];

/// The elements of the structure, in its order.
fn listed<S: Sub<E>>(s: &S) -> Vec<(u32, u32)> {
    let mut v = vec![];
    s.each(&mut |k, _| v.push((k.id, k.tag)));
    v
}

fn run<S: Sub<E>>(case: &Case, cx: &mut Cx) -> R {
    elem::track();
    let conf = Conf::decode(case.c(2), case.c(3), case.c(4), case.c(5));
    let max_bulk = [3, 12, 60][case.c(6) as usize % 3];
    let mut tag = 0;
    let (mut s, mut m) = (S::empty(&conf), S::model(&conf));
    s.act_mut(&mut m, &Act::BulkAdd { n: case.c(7) % 500, start: case.c(8), tag: 0 }, &conf)?;
    // other versions, which share nodes
    let mut kept: Vec<(S, M)> = vec![];
    let mut faults = 0u32;
    for (k, op) in case.ops.iter().enumerate() {
        let act = decode(S::KIND, &[op[0], op[1], op[2], op[2] >> 16], &m, &conf, &mut tag, max_bulk);
        let mask = MASKS[(op[3] >> 8) as usize % 8];
        match op[3] % 8 {
            0 => (),
            1 => {
                kept.push((s.clone(), m.clone()));
                s.act_mut(&mut m, &act, &conf)?;
            }
            2 => {
                kept.clear();
                s.act_mut(&mut m, &act, &conf)?;
            }
            h => {
                if h % 2 == 0 {
                    kept.push((s.clone(), m.clone()));
                }
                // how many callbacks there are
                let total = {
                    let (mut c, mut cm) = (s.clone(), m.clone());
                    elem::arm(mask, u64::MAX);
                    let r = guarded(|| c.act_mut(&mut cm, &act, &conf));
                    let n = elem::disarm();
                    r??;
                    n
                };
                let single = matches!(act, Act::Add { .. } | Act::Del { .. } | Act::Mod { .. } | Act::Mod2 { .. } | Act::Rebuild);
                let (mut at, mut tried) = (0, 0);
                while at < total && tried < 12 {
                    elem::arm(mask, at);
                    // (the model follows step by step)
                    let before = m.clone();
                    let r = guarded(|| s.act_mut(&mut m, &act, &conf));
                    elem::disarm();
                    let what = || format!("{}: step {k}, {act:?} interrupted at callback {at} of {total} (kinds {mask}), on {}", S::NAME, before.brief());
                    match r {
                        Ok(r) => {
                            r?;
                            if !single {
                                break;
                            }
                        }
                        Err(p) => {
                            ensure!(p.contains("injected fault"), "{}: another panic: {p}", what());
                            faults += 1;
                            if let (Act::Extend { n, .. }, "Vector") = (&act, S::NAME) {
                                // some of the items have arrived
                                let now = listed(&s);
                                let old = m.len();
                                ensure!(now.len() >= old && now.len() - old < *n as usize, "{}: {} elements", what(), now.len());
                                let mut fresh = (s.clone(), m.clone());
                                fresh.0.act_mut(&mut fresh.1, &act, &conf)?;
                                let (M::Seq(q), M::Seq(f)) = (&mut m, &fresh.1) else { unreachable!() };
                                q.extend(f.iter().skip(old).take(now.len() - old));
                            }
                        }
                    }
                    s.verify(&m, &conf, m.len() < 100).map_err(|e| format!("{}: {e}", what()))?;
                    cx.checks += 1;
                    tried += 1;
                    at += if tried < 6 { 1 } else { 1 + total / 7 };
                    if !single && m.len() > 2000 {
                        break;
                    }
                }
                cx.log(|| format!("{k}: {act:?} on {}: {tried} of {total} points", m.brief()));
                // the structure goes on being used
                let act = decode(S::KIND, &[op[0], op[1], op[2], 0], &m, &conf, &mut tag, max_bulk);
                s.act_mut(&mut m, &act, &conf).map_err(|e| format!("after interruptions: {e}"))?;
                s.verify(&m, &conf, m.len() < 100).map_err(|e| format!("{}: step {k}, after interruptions, {act:?}: {e}", S::NAME))?;
            }
        }
        if kept.len() > 3 {
            kept.remove(op[1] as usize % 3);
        }
    }
    for (s, m) in &kept {
        s.verify(m, &conf, m.len() < 100).map_err(|e| format!("{}: another version: {e}", S::NAME))?;
    }
    drop(kept);
    drop(s);
    ensure!(elem::double_drops() == 0, "{}: an element was dropped twice", S::NAME);
    ensure!(elem::live_count() == 0, "{}: {} elements leaked", S::NAME, elem::live_count());
    cx.label(S::NAME);
    if faults >= 3 {
        cx.nontrivial = true;
    }
    Ok(())
}

impl Check for C {
    fn id(&self) -> &'static str {
        "C24"
    }
    fn rule(&self) -> &'static str {
        "A case is a structure (8), pointer kind (4), a configuration and a history of in-place updates, with and without other versions sharing nodes. The user callbacks (equality, comparison, hash, element clone, source iterator) of an update are counted, and the update is then done on the structure itself with a panic at each of up to 12 of them; after each panic the structure is compared with the model before the interrupted step (extend: with some of the items added), and after that it goes on being used. Non-trivial: at least three panics were injected and caught."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["element destructors do not panic"]
    }
    fn budget(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 400_000,
            Tier::Thorough => 15_000_000,
        }
    }
    fn generate(&self, r: &mut Rng, i: u64, _: Tier) -> Case {
        let n0 = if r.chance(1, 2) { r.below(10) } else { r.skewed(200) };
        // the other sequences have few callbacks
        let kind = if r.chance(1, 8) { r.below(3) } else { 3 + (i % 5) as u32 };
        let cfg = vec![kind, r.below(4), r.below(6), r.below(12), r.u32() & 0xFFFF, r.below(8), r.weighted(&[6, 3, 1]), n0, r.u32()];
        let w = [r.range(1, 8), r.range(1, 8), r.range(0, 6), r.range(0, 6), r.below(4), r.below(4), r.below(3), r.below(3)];
        let ops = (0..r.range(1, 16)).map(|_| [r.weighted(&w), r.u32(), r.u32(), r.u32()]).collect();
        Case { cfg, ops }
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        match c.c(1) % 4 {
            0 => with_sub!(c.c(0), E, RcK, S => run::<S>(c, cx)),
            1 => with_sub!(c.c(0), E, ArcTK, S => run::<S>(c, cx)),
            2 => with_sub!(c.c(0), E, ArcK, S => run::<S>(c, cx)),
            _ => with_sub!(c.c(0), E, CountK, S => run::<S>(c, cx)),
        }
    }
}
