//! C19: a panicking callback never damages other versions.
use archery::{ArcK, ArcTK, RcK};
use rv::elem::{self, E};
use rv::engine::*;
use rv::ensure;
use rv::ptrs::CountK;
use rv::subj::*;
use rv::with_sub;

pub struct C;

fn live_check<S: Sub<E>>(vs: &[(S, M)]) -> R {
    let mut want = std::collections::BTreeSet::new();
    for (s, _) in vs {
        s.each(&mut |k, v| {
            want.insert(k.uid());
            if let Some(v) = v {
                want.insert(v.uid());
            }
        });
    }
    ensure!(elem::double_drops() == 0, "an element was dropped twice");
    let live = elem::live_uids();
    ensure!(live.len() == want.len() && live.iter().all(|x| want.contains(x)), "{} elements are alive, but the versions contain {}", live.len(), want.len());
    Ok(())
}

const MASKS: [u32; 8] = [31, elem::EQ, elem::CMP, elem::HASH, elem::CLONE, elem::ITER, elem::CLONE | elem::EQ, elem::CMP | elem::CLONE];

fn run<S: Sub<E>>(case: &Case, cx: &mut Cx) -> R {
    elem::track();
    let conf = Conf::decode(case.c(2), case.c(3), case.c(4), case.c(5));
    let max_bulk = [3, 12, 60][case.c(6) as usize % 3];
    let mut tag = 0;
    let mut vs: Vec<(S, M)> = vec![(S::empty(&conf), S::model(&conf))];
    let (s0, m0) = &mut vs[0];
    s0.act_mut(m0, &Act::BulkAdd { n: case.c(7) % 500, start: case.c(8), tag: 0 }, &conf)?;
    let mut faults = 0u32;
    for (k, op) in case.ops.iter().enumerate() {
        let n = vs.len();
        let i = (op[3] >> 16) as usize % n;
        let act = decode(S::KIND, &[op[0], op[1], op[2], op[2] >> 16], &vs[i].1, &conf, &mut tag, max_bulk);
        let mask = MASKS[(op[3] >> 8) as usize % 8];
        let all_ok = |vs: &[(S, M)], what: &str| -> R {
            for (j, (s, m)) in vs.iter().enumerate() {
                s.verify(m, &conf, m.len() < 100).map_err(|e| format!("step {k}, {what}: version {j} is damaged: {e}"))?;
            }
            live_check(vs).map_err(|e| format!("{} step {k}, {what}: {e}", S::NAME))
        };
        match op[3] % 8 {
            // ordinary steps
            0 | 1 => {
                if let Some(x) = vs[i].0.act_ref(&vs[i].1, &act, &conf)? {
                    vs.push(x);
                }
            }
            2 => {
                let (s, m) = &mut vs[i];
                s.act_mut(m, &act, &conf)?;
            }
            // the persistent form, or the in-place form on a clone, with a fault at each callback
            3..=6 => {
                let persistent = op[3] % 8 < 5;
                // returns whether it panicked
                let attempt = |vs: &[(S, M)], at: u64| -> Result<(bool, u64), String> {
                    let (s, m) = &vs[i];
                    let (mut c, mut cm) = if persistent { (None, None) } else { (Some(s.clone()), Some(m.clone())) };
                    elem::arm(mask, at);
                    let r = guarded(|| match (&mut c, &mut cm) {
                        (Some(c), Some(cm)) => c.act_mut(cm, &act, &conf),
                        _ => s.act_ref(m, &act, &conf).map(drop),
                    });
                    let seen = elem::disarm();
                    match r {
                        Ok(r) => {
                            r?;
                            Ok((false, seen))
                        }
                        Err(p) if p.contains("injected fault") => Ok((true, seen)),
                        Err(p) => Err(format!("another panic: {p}")),
                    }
                };
                let (_, total) = attempt(&vs, u64::MAX)?;
                all_ok(&vs, "without a fault")?;
                // all of the first points, then spread out
                let mut at = 0;
                let mut tried = 0;
                while at < total && tried < 24 {
                    let what = || format!("{} {act:?}, panic at callback {at} of {total} (kinds {mask})", if persistent { "persistent" } else { "in place on a clone" });
                    let (panicked, _) = attempt(&vs, at).map_err(|e| format!("step {k}, {}: {e}", what()))?;
                    if panicked {
                        faults += 1;
                        all_ok(&vs, &what())?;
                    }
                    cx.checks += 1;
                    tried += 1;
                    at += if tried < 10 { 1 } else { 1 + total / 10 };
                }
                if tried > 0 {
                    cx.log(|| format!("{k}: {} {act:?} on v{i} {}: {tried} faults", if persistent { "persistent" } else { "in place on a clone" }, vs[i].1.brief()));
                }
            }
            // in place on the version itself, which is lost
            _ => {
                let (mut s, mut m) = vs.swap_remove(i);
                if op[1] % 3 == 0 || vs.is_empty() {
                    vs.push((s.clone(), m.clone()));
                }
                elem::arm(mask, u64::from(op[1] >> 8) % 40);
                let r = guarded(|| s.act_mut(&mut m, &act, &conf));
                elem::disarm();
                match r {
                    Ok(r) => {
                        r?;
                        vs.push((s, m));
                    }
                    Err(p) => {
                        ensure!(p.contains("injected fault"), "step {k} {act:?}: another panic: {p}");
                        faults += 1;
                        drop(s);
                        cx.log(|| format!("{k}: in place {act:?}: panic, version dropped"));
                    }
                }
                all_ok(&vs, &format!("in place {act:?} with a panic"))?;
            }
        }
        while vs.len() > 6 || (vs.len() > 1 && vs.iter().map(|v| v.1.len()).sum::<usize>() > 1500) {
            let j = op[1] as usize % vs.len();
            vs.swap_remove(j);
        }
    }
    while let Some(v) = vs.pop() {
        drop(v);
        live_check(&vs)?;
    }
    ensure!(elem::live_count() == 0, "{}: {} elements leaked", S::NAME, elem::live_count());
    cx.label(S::NAME);
    if faults >= 3 {
        cx.nontrivial = true;
    }
    Ok(())
}

impl Check for C {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "A case is a structure (8), pointer kind (4), a configuration and a history over up to six versions. For chosen operations the user callbacks (equality, comparison, hash, element clone, source iterator) are counted, and then the operation is done again with a panic at each of them (at most 24 points); after each panic all versions are compared with their models and the live elements with those the versions contain. Non-trivial: at least three panics were injected and caught."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["element destructors do not panic"]
    }
    fn budget(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 300_000,
            Tier::Thorough => 15_000_000,
        }
    }
    fn generate(&self, r: &mut Rng, i: u64, _: Tier) -> Case {
        let n0 = if r.chance(1, 2) { r.below(10) } else { r.skewed(200) };
        let cfg = vec![(i % 8) as u32, r.below(4), r.below(6), r.below(12), r.u32() & 0xFFFF, r.below(8), r.weighted(&[6, 3, 1]), n0, r.u32()];
        let w = [r.range(1, 8), r.range(1, 8), r.range(0, 6), r.range(0, 6), r.below(4), r.below(4), r.below(3), r.below(3)];
        let ops = (0..r.range(1, 16)).map(|_| [r.weighted(&w), r.u32(), r.u32(), r.u32()]).collect();
        Case { cfg, ops }
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        match c.c(1) % 4 {
            0 => with_sub!(c.c(0), E, RcK, S => run::<S>(c, cx)),
            1 => with_sub!(c.c(0), E, ArcTK, S => run::<S>(c, cx)),
            2 => with_sub!(c.c(0), E, ArcK, S => run::<S>(c, cx)),
            _ => with_sub!(c.c(0), E, CountK, S => run::<S>(c, cx)),
        }
    }
}
