//! C16: elements are released exactly once, exactly when unreachable, and cloned only by mutable access to a shared one.
use archery::{ArcK, ArcTK, RcK};
use rv::elem::{self, E};
use rv::engine::*;
use rv::ensure;
use rv::subj::*;
use rv::with_sub;
use std::collections::BTreeSet;

pub struct C;

fn uids<'a, S: Sub<E> + 'a>(vs: impl Iterator<Item = &'a (S, M)>) -> BTreeSet<u32> {
    let mut out = BTreeSet::new();
    for (s, _) in vs {
        s.each(&mut |k, v| {
            out.insert(k.uid());
            if let Some(v) = v {
                out.insert(v.uid());
            }
        });
    }
    out
}

fn compare<S: Sub<E>>(vs: &[(S, M)]) -> R {
    let want: Vec<u32> = uids(vs.iter()).into_iter().collect();
    let live = elem::live_uids();
    ensure!(elem::double_drops() == 0, "{}: an element was dropped twice", S::NAME);
    if live != want {
        let w: BTreeSet<u32> = want.iter().copied().collect();
        let l: BTreeSet<u32> = live.iter().copied().collect();
        let extra = l.difference(&w).count();
        let gone = w.difference(&l).count();
        return Err(format!("{}: {extra} elements are still alive that no version contains, {gone} are dropped that a version still contains (of {})", S::NAME, want.len()));
    }
    Ok(())
}

/// The elements of which `act` on a version with content `m` may make a copy when they are shared: (id, tag) pairs.
fn may_clone(name: &str, act: &Act, m: &M) -> Vec<(u32, u32)> {
    match (act, m) {
        (Act::Mod2 { id, .. }, M::Seq(s)) if name == "Vector" => s.get(*id as usize).map(|x| vec![*x]).unwrap_or_default(),
        (Act::Mod { id, .. } | Act::Mod2 { id, .. }, M::Map(mm)) if name.ends_with("Map") => mm.get(id).map(|w| vec![(*id, w.0), (w.1, w.2)]).unwrap_or_default(),
        _ => vec![],
    }
}

/// Whether the entry which `act` gives mutable access to is also contained in one of `others`.
fn entry_uids<S: Sub<E>>(s: &S, act: &Act) -> Vec<u32> {
    let mut out = vec![];
    let (Act::Mod { id, .. } | Act::Mod2 { id, .. }) = act else { return out };
    let mut i = 0;
    s.each(&mut |k, v| {
        match v {
            Some(v) if k.id == *id => out.extend([k.uid(), v.uid()]),
            None if i == *id => out.push(k.uid()),
            _ => (),
        }
        i += 1;
    });
    out
}

fn check_clones(what: &str, allowed: Vec<(u32, u32)>, shared: bool) -> R {
    let mut log = elem::take_clone_log();
    if shared {
        for a in allowed {
            if let Some(i) = log.iter().position(|x| *x == a) {
                log.swap_remove(i);
            }
        }
    }
    ensure!(log.is_empty(), "{what}: elements were cloned: {:?}{}", &log[..log.len().min(8)], if shared { "" } else { " (nothing is shared)" });
    Ok(())
}

fn run<S: Sub<E>>(case: &Case, cx: &mut Cx) -> R {
    elem::track();
    let conf = Conf::decode(case.c(2), case.c(3), case.c(4), case.c(5));
    let max_bulk = [8, 40, 150, 1200][case.c(6) as usize % 4];
    let mut tag = 0;
    let mut vs: Vec<(S, M)> = vec![(S::empty(&conf), S::model(&conf))];
    let (mut deleted, mut shared_steps) = (0u32, 0u32);
    for (k, op) in case.ops.iter().enumerate() {
        let n = vs.len();
        let i = (op[3] >> 16) as usize % n;
        let act = decode(S::KIND, &[op[0], op[1], op[2], op[2] >> 16], &vs[i].1, &conf, &mut tag, max_bulk);
        elem::take_clone_log();
        let len0 = vs[i].1.len();
        let what = |i: usize| format!("{} step {k}, version {i}, {act:?}", S::NAME);
        match op[3] % 16 {
            0..=4 => {
                let r = vs[i].0.act_ref(&vs[i].1, &act, &conf)?;
                check_clones(&format!("{} (persistent)", what(i)), vec![], false)?;
                if let Some(x) = r {
                    deleted += u32::from(x.1.len() < len0);
                    shared_steps += 1;
                    cx.log(|| format!("{k}: v{n} = v{i}.{act:?} -> {}", x.1.brief()));
                    // sometimes replacing the version it came from
                    if op[1] % 3 == 0 { vs[i] = x } else { vs.push(x) }
                }
            }
            5..=7 => {
                let (mut s, mut m) = vs[i].clone();
                let allowed = may_clone(S::NAME, &act, &m);
                s.act_mut(&mut m, &act, &conf)?;
                check_clones(&format!("{} (clone, in place)", what(i)), allowed, true)?;
                shared_steps += 1;
                deleted += u32::from(m.len() < len0);
                cx.log(|| format!("{k}: v{n} = clone of v{i}, in place {act:?} -> {}", m.brief()));
                vs.push((s, m));
            }
            8..=11 => {
                let allowed = may_clone(S::NAME, &act, &vs[i].1);
                let mine = entry_uids(&vs[i].0, &act);
                let shared = !mine.is_empty() && {
                    let others = uids(vs.iter().enumerate().filter(|x| x.0 != i).map(|x| x.1));
                    mine.iter().any(|u| others.contains(u))
                };
                let (s, m) = &mut vs[i];
                s.act_mut(m, &act, &conf)?;
                check_clones(&format!("{} (in place)", what(i)), allowed, shared)?;
                deleted += u32::from(m.len() < len0);
                cx.log(|| format!("{k}: v{i} in place {act:?} -> {}", m.brief()));
            }
            12 | 13 => {
                if n > 1 {
                    vs.swap_remove(i);
                    cx.log(|| format!("{k}: drop v{i}"));
                } else if op[1] % 4 == 0 {
                    vs[0] = (S::empty(&conf), S::model(&conf));
                    cx.log(|| format!("{k}: v0 = empty"));
                }
            }
            14 => {
                let j = op[1] as usize % n;
                if op[2] % 2 == 0 && j != i {
                    let (from, to) = two(&mut vs, i, j);
                    to.0.clone_from(&from.0);
                    to.1 = from.1.clone();
                    cx.log(|| format!("{k}: v{j} becomes a clone of v{i}"));
                } else {
                    let c = vs[i].clone();
                    vs.push(c);
                    cx.log(|| format!("{k}: v{n} = clone of v{i}"));
                }
                check_clones(&format!("{} clone", S::NAME), vec![], false)?;
            }
            _ => {
                // observation only
                let (s, m) = &vs[i];
                s.verify(m, &conf, true)?;
                std::hint::black_box(s.debug());
                check_clones(&format!("{} reading", S::NAME), vec![], false)?;
            }
        }
        while vs.len() > 10 || (vs.len() > 2 && vs.iter().map(|v| v.1.len()).sum::<usize>() > 4000) {
            let j = op[1] as usize % vs.len();
            vs.swap_remove(j);
        }
        let total = vs.iter().map(|v| v.1.len()).sum::<usize>();
        if total < 300 || k % 4 == 0 || k + 1 == case.ops.len() {
            compare(&vs).map_err(|e| format!("after step {k}: {e}"))?;
            cx.checks += 1;
        }
    }
    // drop the versions one by one, in a generated order
    let mut j = case.c(7);
    while !vs.is_empty() {
        j = j.wrapping_mul(0x9E37_79B1).wrapping_add(7);
        let i = (j >> 8) as usize % vs.len();
        vs.swap_remove(i);
        compare(&vs).map_err(|e| format!("dropping the versions at the end: {e}"))?;
    }
    ensure!(elem::live_count() == 0, "{}: {} elements leaked", S::NAME, elem::live_count());
    cx.label(S::NAME);
    if deleted > 0 && shared_steps > 0 {
        cx.nontrivial = true;
    }
    Ok(())
}

impl Check for C {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "A case is a structure (8), pointer kind (3), configuration and a history over up to ten versions (persistent, clone + in place, in place, drop, clone, clone_from, read). Every element object carries an identity; after the steps the set of live identities must equal the set of those reached by iterating all live versions, and the log of element clones must be empty except for the entry given out mutably while shared. Non-trivial: elements were deleted and versions shared nodes."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["iteration reaches every element (C02..C06)"]
    }
    fn budget(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 300_000,
            Tier::Thorough => 4_000_000,
        }
    }
    fn generate(&self, r: &mut Rng, i: u64, _: Tier) -> Case {
        let bulk = if i % 150 < 8 { 3 } else { r.weighted(&[6, 4, 1]) };
        let cfg = vec![(i % 8) as u32, r.below(3), r.below(6), r.below(12), r.u32() & 0xFFFF, r.below(8), bulk, r.u32()];
        let n = if bulk == 3 { r.range(2, 8) } else { r.range(1, 50) };
        let mut ops = vec![];
        let mut w = [8, 4, 3, 3, 1, 1, 0, 0];
        for j in 0..n {
            if j % 10 == 0 {
                w = [r.range(1, 10), r.range(1, 10), r.range(0, 6), r.range(0, 6), r.range(0, 3), r.range(0, 2), r.below(2), r.below(2)];
            }
            ops.push([r.weighted(&w), r.u32(), r.u32(), r.u32()]);
        }
        Case { cfg, ops }
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        match c.c(1) % 3 {
            0 => with_sub!(c.c(0), E, RcK, S => run::<S>(c, cx)),
            1 => with_sub!(c.c(0), E, ArcTK, S => run::<S>(c, cx)),
            _ => with_sub!(c.c(0), E, ArcK, S => run::<S>(c, cx)),
        }
    }
}
