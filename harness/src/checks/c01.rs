//! C01: old versions never change.
use archery::{ArcK, ArcTK, RcK};
use rv::elem::E;
use rv::engine::*;
use rv::ensure;
use rv::subj::*;
use rv::with_sub;

pub struct C;

/// Reads a version through an iterator while other things happen in between.
fn run<S: Sub<E>>(case: &Case, cx: &mut Cx) -> R {
    let conf = Conf::decode(case.c(2), case.c(3), case.c(4), case.c(5));
    let max_bulk = [40, 8, 300, 1500][case.c(6) as usize % 4];
    let mut tag = 0;
    let mut vs: Vec<(S, M)> = vec![(S::empty(&conf), S::model(&conf))];
    let mut created = 0;
    let mut k = 0;
    steps::<S>(case, &conf, max_bulk, &mut tag, &mut vs, &mut k, cx, 0, &mut created)?;
    for (i, (v, m)) in vs.iter().enumerate() {
        v.verify(m, &conf, true).map_err(|e| format!("at the end, version {i} changed: {e}"))?;
        cx.checks += 1;
    }
    if created >= 3 {
        cx.nontrivial = true;
    }
    cx.label(S::NAME);
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn steps<S: Sub<E>>(case: &Case, conf: &Conf, max_bulk: u32, tag: &mut u32, vs: &mut Vec<(S, M)>, k: &mut usize, cx: &mut Cx, depth: u32, created: &mut u32) -> R {
    let end = if depth == 0 { case.ops.len() } else { (*k + 6).min(case.ops.len()) };
    while *k < end {
        let op = case.ops[*k];
        *k += 1;
        let n = vs.len();
        let i = (op[3] >> 16) as usize % n;
        let how = op[3] % 16;
        let act = decode(S::KIND, &[op[0], op[1], op[2], op[2] >> 16], &vs[i].1, conf, tag, max_bulk);
        let mut touched = i;
        match how {
            // persistent operation makes a new version
            0..=5 => {
                if let Some((s, m)) = vs[i].0.act_ref(&vs[i].1, &act, conf)? {
                    cx.log(|| format!("v{} = v{i}.{act:?} -> {}", n, m.brief()));
                    vs.push((s, m));
                    touched = n;
                    *created += 1;
                }
            }
            // clone, then in place
            6..=9 => {
                let (mut s, mut m) = vs[i].clone();
                s.act_mut(&mut m, &act, conf)?;
                cx.log(|| format!("v{n} = clone of v{i}, in place {act:?} -> {}", m.brief()));
                vs.push((s, m));
                touched = n;
                *created += 1;
            }
            // in place on the version itself: the others must not notice
            10..=12 => {
                let (s, m) = &mut vs[i];
                s.act_mut(m, &act, conf)?;
                cx.log(|| format!("v{i} in place {act:?} -> {}", m.brief()));
            }
            // drop a version
            13 => {
                if n > 1 {
                    vs.swap_remove(i);
                    cx.log(|| format!("drop v{i} (v{} takes its number)", n - 1));
                    touched = 0;
                }
            }
            // hold an iterator half way over a version while others are worked on
            14 => {
                if depth < 2 {
                    let (held, hm) = vs[i].clone();
                    cx.log(|| format!("iterate over v{i} {{"));
                    let mut got: Vec<(u32, u32, Option<(u32, u32)>)> = vec![];
                    let mut res: R = Ok(());
                    let half = op[1] as usize % (hm.len() + 1);
                    let mut seen = 0;
                    {
                        let mut f = |x: &E, v: Option<&E>| {
                            if seen == half && res.is_ok() {
                                res = steps::<S>(case, conf, max_bulk, tag, vs, k, cx, depth + 1, created);
                            }
                            seen += 1;
                            got.push((x.id, x.tag, v.map(|v| (v.id, v.tag))));
                        };
                        held.each(&mut f);
                    }
                    res?;
                    cx.log(|| "}".to_string());
                    let mut again = vec![];
                    held.each(&mut |x, v| again.push((x.id, x.tag, v.map(|v| (v.id, v.tag)))));
                    ensure!(got == again, "an iterator over an unchanged version yielded {got:?}, a fresh one {again:?}");
                    held.verify(&hm, conf, true)?;
                    touched = 0;
                }
            }
            // keep only an alias
            _ => {
                let j = op[1] as usize % n;
                if op[2] % 2 == 0 && j != i {
                    let (from, to) = two(vs, i, j);
                    to.0.clone_from(&from.0);
                    to.1 = from.1.clone();
                    cx.log(|| format!("v{j} becomes a clone of v{i}"));
                    touched = j;
                } else {
                    let c = vs[i].clone();
                    vs.push(c);
                    touched = n;
                }
            }
        }
        if vs.len() > 24 {
            let j = 1 + (op[1] as usize % (vs.len() - 1));
            vs.swap_remove(j);
            touched = 0;
        }
        // every version is as it was
        let big = vs.iter().map(|v| v.1.len()).sum::<usize>() > 3000;
        for (j, (v, m)) in vs.iter().enumerate() {
            if big && j != touched && (j + *k) % 7 != 0 {
                continue;
            }
            v.verify(m, conf, j == touched || (j + *k) % 5 == 0)
                .map_err(|e| format!("after step {} version {j}{} is wrong: {e}", *k - 1, if j == touched { " (just made)" } else { " (not touched)" }))?;
            cx.checks += 1;
        }
    }
    Ok(())
}

impl Check for C {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "A case is a structure (8), pointer kind (3), degree, bits, hash function, key universe and a sequence of steps over an arena of versions: persistent operation, clone + in-place operation, in-place operation, drop, alias, clone_from, iterator held across further steps. After each step every version is compared with its own model. Non-trivial: at least three derived versions were created."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["element Eq/Ord/Hash are consistent and deterministic"]
    }
    fn budget(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 150_000,
            Tier::Thorough => 3_000_000,
        }
    }
    fn generate(&self, r: &mut Rng, i: u64, _: Tier) -> Case {
        let bulk = if (i / 8) % 50 == 0 { 3 } else { r.weighted(&[6, 6, 1]) };
        let cfg = vec![(i % 8) as u32, r.below(3), r.below(6), r.below(12), r.u32() & 0xFFFF, r.below(8), bulk];
        let n = if bulk == 3 { r.range(4, 12) } else { r.range(1, 60) };
        // phases with different biases
        let mut ops = vec![];
        let mut w = [8, 4, 3, 3, 1, 1, 0, 0];
        for j in 0..n {
            if j % 12 == 0 {
                w = [r.range(1, 10), r.range(1, 10), r.range(0, 6), r.range(0, 6), r.range(0, 3), r.range(0, 2), r.below(2), r.below(2)];
            }
            ops.push([r.weighted(&w), r.u32(), r.u32(), r.u32()]);
        }
        Case { cfg, ops }
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        match c.c(1) % 3 {
            0 => with_sub!(c.c(0), E, RcK, S => run::<S>(c, cx)),
            1 => with_sub!(c.c(0), E, ArcTK, S => run::<S>(c, cx)),
            _ => with_sub!(c.c(0), E, ArcK, S => run::<S>(c, cx)),
        }
    }
}
