//! C22: the memory footprint does not depend on the history.
use rv::elem::E;
use rv::engine::*;
use rv::ensure;
use rv::ptrs::{self, CountK};
use rv::subj::*;
use rv::with_sub;

pub struct C;

/// Shared nodes held by a structure freshly made from the content.
fn fresh<S: Sub<E>>(m: &M, conf: &Conf) -> Result<i64, String> {
    let l0 = ptrs::live();
    let mut s = S::empty(conf);
    let mut n = S::model(conf);
    match m {
        M::Seq(q) => {
            // in the order in which single additions give the content
            let rev = matches!(S::NAME, "List" | "Stack");
            let ids: Vec<(u32, u32)> = if rev { q.iter().rev().copied().collect() } else { q.iter().copied().collect() };
            for (id, tag) in ids {
                s.act_mut(&mut n, &Act::Add { id, tag, val: 0 }, conf)?;
            }
        }
        M::Map(mm) => {
            for (k, w) in mm {
                s.act_mut(&mut n, &Act::Add { id: *k, tag: w.0, val: w.1 }, conf)?;
            }
        }
    }
    ensure!(n.len() == m.len(), "harness: the fresh structure has another size");
    Ok(ptrs::live() - l0)
}

fn run<S: Sub<E>>(case: &Case, cx: &mut Cx) -> R {
    let conf = Conf::decode(case.c(2), case.c(3), case.c(4), case.c(5));
    let mut max_bulk = [8, 60, 600, 8000][case.c(6) as usize % 4];
    if S::NAME.starts_with("Hash") && !matches!(conf.hash.mode, 0 | 7 | 11) {
        max_bulk = max_bulk.min(300); // colliding keys cost quadratic time
    }
    rv::elem::set_fuel(2_000_000_000);
    let mut tag = 0;
    let l0 = ptrs::live();
    let empty = {
        let s = S::empty(&conf);
        let e = ptrs::live() - l0;
        drop(s);
        e
    };
    let mut cur = (S::empty(&conf), S::model(&conf));
    let mut kept: Vec<(S, M)> = vec![];
    let mut peak = 0;
    let mut checked = 0u32;
    let last = case.ops.len();
    for (k, op) in case.ops.iter().chain(std::iter::once(&[0, 0, 0, 0])).enumerate() {
        if k < last {
            let act = decode(S::KIND, &[op[0], op[1], op[2], op[2] >> 12], &cur.1, &conf, &mut tag, max_bulk);
            match op[3] % 8 {
                0 | 1 => {
                    if let Some(x) = cur.0.act_ref(&cur.1, &act, &conf)? {
                        let old = std::mem::replace(&mut cur, x);
                        if op[1] % 4 == 0 {
                            kept.push(old);
                        }
                    }
                }
                2 => kept.push(cur.clone()),
                3 => {
                    if !kept.is_empty() {
                        let i = op[1] as usize % kept.len();
                        std::mem::swap(&mut kept[i], &mut cur);
                    }
                }
                _ => cur.0.act_mut(&mut cur.1, &act, &conf)?,
            }
            if kept.len() > 4 {
                kept.remove(0);
            }
            peak = peak.max(cur.1.len());
            cx.log(|| format!("{k}: {act:?} ({}) -> {}", op[3] % 8, cur.1.brief()));
        }
        if k == last || (op[3] >> 8) % 4 == 0 {
            // alone
            kept.clear();
            let got = ptrs::live() - l0;
            let want = fresh::<S>(&cur.1, &conf)?;
            cx.checks += 1;
            checked += u32::from(peak > cur.1.len());
            ensure!(4 * got <= 5 * want + 16, "{}: after step {k} {} elements are held in {got} shared nodes, a fresh one takes {want}", S::NAME, cur.1.len());
            if cur.1.is_empty() {
                cx.label("emptied");
                ensure!(got <= empty + 8, "{}: after step {k} an emptied structure holds {got} shared nodes, a new one {empty}", S::NAME);
            }
        }
    }
    drop(cur);
    ensure!(ptrs::live() == l0, "{}: {} shared nodes remain after everything was dropped", S::NAME, ptrs::live() - l0);
    cx.label(S::NAME);
    if checked > 0 && peak >= 10 {
        cx.nontrivial = true;
    }
    Ok(())
}

impl Check for C {
    fn id(&self) -> &'static str {
        "C22"
    }
    fn rule(&self) -> &'static str {
        "A case is a structure (8) over a counting pointer kind, a configuration and a history that grows and shrinks it with kept versions. At generated points all other versions are dropped and the number of live shared nodes is compared with that of a structure built afresh from the same content (at most a quarter more, plus 4; emptied: at most 8 more than a new one). Non-trivial: at least 10 elements at the peak and a comparison after shrinking."
    }
    fn budget(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 120_000,
            Tier::Thorough => 4_000_000,
        }
    }
    fn generate(&self, r: &mut Rng, i: u64, _: Tier) -> Case {
        let bulk = if i % 300 < 8 { 3 } else { r.weighted(&[3, 5, 3]) };
        let cfg = vec![(i % 8) as u32, 0, r.below(6), r.below(12), r.u32() & 0xFFFF, r.below(8), bulk];
        let n = if bulk == 3 { r.range(2, 8) } else { r.range(2, 40) };
        let mut ops = vec![];
        let mut w = [4, 4, 1, 1, 3, 3, 0, 0];
        for j in 0..n {
            if j % 6 == 0 {
                w = [r.range(0, 6), r.range(1, 8), r.range(0, 2), r.range(0, 2), r.range(0, 4), r.range(0, 5), r.below(2), r.below(2)];
            }
            ops.push([r.weighted(&w), r.u32(), r.u32(), r.u32()]);
        }
        Case { cfg, ops }
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        with_sub!(c.c(0), E, CountK, S => run::<S>(c, cx))
    }
}
