//! Model-based histories of one structure (C02..C06): a current version, some aliases which make it shared, and the
//! model next to it.
use crate::elem::E;
use crate::engine::*;
use crate::subj::*;

pub const BULKS: [u32; 6] = [3, 12, 80, 400, 3000, 40_000];

/// cfg: 0 selector, 1 pointer kind, 2 degree, 3 bits, 4 hash, 5 universe, 6 bulk class, 7 initial size, 8 initial form.
pub fn run<S: Sub<E>>(case: &Case, cx: &mut Cx) -> R {
    let conf = Conf::decode(case.c(2), case.c(3), case.c(4), case.c(5));
    let max_bulk = BULKS[case.c(6) as usize % BULKS.len()];
    let mut tag = 0;
    let mut cur: (S, M) = (S::empty(&conf), S::model(&conf));
    let n0 = case.c(7).min(2_200_000);
    if n0 > 0 {
        let act = if case.c(8) % 2 == 0 {
            Act::BulkAdd { n: n0, start: case.c(8) / 2, tag: 0 }
        } else {
            Act::Extend { n: n0, start: case.c(8) / 2, tag: 0 }
        };
        cur.0.act_mut(&mut cur.1, &act, &conf)?;
        cx.log(|| format!("start: {act:?} -> {}", cur.1.brief()));
        cur.0.verify(&cur.1, &conf, n0 < 100_000).map_err(|e| format!("after the initial filling: {e}"))?;
    }
    let mut aliases: Vec<(S, M)> = vec![];
    let (mut grew, mut shrank, mut modified, mut shared) = (0u32, 0u32, 0u32, 0u32);
    for (k, op) in case.ops.iter().enumerate() {
        let act = decode(S::KIND, &[op[0], op[1], op[2], op[2] >> 12], &cur.1, &conf, &mut tag, max_bulk);
        let how = op[3] % 16;
        let before = cur.1.len();
        match how {
            0..=3 => {
                if let Some(x) = cur.0.act_ref(&cur.1, &act, &conf)? {
                    cur = x;
                }
                cx.log(|| format!("{k}: persistent {act:?} -> {}", cur.1.brief()));
            }
            4..=5 => {
                if let Some(x) = cur.0.act_ref(&cur.1, &act, &conf)? {
                    let old = std::mem::replace(&mut cur, x);
                    aliases.push(old);
                    shared += 1;
                }
                cx.log(|| format!("{k}: persistent {act:?}, old version kept -> {}", cur.1.brief()));
            }
            6..=12 => {
                cur.0.act_mut(&mut cur.1, &act, &conf)?;
                cx.log(|| format!("{k}: in place {act:?} -> {}", cur.1.brief()));
            }
            13 => {
                shared += 1;
                if op[2] % 12 == 9 {
                    // clone_from onto a structure made with other parameters and another hasher
                    let c2 = Conf::decode(op[2] >> 4, op[2] >> 8, op[1] & 0xFFFF, op[2] >> 12);
                    let mut other: (S, M) = (S::empty(&c2), S::model(&c2));
                    other.0.act_mut(&mut other.1, &Act::BulkAdd { n: op[1] >> 16 & 15, start: op[1] >> 20, tag: 0 }, &c2)?;
                    other.0.clone_from(&cur.0);
                    other.1 = cur.1.clone();
                    if op[2] >> 16 & 1 == 0 {
                        std::mem::swap(&mut cur, &mut other);
                    }
                    if op[2] >> 17 & 1 == 0 {
                        aliases.push(other);
                    }
                    cx.log(|| format!("{k}: clone_from onto a structure with other parameters"));
                } else if op[2] % 3 == 0 && !aliases.is_empty() {
                    let n = aliases.len();
                    let a = &mut aliases[op[1] as usize % n];
                    if op[2] % 2 == 0 {
                        a.0.clone_from(&cur.0);
                        a.1 = cur.1.clone();
                        cx.log(|| format!("{k}: a kept version becomes a clone"));
                    } else {
                        cur.0.clone_from(&a.0);
                        cur.1 = a.1.clone();
                        cx.log(|| format!("{k}: becomes a clone of a kept version: {}", cur.1.brief()));
                    }
                } else {
                    aliases.push(cur.clone());
                    cx.log(|| format!("{k}: keep a clone"));
                }
            }
            14 => {
                if !aliases.is_empty() {
                    let i = op[1] as usize % aliases.len();
                    aliases.swap_remove(i);
                    cx.log(|| format!("{k}: drop kept version {i}"));
                }
            }
            _ => {
                if !aliases.is_empty() {
                    let i = op[1] as usize % aliases.len();
                    std::mem::swap(&mut cur, &mut aliases[i]);
                    cx.log(|| format!("{k}: continue on kept version {i}: {}", cur.1.brief()));
                }
            }
        }
        if aliases.len() > 6 {
            aliases.remove(0);
        }
        let after = cur.1.len();
        grew += u32::from(after > before);
        shrank += u32::from(after < before);
        modified += u32::from(matches!(act, Act::Mod { .. } | Act::Mod2 { .. }));
        let full = after <= 64 || (after <= 20_000 && k % 5 == 0) || k + 1 == case.ops.len();
        if after <= 20_000 || k % 4 == 0 || k + 1 == case.ops.len() {
            cur.0.verify(&cur.1, &conf, full).map_err(|e| format!("after step {k} ({act:?}): {e}"))?;
            cx.checks += 1;
        }
    }
    if grew > 0 && shrank > 0 && (modified > 0 || shared > 0) {
        cx.nontrivial = true;
    }
    cx.label(S::NAME);
    if cur.1.len() > 1000 {
        cx.label("final size above 1000");
    }
    if shared > 0 {
        cx.label("shared with another version");
    }
    Ok(())
}

/// Operation sequence in phases with different biases.
pub fn gen_ops(r: &mut Rng, n: u32) -> Vec<Op> {
    let mut ops = vec![];
    let mut w = [8, 4, 3, 3, 1, 1, 1, 1];
    let mut hows = [1u32; 16];
    let period = r.range(4, 25);
    for j in 0..n {
        if j % period == 0 {
            w = [r.range(0, 10), r.range(0, 10), r.range(0, 6), r.range(0, 6), r.range(0, 3), r.range(0, 3), r.below(2), r.below(2)];
            if w.iter().sum::<u32>() == 0 {
                w[0] = 1;
            }
            let c = r.below(4);
            for (i, h) in hows.iter_mut().enumerate() {
                *h = match (c, i) {
                    (0, 6..=12) => 3,
                    (0, _) => 0,
                    (1, 0..=5) => 3,
                    (1, _) => 0,
                    _ => 1,
                };
            }
        }
        ops.push([r.weighted(&w), r.u32(), r.u32(), r.weighted(&hows)]);
    }
    ops
}
