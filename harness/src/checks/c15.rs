//! C15: operations cost what the documentation says.
use rpds::*;
use rv::alloc;
use rv::elem::{self, E, TH};
use rv::engine::*;
use rv::ensure;
use rv::ptrs::{self, CountK};
use rv::subj::*;
use rv::with_sub;
use std::hint::black_box;

pub struct C;

/// Pointer operations made by `f`.
fn cost<X>(f: impl FnOnce() -> X) -> (X, u64) {
    let b = ptrs::counts();
    let x = f();
    (x, ptrs::counts().minus(&b).work())
}

/// Pointer operations made by `f`, plus one per 32 bytes of memory it takes.
fn mcost<X>(f: impl FnOnce() -> X) -> (X, u64) {
    alloc::start();
    let (x, c) = cost(f);
    (x, c + alloc::usage().peak as u64 / 32)
}

trait Reads: Sub<E> {
    /// (operation, cost) of the reads that are documented to be at most logarithmic.
    fn reads(&self, _k: u32, _out: &mut Vec<(&'static str, u64)>) {}
    /// (operation, cost) of the constant ones.
    fn consts(&self, out: &mut Vec<(&'static str, u64)>);
    /// Cost of a full iteration, and the largest cost of the creation or one step where that is bounded.
    fn walk(&self) -> (u64, u64);
    /// A linear operation, with its cost.
    fn linear(&mut self) -> Option<(&'static str, u64)> {
        None
    }
}

macro_rules! c {
    ($out:ident, $n:literal, $e:expr) => {
        $out.push(($n, mcost(|| drop(black_box($e))).1))
    };
}

fn steps<I: Iterator>(make: impl FnOnce() -> I) -> (u64, u64) {
    let (mut it, c0) = mcost(make);
    let (mut total, mut worst) = (c0, c0);
    loop {
        let (x, c) = mcost(|| it.next());
        total += c;
        worst = worst.max(c);
        if x.is_none() {
            break;
        }
    }
    (total, worst)
}

impl Reads for List<E, CountK> {
    fn consts(&self, o: &mut Vec<(&'static str, u64)>) {
        c!(o, "len", self.len());
        c!(o, "is_empty", self.is_empty());
        c!(o, "first", self.first());
        c!(o, "last", self.last());
        c!(o, "iter", self.iter());
    }
    fn walk(&self) -> (u64, u64) {
        steps(|| self.iter())
    }
    fn linear(&mut self) -> Option<(&'static str, u64)> {
        let (r, c) = cost(|| self.reverse());
        let (_, d) = cost(|| self.reverse_mut());
        *self = r;
        Some(("reverse and reverse_mut", c + d))
    }
}
impl Reads for Stack<E, CountK> {
    fn consts(&self, o: &mut Vec<(&'static str, u64)>) {
        c!(o, "size", self.size());
        c!(o, "is_empty", self.is_empty());
        c!(o, "peek", self.peek());
        c!(o, "iter", self.iter());
    }
    fn walk(&self) -> (u64, u64) {
        steps(|| self.iter())
    }
}
impl Reads for Queue<E, CountK> {
    fn consts(&self, o: &mut Vec<(&'static str, u64)>) {
        c!(o, "len", self.len());
        c!(o, "is_empty", self.is_empty());
        c!(o, "peek", self.peek());
        c!(o, "iter", self.iter());
    }
    fn walk(&self) -> (u64, u64) {
        (steps(|| self.iter()).0, 0)
    }
}
impl Reads for Vector<E, CountK> {
    fn reads(&self, k: u32, o: &mut Vec<(&'static str, u64)>) {
        let i = k as usize % (self.len() + 1);
        c!(o, "get", self.get(i).is_some());
        c!(o, "first", self.first());
        c!(o, "last", self.last());
    }
    fn consts(&self, o: &mut Vec<(&'static str, u64)>) {
        c!(o, "len", self.len());
        c!(o, "is_empty", self.is_empty());
        c!(o, "iter", self.iter());
    }
    fn walk(&self) -> (u64, u64) {
        let (a, b) = steps(|| self.iter());
        let (c, d) = steps(|| self.iter().rev());
        (a.max(c), b.max(d))
    }
}
impl Reads for HashTrieMap<E, E, CountK, TH> {
    fn reads(&self, k: u32, o: &mut Vec<(&'static str, u64)>) {
        c!(o, "iter", self.iter());
        c!(o, "keys and a step", self.keys().next());
        c!(o, "values and a step", self.values().next());
        c!(o, "get", self.get(&k).is_some());
        c!(o, "get_key_value", self.get_key_value(&k).is_some());
        c!(o, "contains_key", self.contains_key(&k));
    }
    fn consts(&self, o: &mut Vec<(&'static str, u64)>) {
        c!(o, "size", self.size());
        c!(o, "is_empty", self.is_empty());
    }
    fn walk(&self) -> (u64, u64) {
        let (a, b) = steps(|| self.iter());
        let (c, d) = steps(|| self.values());
        (a.max(c), b.max(d))
    }
}
impl Reads for HashTrieSet<E, CountK, TH> {
    fn reads(&self, k: u32, o: &mut Vec<(&'static str, u64)>) {
        c!(o, "iter and a step", self.iter().next());
        c!(o, "get", self.get(&k).is_some());
        c!(o, "contains", self.contains(&k));
    }
    fn consts(&self, o: &mut Vec<(&'static str, u64)>) {
        c!(o, "size", self.size());
        c!(o, "is_empty", self.is_empty());
    }
    fn walk(&self) -> (u64, u64) {
        steps(|| self.iter())
    }
}
impl Reads for RedBlackTreeMap<E, E, CountK> {
    fn reads(&self, k: u32, o: &mut Vec<(&'static str, u64)>) {
        c!(o, "iter", self.iter());
        c!(o, "keys and a step", self.keys().next());
        c!(o, "values and a step", self.values().next());
        c!(o, "get", self.get(&k).is_some());
        c!(o, "get_key_value", self.get_key_value(&k).is_some());
        c!(o, "contains_key", self.contains_key(&k));
        c!(o, "first", self.first());
        c!(o, "last", self.last());
        c!(o, "range and two steps", self.range(k..).nth(1));
        c!(o, "range and a step back", self.range(..k).next_back());
        c!(o, "range with both bounds", self.range(k..k.saturating_add(1)).next());
    }
    fn consts(&self, o: &mut Vec<(&'static str, u64)>) {
        c!(o, "size", self.size());
        c!(o, "is_empty", self.is_empty());
    }
    fn walk(&self) -> (u64, u64) {
        let (a, b) = steps(|| self.iter());
        let (c, d) = steps(|| self.iter().rev());
        let (e, f) = steps(|| self.range::<u32, _>(..));
        (a.max(c).max(e), b.max(d).max(f))
    }
}
impl Reads for RedBlackTreeSet<E, CountK> {
    fn reads(&self, k: u32, o: &mut Vec<(&'static str, u64)>) {
        c!(o, "iter and a step", self.iter().next());
        c!(o, "get", self.get(&k).is_some());
        c!(o, "contains", self.contains(&k));
        c!(o, "first", self.first());
        c!(o, "last", self.last());
        c!(o, "range and two steps", self.range(k..).nth(1));
        c!(o, "range and a step back", self.range(..k).next_back());
    }
    fn consts(&self, o: &mut Vec<(&'static str, u64)>) {
        c!(o, "size", self.size());
        c!(o, "is_empty", self.is_empty());
    }
    fn walk(&self) -> (u64, u64) {
        let (a, b) = steps(|| self.iter());
        let (c, d) = steps(|| self.iter().rev());
        (a.max(c), b.max(d))
    }
}

const CONST: u64 = 24;

/// Pointer operations allowed for an update or lookup in `n` elements.
fn limit<S: Sub<E>>(n: usize, conf: &Conf) -> u64 {
    let lg = ((n + 2) as f64).log2();
    match S::NAME {
        "List" | "Stack" | "Queue" => CONST,
        "Vector" => {
            // whoever collects gets the default number of bits
            let one = |bits: u8| {
                let b = f64::from(bits);
                ((lg / b).ceil() + 2.0) * ((n as f64).min(b.exp2()) + 8.0) * 3.0
            };
            one(conf.bits).max(one(5)) as u64
        }
        "HashTrieMap" | "HashTrieSet" => {
            let one = |deg: u8| {
                let d = f64::from(deg);
                (2.0 * lg / d.log2() + 4.0) * ((n as f64).min(d) + 8.0) * 3.0
            };
            one(conf.degree).max(one(64)) as u64
        }
        _ => (100.0 * (lg + 1.0)) as u64,
    }
}

/// Pointer operations allowed for a lookup in `n` elements.
fn read_limit<S: Sub<E>>(n: usize, conf: &Conf) -> u64 {
    let lg = ((n + 2) as f64).log2();
    match S::NAME {
        "List" | "Stack" | "Queue" => CONST,
        "Vector" => (12.0 * (lg / f64::from(conf.bits.min(5)) + 4.0)) as u64,
        "HashTrieMap" | "HashTrieSet" => (12.0 * (2.0 * lg / f64::from(conf.degree).log2() + 4.0)) as u64,
        _ => (16.0 * (lg + 3.0)) as u64,
    }
}

fn run<S: Reads>(case: &Case, cx: &mut Cx) -> R {
    elem::set_fuel(1_000_000_000);
    // a hash function that spreads well
    let mut conf = Conf::decode(case.c(2), case.c(3), 0, 7);
    conf.hash.seed = u64::from(case.c(4));
    let n0 = case.c(1);
    let mut tag = 0;
    let mut cur = (S::empty(&conf), S::model(&conf));
    match case.c(5) % 3 {
        0 => cur.0.act_mut(&mut cur.1, &Act::BulkAdd { n: n0, start: case.c(6), tag: 0 }, &conf)?,
        1 => cur.0.act_mut(&mut cur.1, &Act::Extend { n: n0, start: case.c(6), tag: 0 }, &conf)?,
        _ => {
            let half = n0 / 2;
            cur.0.act_mut(&mut cur.1, &Act::BulkAdd { n: half, start: case.c(6), tag: 0 }, &conf)?;
            if let Some(x) = cur.0.act_ref(&cur.1, &Act::BulkAdd { n: n0 - half, start: case.c(6).wrapping_add(half), tag: 0 }, &conf)? {
                cur = x;
            }
        }
    }
    let mut kept: Vec<(S, M)> = vec![];
    let queue = S::NAME == "Queue";
    // potential for the amortised cost of the queue: each element is moved once
    let mut budget = 40 * u64::from(n0) + 200;
    let mut measured = 0u32;
    for (k, op) in case.ops.iter().enumerate() {
        let n = cur.1.len();
        let lim = limit::<S>(n, &conf);
        let rlim = read_limit::<S>(n, &conf);
        let act = decode(S::KIND, &[op[0], op[1], op[2], op[2]], &cur.1, &conf, &mut tag, 3000);
        let bulk = matches!(act, Act::BulkAdd { .. } | Act::BulkDel { .. } | Act::Rebuild | Act::Extend { .. });
        let reverse = S::NAME == "List" && matches!(act, Act::Mod { .. } | Act::Mod2 { .. });
        let must_panic = S::NAME == "Vector" && matches!(act, Act::Mod2 { id, .. } if id as usize >= n);
        let what = |how: &str| format!("{}: step {k}, {how} {act:?} on {n} elements", S::NAME);
        if bulk || must_panic {
            cur.0.act_mut(&mut cur.1, &act, &conf)?;
            budget += 40 * 3000;
            continue;
        }
        let lim = if reverse { 40 * (n as u64 + 4) } else { lim };
        let e0 = elem::eqs();
        match op[3] % 6 {
            // persistent, the old version stays
            0 | 1 => {
                let (r, c) = cost(|| cur.0.act_ref(&cur.1, &act, &conf));
                if let Some(x) = r? {
                    if queue {
                        let old = std::mem::replace(&mut cur, x);
                        // only the line of latest versions is in the budget
                        budget += 80;
                        ensure!(c <= budget, "{} takes {c} pointer operations, more than was saved up by the operations before", what("persistent"));
                        budget -= c;
                        kept.push(old);
                    } else {
                        ensure!(c <= lim, "{} takes {c} pointer operations (limit {lim})", what("persistent"));
                        kept.push(std::mem::replace(&mut cur, x));
                    }
                    measured += 1;
                }
            }
            // in place, alone or shared
            2 | 3 => {
                if op[3] % 6 == 2 {
                    kept.push(cur.clone());
                }
                let (r, c) = cost(|| cur.0.act_mut(&mut cur.1, &act, &conf));
                r?;
                if queue {
                    budget += 80;
                    ensure!(c <= budget, "{} takes {c} pointer operations, more than was saved up by the operations before", what("in place"));
                    budget -= c;
                } else {
                    ensure!(c <= lim, "{} takes {c} pointer operations (limit {lim})", what("in place"));
                }
                measured += 1;
            }
            4 => {
                let ((a, _), c) = cost(|| (cur.0.clone(), ()));
                ensure!(c <= CONST, "{}: cloning {n} elements takes {c} pointer operations", S::NAME);
                let (_, c) = cost(|| drop(a));
                ensure!(c <= CONST, "{}: dropping a clone of {n} elements takes {c} pointer operations", S::NAME);
                let (e, c) = cost(|| S::empty(&conf));
                ensure!(c <= CONST, "{}: an empty structure takes {c} pointer operations", S::NAME);
                drop(e);
            }
            _ => {
                let mut out = vec![];
                cur.0.consts(&mut out);
                for (w, c) in out.drain(..) {
                    ensure!(c <= CONST, "{}::{w} on {n} elements takes {c} pointer operations", S::NAME);
                }
                for j in 0..4u32 {
                    let key = match &cur.1 {
                        M::Map(m) if j % 2 == 0 => m.range((op[1] ^ j)..).next().map_or(0, |x| *x.0),
                        _ => mix(u64::from(op[1] + j)) as u32,
                    };
                    cur.0.reads(key, &mut out);
                    for (w, c) in out.drain(..) {
                        ensure!(c <= rlim, "{}::{w} on {n} elements takes {c} pointer operations (limit {rlim})", S::NAME);
                    }
                }
                let (total, worst) = cur.0.walk();
                ensure!(total <= 40 * (n as u64 + 12), "{}: iterating over {n} elements takes {total} pointer operations", S::NAME);
                ensure!(worst <= 3 * rlim, "{}: one step of an iterator over {n} elements takes {worst} pointer operations", S::NAME);
                if let Some((w, c)) = cur.0.linear() {
                    ensure!(c <= 80 * (n as u64 + 4), "{}::{w} on {n} elements takes {c} pointer operations", S::NAME);
                    cur.0.linear();
                }
                measured += 1;
            }
        }
        if S::NAME.starts_with("Hash") && op[3] % 6 != 4 {
            let eqs = elem::eqs() - e0;
            ensure!(eqs <= 60, "{}: {} compares keys {eqs} times", S::NAME, what("step"));
        }
        if kept.len() > 5 {
            kept.remove(0);
        }
        cx.checks += 1;
        cx.log(|| format!("{k}: {act:?} ({}) on {n} elements", op[3] % 6));
    }
    if queue {
        // draining
        let n = cur.1.len();
        let (r, c) = cost(|| cur.0.act_mut(&mut cur.1, &Act::BulkDel { n: n as u32, from: 0 }, &conf));
        r?;
        ensure!(c <= budget + 80 * n as u64, "Queue: draining {n} elements takes {c} pointer operations");
    }
    cx.label(S::NAME);
    if n0 >= 1000 && measured >= 5 {
        cx.nontrivial = true;
    }
    Ok(())
}

impl Check for C {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "A case is a structure (8) over a counting pointer kind, a size up to tens of thousands, a way of building it and a sequence of single operations (persistent, in place, shared and not), clones, reads, iterations. The pointer operations (allocations, releases, reference counts, dereferences) of each are counted and compared with a bound that is several times what the documented complexity needs and far below a walk or copy of the structure. Non-trivial: at least 1000 elements and 5 measured operations."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["work shows as operations of the shared-pointer kind", "keys are hashed with a well-spread function"]
    }
    fn budget(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 6000,
            Tier::Thorough => 300_000,
        }
    }
    fn generate(&self, r: &mut Rng, i: u64, tier: Tier) -> Case {
        let max = if tier == Tier::Thorough && mix(i) % 40 == 0 { 400_000 } else { 20_000 };
        let n0 = if r.chance(4, 5) { r.range(1000, max) } else { r.skewed(1000) };
        let bits = if r.chance(1, 2) { 0 } else { r.below(8) };
        let cfg = vec![(i % 8) as u32, n0, r.below(6), bits, r.u32(), r.u32(), r.u32()];
        let n = r.range(5, 60);
        let w = [r.range(1, 6), r.range(1, 6), r.range(1, 4), r.range(1, 4), r.below(2), r.below(2), 0, r.below(2)];
        let h = [r.range(1, 4), 1, r.range(1, 4), r.range(1, 4), 1, r.below(2)];
        let ops = (0..n).map(|_| [r.weighted(&w), r.u32(), r.u32(), r.weighted(&h)]).collect();
        Case { cfg, ops }
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        with_sub!(c.c(0), E, CountK, S => run::<S>(c, cx))
    }
}
