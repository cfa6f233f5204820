//! C14: red-black trees stay balanced.
use rpds::{RedBlackTreeMap, RedBlackTreeSet};
use rv::elem::{self, E};
use rv::engine::*;
use rv::ensure;
use rv::ptrs::{self, CountK};
use std::collections::BTreeSet;
use std::ops::Bound;

pub struct C;

trait Tree: Clone {
    const NAME: &'static str;
    fn new() -> Self;
    fn ins_mut(&mut self, k: E);
    fn ins(&self, k: E) -> Self;
    fn del_mut(&mut self, k: &E) -> bool;
    fn del(&self, k: &E) -> Self;
    /// A lookup; several accessors.
    fn look(&self, k: &E, how: u32) -> bool;
    fn ends(&self) -> (Option<u32>, Option<u32>);
    fn count(&self) -> usize;
    /// Takes from a range: `take` elements from the front, `back` from the back.
    fn span(&self, b: (Bound<E>, Bound<E>), take: usize, back: usize) -> (Vec<u32>, Vec<u32>);
}

fn ends<'a>(mut it: impl DoubleEndedIterator<Item = &'a E>, take: usize, back: usize) -> (Vec<u32>, Vec<u32>) {
    let f = (0..take).map_while(|_| it.next().map(|x| x.id)).collect();
    let b = (0..back).map_while(|_| it.next_back().map(|x| x.id)).collect();
    (f, b)
}

impl Tree for RedBlackTreeMap<E, E, CountK> {
    const NAME: &'static str = "RedBlackTreeMap";
    fn new() -> Self {
        RedBlackTreeMap::new_with_ptr_kind()
    }
    fn ins_mut(&mut self, k: E) {
        let v = mk(k.id);
        self.insert_mut(k, v);
    }
    fn ins(&self, k: E) -> Self {
        let v = mk(k.id);
        self.insert(k, v)
    }
    fn del_mut(&mut self, k: &E) -> bool {
        self.remove_mut(k)
    }
    fn del(&self, k: &E) -> Self {
        self.remove(k)
    }
    fn look(&self, k: &E, how: u32) -> bool {
        match how % 4 {
            0 => self.get(k).is_some(),
            1 => self.contains_key(k),
            2 => self.clone().get_mut(k).is_some(),
            _ => self.get_key_value(k).is_some(),
        }
    }
    fn ends(&self) -> (Option<u32>, Option<u32>) {
        (self.first().map(|x| x.0.id), self.last().map(|x| x.0.id))
    }
    fn span(&self, b: (Bound<E>, Bound<E>), take: usize, back: usize) -> (Vec<u32>, Vec<u32>) {
        ends(self.range::<E, _>(b).map(|x| x.0), take, back)
    }
    fn count(&self) -> usize {
        self.size()
    }
}

impl Tree for RedBlackTreeSet<E, CountK> {
    const NAME: &'static str = "RedBlackTreeSet";
    fn new() -> Self {
        RedBlackTreeSet::new_with_ptr_kind()
    }
    fn ins_mut(&mut self, k: E) {
        self.insert_mut(k);
    }
    fn ins(&self, k: E) -> Self {
        self.insert(k)
    }
    fn del_mut(&mut self, k: &E) -> bool {
        self.remove_mut(k)
    }
    fn del(&self, k: &E) -> Self {
        self.remove(k)
    }
    fn look(&self, k: &E, how: u32) -> bool {
        match how % 2 {
            0 => self.get(k).is_some(),
            _ => self.contains(k),
        }
    }
    fn ends(&self) -> (Option<u32>, Option<u32>) {
        (self.first().map(|x| x.id), self.last().map(|x| x.id))
    }
    fn span(&self, b: (Bound<E>, Bound<E>), take: usize, back: usize) -> (Vec<u32>, Vec<u32>) {
        ends(self.range::<E, _>(b), take, back)
    }
    fn count(&self) -> usize {
        self.size()
    }
}

fn mk(id: u32) -> E {
    use rv::elem::Elem;
    E::mk(id, 0)
}

fn log2(n: usize) -> f64 {
    ((n + 1) as f64).log2()
}

/// Limit on distinct keys compared in a tree of `n` entries.
fn limit(n: usize) -> usize {
    (2.0 * log2(n) + 1e-9).floor() as usize
}

/// Limit on comparisons of a range of which `k` elements are taken.
fn range_limit(n: usize, k: usize) -> usize {
    (4.0 * (log2(n) + 2.0) * (k as f64 + 1.0)) as usize + 16
}

/// Limit on pointer operations of one update or end access.
fn work_limit(n: usize) -> u64 {
    (80.0 * (log2(n) + 2.0)) as u64
}

/// Runs `f`, a single operation about key `k` on a tree of `n` entries, and checks what it compared `k` with.
fn measured<X>(what: &str, k: u32, n: usize, f: impl FnOnce() -> X) -> Result<X, String> {
    elem::record(true);
    let x = f();
    let seen = elem::recorded();
    elem::record(false);
    let mut stored: BTreeSet<u32> = BTreeSet::new();
    for (a, b) in &seen {
        if *a != k {
            stored.insert(*a);
        }
        if *b != k {
            stored.insert(*b);
        }
        if *a == k && *b == k {
            stored.insert(k);
        }
    }
    ensure!(stored.len() <= limit(n), "{what} of key {k} in a tree of {n} entries compares with {} distinct stored keys, the limit is {}", stored.len(), limit(n));
    Ok(x)
}

struct St<T: Tree> {
    t: T,
    m: BTreeSet<u32>,
    worst: usize,
}

impl<T: Tree> St<T> {
    fn ins(&mut self, id: u32, persistent: bool) -> R {
        let k = mk(id);
        let n = self.m.len();
        let before = ptrs::counts();
        let kept = persistent.then(|| self.t.clone());
        measured(T::NAME, id, n, || {
            if persistent {
                self.t = self.t.ins(k);
            } else {
                self.t.ins_mut(k);
            }
        })
        .map_err(|e| format!("insertion: {e}"))?;
        let w = ptrs::counts().minus(&before).work();
        ensure!(w <= work_limit(n), "{}: insertion into {n} entries takes {w} pointer operations", T::NAME);
        drop(kept);
        self.m.insert(id);
        Ok(())
    }
    fn del(&mut self, id: u32, persistent: bool) -> R {
        let k = mk(id);
        let n = self.m.len();
        let before = ptrs::counts();
        let kept = persistent.then(|| self.t.clone());
        measured(T::NAME, id, n, || {
            if persistent {
                self.t = self.t.del(&k);
            } else {
                self.t.del_mut(&k);
            }
        })
        .map_err(|e| format!("removal: {e}"))?;
        let w = ptrs::counts().minus(&before).work();
        ensure!(w <= work_limit(n), "{}: removal from {n} entries takes {w} pointer operations", T::NAME);
        drop(kept);
        self.m.remove(&id);
        Ok(())
    }
    fn probe(&mut self, salt: u32, all: bool, cx: &mut Cx) -> R {
        let n = self.m.len();
        ensure!(self.t.count() == n, "{}: size {} but {n} expected", T::NAME, self.t.count());
        let before = ptrs::counts();
        let e = self.t.ends();
        let w = ptrs::counts().minus(&before).work();
        ensure!(w <= work_limit(n), "{}: first and last in {n} entries take {w} pointer operations", T::NAME);
        ensure!(e == (self.m.first().copied(), self.m.last().copied()), "{}: first and last are {e:?}", T::NAME);
        let lim = limit(n);
        let mut one = |id: u32, want: bool, h: u32| -> R {
            let k = mk(id);
            let c0 = elem::cmps();
            let got = self.t.look(&k, h);
            ensure!(got == want, "{}: key {id} is {}", T::NAME, if got { "found" } else { "lost" });
            let c = (elem::cmps() - c0) as usize;
            if c > lim {
                let (t, _) = (&self.t, ());
                measured(T::NAME, id, n, || t.look(&k, h)).map_err(|e| format!("lookup: {e}"))?;
            }
            if c > self.worst {
                self.worst = c;
            }
            Ok(())
        };
        if n > 0 {
            let mut r = Rng(u64::from(salt) ^ 0x55);
            let (lo, hi) = (*self.m.first().unwrap(), *self.m.last().unwrap());
            for _ in 0..4 {
                let pick = |r: &mut Rng| if r.chance(1, 2) { lo + r.below(hi - lo + 1) } else { *self.m.range(lo + r.below(hi - lo + 1)..).next().unwrap() };
                let (x, y) = (pick(&mut r), pick(&mut r));
                let (x, y) = (x.min(y), x.max(y));
                let (mut kx, mut ky) = (r.below(3), r.below(3));
                if x == y {
                    (kx, ky) = (0, 0);
                }
                let b = |k: u32, id: u32| match k {
                    0 => Bound::Included(id),
                    1 => Bound::Excluded(id),
                    _ => Bound::Unbounded,
                };
                let (take, back) = (r.below(4) as usize, r.below(4) as usize);
                let (bx, by) = (b(kx, x), b(ky, y));
                let c0 = elem::cmps();
                let got = self.t.span((bx.map(mk), by.map(mk)), take, back);
                let c = (elem::cmps() - c0) as usize;
                let mut w = self.m.range((bx, by));
                let want: (Vec<u32>, Vec<u32>) = ((0..take).map_while(|_| w.next().copied()).collect(), (0..back).map_while(|_| w.next_back().copied()).collect());
                ensure!(got == want, "{}: range {bx:?} {by:?} gives {got:?}, should be {want:?}", T::NAME);
                let lim = range_limit(n, take + back);
                ensure!(c <= lim, "{}: {take} and {back} elements from the ends of the range {bx:?} {by:?} of {n} entries take {c} comparisons (limit {lim})", T::NAME);
                cx.checks += 1;
            }
        }
        if all || n <= 100 {
            for id in &self.m {
                one(*id, true, salt)?;
                let a = id.wrapping_add(1);
                one(a, self.m.contains(&a), salt + 1)?;
            }
            cx.checks += 2 * n as u64;
        } else {
            let mut r = Rng(u64::from(salt));
            let (lo, hi) = (*self.m.first().unwrap(), *self.m.last().unwrap());
            for h in 0..40 {
                let x = lo + r.below(hi - lo + 1);
                one(x, self.m.contains(&x), h)?;
                let x = *self.m.range(x..).next().unwrap();
                one(x, true, h)?;
            }
            one(lo, true, 0)?;
            one(hi, true, 0)?;
            cx.checks += 82;
        }
        Ok(())
    }
}

/// cfg: 0 selector, 1 universe, 2 largest phase. ops: [phase, a, n, flags].
fn run<T: Tree>(case: &Case, cx: &mut Cx) -> R {
    let uni = [64u32, 500, 5000, 1 << 20][case.c(1) as usize % 4];
    let max = [12u32, 60, 400, 6000][case.c(2) as usize % 4];
    let mut s = St { t: T::new(), m: BTreeSet::new(), worst: 0 };
    let mut kept: Vec<(T, BTreeSet<u32>)> = vec![];
    let (mut ins, mut del) = (0, 0);
    let mut biggest = 0;
    for (j, op) in case.ops.iter().enumerate() {
        let n = 1 + op[2] % max;
        let p = op[3] % 3 == 0;
        let a = op[1] % uni;
        match op[0] % 13 {
            0 => (0..n).try_for_each(|i| s.ins((a + i) % uni, p))?,
            1 => (0..n).try_for_each(|i| s.ins((a + uni - i % uni) % uni, p))?,
            2 => (0..n).try_for_each(|i| s.ins(mix(u64::from(op[1]) + u64::from(i)) as u32 % uni, p))?,
            // alternating ends towards the middle
            3 => (0..n).try_for_each(|i| s.ins(if i % 2 == 0 { i / 2 % uni } else { uni - 1 - i / 2 % uni }, p))?,
            4 => {
                for _ in 0..n {
                    let Some(k) = s.m.first().copied() else { break };
                    s.del(k, p)?;
                }
            }
            5 => {
                for _ in 0..n {
                    let Some(k) = s.m.last().copied() else { break };
                    s.del(k, p)?;
                }
            }
            // a range
            6 => {
                for _ in 0..n {
                    let Some(k) = s.m.range(a..).next().copied() else { break };
                    s.del(k, p)?;
                }
            }
            // every second
            7 => {
                let ks: Vec<u32> = s.m.iter().copied().skip(op[1] as usize % 3).step_by(2 + op[3] as usize % 3).take(n as usize).collect();
                ks.into_iter().try_for_each(|k| s.del(k, p))?;
            }
            // absent keys
            8 => (0..n.min(40)).try_for_each(|i| {
                let k = (a + i * 3) % uni;
                if s.m.contains(&k) { Ok(()) } else { s.del(k, p) }
            })?,
            // random mixture
            9 => (0..n).try_for_each(|i| {
                let x = mix(u64::from(op[1]) ^ (u64::from(i) << 20));
                let k = (x >> 8) as u32 % uni;
                if x % 5 < 2 { s.ins(k, p) } else { s.m.range(k..).next().copied().map_or(Ok(()), |k| s.del(k, p)) }
            })?,
            // sliding window
            10 => (0..n).try_for_each(|i| {
                s.ins((a + i) % uni, p)?;
                let k = s.m.first().copied().unwrap();
                if s.m.len() > 8 { s.del(k, p) } else { Ok(()) }
            })?,
            // remove what is at the top of the tree, as far as it can be told: the key compared first
            11 => {
                for _ in 0..n.min(200) {
                    if s.m.is_empty() {
                        break;
                    }
                    let probe = mk(a);
                    elem::record(true);
                    s.t.look(&probe, 0);
                    let seen = elem::recorded();
                    elem::record(false);
                    let Some(k) = seen.iter().flat_map(|x| [x.0, x.1]).filter(|x| s.m.contains(x)).nth(op[3] as usize % 2) else { break };
                    s.del(k, p)?;
                }
            }
            _ => {
                if kept.len() < 4 && op[1] % 2 == 0 {
                    kept.push((s.t.clone(), s.m.clone()));
                } else if !kept.is_empty() {
                    let i = op[1] as usize / 2 % kept.len();
                    std::mem::swap(&mut s.t, &mut kept[i].0);
                    std::mem::swap(&mut s.m, &mut kept[i].1);
                }
            }
        }
        match op[0] % 13 {
            0..=3 => ins += n,
            4..=7 | 11 => del += n,
            9 | 10 => {
                ins += n;
                del += n;
            }
            _ => (),
        }
        biggest = biggest.max(s.m.len());
        cx.log(|| format!("{j}: phase {} x{n} -> {} entries", op[0] % 13, s.m.len()));
        let last = j + 1 == case.ops.len();
        s.probe(op[1] ^ j as u32, last && s.m.len() <= 3000, cx).map_err(|e| format!("after phase {j}: {e}"))?;
    }
    for (t, m) in kept {
        let mut k = St { t, m, worst: 0 };
        k.probe(1, false, cx).map_err(|e| format!("kept version: {e}"))?;
    }
    cx.label(T::NAME);
    if biggest >= 1000 {
        cx.label("1000 entries and more");
    }
    if biggest >= 7 && ins >= 7 && del >= 2 {
        cx.nontrivial = true;
    }
    Ok(())
}

impl Check for C {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "A case is map or set and a list of phases: ascending, descending, scattered, outside-in insertions; removals of the smallest, the largest, a range, every k-th, the topmost, absent keys; mixtures; sliding windows; switching between kept versions. Ranges with all kinds of bounds are started and a few elements taken from both ends, counting comparisons. In every operation the stored keys with which the key is compared are recorded. Non-trivial: at least 7 entries at some time, with insertions and removals."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the depth at which a key is found shows in the number of distinct stored keys it is compared with"]
    }
    fn budget(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 40_000,
            Tier::Thorough => 1_500_000,
        }
    }
    fn generate(&self, r: &mut Rng, i: u64, _: Tier) -> Case {
        let class = if mix(i) % 100 == 3 { 3 } else { r.weighted(&[6, 6, 3]) };
        let cfg = vec![(i % 2) as u32, r.below(4), class];
        let n = if class == 3 { r.range(2, 6) } else { r.range(2, 30) };
        let w = [r.range(1, 5), r.below(5), r.below(5), r.below(3), r.below(4), r.below(4), r.below(4), r.below(4), r.below(2), r.below(4), r.below(3), r.below(3), r.below(2)];
        let ops = (0..n).map(|_| [r.weighted(&w), r.u32(), r.u32(), r.u32()]).collect();
        Case { cfg, ops }
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        if c.c(0) % 2 == 0 { run::<RedBlackTreeMap<E, E, CountK>>(c, cx) } else { run::<RedBlackTreeSet<E, CountK>>(c, cx) }
    }
}
