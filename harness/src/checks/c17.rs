//! C17: no operation overflows the stack, however large the structure.
use archery::{ArcK, ArcTK, RcK, SharedPointerKind};
use rpds::*;
use rv::elem::{E, Elem, TH};
use rv::engine::*;
use rv::ensure;
use rv::sched::{self, Ctr, SE, SchedK};
use rv::subj::Conf;

/// What can be serialized (in builds where rpds can).
#[cfg(feature = "f_serde")]
trait Wire: serde::Serialize + serde::de::DeserializeOwned {}
#[cfg(feature = "f_serde")]
impl<T: serde::Serialize + serde::de::DeserializeOwned> Wire for T {}
#[cfg(not(feature = "f_serde"))]
trait Wire {}
#[cfg(not(feature = "f_serde"))]
impl<T> Wire for T {}
use std::collections::hash_map::DefaultHasher;
use std::fmt::{Debug, Display, Write};
use std::hash::{Hash, Hasher};
use std::sync::Arc;
use std::sync::atomic::Ordering::SeqCst;

/// Stack of the threads on which everything runs.
const STACK: usize = 256 << 10;

/// What the operations below need of a structure.
trait Big<T: Elem>: Clone + Debug + Display + PartialEq {
    const NAME: &'static str;
    /// At least `n` elements (a smaller number for collision-heavy tries).
    fn build(n: u32, way: u32, conf: &Conf) -> Self;
    fn add(&self, id: u32) -> Self;
    fn add_mut(&mut self, id: u32);
    fn del(&self, id: u32) -> Self;
    fn del_mut(&mut self, id: u32);
    fn size_(&self) -> usize;
    fn walk(&self, limit: usize) -> usize;
    fn extra(&mut self, _other: &Self, _what: u32) {}
}

fn hash_it<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

macro_rules! big_seq {
    ($T:ident, $add:ident, $add_mut:ident, $del:ident, $del_mut:ident, $len:ident, |$s:ident, $o:ident, $w:ident| $extra:expr) => {
        impl<T: Elem + Debug, P: SharedPointerKind + Debug> Big<T> for $T<T, P> {
            const NAME: &'static str = stringify!($T);
            fn build(n: u32, way: u32, _: &Conf) -> Self {
                match way % 3 {
                    0 => (0..n).map(|i| T::mk(i, 0)).collect(),
                    1 => {
                        let mut s: Self = $T::new_with_ptr_kind();
                        (0..n).for_each(|i| s.$add_mut(T::mk(i, 0)));
                        s
                    }
                    _ => {
                        let mut s: Self = (0..n / 2).map(|i| T::mk(i, 0)).collect();
                        (n / 2..n).for_each(|i| s.$add_mut(T::mk(i, 0)));
                        s
                    }
                }
            }
            fn add(&self, id: u32) -> Self {
                self.$add(T::mk(id, 1))
            }
            fn add_mut(&mut self, id: u32) {
                self.$add_mut(T::mk(id, 1));
            }
            fn del(&self, _: u32) -> Self {
                self.$del().unwrap_or_else(|| self.clone())
            }
            fn del_mut(&mut self, _: u32) {
                self.$del_mut();
            }
            fn size_(&self) -> usize {
                self.$len()
            }
            fn walk(&self, limit: usize) -> usize {
                self.iter().take(limit).count()
            }
            fn extra(&mut self, o: &Self, w: u32) {
                match w % 4 {
                    0 => drop(std::hint::black_box(hash_it(self))),
                    1 => drop(std::hint::black_box((*self).partial_cmp(o))),
                    2 => drop(std::hint::black_box(Ord::cmp(&*self, o))),
                    _ => {
                        let ($s, $o, $w) = (self, o, w);
                        $extra
                    }
                }
            }
        }
    };
}
big_seq!(List, push_front, push_front_mut, drop_first, drop_first_mut, len, |s, o, w| if w % 8 < 4 { s.reverse_mut() } else { *s = o.reverse() });
big_seq!(Stack, push, push_mut, pop, pop_mut, size, |_s, _o, _w| ());
big_seq!(Queue, enqueue, enqueue_mut, dequeue, dequeue_mut, len, |_s, _o, _w| ());
big_seq!(Vector, push_back, push_back_mut, drop_last, drop_last_mut, len, |s, o, w| {
    let n = s.len();
    if n > 0 {
        let i = w as usize % n;
        s.set_mut(i, T::mk(1, 1));
        s[i] = T::mk(2, 2);
    }
    std::hint::black_box(o.iter().rev().count());
});

macro_rules! big_map {
    ([$($g:tt)*], $ty:ty, $name:literal, |$c:ident| $new:expr, [$($kv:expr)?], |$s:ident, $o:ident, $w:ident| $extra:expr) => {
        impl<$($g)*> Big<T> for $ty {
            const NAME: &'static str = $name;
            fn build(n: u32, way: u32, $c: &Conf) -> Self {
                let mut s: Self = $new;
                for i in 0..n {
                    let i = match way % 3 {
                        0 => i,
                        1 => n - i,
                        _ => i.wrapping_mul(0x9E37_79B1),
                    };
                    s.insert_mut(T::mk(i, 0) $(, T::mk(i, $kv))?);
                }
                s
            }
            fn add(&self, id: u32) -> Self {
                self.insert(T::mk(id, 1) $(, T::mk(id, $kv))?)
            }
            fn add_mut(&mut self, id: u32) {
                self.insert_mut(T::mk(id, 1) $(, T::mk(id, $kv))?);
            }
            fn del(&self, id: u32) -> Self {
                self.remove(&id)
            }
            fn del_mut(&mut self, id: u32) {
                self.remove_mut(&id);
            }
            fn size_(&self) -> usize {
                self.size()
            }
            fn walk(&self, limit: usize) -> usize {
                self.iter().take(limit).count()
            }
            fn extra(&mut self, o: &Self, w: u32) {
                let ($s, $o, $w) = (self, o, w);
                $extra
            }
        }
    };
}
fn ordered<T: Ord + Hash>(a: &T, b: &T, w: u32) {
    match w % 3 {
        0 => drop(std::hint::black_box(hash_it(a))),
        1 => drop(std::hint::black_box(a.partial_cmp(b))),
        _ => drop(std::hint::black_box(a.cmp(b))),
    }
}
big_map!([T: Elem, P: SharedPointerKind + Debug], HashTrieMap<T, T, P, TH>, "HashTrieMap", |c| HashTrieMap::new_with_hasher_and_degree_and_ptr_kind(c.hash.clone(), c.degree), [1], |s, o, w| {
    if let Some(v) = s.get_mut(&(w % 1000)) {
        *v = T::mk(3, 3);
    }
    std::hint::black_box((o.keys().count(), o.values().count()));
});
big_map!([T: Elem, P: SharedPointerKind + Debug], RedBlackTreeMap<T, T, P>, "RedBlackTreeMap", |_c| RedBlackTreeMap::new_with_ptr_kind(), [1], |s, o, w| {
    if w % 4 == 3 {
        if let Some(v) = s.get_mut(&(w % 1000)) {
            *v = T::mk(3, 3);
        }
        std::hint::black_box(o.range(5..).count() + o.iter().rev().count());
    } else {
        ordered(s, o, w);
    }
});
big_map!([T: Elem, P: SharedPointerKind + Debug], HashTrieSet<T, P, TH>, "HashTrieSet", |c| HashTrieSet::new_with_hasher_and_degree_and_ptr_kind(c.hash.clone(), c.degree), [], |s, o, _w| {
    std::hint::black_box((s.is_subset(o), s.is_superset(o), s.is_disjoint(o)));
});
big_map!([T: Elem, P: SharedPointerKind + Debug], RedBlackTreeSet<T, P>, "RedBlackTreeSet", |_c| RedBlackTreeSet::new_with_ptr_kind(), [], |s, o, w| {
    if w % 4 == 3 {
        std::hint::black_box((s.is_subset(o), s.is_superset(o), s.is_disjoint(o)));
    } else {
        ordered(s, o, w);
    }
});

/// Counts what is written to it.
struct Count(usize);
impl Write for Count {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

/// A case on one thread with a small stack: a pool of versions, operations on all of them.
fn single<S>(case: &Case) -> (R, Vec<String>, bool)
where
    S: Big<E> + Wire,
{
    let mut log = vec![];
    let mut conf = Conf::decode(case.c(2), 0, case.c(4), 0);
    rv::elem::set_default_hash(conf.hash.mode, conf.hash.seed);
    if S::NAME.starts_with("Hash") && conf.degree == 2 && case.c(3) > 20_000 {
        conf.degree = 64;
    }
    let mut n = case.c(3).min(400_000);
    if S::NAME.starts_with("Hash") {
        let heavy = match conf.hash.mode {
            1 => 4000,
            2 | 3 | 8 | 9 | 13 => 8000,
            4 | 6 | 10 => 30_000,
            _ => 400_000,
        };
        n = n.min(heavy);
    }
    let r = (|| -> R {
        let mut pool: Vec<S> = vec![S::build(n, case.c(5), &conf)];
        log.push(format!("{} of {n} elements", S::NAME));
        for (k, op) in case.ops.iter().enumerate() {
            if pool.is_empty() {
                break;
            }
            let i = op[1] as usize % pool.len();
            let j = op[2] as usize % pool.len();
            let m = op[2] % 40;
            let what = op[0] % 14;
            log.push(format!("{k}: {} version {i} ({} elements)", ["drop", "clone", "branch by adding", "branch by removing", "iterate", "compare", "special", "display", "debug", "json", "bincode", "add in place", "remove in place", "pretty debug"][what as usize], pool[i].size_()));
            match what {
                0 => drop(pool.swap_remove(i)),
                1 => {
                    if op[3] % 3 == 0 && i != j {
                        let (from, to) = two(&mut pool, i, j);
                        to.clone_from(from);
                    } else {
                        let c = pool[i].clone();
                        pool.push(c);
                    }
                }
                2 => {
                    let mut c = pool[i].clone();
                    (0..m).for_each(|x| c = c.add(op[2].wrapping_add(x * 7)));
                    pool.push(c);
                }
                3 => {
                    let mut c = pool[i].clone();
                    (0..m).for_each(|x| c = c.del(op[2].wrapping_add(x)));
                    pool.push(c);
                }
                4 => {
                    let l = if op[3] % 2 == 0 { usize::MAX } else { op[2] as usize };
                    let g = pool[i].walk(l);
                    ensure!(g == pool[i].size_().min(l), "iterating gives {g} elements");
                }
                5 => {
                    let c = pool[i].clone();
                    ensure!(c == pool[i], "not equal to its clone");
                    let fresh = pool[j] == pool[i];
                    std::hint::black_box(fresh);
                }
                6 => {
                    let o = pool[j].clone();
                    pool[i].extra(&o, op[3]);
                }
                7 => {
                    let mut w = Count(0);
                    write!(w, "{}", pool[i]).map_err(|_| "display failed")?;
                    ensure!(w.0 >= pool[i].size_(), "display is too short");
                }
                8 => {
                    let mut w = Count(0);
                    write!(w, "{:?}", pool[i]).map_err(|_| "debug failed")?;
                }
                #[cfg(not(feature = "f_serde"))]
                9 | 10 => (),
                #[cfg(feature = "f_serde")]
                9 => {
                    let t = serde_json::to_string(&pool[i]).map_err(|e| e.to_string())?;
                    let b: S = serde_json::from_str(&t).map_err(|e| e.to_string())?;
                    ensure!(b == pool[i], "does not round-trip");
                    pool.push(b);
                }
                #[cfg(feature = "f_serde")]
                10 => {
                    let t = bincode::serialize(&pool[i]).map_err(|e| e.to_string())?;
                    let b: S = bincode::deserialize(&t).map_err(|e| e.to_string())?;
                    ensure!(b == pool[i], "does not round-trip");
                    if op[3] % 2 == 0 {
                        pool[i] = b;
                    }
                }
                11 => {
                    let mut x = op[2];
                    for _ in 0..m {
                        pool[i].add_mut(x);
                        x = x.wrapping_add(13);
                    }
                }
                12 => {
                    let many = if op[3] % 4 == 0 { op[2] % (n + 1) } else { m };
                    for x in 0..many {
                        pool[i].del_mut(x);
                    }
                }
                _ => {
                    if pool[i].size_() <= 20_000 {
                        let mut w = Count(0);
                        write!(w, "{:#?}", pool[i]).map_err(|_| "debug failed")?;
                    }
                }
            }
            if pool.len() > 5 {
                pool.remove(op[3] as usize % pool.len());
            }
        }
        // drop the rest in a generated order
        let mut r = Rng(u64::from(case.c(6)));
        while !pool.is_empty() {
            let i = r.below(pool.len() as u32) as usize;
            drop(pool.swap_remove(i));
        }
        Ok(())
    })();
    (r, log, n >= 5000)
}

/// Several threads drop (and partly shorten) versions that share most of their nodes, under a generated schedule.
fn race<S: Big<SE> + Send + Sync>(case: &Case, cx: &mut Cx) -> R {
    let ctr = Arc::new(Ctr::default());
    sched::set_ctr(&ctr);
    let mut conf = Conf::decode(case.c(2), 0, case.c(4), 0);
    conf.hash.mode = 0;
    let n = case.c(3).min(60_000);
    let threads = 2 + case.c(7) as usize % 3;
    let mut r = Rng(u64::from(case.c(6)));
    let base = S::build(n, case.c(5), &conf);
    let mut hands: Vec<Vec<S>> = vec![];
    for _ in 0..threads {
        let mut v = vec![];
        for _ in 0..1 + r.below(2) {
            let mut s = base.clone();
            match r.below(4) {
                0 => (0..r.below(4)).for_each(|x| s = s.add(x)),
                1 => (0..r.below(4)).for_each(|x| s = s.del(x)),
                _ => (),
            }
            v.push(s);
        }
        hands.push(v);
    }
    drop(base);
    let plan: Vec<(u32, u32)> = case.ops.iter().take(400).map(|o| (o[0], o[1])).collect();
    cx.log(|| format!("{} of {n} elements, {threads} threads with {:?} versions each, schedule {:?}", S::NAME, hands.iter().map(Vec::len).collect::<Vec<_>>(), &plan[..plan.len().min(40)]));
    let bodies: Vec<Box<dyn FnOnce() + Send>> = hands
        .into_iter()
        .map(|v| -> Box<dyn FnOnce() + Send> {
            let ctr = ctr.clone();
            let del = r.below(3);
            Box::new(move || {
                sched::set_ctr(&ctr);
                for (i, mut s) in v.into_iter().enumerate() {
                    (0..del * i as u32).for_each(|x| s.del_mut(x));
                    drop(s);
                }
            })
        })
        .collect();
    let (out, switches) = sched::run(&plan, STACK, bodies);
    for o in out {
        o?;
    }
    cx.nontrivial = switches > 4 && n >= 2000;
    cx.label(S::NAME);
    let live = ctr.live.load(SeqCst);
    ensure!(live == 0, "{live} elements are left");
    ensure!(ctr.bad.load(SeqCst) == 0, "an element was used after its end");
    Ok(())
}

macro_rules! with_big {
    ($sel:expr, $T:ty, $P:ty, $S:ident => $body:expr) => { rv::with_sub!($sel, $T, $P, $S => $body) };
}

pub struct C;
impl Check for C {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "Mode 1: a structure of up to 400000 elements (fewer for heavily colliding hashes) on a thread with a 256 KiB stack; a generated sequence of clone, branch, partial iteration, comparison, hashing, reversal, Display, Debug, JSON and bincode round trips, in-place changes and drops in generated orders. Mode 2: two to four threads with 256 KiB stacks drop versions sharing their nodes, switching at reference-count operations by a generated plan. Two of seven cases run (with smaller structures) in a second build of this program without optimisations, where no recursion is turned into a loop. Overflowing a stack kills the process, which counts as a violation. Non-trivial: at least 5000 elements (mode 1), at least 2000 elements and five switches (mode 2)."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["256 KiB is enough for any operation that uses a bounded amount of stack", "element and nested types use little stack themselves"]
    }
    fn guard(&self) -> bool {
        false
    }
    fn budget(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 1400,
            Tier::Thorough => 200_000,
        }
    }
    fn generate(&self, r: &mut Rng, i: u64, tier: Tier) -> Case {
        let race = i % 4 == 3;
        let deep = i % 7 >= 5;
        let sel = if r.chance(1, 2) { r.below(3) } else { r.below(8) };
        if race {
            let n = r.range(2000, 20_000);
            let mut ops = vec![];
            for _ in 0..r.range(2, 60) {
                ops.push([if r.chance(9, 10) { r.below(5) } else { r.skewed(40_000) }, r.below(4), 0, 0]);
            }
            return Case { cfg: vec![sel, 3, r.below(6), n, r.u32() & 0xFFFF, r.below(3), r.u32(), r.below(3), u32::from(deep)], ops };
        }
        let max = if deep { if tier == Tier::Quick { 16_000 } else { 60_000 } } else if tier == Tier::Quick { 60_000 } else { 400_000 };
        let n = if r.chance(1, 4) { r.skewed(max) } else { r.range(max / 4, max) };
        let n_ops = r.range(1, 10);
        let ops = (0..n_ops).map(|_| [r.weighted(&[3, 2, 2, 2, 1, 2, 3, 1, 2, 1, 1, 2, 2, 1]), r.u32(), r.u32(), r.u32() & 0xFFFF]).collect();
        Case { cfg: vec![sel, r.below(3), r.below(6), n, r.u32() & 0xFFFF, r.below(3), r.u32(), 0, u32::from(deep)], ops }
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        cx.checks += 1;
        if c.c(8) == 1 {
            cx.label("unoptimised build");
            cx.log(|| "in the unoptimised build".into());
            let mut inner = c.clone();
            inner.cfg.truncate(8);
            let Some(a) = rv::serve::ask("target/deep/deep/c17", &inner) else { return Err("the unoptimised build died in this case (stack overflow)".into()) };
            cx.nontrivial = a["nt"] == serde_json::json!(true);
            return a["err"].as_str().map_or(Ok(()), |e| Err(format!("unoptimised build: {e}")));
        }
        if c.c(1) % 4 == 3 {
            cx.label("concurrent drops");
            return with_big!(c.c(0), SE, SchedK, S => race::<S>(c, cx));
        }
        let f = |c: &Case| match c.c(1) % 4 {
            0 => with_big!(c.c(0), E, RcK, S => single::<S>(c)),
            1 => with_big!(c.c(0), E, ArcTK, S => single::<S>(c)),
            _ => with_big!(c.c(0), E, ArcK, S => single::<S>(c)),
        };
        let (r, log, big) = std::thread::scope(|s| {
            std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, || guarded(|| f(c))).unwrap().join().unwrap()
        })?;
        for l in log {
            cx.log(|| l);
        }
        cx.nontrivial = big && !c.ops.is_empty();
        cx.label("one thread");
        r
    }
}
