//! C21: construction works for every configuration and every source iterator.
use archery::{ArcTK, RcK, SharedPointerKind};
use rpds::*;
use rv::alloc;
use rv::elem::{self, E, TH};
use rv::engine::*;
use rv::ensure;
use rv::routes::content;
use rv::subj::*;
use rv::with_sub;
use std::collections::hash_map::RandomState;
use std::collections::{BTreeMap, BTreeSet};

/// A source of items with an arbitrary size hint, right or wrong, which yields more items after its end when asked again.
struct Lie<T> {
    items: std::vec::IntoIter<T>,
    junk: Option<T>,
    hint: (usize, Option<usize>),
    /// The hint is about what is left.
    left: bool,
    given: usize,
    ended: bool,
}
impl<T> Iterator for Lie<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        match self.items.next() {
            None if self.ended => self.junk.take(),
            None => {
                self.ended = true;
                None
            }
            x => {
                self.given += 1;
                x
            }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let gone = if self.left { self.given } else { 0 };
        (self.hint.0.saturating_sub(gone), self.hint.1.map(|h| h.saturating_sub(gone)))
    }
}

fn hint(c: &Case, n: usize) -> (usize, Option<usize>) {
    let lo = match c.c(9) % 3 {
        0 => 0,
        1 => n / 2,
        // (wrong, but what is built may not depend on it)
        _ if c.c(10) % 10 > 8 => n + c.c(11) as usize,
        _ => n,
    };
    let hi = match c.c(10) % 10 {
        0 => None,
        1 => Some(n),
        2 => Some(usize::MAX),
        3 => Some(isize::MAX as usize),
        4 => Some(isize::MAX as usize / 16),
        5 => Some(n + (1 << (c.c(11) % 50))),
        6 => Some(usize::MAX / 2 / 24),
        // wrong
        7 => Some(n - n.min(1 + c.c(11) as usize % 20)),
        8 => Some(lo),
        _ => Some(n + c.c(11) as usize % 5),
    };
    (lo, hi)
}

fn lie<T>(items: Vec<T>, junk: T, c: &Case) -> Lie<T> {
    let hint = hint(c, items.len());
    Lie { items: items.into_iter(), junk: (c.c(8) % 2 == 1).then_some(junk), hint, left: c.c(8) / 2 % 2 == 1, given: 0, ended: false }
}

fn measured<T>(n: usize, f: impl FnOnce() -> T) -> Result<T, String> {
    alloc::start();
    let r = guarded(f)?;
    let u = alloc::usage();
    let bound = (16 << 20) + 6000 * n as i64;
    ensure!(u.peak <= bound && u.max_request as i64 <= bound, "building from {n} items asked for {} bytes of memory (largest request {})", u.peak, u.max_request);
    Ok(r)
}

/// Building from an iterator with the given content and lying size hint.
trait FromLie<T>: Sized {
    fn build(items: &[(u32, u32)], c: &Case) -> Result<Self, String>;
    /// One by one.
    fn slow(items: &[(u32, u32)]) -> Self;
}

macro_rules! from_lie {
    ($T:ident, $m:ident, $rev:expr) => {
        impl<P: SharedPointerKind> FromLie<E> for $T<E, P> {
            fn build(items: &[(u32, u32)], c: &Case) -> Result<Self, String> {
                let v: Vec<E> = items.iter().map(|x| mk(x.0)).collect();
                measured(items.len(), || lie(v, mk(77), c).collect())
            }
            fn slow(items: &[(u32, u32)]) -> Self {
                let mut s: Self = $T::new_with_ptr_kind();
                let mut v = items.to_vec();
                if $rev {
                    v.reverse();
                }
                v.iter().for_each(|x| drop(s.$m(mk(x.0))));
                s
            }
        }
    };
}
fn mk(id: u32) -> E {
    <E as rv::elem::Elem>::mk(id, 0)
}
from_lie!(List, push_front_mut, true);
from_lie!(Stack, push_mut, true);
from_lie!(Queue, enqueue_mut, false);
from_lie!(RedBlackTreeSet, insert_mut, false);
impl<P: SharedPointerKind> FromLie<E> for Vector<E, P> {
    fn build(items: &[(u32, u32)], c: &Case) -> Result<Self, String> {
        let cut = if c.c(7) % 2 == 0 { 0 } else { c.c(7) as usize / 2 % (items.len() + 1) };
        let first: Vec<E> = items[..cut].iter().map(|x| mk(x.0)).collect();
        let rest: Vec<E> = items[cut..].iter().map(|x| mk(x.0)).collect();
        if cut == 0 {
            return measured(items.len(), || lie(rest, mk(77), c).collect());
        }
        let mut v: Vector<E, P> = first.into_iter().collect();
        measured(items.len(), || v.extend(lie(rest, mk(77), c)))?;
        Ok(v)
    }
    fn slow(items: &[(u32, u32)]) -> Self {
        let mut s: Self = Vector::new_with_ptr_kind();
        items.iter().for_each(|x| s.push_back_mut(mk(x.0)));
        s
    }
}
impl<P: SharedPointerKind> FromLie<E> for HashTrieSet<E, P, TH> {
    fn build(items: &[(u32, u32)], c: &Case) -> Result<Self, String> {
        let v: Vec<E> = items.iter().map(|x| mk(x.0)).collect();
        measured(items.len(), || lie(v, mk(77), c).collect())
    }
    fn slow(items: &[(u32, u32)]) -> Self {
        let mut s: Self = HashTrieSet::new_with_hasher_with_ptr_kind(TH::default());
        items.iter().for_each(|x| s.insert_mut(mk(x.0)));
        s
    }
}
macro_rules! from_lie_map {
    ($T:ty, $e:expr) => {
        impl<P: SharedPointerKind> FromLie<E> for $T {
            fn build(items: &[(u32, u32)], c: &Case) -> Result<Self, String> {
                let v: Vec<(E, E)> = items.iter().map(|x| (mk(x.0), mk(x.1))).collect();
                measured(items.len(), || lie(v, (mk(77), mk(7)), c).collect())
            }
            fn slow(items: &[(u32, u32)]) -> Self {
                let mut s: Self = $e;
                items.iter().for_each(|x| s.insert_mut(mk(x.0), mk(x.1)));
                s
            }
        }
    };
}
from_lie_map!(HashTrieMap<E, E, P, TH>, HashTrieMap::new_with_hasher_and_ptr_kind(TH::default()));
from_lie_map!(RedBlackTreeMap<E, E, P>, RedBlackTreeMap::new_with_ptr_kind());

fn lying<S: Sub<E> + FromLie<E> + PartialEq>(c: &Case, cx: &mut Cx) -> R {
    let conf = Conf::decode(0, 0, c.c(4), c.c(5));
    elem::set_default_hash(conf.hash.mode, conf.hash.seed);
    let mut r = Rng(u64::from(c.c(12)));
    let mut items = content(S::KIND, &mut r, c.c(6).min(200_000) as usize, conf.universe);
    // any order, with repetitions
    for i in (1..items.len()).rev() {
        items.swap(i, r.below(i as u32 + 1) as usize);
    }
    for _ in 0..r.below(4) {
        if !items.is_empty() {
            let x = items[r.below(items.len() as u32) as usize];
            items.push((x.0, r.below(4)));
        }
    }
    if S::KIND != Kind::Map {
        items.iter_mut().for_each(|x| x.1 = 0);
    }
    cx.nontrivial = items.len() > 1;
    cx.log(|| format!("{} from {:?} with size hint {:?}", S::NAME, &items[..items.len().min(20)], hint(c, items.len())));
    let a = S::build(&items, c).map_err(|e| format!("{} from an iterator of {} items with size hint {:?}: {e}", S::NAME, items.len(), hint(c, items.len())))?;
    let b = S::slow(&items);
    ensure!(a == b, "{}: from an iterator differs from one by one", S::NAME);
    let mut m = S::model(&conf);
    match &mut m {
        M::Seq(s) => s.extend(items.iter().map(|x| (x.0, 0))),
        M::Map(m) => m.extend(items.iter().map(|x| (x.0, (0, x.1, 0)))),
    }
    a.verify(&m, &conf, items.len() < 500)?;
    b.verify(&m, &conf, items.len() < 500)
}

// ------------------------------------------------------------------------------------------ configurations

fn fill_map<P: SharedPointerKind, H: std::hash::BuildHasher + Clone>(what: &str, mut m: HashTrieMap<u32, u32, P, H>, c: &Case) -> R {
    ensure!(m.is_empty() && m.size() == 0 && m.iter().next().is_none() && !m.contains_key(&1), "{what}: not empty");
    let mut w: BTreeMap<u32, u32> = BTreeMap::new();
    let mut r = Rng(u64::from(c.c(12)));
    let u = 1 + r.skewed(5000);
    let n = r.skewed(2 + c.c(6).min(3000));
    let mut old = vec![];
    for i in 0..n {
        let k = r.below(u).wrapping_mul(if r.chance(1, 4) { 0x0100_0000 } else { 1 });
        match r.below(8) {
            0..=3 => {
                m.insert_mut(k, i);
                w.insert(k, i);
            }
            4 => {
                m = m.insert(k, i);
                w.insert(k, i);
            }
            5 => ensure!(m.remove_mut(&k) == w.remove(&k).is_some(), "{what}: remove_mut({k})"),
            6 => {
                m = m.remove(&k);
                w.remove(&k);
            }
            _ => {
                if old.len() < 3 {
                    old.push((m.clone(), w.clone()));
                }
            }
        }
        ensure!(m.get(&k) == w.get(&k) && m.size() == w.len(), "{what}: get({k}) is {:?} of {}, should be {:?} of {}", m.get(&k), m.size(), w.get(&k), w.len());
    }
    old.push((m, w));
    for (m, w) in old {
        let mut g: Vec<(u32, u32)> = m.iter().map(|(k, v)| (*k, *v)).collect();
        g.sort_unstable();
        ensure!(g.iter().copied().eq(w.iter().map(|(k, v)| (*k, *v))), "{what}: content is {:?}, should be {:?}", &g[..g.len().min(20)], w.iter().take(20).collect::<Vec<_>>());
        ensure!(w.iter().all(|(k, v)| m.get(k) == Some(v)), "{what}: an entry is not found");
    }
    Ok(())
}

fn fill_set<P: SharedPointerKind, H: std::hash::BuildHasher + Clone>(what: &str, mut m: HashTrieSet<u32, P, H>, c: &Case) -> R {
    ensure!(m.is_empty() && m.size() == 0 && m.iter().next().is_none(), "{what}: not empty");
    let mut w: BTreeSet<u32> = BTreeSet::new();
    let mut r = Rng(u64::from(c.c(12)));
    let u = 1 + r.skewed(5000);
    for _ in 0..r.skewed(2 + c.c(6).min(3000)) {
        let k = r.below(u);
        if r.chance(2, 3) {
            m.insert_mut(k);
            w.insert(k);
        } else {
            ensure!(m.remove_mut(&k) == w.remove(&k), "{what}: remove_mut({k})");
        }
        ensure!(m.contains(&k) == w.contains(&k) && m.size() == w.len(), "{what}: contains({k})");
    }
    let mut g: Vec<u32> = m.iter().copied().collect();
    g.sort_unstable();
    ensure!(g.iter().eq(w.iter()), "{what}: content");
    ensure!(w.iter().all(|k| m.contains(k)), "{what}: an element is not found");
    Ok(())
}

fn fill_vec<P: SharedPointerKind>(what: &str, mut v: Vector<u32, P>, c: &Case) -> R {
    ensure!(v.is_empty() && v.len() == 0 && v.iter().next().is_none() && v.get(0).is_none() && v.first().is_none(), "{what}: not empty");
    let mut w: Vec<u32> = vec![];
    let mut r = Rng(u64::from(c.c(12)));
    for i in 0..r.skewed(2 + c.c(6).min(3000)) {
        match r.below(8) {
            0..=3 => {
                v.push_back_mut(i);
                w.push(i);
            }
            4 => {
                v = v.push_back(i);
                w.push(i);
            }
            5 => ensure!(v.drop_last_mut() == w.pop().is_some(), "{what}: drop_last_mut"),
            6 => {
                let k = r.below(w.len() as u32 + 1) as usize;
                let ok = k < w.len();
                if ok {
                    w[k] = i;
                }
                ensure!(v.set_mut(k, i) == ok, "{what}: set_mut({k})");
            }
            _ => {
                let n = r.below(70);
                v.extend(0..n);
                w.extend(0..n);
            }
        }
        ensure!(v.len() == w.len() && v.last() == w.last(), "{what}: last is {:?} of {}, should be {:?} of {}", v.last(), v.len(), w.last(), w.len());
    }
    ensure!(v.iter().eq(w.iter()) && v.iter().rev().eq(w.iter().rev()), "{what}: content");
    ensure!((0..w.len() + 2).all(|i| v.get(i) == w.get(i)), "{what}: get");
    Ok(())
}

fn configuration(c: &Case, cx: &mut Cx) -> R {
    let x = (c.c(2) % 256) as u8;
    cx.nontrivial = true;
    let th = TH { mode: c.c(4) % elem::HMODES, seed: u64::from(c.c(4)) };
    let degree_ok = x.is_power_of_two() && (2..=64).contains(&x);
    // (bits whose degree needs no more than a few words must be usable; others may be rejected)
    let bits_ok = (1..=16).contains(&x);
    macro_rules! go {
        ($what:literal, $must:expr, $new:expr, $fill:ident) => {{
            let what = format!(concat!($what, " {}"), x);
            cx.log(|| what.clone());
            match guarded(|| $new) {
                Ok(s) => {
                    cx.label("accepted");
                    guarded(|| $fill(&what, s, c)).map_err(|e| format!("{what}: {e}"))??
                }
                Err(e) => {
                    cx.label("rejected");
                    ensure!(!$must, "{what} is rejected: {e}");
                }
            }
        }};
    }
    match c.c(3) % 9 {
        0 => go!("HashTrieMap::new_with_degree", degree_ok, HashTrieMap::<u32, u32>::new_with_degree(x), fill_map),
        1 => go!("HashTrieMap::new_sync_with_degree", degree_ok, HashTrieMap::<u32, u32, ArcTK>::new_sync_with_degree(x), fill_map),
        2 => go!("HashTrieMap::new_with_hasher_and_degree_and_ptr_kind", degree_ok, HashTrieMap::<u32, u32, RcK, TH>::new_with_hasher_and_degree_and_ptr_kind(th, x), fill_map),
        3 => go!("HashTrieSet::new_with_degree", degree_ok, HashTrieSet::<u32>::new_with_degree(x), fill_set),
        4 => go!("HashTrieSet::new_with_degree_sync", degree_ok, HashTrieSet::<u32, ArcTK>::new_with_degree_sync(x), fill_set),
        5 => go!("HashTrieSet::new_with_hasher_and_degree_and_ptr_kind", degree_ok, HashTrieSet::<u32, ArcTK, TH>::new_with_hasher_and_degree_and_ptr_kind(th, x), fill_set),
        6 | 7 => go!("Vector::new_with_bits", bits_ok, Vector::<u32, RcK>::new_with_bits(x), fill_vec),
        _ => go!("Vector::new_with_bits (ArcTK)", bits_ok, Vector::<u32, ArcTK>::new_with_bits(x), fill_vec),
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ other ways

macro_rules! arity {
    ($mac:ident, $v:expr) => {{
        let v = $v;
        match v.len() {
            0 => $mac![],
            1 => $mac![v[0]],
            2 => $mac![v[0], v[1]],
            3 => $mac![v[0], v[1], v[2]],
            4 => $mac![v[0], v[1], v[2], v[3]],
            5 => $mac![v[0], v[1], v[2], v[3], v[4]],
            _ => $mac![v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]],
        }
    }};
}
macro_rules! arity_map {
    ($mac:ident, $v:expr) => {{
        let v = $v;
        match v.len() {
            0 => $mac![],
            1 => $mac![v[0].0 => v[0].1],
            2 => $mac![v[0].0 => v[0].1, v[1].0 => v[1].1],
            3 => $mac![v[0].0 => v[0].1, v[1].0 => v[1].1, v[2].0 => v[2].1],
            4 => $mac![v[0].0 => v[0].1, v[1].0 => v[1].1, v[2].0 => v[2].1, v[3].0 => v[3].1],
            _ => $mac![v[0].0 => v[0].1, v[1].0 => v[1].1, v[2].0 => v[2].1, v[3].0 => v[3].1, v[4].0 => v[4].1, v[5].0 => v[5].1],
        }
    }};
}

fn ways(c: &Case, cx: &mut Cx) -> R {
    let mut r = Rng(u64::from(c.c(12)));
    let n = r.below(7);
    let n = if n == 6 { 8 } else { n };
    let u = 1 + r.below(12);
    let v: Vec<u32> = (0..n).map(|_| r.below(u)).collect();
    let n = r.below(6);
    let n = if n == 5 { 6 } else { n };
    let kv: Vec<(u32, u32)> = (0..n).map(|i| (r.below(u), i)).collect();
    cx.nontrivial = v.len() > 1 && kv.len() > 1;
    cx.log(|| format!("elements {v:?}, entries {kv:?}"));
    let map: BTreeMap<u32, u32> = kv.iter().copied().collect();
    let set: BTreeSet<u32> = v.iter().copied().collect();
    macro_rules! seq {
        ($what:literal, $s:expr) => {{
            let s = $s;
            ensure!(s.iter().eq(v.iter()) && s.len() == v.len(), concat!($what, " of {:?} gives {:?}"), v, s.iter().collect::<Vec<_>>());
        }};
        ($what:literal, $s:expr, rev) => {{
            let s = $s;
            ensure!(s.iter().eq(v.iter().rev()) && s.size() == v.len(), concat!($what, " of {:?} gives {:?}"), v, s.iter().collect::<Vec<_>>());
        }};
    }
    macro_rules! rev {
        ($what:literal, $s:expr) => { seq!($what, $s, rev) };
    }
    macro_rules! set {
        ($what:literal, $s:expr) => {{
            let s = $s;
            ensure!(s.iter().copied().collect::<BTreeSet<u32>>() == set && s.size() == set.len() && set.iter().all(|k| s.contains(k)), concat!($what, " of {:?} gives {:?}"), v, s.iter().collect::<Vec<_>>());
        }};
    }
    macro_rules! map {
        ($what:literal, $s:expr) => {{
            let s = $s;
            ensure!(s.iter().map(|(k, v)| (*k, *v)).collect::<BTreeMap<u32, u32>>() == map && s.size() == map.len() && map.iter().all(|(k, v)| s.get(k) == Some(v)), concat!($what, " of {:?} gives {:?}"), kv, s.iter().collect::<Vec<_>>());
        }};
    }
    seq!("list!", { let l: List<u32> = arity!(list, &v); l });
    seq!("list_sync!", { let l: ListSync<u32> = arity!(list_sync, &v); l });
    seq!("queue!", { let l: Queue<u32> = arity!(queue, &v); l });
    seq!("queue_sync!", { let l: QueueSync<u32> = arity!(queue_sync, &v); l });
    seq!("vector!", { let l: Vector<u32> = arity!(vector, &v); l });
    seq!("vector_sync!", { let l: VectorSync<u32> = arity!(vector_sync, &v); l });
    seq!("stack!", { let l: Stack<u32> = arity!(stack, &v); l }, rev);
    seq!("stack_sync!", { let l: StackSync<u32> = arity!(stack_sync, &v); l }, rev);
    set!("ht_set!", { let l: HashTrieSet<u32> = arity!(ht_set, &v); l });
    set!("ht_set_sync!", { let l: HashTrieSetSync<u32> = arity!(ht_set_sync, &v); l });
    set!("rbt_set!", { let l: RedBlackTreeSet<u32> = arity!(rbt_set, &v); l });
    set!("rbt_set_sync!", { let l: RedBlackTreeSetSync<u32> = arity!(rbt_set_sync, &v); l });
    map!("ht_map!", { let l: HashTrieMap<u32, u32> = arity_map!(ht_map, &kv); l });
    map!("ht_map_sync!", { let l: HashTrieMapSync<u32, u32> = arity_map!(ht_map_sync, &kv); l });
    map!("rbt_map!", { let l: RedBlackTreeMap<u32, u32> = arity_map!(rbt_map, &kv); l });
    map!("rbt_map_sync!", { let l: RedBlackTreeMapSync<u32, u32> = arity_map!(rbt_map_sync, &kv); l });

    macro_rules! start {
        ($check:ident, $what:literal, [$($new:expr),*], $s:ident => $fill:expr) => {
            $({
                let mut $s = $new;
                ensure!($s.is_empty() && $s.iter().next().is_none(), concat!($what, ": {} is not empty"), stringify!($new));
                $fill;
                $check!($what, $s);
            })*
        };
    }
    start!(seq, "List", [List::<u32>::new(), List::<u32, ArcTK>::new_sync(), List::<u32, RcK>::new_with_ptr_kind(), List::<u32>::default(), ListSync::<u32>::default()], s => for x in v.iter().rev() { s.push_front_mut(*x) });
    start!(seq, "Queue", [Queue::<u32>::new(), Queue::<u32, ArcTK>::new_sync(), Queue::<u32, RcK>::new_with_ptr_kind(), Queue::<u32>::default(), QueueSync::<u32>::default()], s => for x in v.iter() { s.enqueue_mut(*x) });
    start!(seq, "Vector", [Vector::<u32>::new(), Vector::<u32, ArcTK>::new_sync(), Vector::<u32, RcK>::new_with_ptr_kind(), Vector::<u32>::default(), VectorSync::<u32>::default()], s => for x in v.iter() { s.push_back_mut(*x) });
    start!(rev, "Stack", [Stack::<u32>::new(), Stack::<u32, ArcTK>::new_sync(), Stack::<u32, RcK>::new_with_ptr_kind(), Stack::<u32>::default(), StackSync::<u32>::default()], s => for x in v.iter() { s.push_mut(*x) });
    start!(set, "HashTrieSet", [HashTrieSet::<u32>::new(), HashTrieSet::<u32, ArcTK>::new_sync(), HashTrieSet::<u32, RcK, RandomState>::new_with_hasher_with_ptr_kind(RandomState::new()), HashTrieSet::<u32>::default(), HashTrieSet::<u32, ArcTK, TH>::default(), HashTrieSetSync::<u32>::default()], s => for x in v.iter() { s.insert_mut(*x) });
    start!(set, "RedBlackTreeSet", [RedBlackTreeSet::<u32>::new(), RedBlackTreeSet::<u32, ArcTK>::new_sync(), RedBlackTreeSet::<u32, RcK>::new_with_ptr_kind(), RedBlackTreeSet::<u32>::default(), RedBlackTreeSetSync::<u32>::default()], s => for x in v.iter() { s.insert_mut(*x) });
    start!(map, "HashTrieMap", [HashTrieMap::<u32, u32>::new(), HashTrieMap::<u32, u32, ArcTK>::new_sync(), HashTrieMap::<u32, u32, RcK, RandomState>::new_with_hasher_and_ptr_kind(RandomState::new()), HashTrieMap::<u32, u32>::default(), HashTrieMap::<u32, u32, ArcTK, TH>::default(), HashTrieMapSync::<u32, u32>::default()], s => for x in kv.iter() { s.insert_mut(x.0, x.1) });
    start!(map, "RedBlackTreeMap", [RedBlackTreeMap::<u32, u32>::new(), RedBlackTreeMap::<u32, u32, ArcTK>::new_sync(), RedBlackTreeMap::<u32, u32, RcK>::new_with_ptr_kind(), RedBlackTreeMap::<u32, u32>::default(), RedBlackTreeMapSync::<u32, u32>::default()], s => for x in kv.iter() { s.insert_mut(x.0, x.1) });

    // collecting with the default hasher, and from other structures
    map!("HashTrieMap collect", kv.iter().copied().collect::<HashTrieMap<u32, u32>>());
    map!("HashTrieMapSync collect", kv.iter().copied().collect::<HashTrieMapSync<u32, u32>>());
    set!("HashTrieSet collect", v.iter().copied().collect::<HashTrieSet<u32>>());
    map!("RedBlackTreeMap collect", kv.iter().copied().collect::<RedBlackTreeMap<u32, u32>>());
    set!("RedBlackTreeSet collect", v.iter().copied().filter(|_| true).collect::<RedBlackTreeSet<u32>>());
    let q: Queue<u32> = v.iter().copied().collect();
    seq!("Vector from Queue", q.iter().copied().collect::<Vector<u32>>());
    seq!("List from Vector", q.iter().copied().collect::<Vector<u32>>().iter().copied().take_while(|_| true).collect::<List<u32>>());
    seq!("List from a huge range", { let n = v.len() as u64; let s: List<u64> = (0..u64::MAX).take_while(|x| *x < n).collect(); s.iter().map(|i| v[*i as usize]).collect::<List<u32>>() });
    Ok(())
}

pub struct C;
impl Check for C {
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "A case is one of: a constructor with a degree or a number of bits from 0 to 255 (powers of two from 2 to 64 and 1 to 16 bits must be accepted; what is accepted must be empty and then agree with a model over a generated history); a structure type built from an iterator with generated items, repetitions, any lower and upper size hint (absent, exact, far above the truth, wrong) and more items after its end, compared with one-by-one insertion and with the model, with memory bounded by the number of items; every macro, new, new_sync, default and collect form over generated small contents. Non-trivial: at least two items, or a configuration."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["an iterator's lower size bound is at most 100 above the number of its items (memory may be reserved for that many)"]
    }
    fn budget(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 2_000_000,
            Tier::Thorough => 10_000_000,
        }
    }
    fn generate(&self, r: &mut Rng, i: u64, _: Tier) -> Case {
        let mode = r.weighted(&[8, 4, 2]);
        let sel = (i % 8) as u32;
        let x = if r.chance(1, 3) { 1 << r.below(8) } else { r.below(256) };
        let n = match mix(i) % 20_000 {
            0 => r.range(10_000, 70_000),
            x if x % 500 == 1 => r.below(3000),
            _ => r.skewed(100),
        };
        // (a hash function which spreads)
        let hash = if n > 3000 { 0 } else { r.u32() & 0xFFFF };
        Case { cfg: vec![mode, sel, x, r.below(9), hash, r.below(8), n, r.u32() & 0xFF, r.below(4), r.below(3), r.below(10), r.below(100), r.u32()], ops: vec![] }
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        cx.checks += 1;
        match c.c(0) % 3 {
            0 => {
                cx.label("iterators");
                if c.c(7) & 64 == 0 { with_sub!(c.c(1), E, RcK, S => lying::<S>(c, cx)) } else { with_sub!(c.c(1), E, ArcTK, S => lying::<S>(c, cx)) }
            }
            1 => {
                cx.label("configurations");
                configuration(c, cx)
            }
            _ => {
                cx.label("macros and constructors");
                ways(c, cx)
            }
        }
    }
}
