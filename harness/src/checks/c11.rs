//! C11: in-place and persistent operations are the same operation.
use archery::{ArcTK, RcK, SharedPointerKind};
use rpds::*;
use rv::elem::{E, Elem, TH};
use rv::engine::*;
use rv::ensure;
use rv::hist::{BULKS, gen_ops};
use rv::subj::*;
use std::fmt::Debug;

/// Everything observable, from the iteration.
fn dump<S: Sub<E>>(s: &S) -> Vec<(u32, u32, u32, u32)> {
    let mut v = vec![];
    s.each(&mut |k, x| v.push((k.id, k.tag, x.map_or(0, |x| x.id), x.map_or(0, |x| x.tag))));
    if S::KIND != Kind::Seq {
        v.sort_unstable();
    }
    v
}

/// What one operation does in both forms.
struct Both<S> {
    /// In place: result and report.
    mutated: S,
    report: Option<bool>,
    /// Persistent: result (unchanged content if `None`) and report.
    returned: Option<S>,
    name: String,
}

trait Ops: Sub<E> + PartialEq + Debug {
    /// Applies operation `op` to a copy in place and persistently.
    fn both(&self, base: Self, op: &Op, m: &M, c: &Conf) -> Both<Self>;
    /// extend / from_iter against single updates.
    fn bulk(op: &Op, c: &Conf, base: Self) -> Option<(Self, Self, &'static str)>;
    fn n(&self) -> usize;
}

fn key(op: &Op, m: &M, c: &Conf) -> u32 {
    match m {
        M::Map(mm) if op[1] % 2 == 0 && !mm.is_empty() => *mm.keys().nth(op[2] as usize % mm.len()).unwrap(),
        M::Map(_) => op[2] % c.universe,
        M::Seq(s) => op[2] % (s.len() as u32 + 2),
    }
}

fn items(op: &Op, c: &Conf) -> Vec<(u32, u32)> {
    let mut r = Rng(u64::from(op[2]));
    (0..op[1] % 80).map(|i| (if r.chance(1, 3) { r.below(4) } else { r.u32() } % c.universe, i)).collect()
}

macro_rules! simple {
    ($base:expr, $self:expr, $name:expr, $mutate:expr, $persist:expr) => {{
        let mut mutated = $base;
        let report: Option<bool> = $mutate(&mut mutated);
        let returned = $persist($self);
        Both { mutated, report, returned, name: $name }
    }};
}

impl<P: SharedPointerKind> Ops for List<E, P> {
    fn both(&self, base: Self, op: &Op, _: &M, _: &Conf) -> Both<Self> {
        let v = op[2] % 64;
        match op[0] % 3 {
            0 => simple!(base, self, format!("push_front({v})"), |s: &mut Self| { s.push_front_mut(E::mk(v, 1)); None }, |s: &Self| Some(s.push_front(E::mk(v, 1)))),
            1 => simple!(base, self, "drop_first".into(), |s: &mut Self| Some(s.drop_first_mut()), |s: &Self| s.drop_first()),
            _ => simple!(base, self, "reverse".into(), |s: &mut Self| { s.reverse_mut(); None }, |s: &Self| Some(s.reverse())),
        }
    }
    fn bulk(op: &Op, c: &Conf, _: Self) -> Option<(Self, Self, &'static str)> {
        let it = items(op, c);
        let mut s: Self = List::new_with_ptr_kind();
        it.iter().rev().for_each(|x| s.push_front_mut(E::mk(x.0, x.1)));
        Some((it.iter().map(|x| E::mk(x.0, x.1)).collect(), s, "List::from_iter"))
    }
    fn n(&self) -> usize {
        self.len()
    }
}
impl<P: SharedPointerKind> Ops for Stack<E, P> {
    fn both(&self, base: Self, op: &Op, _: &M, _: &Conf) -> Both<Self> {
        let v = op[2] % 64;
        match op[0] % 2 {
            0 => simple!(base, self, format!("push({v})"), |s: &mut Self| { s.push_mut(E::mk(v, 1)); None }, |s: &Self| Some(s.push(E::mk(v, 1)))),
            _ => simple!(base, self, "pop".into(), |s: &mut Self| Some(s.pop_mut()), |s: &Self| s.pop()),
        }
    }
    fn bulk(op: &Op, c: &Conf, _: Self) -> Option<(Self, Self, &'static str)> {
        let it = items(op, c);
        let mut s: Self = Stack::new_with_ptr_kind();
        it.iter().rev().for_each(|x| s.push_mut(E::mk(x.0, x.1)));
        Some((it.iter().map(|x| E::mk(x.0, x.1)).collect(), s, "Stack::from_iter"))
    }
    fn n(&self) -> usize {
        self.size()
    }
}
impl<P: SharedPointerKind> Ops for Queue<E, P> {
    fn both(&self, base: Self, op: &Op, _: &M, _: &Conf) -> Both<Self> {
        let v = op[2] % 64;
        match op[0] % 2 {
            0 => simple!(base, self, format!("enqueue({v})"), |s: &mut Self| { s.enqueue_mut(E::mk(v, 1)); None }, |s: &Self| Some(s.enqueue(E::mk(v, 1)))),
            _ => simple!(base, self, "dequeue".into(), |s: &mut Self| Some(s.dequeue_mut()), |s: &Self| s.dequeue()),
        }
    }
    fn bulk(op: &Op, c: &Conf, _: Self) -> Option<(Self, Self, &'static str)> {
        let it = items(op, c);
        let mut s: Self = Queue::new_with_ptr_kind();
        it.iter().for_each(|x| s.enqueue_mut(E::mk(x.0, x.1)));
        Some((it.iter().map(|x| E::mk(x.0, x.1)).collect(), s, "Queue::from_iter"))
    }
    fn n(&self) -> usize {
        self.len()
    }
}
impl<P: SharedPointerKind> Ops for Vector<E, P> {
    fn both(&self, base: Self, op: &Op, m: &M, c: &Conf) -> Both<Self> {
        let v = op[2] % 64;
        let i = key(op, m, c) as usize;
        match op[0] % 4 {
            0 => simple!(base, self, format!("push_back({v})"), |s: &mut Self| { s.push_back_mut(E::mk(v, 1)); None }, |s: &Self| Some(s.push_back(E::mk(v, 1)))),
            1 => simple!(base, self, "drop_last".into(), |s: &mut Self| Some(s.drop_last_mut()), |s: &Self| s.drop_last()),
            2 => simple!(base, self, format!("set({i}, {v})"), |s: &mut Self| Some(s.set_mut(i, E::mk(v, 1))), |s: &Self| s.set(i, E::mk(v, 1))),
            _ => simple!(base, self, format!("get_mut({i}) = {v}"), |s: &mut Self| Some(s.get_mut(i).map(|x| x.set(v, 1)).is_some()), |s: &Self| s.set(i, E::mk(v, 1))),
        }
    }
    fn bulk(op: &Op, c: &Conf, base: Self) -> Option<(Self, Self, &'static str)> {
        let it = items(op, c);
        if op[0] % 2 == 0 {
            let mut s: Self = Vector::new_with_ptr_kind();
            it.iter().for_each(|x| s.push_back_mut(E::mk(x.0, x.1)));
            return Some((it.iter().map(|x| E::mk(x.0, x.1)).collect(), s, "Vector::from_iter"));
        }
        let (mut a, mut b) = (base.clone(), base);
        a.extend(it.iter().map(|x| E::mk(x.0, x.1)));
        it.iter().for_each(|x| b.push_back_mut(E::mk(x.0, x.1)));
        Some((a, b, "Vector::extend"))
    }
    fn n(&self) -> usize {
        self.len()
    }
}

macro_rules! map_ops {
    ($ty:ty, $name:literal, |$c:ident| $empty:expr) => {
        impl<P: SharedPointerKind> Ops for $ty {
            fn both(&self, base: Self, op: &Op, m: &M, c: &Conf) -> Both<Self> {
                let k = key(op, m, c);
                let v = op[3] >> 8;
                match op[0] % 3 {
                    0 => simple!(base, self, format!("insert({k})"), |s: &mut Self| { s.insert_mut(E::mk(k, 5), E::mk(v, 1)); None }, |s: &Self| Some(s.insert(E::mk(k, 5), E::mk(v, 1)))),
                    1 => simple!(base, self, format!("remove({k})"), |s: &mut Self| Some(s.remove_mut(&k)), |s: &Self| {
                        let r = s.remove(&k);
                        if r.size() == s.size() { assert!(r.contains_key(&k) == s.contains_key(&k)); None } else { Some(r) }
                    }),
                    // get_mut keeps the key's tag
                    _ => {
                        let tag = self.get_key_value(&k).map(|x| x.0.tag);
                        simple!(base, self, format!("get_mut({k})"), |s: &mut Self| Some(s.get_mut(&k).map(|x| x.set(v, 1)).is_some()), |s: &Self| tag.map(|t| s.insert(E::mk(k, t), E::mk(v, 1))))
                    }
                }
            }
            fn bulk(op: &Op, $c: &Conf, _: Self) -> Option<(Self, Self, &'static str)> {
                let it = items(op, $c);
                rv::elem::set_default_hash($c.hash.mode, $c.hash.seed);
                let mut s: Self = $empty;
                it.iter().for_each(|x| s.insert_mut(E::mk(x.0, x.1), E::mk(x.1, 1)));
                Some((it.iter().map(|x| (E::mk(x.0, x.1), E::mk(x.1, 1))).collect(), s, concat!($name, "::from_iter")))
            }
            fn n(&self) -> usize {
                self.size()
            }
        }
    };
}
macro_rules! set_ops {
    ($ty:ty, $name:literal, |$c:ident| $empty:expr) => {
        impl<P: SharedPointerKind> Ops for $ty {
            fn both(&self, base: Self, op: &Op, m: &M, c: &Conf) -> Both<Self> {
                let k = key(op, m, c);
                match op[0] % 2 {
                    0 => simple!(base, self, format!("insert({k})"), |s: &mut Self| { s.insert_mut(E::mk(k, 5)); None }, |s: &Self| Some(s.insert(E::mk(k, 5)))),
                    _ => simple!(base, self, format!("remove({k})"), |s: &mut Self| Some(s.remove_mut(&k)), |s: &Self| {
                        let r = s.remove(&k);
                        if r.size() == s.size() { assert!(r.contains(&k) == s.contains(&k)); None } else { Some(r) }
                    }),
                }
            }
            fn bulk(op: &Op, $c: &Conf, _: Self) -> Option<(Self, Self, &'static str)> {
                let it = items(op, $c);
                rv::elem::set_default_hash($c.hash.mode, $c.hash.seed);
                let mut s: Self = $empty;
                it.iter().for_each(|x| s.insert_mut(E::mk(x.0, x.1)));
                Some((it.iter().map(|x| E::mk(x.0, x.1)).collect(), s, concat!($name, "::from_iter")))
            }
            fn n(&self) -> usize {
                self.size()
            }
        }
    };
}
map_ops!(HashTrieMap<E, E, P, TH>, "HashTrieMap", |c| HashTrieMap::new_with_hasher_and_ptr_kind(c.hash.clone()));
map_ops!(RedBlackTreeMap<E, E, P>, "RedBlackTreeMap", |c| RedBlackTreeMap::new_with_ptr_kind());
set_ops!(HashTrieSet<E, P, TH>, "HashTrieSet", |c| HashTrieSet::new_with_hasher_with_ptr_kind(c.hash.clone()));
set_ops!(RedBlackTreeSet<E, P>, "RedBlackTreeSet", |c| RedBlackTreeSet::new_with_ptr_kind());

fn run<S: Ops>(case: &Case, cx: &mut Cx) -> R {
    let conf = Conf::decode(case.c(2), case.c(3), case.c(4), case.c(5));
    let max_bulk = BULKS[case.c(6) as usize % 5];
    let mut tag = 0;
    let mut m = S::model(&conf);
    let nb = (case.c(7) as usize).min(case.ops.len());
    // two structures with the same history but nothing in common: one to keep, one to consume in place unshared
    let build = |tag: &mut u32, m: &mut M| -> Result<S, String> {
        let mut s = S::empty(&conf);
        for op in &case.ops[..nb] {
            let act = decode(S::KIND, &[op[0], op[1], op[2], op[2] >> 12], m, &conf, tag, max_bulk);
            s.act_mut(m, &act, &conf)?;
        }
        Ok(s)
    };
    let mut s = build(&mut tag, &mut m)?;
    cx.log(|| format!("state {}", m.brief()));
    cx.label(S::NAME);
    for op in &case.ops[nb..] {
        cx.checks += 1;
        if op[3] % 8 == 7 {
            if let Some((a, b, what)) = S::bulk(op, &conf, s.clone()) {
                ensure!(dump(&a) == dump(&b) && a == b && a.n() == b.n(), "{what} differs from single updates: {:?} / {:?}", dump(&a), dump(&b));
            }
            continue;
        }
        let before = dump(&s);
        // the receiver of the in-place form: a clone sharing everything, a clone of which the original was changed, or
        // an unshared structure
        let sharing = op[3] % 8;
        let base = if sharing < 4 {
            s.clone()
        } else if sharing == 4 && m.len() < 300 {
            let (mut t, mut m2) = (0, S::model(&conf));
            let x = build(&mut t, &mut m2)?;
            if dump(&x) == before { x } else { s.clone() }
        } else {
            // partially shared: a clone that went its own way and came back is made by the operation sequence itself
            s.clone()
        };
        let b = s.both(base, op, &m, &conf);
        let name = format!("{}::{}", S::NAME, b.name);
        let after = dump(&b.mutated);
        let want = b.returned.as_ref().map_or_else(|| before.clone(), dump);
        cx.log(|| format!("{name}: report {:?}, {} -> {} elements", b.report, before.len(), after.len()));
        ensure!(after == want, "{name}: in place gives {after:?}, persistent gives {want:?} (from {before:?})");
        if let Some(r) = b.report {
            ensure!(r == b.returned.is_some(), "{name}: in place reports {r}, persistent {}", b.returned.is_some());
        }
        ensure!(dump(&s) == before, "{name}: the receiver of the persistent form changed");
        if let Some(r) = &b.returned {
            ensure!(r == &b.mutated && b.mutated == *r && r.n() == b.mutated.n(), "{name}: the results are not equal (sizes {} and {})", r.n(), b.mutated.n());
            cx.nontrivial = true;
        } else {
            ensure!(b.mutated == s && s == b.mutated && s.n() == b.mutated.n(), "{name}: reported no change but the receiver differs");
        }
        // continue with one of the results and bring the model in line
        let next = if op[1] % 3 == 0 { b.returned.unwrap_or_else(|| s.clone()) } else { b.mutated };
        s = next;
        let d = dump(&s);
        m = match S::KIND {
            Kind::Seq => M::Seq(d.iter().map(|x| (x.0, x.1)).collect()),
            _ => M::Map(d.iter().map(|x| (x.0, (x.1, x.2, x.3))).collect()),
        };
    }
    Ok(())
}

pub struct C;
impl Check for C {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "A case builds one of the eight structures (pointer kinds, degrees, bits, hash functions) and then, operation by operation, applies the in-place form to a clone (or to an unshared rebuild) and the persistent form to the original and compares contents, equality and the bool/Option reports (set against get_mut, insert against get_mut included); extend and from_iter are compared with single updates. Non-trivial: some operation changed the structure."
    }
    fn budget(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 400_000,
            Tier::Thorough => 6_000_000,
        }
    }
    fn generate(&self, r: &mut Rng, i: u64, _: Tier) -> Case {
        if mix(i) % 60 == 0 {
            // a sequence whose length is next to a power of the degree, then few operations
            let mut ops = vec![[4, r.u32(), (r.u32() << 2) | 1, 0]];
            for _ in 0..r.range(1, 4) {
                ops.push([r.below(4), r.u32(), r.u32(), r.u32() & !7]);
            }
            let kind = if r.chance(3, 4) { 3 } else { r.below(4) };
            return Case { cfg: vec![kind, r.below(2), r.below(6), r.range(0, 5), 0, 0, r.range(2, 4), 1], ops };
        }
        let big = i % 101 == 3;
        let bulk = if big { r.range(2, 3) } else { r.weighted(&[5, 5, 1]) };
        let nb = r.below(10);
        let mut ops = gen_ops(r, nb);
        for _ in 0..r.range(1, if big { 10 } else { 40 }) {
            ops.push([r.u32(), r.u32(), r.u32(), r.u32()]);
        }
        Case { cfg: vec![(i % 8) as u32, r.below(2), r.below(6), r.below(12), r.u32() & 0xFFFF, r.below(8), bulk, nb], ops }
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        match c.c(1) % 2 {
            0 => rv::with_sub!(c.c(0), E, RcK, S => run::<S>(c, cx)),
            _ => rv::with_sub!(c.c(0), E, ArcTK, S => run::<S>(c, cx)),
        }
    }
}
