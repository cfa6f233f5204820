//! C10: set relations agree with set theory.
use archery::{ArcTK, RcK, SharedPointerKind};
use rpds::*;
use rv::elem::{E, Elem, TH};
use rv::engine::*;
use rv::ensure;
use rv::routes::*;
use rv::subj::{Conf, Kind};
use std::collections::BTreeSet;
use std::collections::hash_map::RandomState;

struct Rel {
    sub: bool,
    sup: bool,
    dis: bool,
    eq: bool,
}

fn relations(a: &BTreeSet<u32>, b: &BTreeSet<u32>) -> Rel {
    Rel { sub: a.is_subset(b), sup: a.is_superset(b), dis: a.is_disjoint(b), eq: a == b }
}

macro_rules! rels {
    ($what:expr, $a:expr, $b:expr, $w:expr) => {{
        let (what, a, b, w) = ($what, $a, $b, $w);
        ensure!(a.is_subset(b) == w.sub, "{what}: a.is_subset(b) is {}", !w.sub);
        ensure!(a.is_superset(b) == w.sup, "{what}: a.is_superset(b) is {}", !w.sup);
        ensure!(a.is_disjoint(b) == w.dis, "{what}: a.is_disjoint(b) is {}", !w.dis);
        ensure!(b.is_subset(a) == w.sup, "{what}: b.is_subset(a) is {}", !w.sup);
        ensure!(b.is_superset(a) == w.sub, "{what}: b.is_superset(a) is {}", !w.sub);
        ensure!(b.is_disjoint(a) == w.dis, "{what}: b.is_disjoint(a) is {}", !w.dis);
    }};
}
macro_rules! eq {
    ($what:expr, $a:expr, $b:expr, $w:expr) => {
        ensure!(($a == $b) == $w.eq && ($b == $a) == $w.eq && ($a != $b) != $w.eq, "{}: equality is {}", $what, $a == $b);
    };
}

fn own<'a>(it: impl Iterator<Item = &'a E>) -> BTreeSet<u32> {
    it.map(|e| e.id).collect()
}

/// Sets that are one element away from `a`, that element being chosen by its position in the iteration of `a`.
macro_rules! near {
    ($what:literal, $a:expr, $r:expr) => {{
        let (a, r) = ($a, $r);
        let order: Vec<u32> = a.iter().map(|e| e.id).collect();
        let n = order.len() as u32;
        let all: BTreeSet<u32> = order.iter().copied().collect();
        let outside = |mut y: u32| {
            while all.contains(&y) {
                y = y.wrapping_add(0x9E37_79B9);
            }
            y
        };
        // the others: fewer, as many, or more
        let many = r.below(3);
        let mut others = $a.clone();
        for (k, x) in order.iter().enumerate() {
            others.remove_mut(x);
            if many > 0 || k % 3 < 2 {
                others.insert_mut(E::mk(outside(*x ^ 1 << 31), 0));
            }
            if many == 2 {
                others.insert_mut(E::mk(outside(*x ^ 3 << 29), 0));
            }
        }
        ensure!(a.is_disjoint(&others) && others.is_disjoint(a), "{}: not disjoint from a set without any of its elements", $what);
        let mut at = vec![0, 1, n.wrapping_sub(1), n.wrapping_sub(2)];
        at.extend((0..4).map(|_| r.below(n.max(1))));
        for p in at {
            let Some(x) = order.get(p as usize) else { continue };
            let one = others.insert(E::mk(*x, 5));
            ensure!(!a.is_disjoint(&one) && !one.is_disjoint(a), "{}: disjoint from a set with the element at position {p} of {n} ({x})", $what);
            let rest = a.remove(x);
            ensure!(!a.is_subset(&rest) && rest.is_subset(a) && a.is_superset(&rest) && !rest.is_superset(a), "{}: wrong relation to itself without the element at position {p} of {n} ({x})", $what);
            // as many elements, one of them another
            let y = outside(if r.chance(1, 2) { r.u32() } else { *x ^ r.below(4) });
            let swapped = rest.insert(E::mk(y, 0));
            ensure!(!a.is_subset(&swapped) && !swapped.is_subset(a) && !a.is_superset(&swapped) && *a != swapped && swapped != *a, "{}: wrong relation to itself with {y} instead of the element at position {p} of {n} ({x})", $what);
            // more elements, but not this one
            let mut more = swapped;
            let (extra, place) = (r.pick(&[1, 2, 3, 9, 30]), r.below(3));
            let top = all.last().copied().unwrap_or(0);
            for k in 0..extra {
                // past the end, anywhere, or next to the elements
                let z = match place {
                    0 => top.wrapping_add(1 + k),
                    1 => k | 1 << 29,
                    _ => order[r.below(n) as usize].wrapping_add(r.below(4)),
                };
                more.insert_mut(E::mk(outside(z), 0));
            }
            ensure!(!a.is_subset(&more) && !more.is_superset(a) && !more.is_subset(a), "{}: wrong relation to a larger set without the element at position {p} of {n} ({x})", $what);
        }
    }};
}

struct In {
    ca: Vec<(u32, u32)>,
    cb: Vec<(u32, u32)>,
    fa: Conf,
    fb: Conf,
    ra: u32,
    rb: u32,
    seed: u64,
    derive: bool,
    near: bool,
}

fn run<P: SharedPointerKind, PO: SharedPointerKind>(sel: u32, i: &In, cx: &mut Cx) -> R {
    let mut r = Rng(i.seed);
    let sa: BTreeSet<u32> = i.ca.iter().map(|x| x.0).collect();
    let sb: BTreeSet<u32> = i.cb.iter().map(|x| x.0).collect();
    let w = relations(&sa, &sb);
    let id = Rel { sub: true, sup: true, dis: sa.is_empty(), eq: true };
    cx.label(if w.eq { "equal" } else if w.sub { "proper subset" } else if w.sup { "proper superset" } else if w.dis { "disjoint" } else { "overlapping" });
    // how b comes from a when it shares nodes with it
    macro_rules! derived {
        ($a:expr) => {{
            let mut b = $a.clone();
            for x in sa.difference(&sb) {
                if r.chance(1, 2) { b = b.remove(x); } else { b.remove_mut(x); }
            }
            for x in sb.difference(&sa) {
                if r.chance(1, 2) { b = b.insert(E::mk(*x, 0)); } else { b.insert_mut(E::mk(*x, 0)); }
            }
            b
        }};
    }
    macro_rules! content {
        ($s:expr, $want:expr) => {
            ensure!(own($s.iter()) == *$want, "the set does not hold the content it was built from");
        };
    }
    match sel {
        0 | 1 => {
            type S<P> = HashTrieSet<E, P, TH>;
            let a = <S<P> as Route<E>>::route(&i.ca, i.ra, &mut r, &i.fa, &mut vec![]);
            let b = if i.derive { derived!(a) } else { <S<P> as Route<E>>::route(&i.cb, i.rb, &mut r, &i.fb, &mut vec![]) };
            content!(a, &sa);
            content!(b, &sb);
            rels!("HashTrieSet", &a, &b, &w);
            eq!("HashTrieSet", a, b, w);
            if i.near {
                near!("HashTrieSet", &a, &mut r);
            }
            let c = a.clone();
            rels!("HashTrieSet and its clone", &a, &c, &id);
            rels!("HashTrieSet and itself", &a, &a, &id);
            // the other hasher type
            let mut d: HashTrieSet<E, P, RandomState> = HashTrieSet::new_with_hasher_and_degree_and_ptr_kind(RandomState::new(), i.fb.degree);
            for x in &i.cb {
                d.insert_mut(E::mk(x.0, 7));
            }
            rels!("HashTrieSets with different hasher types", &a, &d, &w);
            let b2 = <HashTrieSet<E, PO, TH> as Route<E>>::route(&i.cb, i.rb + 1, &mut r, &i.fb, &mut vec![]);
            eq!("HashTrieSets with different pointer kinds", a, b2, w);
        }
        _ => {
            let a = <RedBlackTreeSet<E, P> as Route<E>>::route(&i.ca, i.ra, &mut r, &i.fa, &mut vec![]);
            content!(a, &sa);
            if i.derive {
                let b = derived!(a);
                content!(b, &sb);
                rels!("RedBlackTreeSet", &a, &b, &w);
                eq!("RedBlackTreeSet", a, b, w);
            }
            let b = <RedBlackTreeSet<E, PO> as Route<E>>::route(&i.cb, i.rb, &mut r, &i.fb, &mut vec![]);
            content!(b, &sb);
            rels!("RedBlackTreeSet", &a, &b, &w);
            eq!("RedBlackTreeSet", a, b, w);
            if i.near {
                near!("RedBlackTreeSet", &a, &mut r);
            }
            let c = a.clone();
            rels!("RedBlackTreeSet and its clone", &a, &c, &id);
        }
    }
    Ok(())
}

pub struct C;
impl Check for C {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "A case is two contents in a chosen relation (equal, subset, superset, disjoint, interleaved disjoint, overlapping, one element apart, one or both empty), built by independent histories or with the second derived from a clone of the first (sharing nodes), with independent hash functions, degrees, hasher types and pointer kinds; is_subset, is_superset, is_disjoint and equality in both directions are compared with BTreeSet; in a third of the cases also against sets one element away, for elements chosen by iteration position (first, second, last, last but one, random). Non-trivial: both sets are non-empty."
    }
    fn budget(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 400_000,
            Tier::Thorough => 10_000_000,
        }
    }
    fn generate(&self, r: &mut Rng, i: u64, _: Tier) -> Case {
        let n = if mix(i) % 200 == 3 { r.below(1500) } else if mix(i) % 20 == 7 { r.below(200) } else { r.skewed(24) };
        let h = r.u32() & 0xFFFF;
        let h2 = if r.chance(1, 2) { h } else { r.u32() & 0xFFFF };
        Case { cfg: vec![(i % 4) as u32, r.below(4), r.below(6), r.below(3), h, r.below(8), n, r.below(6), r.below(8), h2, r.below(6), r.below(6), r.u32(), r.u32(), u32::from(mix(i ^ 77) % 3 == 0)], ops: vec![] }
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        let fa = Conf::decode(c.c(2), 0, c.c(4), c.c(5));
        let fb = Conf::decode(c.c(7), 0, c.c(9), c.c(5));
        let mut r = Rng(u64::from(c.c(12)));
        let ca = content(Kind::Set, &mut r, (c.c(6) as usize).min(3000), fa.universe);
        let mut q = Rng(u64::from(c.c(13)) ^ 0xFFFF_0000_0000);
        let n = ca.len() as u32;
        let fresh = content(Kind::Set, &mut q, n as usize, fa.universe);
        let mut cb: Vec<(u32, u32)> = match c.c(8) % 8 {
            0 => ca.clone(),
            1 => ca.iter().copied().filter(|_| q.chance(2, 3)).collect(),
            2 => ca.iter().copied().chain(fresh.iter().copied()).collect(),
            3 => fresh.iter().copied().filter(|x| !ca.contains(x)).collect(),
            4 => {
                // disjoint, interleaved
                ca.iter().map(|x| (x.0 ^ 1, 0)).filter(|x| !ca.contains(x)).collect()
            }
            5 => edit(Kind::Set, &ca, &mut q, fa.universe),
            6 => fresh,
            _ => {
                if n == 0 { fresh } else { vec![ca[q.below(n) as usize]] }
            }
        };
        cb.sort_unstable();
        cb.dedup();
        let i = In { fa, fb, ra: c.c(10), rb: c.c(11), seed: r.next(), derive: c.c(3) % 3 == 0, near: c.c(14) == 1, ca, cb };
        cx.log(|| format!("type {}, a = {:?}, b = {:?}, derived {}", c.c(0) % 4, &i.ca[..i.ca.len().min(20)], &i.cb[..i.cb.len().min(20)], i.derive));
        cx.nontrivial = !i.ca.is_empty() && !i.cb.is_empty();
        cx.checks += 1;
        let sel = c.c(0) % 4;
        match c.c(1) % 4 {
            0 => run::<RcK, RcK>(sel, &i, cx),
            1 => run::<RcK, ArcTK>(sel, &i, cx),
            2 => run::<ArcTK, RcK>(sel, &i, cx),
            _ => run::<ArcTK, ArcTK>(sel, &i, cx),
        }
    }
}
