//! Building a structure with a wanted content through different histories.
use crate::elem::{Elem, TH};
use crate::engine::Rng;
use crate::subj::Conf;
use archery::SharedPointerKind;
use rpds::*;

/// Content: a sequence of elements (first component), or entries of a map (distinct first components).
pub type Content = [(u32, u32)];

pub const ROUTES: u32 = 6;

pub trait Route<T: Elem>: Sized {
    /// Builds `c` by history number `route`, with choices from `r`. `keep` receives other versions made on the way, so
    /// that nodes are shared.
    fn route(c: &Content, route: u32, r: &mut Rng, conf: &Conf, keep: &mut Vec<Self>) -> Self;
}

/// Permutation of the content chosen by `r`.
fn order(c: &Content, r: &mut Rng) -> Vec<(u32, u32)> {
    let mut v = c.to_vec();
    match r.below(4) {
        0 => (),
        1 => v.reverse(),
        _ => {
            for i in (1..v.len()).rev() {
                v.swap(i, r.below(i as u32 + 1) as usize);
            }
        }
    }
    v
}

impl<T: Elem, P: SharedPointerKind> Route<T> for List<T, P> {
    fn route(c: &Content, route: u32, r: &mut Rng, _: &Conf, keep: &mut Vec<Self>) -> Self {
        let mk = |x: &(u32, u32)| T::mk(x.0, x.1);
        let mut l: Self = List::new_with_ptr_kind();
        match route % ROUTES {
            0 => return c.iter().map(mk).collect(),
            1 => c.iter().rev().for_each(|x| l.push_front_mut(mk(x))),
            2 => {
                for x in c.iter().rev() {
                    for _ in 0..r.below(3) {
                        l.push_front_mut(T::mk(r.below(8), 9));
                        l.drop_first_mut();
                    }
                    l.push_front_mut(mk(x));
                }
            }
            3 => {
                c.iter().for_each(|x| l.push_front_mut(mk(x)));
                if r.chance(1, 2) {
                    keep.push(l.clone());
                }
                l.reverse_mut();
            }
            4 => {
                for x in c.iter().rev() {
                    let n = l.push_front(mk(x));
                    if r.chance(1, 3) {
                        keep.push(l);
                    }
                    l = n;
                }
            }
            _ => {
                c.iter().rev().for_each(|x| l.push_front_mut(mk(x)));
                keep.push(l.clone());
                for _ in 0..r.below(4) {
                    l = l.push_front(T::mk(r.below(8), 9));
                }
                while l.len() > c.len() {
                    l = l.drop_first().unwrap();
                }
                l = l.reverse().reverse();
            }
        }
        l
    }
}

impl<T: Elem, P: SharedPointerKind> Route<T> for Stack<T, P> {
    fn route(c: &Content, route: u32, r: &mut Rng, _: &Conf, keep: &mut Vec<Self>) -> Self {
        let mk = |x: &(u32, u32)| T::mk(x.0, x.1);
        let mut l: Self = Stack::new_with_ptr_kind();
        match route % ROUTES {
            0 => return c.iter().map(mk).collect(),
            1 => c.iter().rev().for_each(|x| l.push_mut(mk(x))),
            2 | 3 => {
                for x in c.iter().rev() {
                    for _ in 0..r.below(3) {
                        l.push_mut(T::mk(r.below(8), 9));
                        l.pop_mut();
                    }
                    l.push_mut(mk(x));
                }
            }
            _ => {
                for x in c.iter().rev() {
                    let n = l.push(T::mk(r.below(9), 3)).pop().unwrap().push(mk(x));
                    if r.chance(1, 3) {
                        keep.push(l);
                    }
                    l = n;
                }
            }
        }
        l
    }
}

impl<T: Elem, P: SharedPointerKind> Route<T> for Queue<T, P> {
    fn route(c: &Content, route: u32, r: &mut Rng, _: &Conf, keep: &mut Vec<Self>) -> Self {
        let mk = |x: &(u32, u32)| T::mk(x.0, x.1);
        let mut q: Self = Queue::new_with_ptr_kind();
        match route % ROUTES {
            0 => return c.iter().map(mk).collect(),
            1 => c.iter().for_each(|x| q.enqueue_mut(mk(x))),
            2 | 3 => {
                // junk in front, so that the content is split over both internal ends
                let junk = 1 + r.below(4);
                for _ in 0..junk {
                    q.enqueue_mut(T::mk(r.below(8), 9));
                }
                let cut = r.below(c.len() as u32 + 1) as usize;
                c[..cut].iter().for_each(|x| q.enqueue_mut(mk(x)));
                if r.chance(1, 2) {
                    keep.push(q.clone());
                }
                for _ in 0..junk {
                    q.dequeue_mut();
                }
                c[cut..].iter().for_each(|x| q.enqueue_mut(mk(x)));
            }
            4 => {
                let cut = r.below(c.len() as u32 + 1) as usize;
                q = c[..cut].iter().map(mk).collect();
                c[cut..].iter().for_each(|x| q.enqueue_mut(mk(x)));
            }
            _ => {
                q = q.enqueue(T::mk(r.below(9), 3));
                for (i, x) in c.iter().enumerate() {
                    q = q.enqueue(mk(x));
                    if r.chance(1, 3) {
                        keep.push(q.clone());
                    }
                    if i == c.len() / 2 {
                        q = q.dequeue().unwrap();
                    }
                }
                if c.is_empty() {
                    q = q.dequeue().unwrap();
                }
            }
        }
        q
    }
}

impl<T: Elem, P: SharedPointerKind> Route<T> for Vector<T, P> {
    fn route(c: &Content, route: u32, r: &mut Rng, conf: &Conf, keep: &mut Vec<Self>) -> Self {
        let mk = |x: &(u32, u32)| T::mk(x.0, x.1);
        let mut v: Self = Vector::new_with_bits(conf.bits);
        // nodes may hold everything (see `BITS`), so that one persistent operation copies the whole content
        let every = if c.len() <= 1000 { 1 } else { c.len() / 50 };
        match route % ROUTES {
            0 => return c.iter().map(mk).collect(),
            1 => c.iter().for_each(|x| v.push_back_mut(mk(x))),
            2 => {
                v.extend(c.iter().map(|x| T::mk(x.0 ^ 1, 0)));
                if r.chance(1, 2) {
                    keep.push(v.clone());
                }
                for (i, x) in c.iter().enumerate() {
                    if r.chance(1, 2) {
                        v.set_mut(i, mk(x));
                    } else {
                        *v.get_mut(i).unwrap() = mk(x);
                    }
                }
            }
            3 => {
                v.extend(c.iter().map(mk));
                let extra = r.below(70);
                for _ in 0..extra {
                    v.push_back_mut(T::mk(r.below(9), 3));
                }
                for _ in 0..extra {
                    v.drop_last_mut();
                }
            }
            4 => {
                for (i, x) in c.iter().enumerate() {
                    if i % every != 0 {
                        v.push_back_mut(mk(x));
                        continue;
                    }
                    let n = v.push_back(T::mk(x.0 ^ 1, 1)).drop_last().unwrap().push_back(mk(x));
                    if r.chance(1, 3) {
                        keep.push(v);
                    }
                    v = n;
                }
            }
            _ => {
                v.extend(c.iter().map(|x| T::mk(x.0.wrapping_add(1), 0)));
                for (i, x) in c.iter().enumerate() {
                    if i % every != 0 {
                        v.set_mut(i, mk(x));
                        continue;
                    }
                    v = v.set(i, mk(x)).unwrap();
                    if r.chance(1, 5) {
                        keep.push(v.clone());
                    }
                }
            }
        }
        v
    }
}

macro_rules! map_route {
    ([$($g:tt)*], $ty:ty, $empty:expr) => {
        impl<$($g)*> Route<T> for $ty {
            fn route(c: &Content, route: u32, r: &mut Rng, conf: &Conf, keep: &mut Vec<Self>) -> Self {
                let f: fn(&Conf) -> Self = $empty;
                let mut m = f(conf);
                let k = |x: &(u32, u32)| T::mk(x.0, 0);
                let v = |x: &(u32, u32)| T::mk(x.1, 0);
                let o = order(c, r);
                let has = |j: u32| c.iter().any(|x| x.0 == j);
                match route % ROUTES {
                    0 => {
                        crate::elem::set_default_hash(conf.hash.mode, conf.hash.seed);
                        return o.iter().map(|x| (k(x), v(x))).collect();
                    }
                    1 => o.iter().for_each(|x| m.insert_mut(k(x), v(x))),
                    2 => {
                        // junk keys in and out
                        let mut junk = vec![];
                        for x in &o {
                            if junk.len() < 60 && r.chance(2, 3) {
                                let j = r.u32() % conf.universe.saturating_mul(2).saturating_add(3);
                                if !has(j) {
                                    m.insert_mut(T::mk(j, 1), T::mk(1, 1));
                                    junk.push(j);
                                }
                            }
                            m.insert_mut(k(x), v(x));
                        }
                        for _ in 0..2 {
                            let j = r.u32() % conf.universe;
                            if !has(j) {
                                m.insert_mut(T::mk(j, 1), T::mk(1, 1));
                                junk.push(j);
                            }
                        }
                        if r.chance(1, 2) {
                            keep.push(m.clone());
                        }
                        for j in junk {
                            m.remove_mut(&j);
                        }
                    }
                    3 => {
                        for x in &o {
                            m.insert_mut(k(x), T::mk(x.1 ^ 1, 0));
                        }
                        if r.chance(1, 2) {
                            keep.push(m.clone());
                        }
                        for x in order(c, r) {
                            if r.chance(1, 2) {
                                m.insert_mut(k(&x), v(&x));
                            } else {
                                *m.get_mut(&x.0).unwrap() = v(&x);
                            }
                        }
                    }
                    4 => {
                        for x in &o {
                            let n = m.insert(k(x), v(x));
                            if r.chance(1, 3) {
                                keep.push(m);
                            }
                            m = n;
                        }
                    }
                    _ => {
                        for x in &o {
                            m = m.insert(k(x), v(x));
                        }
                        for x in order(c, r).iter().take(20) {
                            if r.chance(1, 2) {
                                keep.push(m.clone());
                                m = m.remove(&x.0);
                                m = m.insert(k(x), v(x));
                            }
                        }
                    }
                }
                m
            }
        }
    };
}

macro_rules! set_route {
    ([$($g:tt)*], $ty:ty, $empty:expr) => {
        impl<$($g)*> Route<T> for $ty {
            fn route(c: &Content, route: u32, r: &mut Rng, conf: &Conf, keep: &mut Vec<Self>) -> Self {
                let f: fn(&Conf) -> Self = $empty;
                let mut m = f(conf);
                let k = |x: &(u32, u32)| T::mk(x.0, 0);
                let o = order(c, r);
                let has = |j: u32| c.iter().any(|x| x.0 == j);
                match route % ROUTES {
                    0 => {
                        crate::elem::set_default_hash(conf.hash.mode, conf.hash.seed);
                        return o.iter().map(|x| k(x)).collect();
                    }
                    1 => o.iter().for_each(|x| m.insert_mut(k(x))),
                    2 | 3 => {
                        let mut junk = vec![];
                        for x in &o {
                            if junk.len() < 60 && r.chance(2, 3) {
                                let j = r.u32() % conf.universe.saturating_mul(2).saturating_add(3);
                                if !has(j) {
                                    m.insert_mut(T::mk(j, 1));
                                    junk.push(j);
                                }
                            }
                            m.insert_mut(k(x));
                        }
                        if r.chance(1, 2) {
                            keep.push(m.clone());
                        }
                        for j in junk {
                            m.remove_mut(&j);
                        }
                    }
                    4 => {
                        for x in &o {
                            let n = m.insert(k(x));
                            if r.chance(1, 3) {
                                keep.push(m);
                            }
                            m = n;
                        }
                    }
                    _ => {
                        for x in &o {
                            m = m.insert(k(x));
                        }
                        for x in order(c, r).iter().take(20) {
                            if r.chance(1, 2) {
                                keep.push(m.clone());
                                m = m.remove(&x.0).insert(k(x));
                            }
                        }
                    }
                }
                m
            }
        }
    };
}

map_route!([T: Elem, P: SharedPointerKind], HashTrieMap<T, T, P, TH>, |c| HashTrieMap::new_with_hasher_and_degree_and_ptr_kind(c.hash.clone(), c.degree));
map_route!([T: Elem, P: SharedPointerKind], RedBlackTreeMap<T, T, P>, |_| RedBlackTreeMap::new_with_ptr_kind());
set_route!([T: Elem, P: SharedPointerKind], HashTrieSet<T, P, TH>, |c| HashTrieSet::new_with_hasher_and_degree_and_ptr_kind(c.hash.clone(), c.degree));
set_route!([T: Elem, P: SharedPointerKind], RedBlackTreeSet<T, P>, |_| RedBlackTreeSet::new_with_ptr_kind());

/// Generates a content.
pub fn content(kind: crate::subj::Kind, r: &mut Rng, n: usize, universe: u32) -> Vec<(u32, u32)> {
    let mut out = vec![];
    if kind == crate::subj::Kind::Seq {
        for _ in 0..n {
            out.push((r.below(universe.min(64)), 0));
        }
        return out;
    }
    let mut seen = std::collections::BTreeSet::new();
    for _ in 0..n {
        let k = if universe <= 4096 { r.below(universe) } else if r.chance(1, 2) { r.u32() % universe } else { r.below(64) };
        if seen.insert(k) {
            let v = r.below(4);
            out.push((k, if kind == crate::subj::Kind::Set { 0 } else { v }));
        }
    }
    out.sort_unstable();
    out
}

/// A small change of a content; may return it unchanged.
pub fn edit(kind: crate::subj::Kind, c: &Content, r: &mut Rng, universe: u32) -> Vec<(u32, u32)> {
    let mut v = c.to_vec();
    let n = v.len() as u32;
    let seq = kind == crate::subj::Kind::Seq;
    match r.below(8) {
        0 | 1 => (),
        2 if n > 0 => {
            v.remove(r.below(n) as usize);
        }
        3 if n > 0 => {
            let i = r.below(n) as usize;
            if seq {
                v[i].0 = r.below(universe.min(64));
            } else {
                v[i].1 = r.below(4);
            }
        }
        4 if n > 0 => {
            let cut = r.below(n) as usize;
            v.truncate(cut);
        }
        5 => {
            let x = (r.u32() % universe, r.below(4));
            if seq {
                let i = r.below(n + 1) as usize;
                v.insert(i, x);
            } else if !v.iter().any(|y| y.0 == x.0) {
                v.push(x);
            }
        }
        6 if n > 1 => {
            // replace one key / swap two positions
            let (i, j) = (r.below(n) as usize, r.below(n) as usize);
            if seq {
                v.swap(i, j);
            } else {
                let k = r.u32() % universe;
                if !v.iter().any(|y| y.0 == k) {
                    v[i].0 = k;
                }
            }
        }
        _ => {
            v = content(kind, r, n as usize, universe);
        }
    }
    if kind == crate::subj::Kind::Set {
        v.iter_mut().for_each(|x| x.1 = 0);
    }
    if !seq {
        v.sort_unstable();
    }
    v
}
