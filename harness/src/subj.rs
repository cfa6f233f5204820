//! The eight structures behind one interface, each next to a reference model.
use crate::elem::{Elem, TH};
use crate::engine::{R, guarded, mix};
use crate::ensure;
use archery::SharedPointerKind;
use rpds::*;
use std::collections::{BTreeMap, VecDeque};
use std::fmt::Debug;

/// Reference model: a sequence of (id, tag), or a map id -> (key tag, value id, value tag).
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum M {
    Seq(VecDeque<(u32, u32)>),
    Map(BTreeMap<u32, (u32, u32, u32)>),
}

impl M {
    pub fn len(&self) -> usize {
        match self {
            M::Seq(s) => s.len(),
            M::Map(m) => m.len(),
        }
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn seq(&self) -> &VecDeque<(u32, u32)> {
        match self {
            M::Seq(s) => s,
            M::Map(_) => panic!("harness: not a sequence"),
        }
    }
    pub fn map(&self) -> &BTreeMap<u32, (u32, u32, u32)> {
        match self {
            M::Map(m) => m,
            M::Seq(_) => panic!("harness: not a map"),
        }
    }
    fn seq_mut(&mut self) -> &mut VecDeque<(u32, u32)> {
        match self {
            M::Seq(s) => s,
            M::Map(_) => panic!("harness: not a sequence"),
        }
    }
    fn map_mut(&mut self) -> &mut BTreeMap<u32, (u32, u32, u32)> {
        match self {
            M::Map(m) => m,
            M::Seq(_) => panic!("harness: not a map"),
        }
    }
    pub fn brief(&self) -> String {
        match self {
            M::Seq(s) => format!("{:?}{}", s.iter().take(12).map(|x| x.0).collect::<Vec<_>>(), if s.len() > 12 { format!("… len {}", s.len()) } else { String::new() }),
            M::Map(m) => format!("{:?}{}", m.iter().take(12).map(|(k, v)| (*k, v.1)).collect::<Vec<_>>(), if m.len() > 12 { format!("… size {}", m.len()) } else { String::new() }),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Seq,
    Map,
    Set,
}

/// Configuration of a structure under test.
#[derive(Clone, Debug)]
pub struct Conf {
    pub degree: u8,
    pub bits: u8,
    pub hash: TH,
    /// Keys are drawn from `0..universe`.
    pub universe: u32,
}

pub const DEGREES: [u8; 6] = [64, 2, 4, 8, 16, 32];
pub const BITS: [u8; 12] = [5, 1, 2, 3, 4, 6, 7, 8, 13, 32, 62, 63];
pub const UNIVERSES: [u32; 8] = [16, 2, 4, 8, 64, 256, 4096, u32::MAX];

impl Conf {
    /// Decodes from four case words.
    pub fn decode(degree: u32, bits: u32, hash: u32, universe: u32) -> Conf {
        Conf {
            degree: DEGREES[degree as usize % DEGREES.len()],
            bits: BITS[bits as usize % BITS.len()],
            hash: TH { mode: hash % crate::elem::HMODES, seed: mix(u64::from(hash)) },
            universe: UNIVERSES[universe as usize % UNIVERSES.len()],
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Act {
    Add { id: u32, tag: u32, val: u32 },
    Del { id: u32 },
    /// Replace (Vector::set), assign through a mutable reference (maps), reverse (List).
    Mod { id: u32, tag: u32, val: u32 },
    /// Vector::get_mut / IndexMut; otherwise as `Mod`.
    Mod2 { id: u32, tag: u32, val: u32 },
    BulkAdd { n: u32, start: u32, tag: u32 },
    BulkDel { n: u32, from: u32 },
    /// Rebuild from an iterator over the current content.
    Rebuild,
    Extend { n: u32, start: u32, tag: u32 },
}

pub const N_ACTS: u32 = 8;

/// Turns an operation record into an action, relative to the current content.
pub fn decode(kind: Kind, op: &[u32; 4], m: &M, conf: &Conf, tag: &mut u32, max_bulk: u32) -> Act {
    let [k, a, b, c] = *op;
    *tag += 1;
    let t = *tag;
    let key = |existing: bool| -> u32 {
        match (kind, m) {
            (Kind::Seq, _) => {
                if existing && !m.is_empty() { a % m.len() as u32 } else { a % (m.len() as u32 + 3) }
            }
            (_, M::Map(mm)) => {
                if existing && !mm.is_empty() {
                    // a key already there, by rank
                    let r = a as usize % mm.len();
                    if mm.len() > 2000 { *mm.range((a % conf.universe)..).next().map_or_else(|| mm.keys().next().unwrap(), |x| x.0) } else { *mm.keys().nth(r).unwrap() }
                } else {
                    a % conf.universe
                }
            }
            _ => a,
        }
    };
    // up to some length next to a multiple of a power of the degree of a vector
    let edge = |c: u32| {
        let mut sizes = vec![];
        let d = 1u64 << conf.bits.min(20);
        let len = m.len() as u64;
        let mut p = d;
        while p <= len + u64::from(max_bulk) && p < 1 << 30 {
            let k = len / p + 1;
            sizes.extend([p * k - 1, p * k, p * k + 1, p * (k + 1), p * (k + 1) + 1]);
            p *= d;
        }
        sizes.retain(|x| *x > len && *x - len <= u64::from(max_bulk));
        if sizes.is_empty() { 1 + c % max_bulk.max(1) } else { (sizes[c as usize % sizes.len()] - len) as u32 }
    };
    let n = |c: u32| if kind == Kind::Seq && b % 4 == 1 && k % N_ACTS != 5 { edge(c) } else { 1 + c % max_bulk.max(1) };
    match k % N_ACTS {
        0 => Act::Add { id: if kind == Kind::Seq { a % conf.universe.max(64) } else { key(b % 8 == 0) }, tag: t, val: b },
        1 => Act::Del { id: key(b % 4 != 0) },
        2 => Act::Mod { id: key(b % 4 != 0), tag: t, val: b },
        3 => Act::Mod2 { id: key(b % 4 != 0), tag: t, val: b },
        4 => Act::BulkAdd { n: n(c), start: a % conf.universe, tag: t },
        5 => Act::BulkDel { n: n(c), from: a },
        6 => Act::Rebuild,
        _ => Act::Extend { n: n(c), start: a % conf.universe, tag: t },
    }
}

/// Keys of a bulk insertion.
fn bulk_key(conf: &Conf, start: u32, i: u32) -> u32 {
    let step = match start % 4 {
        0 => 1u32,
        1 => conf.universe - 1, // descending
        2 => 7,
        _ => 0x9E37_79B1,
    };
    ((u64::from(start) + u64::from(step) * u64::from(i)) % u64::from(conf.universe)) as u32
}

pub trait Sub<T: Elem>: Clone + Sized {
    const NAME: &'static str;
    const KIND: Kind;
    fn empty(c: &Conf) -> Self;
    fn model(_c: &Conf) -> M {
        match Self::KIND {
            Kind::Seq => M::Seq(VecDeque::new()),
            _ => M::Map(BTreeMap::new()),
        }
    }
    /// Applies an action in place to structure and model, comparing reported results.
    fn act_mut(&mut self, m: &mut M, a: &Act, c: &Conf) -> R;
    /// Applies an action through the persistent interface; `None` when it has no persistent form.
    fn act_ref(&self, m: &M, a: &Act, c: &Conf) -> Result<Option<(Self, M)>, String>;
    /// Compares everything observable with the model. `full` adds the accessor-by-accessor comparison.
    fn verify(&self, m: &M, c: &Conf, full: bool) -> R;
    /// Calls `f` for the (key, value) of each element in iteration order.
    fn each(&self, f: &mut dyn FnMut(&T, Option<&T>));
    fn debug(&self) -> String;
    /// A single read access (`how`) about key or index `key`, compared with the model.
    fn probe(&self, m: &M, key: u32, how: u32) -> R;
}

pub fn seq_eq<'a, T: Elem>(what: &str, it: impl Iterator<Item = &'a T>, want: impl ExactSizeIterator<Item = (u32, u32)>) -> R {
    let n = want.len();
    let mut want = want;
    let mut i = 0;
    for x in it {
        match want.next() {
            None => return Err(format!("{what}: more than the expected {n} elements (next {})", x.id())),
            Some(w) => ensure!((x.id(), x.tag()) == w, "{what}: element {i} is ({},{}) but should be {w:?}", x.id(), x.tag()),
        }
        i += 1;
    }
    ensure!(i == n, "{what}: {i} elements but should be {n}");
    Ok(())
}

pub fn opt_eq<T: Elem>(what: &str, got: Option<&T>, want: Option<(u32, u32)>) -> R {
    let g = got.map(|x| (x.id(), x.tag()));
    ensure!(g == want, "{what} is {g:?} but should be {want:?}");
    Ok(())
}

pub fn must_panic<X>(what: &str, f: impl FnOnce() -> X) -> R {
    ensure!(guarded(f).is_err(), "{what} did not panic");
    Ok(())
}

/// An element as a source iterator makes it (a point where a fault can be injected).
fn src<T: Elem>(id: u32, tag: u32) -> T {
    crate::elem::tick(crate::elem::ITER);
    T::mk(id, tag)
}

fn val_tag(tag: u32) -> u32 {
    tag ^ 0x8000_0000
}

// ------------------------------------------------------------------------------------------------ List

impl<T: Elem + Debug, P: SharedPointerKind> Sub<T> for List<T, P> {
    const NAME: &'static str = "List";
    const KIND: Kind = Kind::Seq;
    fn empty(_: &Conf) -> Self {
        List::new_with_ptr_kind()
    }
    fn act_mut(&mut self, m: &mut M, a: &Act, c: &Conf) -> R {
        let s = m.seq_mut();
        match a {
            Act::Add { id, tag, .. } => {
                self.push_front_mut(T::mk(*id, *tag));
                s.push_front((*id, *tag));
            }
            Act::Del { .. } => {
                let r = self.drop_first_mut();
                let w = s.pop_front().is_some();
                ensure!(r == w, "List::drop_first_mut returned {r}, should be {w}");
            }
            Act::Mod { .. } | Act::Mod2 { .. } => {
                self.reverse_mut();
                *s = s.iter().rev().copied().collect();
            }
            Act::BulkAdd { n, start, tag } => {
                for i in 0..*n {
                    let id = bulk_key(c, *start, i);
                    self.push_front_mut(T::mk(id, *tag));
                    s.push_front((id, *tag));
                }
            }
            Act::BulkDel { n, .. } => {
                for _ in 0..*n {
                    let (r, w) = (self.drop_first_mut(), s.pop_front().is_some());
                    ensure!(r == w, "List::drop_first_mut returned {r}, should be {w}");
                }
            }
            Act::Rebuild => *self = s.iter().map(|x| src::<T>(x.0, x.1)).collect(),
            Act::Extend { n, start, tag } => {
                let new: VecDeque<_> = (0..*n).map(|i| (bulk_key(c, *start, i), *tag)).collect();
                *self = new.iter().map(|x| src::<T>(x.0, x.1)).collect();
                *s = new;
            }
        }
        Ok(())
    }
    fn act_ref(&self, m: &M, a: &Act, c: &Conf) -> Result<Option<(Self, M)>, String> {
        let mut m = m.clone();
        let s = m.seq_mut();
        let r = match a {
            Act::Add { id, tag, .. } => {
                s.push_front((*id, *tag));
                self.push_front(T::mk(*id, *tag))
            }
            Act::Del { .. } => match (self.drop_first(), s.pop_front()) {
                (Some(l), Some(_)) => l,
                (None, None) => return Ok(None),
                (l, w) => return Err(format!("List::drop_first returned {} where the list had {w:?}", if l.is_some() { "Some" } else { "None" })),
            },
            Act::Mod { .. } | Act::Mod2 { .. } => {
                *s = s.iter().rev().copied().collect();
                self.reverse()
            }
            Act::BulkAdd { n, start, tag } => {
                let mut l = self.clone();
                for i in 0..*n {
                    let id = bulk_key(c, *start, i);
                    l = l.push_front(T::mk(id, *tag));
                    s.push_front((id, *tag));
                }
                l
            }
            Act::BulkDel { n, .. } => {
                let mut l = self.clone();
                for _ in 0..*n {
                    if s.pop_front().is_none() {
                        break;
                    }
                    l = l.drop_first().ok_or("List::drop_first returned None on a non-empty list")?;
                }
                l
            }
            _ => return Ok(None),
        };
        Ok(Some((r, m)))
    }
    fn verify(&self, m: &M, _: &Conf, full: bool) -> R {
        let s = m.seq();
        ensure!(self.len() == s.len(), "List::len is {} but should be {}", self.len(), s.len());
        ensure!(self.is_empty() == s.is_empty(), "List::is_empty is {}", self.is_empty());
        opt_eq("List::first", self.first(), s.front().copied())?;
        opt_eq("List::last", self.last(), s.back().copied())?;
        seq_eq("List::iter", self.iter(), s.iter().copied())?;
        if full {
            seq_eq("&List into_iter", self.into_iter(), s.iter().copied())?;
        }
        Ok(())
    }
    fn each(&self, f: &mut dyn FnMut(&T, Option<&T>)) {
        self.iter().for_each(|x| f(x, None));
    }
    fn debug(&self) -> String {
        format!("{self}")
    }
    fn probe(&self, m: &M, key: u32, how: u32) -> R {
        let s = m.seq();
        match how % 3 {
            0 => opt_eq("List::first", self.first(), s.front().copied()),
            1 => opt_eq("List::last", self.last(), s.back().copied()),
            _ => opt_eq("List::iter().nth", self.iter().nth(key as usize % 8), s.get(key as usize % 8).copied()),
        }
    }
}

// ------------------------------------------------------------------------------------------------ Stack

impl<T: Elem + Debug, P: SharedPointerKind> Sub<T> for Stack<T, P> {
    const NAME: &'static str = "Stack";
    const KIND: Kind = Kind::Seq;
    fn empty(_: &Conf) -> Self {
        Stack::new_with_ptr_kind()
    }
    fn act_mut(&mut self, m: &mut M, a: &Act, c: &Conf) -> R {
        let s = m.seq_mut();
        match a {
            Act::Add { id, tag, .. } | Act::Mod { id, tag, .. } | Act::Mod2 { id, tag, .. } => {
                self.push_mut(T::mk(*id, *tag));
                s.push_front((*id, *tag));
            }
            Act::Del { .. } => {
                let (r, w) = (self.pop_mut(), s.pop_front().is_some());
                ensure!(r == w, "Stack::pop_mut returned {r}, should be {w}");
            }
            Act::BulkAdd { n, start, tag } => {
                for i in 0..*n {
                    let id = bulk_key(c, *start, i);
                    self.push_mut(T::mk(id, *tag));
                    s.push_front((id, *tag));
                }
            }
            Act::BulkDel { n, .. } => {
                for _ in 0..*n {
                    let (r, w) = (self.pop_mut(), s.pop_front().is_some());
                    ensure!(r == w, "Stack::pop_mut returned {r}, should be {w}");
                }
            }
            Act::Rebuild => *self = s.iter().map(|x| src::<T>(x.0, x.1)).collect(),
            Act::Extend { n, start, tag } => {
                let new: VecDeque<_> = (0..*n).map(|i| (bulk_key(c, *start, i), *tag)).collect();
                *self = new.iter().map(|x| src::<T>(x.0, x.1)).collect();
                *s = new;
            }
        }
        Ok(())
    }
    fn act_ref(&self, m: &M, a: &Act, c: &Conf) -> Result<Option<(Self, M)>, String> {
        let mut m = m.clone();
        let s = m.seq_mut();
        let r = match a {
            Act::Add { id, tag, .. } | Act::Mod { id, tag, .. } | Act::Mod2 { id, tag, .. } => {
                s.push_front((*id, *tag));
                self.push(T::mk(*id, *tag))
            }
            Act::Del { .. } => match (self.pop(), s.pop_front()) {
                (Some(l), Some(_)) => l,
                (None, None) => return Ok(None),
                (l, w) => return Err(format!("Stack::pop returned {} where the stack had {w:?}", if l.is_some() { "Some" } else { "None" })),
            },
            Act::BulkAdd { n, start, tag } => {
                let mut l = self.clone();
                for i in 0..*n {
                    let id = bulk_key(c, *start, i);
                    l = l.push(T::mk(id, *tag));
                    s.push_front((id, *tag));
                }
                l
            }
            Act::BulkDel { n, .. } => {
                let mut l = self.clone();
                for _ in 0..*n {
                    if s.pop_front().is_none() {
                        break;
                    }
                    l = l.pop().ok_or("Stack::pop returned None on a non-empty stack")?;
                }
                l
            }
            _ => return Ok(None),
        };
        Ok(Some((r, m)))
    }
    fn verify(&self, m: &M, _: &Conf, full: bool) -> R {
        let s = m.seq();
        ensure!(self.size() == s.len(), "Stack::size is {} but should be {}", self.size(), s.len());
        ensure!(self.is_empty() == s.is_empty(), "Stack::is_empty is {}", self.is_empty());
        opt_eq("Stack::peek", self.peek(), s.front().copied())?;
        seq_eq("Stack::iter", self.iter(), s.iter().copied())?;
        if full {
            seq_eq("&Stack into_iter", self.into_iter(), s.iter().copied())?;
        }
        Ok(())
    }
    fn each(&self, f: &mut dyn FnMut(&T, Option<&T>)) {
        self.iter().for_each(|x| f(x, None));
    }
    fn debug(&self) -> String {
        format!("{self}")
    }
    fn probe(&self, m: &M, key: u32, how: u32) -> R {
        let s = m.seq();
        match how % 2 {
            0 => opt_eq("Stack::peek", self.peek(), s.front().copied()),
            _ => opt_eq("Stack::iter().nth", self.iter().nth(key as usize % 8), s.get(key as usize % 8).copied()),
        }
    }
}

// ------------------------------------------------------------------------------------------------ Queue

impl<T: Elem + Debug, P: SharedPointerKind> Sub<T> for Queue<T, P> {
    const NAME: &'static str = "Queue";
    const KIND: Kind = Kind::Seq;
    fn empty(_: &Conf) -> Self {
        Queue::new_with_ptr_kind()
    }
    fn act_mut(&mut self, m: &mut M, a: &Act, c: &Conf) -> R {
        let s = m.seq_mut();
        match a {
            Act::Add { id, tag, .. } | Act::Mod { id, tag, .. } | Act::Mod2 { id, tag, .. } => {
                self.enqueue_mut(T::mk(*id, *tag));
                s.push_back((*id, *tag));
            }
            Act::Del { .. } => {
                let (r, w) = (self.dequeue_mut(), s.pop_front().is_some());
                ensure!(r == w, "Queue::dequeue_mut returned {r}, should be {w}");
            }
            Act::BulkAdd { n, start, tag } => {
                for i in 0..*n {
                    let id = bulk_key(c, *start, i);
                    self.enqueue_mut(T::mk(id, *tag));
                    s.push_back((id, *tag));
                }
            }
            Act::BulkDel { n, .. } => {
                for _ in 0..*n {
                    let (r, w) = (self.dequeue_mut(), s.pop_front().is_some());
                    ensure!(r == w, "Queue::dequeue_mut returned {r}, should be {w}");
                }
            }
            Act::Rebuild => *self = s.iter().map(|x| src::<T>(x.0, x.1)).collect(),
            Act::Extend { n, start, tag } => {
                let new: VecDeque<_> = (0..*n).map(|i| (bulk_key(c, *start, i), *tag)).collect();
                *self = new.iter().map(|x| src::<T>(x.0, x.1)).collect();
                *s = new;
            }
        }
        Ok(())
    }
    fn act_ref(&self, m: &M, a: &Act, c: &Conf) -> Result<Option<(Self, M)>, String> {
        let mut m = m.clone();
        let s = m.seq_mut();
        let r = match a {
            Act::Add { id, tag, .. } | Act::Mod { id, tag, .. } | Act::Mod2 { id, tag, .. } => {
                s.push_back((*id, *tag));
                self.enqueue(T::mk(*id, *tag))
            }
            Act::Del { .. } => match (self.dequeue(), s.pop_front()) {
                (Some(l), Some(_)) => l,
                (None, None) => return Ok(None),
                (l, w) => return Err(format!("Queue::dequeue returned {} where the queue had {w:?}", if l.is_some() { "Some" } else { "None" })),
            },
            Act::BulkAdd { n, start, tag } => {
                let mut l = self.clone();
                for i in 0..*n {
                    let id = bulk_key(c, *start, i);
                    l = l.enqueue(T::mk(id, *tag));
                    s.push_back((id, *tag));
                }
                l
            }
            Act::BulkDel { n, .. } => {
                let mut l = self.clone();
                for _ in 0..*n {
                    if s.pop_front().is_none() {
                        break;
                    }
                    l = l.dequeue().ok_or("Queue::dequeue returned None on a non-empty queue")?;
                }
                l
            }
            _ => return Ok(None),
        };
        Ok(Some((r, m)))
    }
    fn verify(&self, m: &M, _: &Conf, full: bool) -> R {
        let s = m.seq();
        ensure!(self.len() == s.len(), "Queue::len is {} but should be {}", self.len(), s.len());
        ensure!(self.is_empty() == s.is_empty(), "Queue::is_empty is {}", self.is_empty());
        opt_eq("Queue::peek", self.peek(), s.front().copied())?;
        seq_eq("Queue::iter", self.iter(), s.iter().copied())?;
        if full {
            seq_eq("&Queue into_iter", self.into_iter(), s.iter().copied())?;
        }
        Ok(())
    }
    fn each(&self, f: &mut dyn FnMut(&T, Option<&T>)) {
        self.iter().for_each(|x| f(x, None));
    }
    fn debug(&self) -> String {
        format!("{self}")
    }
    fn probe(&self, m: &M, key: u32, how: u32) -> R {
        let s = m.seq();
        match how % 2 {
            0 => opt_eq("Queue::peek", self.peek(), s.front().copied()),
            _ => opt_eq("Queue::iter().nth", self.iter().nth(key as usize % 8), s.get(key as usize % 8).copied()),
        }
    }
}

// ------------------------------------------------------------------------------------------------ Vector

impl<T: Elem + Debug, P: SharedPointerKind> Sub<T> for Vector<T, P> {
    const NAME: &'static str = "Vector";
    const KIND: Kind = Kind::Seq;
    fn empty(c: &Conf) -> Self {
        Vector::new_with_bits(c.bits)
    }
    fn act_mut(&mut self, m: &mut M, a: &Act, c: &Conf) -> R {
        let s = m.seq_mut();
        match a {
            Act::Add { id, tag, .. } => {
                self.push_back_mut(T::mk(*id, *tag));
                s.push_back((*id, *tag));
            }
            Act::Del { .. } => {
                let (r, w) = (self.drop_last_mut(), s.pop_back().is_some());
                ensure!(r == w, "Vector::drop_last_mut returned {r}, should be {w}");
            }
            Act::Mod { id, tag, val } => {
                let i = *id as usize;
                let r = self.set_mut(i, T::mk(*val, *tag));
                ensure!(r == (i < s.len()), "Vector::set_mut({i}) returned {r} with length {}", s.len());
                if r {
                    s[i] = (*val, *tag);
                }
            }
            Act::Mod2 { id, tag, val } => {
                let i = *id as usize;
                if i < s.len() && val % 3 == 0 {
                    let x = &mut self[i];
                    ensure!((x.id(), x.tag()) == s[i], "IndexMut shows ({},{}) at {i}, should be {:?}", x.id(), x.tag(), s[i]);
                    x.set(*val, *tag);
                    s[i] = (*val, *tag);
                } else if i >= s.len() && val % 3 == 0 {
                    must_panic("Vector IndexMut past the end", || self[i].set(*val, *tag))?;
                } else {
                    match self.get_mut(i) {
                        Some(x) => {
                            ensure!(i < s.len(), "Vector::get_mut({i}) is Some with length {}", s.len());
                            ensure!((x.id(), x.tag()) == s[i], "Vector::get_mut({i}) shows ({},{}), should be {:?}", x.id(), x.tag(), s[i]);
                            x.set(*val, *tag);
                            s[i] = (*val, *tag);
                        }
                        None => ensure!(i >= s.len(), "Vector::get_mut({i}) is None with length {}", s.len()),
                    }
                }
            }
            Act::BulkAdd { n, start, tag } => {
                for i in 0..*n {
                    let id = bulk_key(c, *start, i);
                    self.push_back_mut(T::mk(id, *tag));
                    s.push_back((id, *tag));
                }
            }
            Act::BulkDel { n, .. } => {
                for _ in 0..*n {
                    let (r, w) = (self.drop_last_mut(), s.pop_back().is_some());
                    ensure!(r == w, "Vector::drop_last_mut returned {r}, should be {w}");
                }
            }
            Act::Rebuild => *self = s.iter().map(|x| src::<T>(x.0, x.1)).collect(),
            Act::Extend { n, start, tag } => {
                let add: Vec<_> = (0..*n).map(|i| (bulk_key(c, *start, i), *tag)).collect();
                self.extend(add.iter().map(|x| src::<T>(x.0, x.1)));
                s.extend(add);
            }
        }
        Ok(())
    }
    fn act_ref(&self, m: &M, a: &Act, c: &Conf) -> Result<Option<(Self, M)>, String> {
        let mut m = m.clone();
        let s = m.seq_mut();
        let r = match a {
            Act::Add { id, tag, .. } => {
                s.push_back((*id, *tag));
                self.push_back(T::mk(*id, *tag))
            }
            Act::Del { .. } => match (self.drop_last(), s.pop_back()) {
                (Some(l), Some(_)) => l,
                (None, None) => return Ok(None),
                (l, w) => return Err(format!("Vector::drop_last returned {} where the vector had {w:?}", if l.is_some() { "Some" } else { "None" })),
            },
            Act::Mod { id, tag, val } => {
                let i = *id as usize;
                match self.set(i, T::mk(*val, *tag)) {
                    Some(v) => {
                        ensure!(i < s.len(), "Vector::set({i}) is Some with length {}", s.len());
                        s[i] = (*val, *tag);
                        v
                    }
                    None => {
                        ensure!(i >= s.len(), "Vector::set({i}) is None with length {}", s.len());
                        return Ok(None);
                    }
                }
            }
            Act::BulkAdd { n, start, tag } => {
                let mut l = self.clone();
                for i in 0..*n {
                    let id = bulk_key(c, *start, i);
                    l = l.push_back(T::mk(id, *tag));
                    s.push_back((id, *tag));
                }
                l
            }
            Act::BulkDel { n, .. } => {
                let mut l = self.clone();
                for _ in 0..*n {
                    if s.pop_back().is_none() {
                        break;
                    }
                    l = l.drop_last().ok_or("Vector::drop_last returned None on a non-empty vector")?;
                }
                l
            }
            _ => return Ok(None),
        };
        Ok(Some((r, m)))
    }
    fn verify(&self, m: &M, c: &Conf, full: bool) -> R {
        let s = m.seq();
        let n = s.len();
        ensure!(self.len() == n, "Vector::len is {} but should be {n}", self.len());
        ensure!(self.is_empty() == s.is_empty(), "Vector::is_empty is {}", self.is_empty());
        opt_eq("Vector::first", self.first(), s.front().copied())?;
        opt_eq("Vector::last", self.last(), s.back().copied())?;
        seq_eq("Vector::iter", self.iter(), s.iter().copied())?;
        if full {
            seq_eq("Vector::iter().rev()", self.iter().rev(), s.iter().rev().copied())?;
            seq_eq("&Vector into_iter", self.into_iter(), s.iter().copied())?;
            for i in 0..n {
                let g = self.get(i).map(|x| (x.id(), x.tag()));
                ensure!(g == Some(s[i]), "Vector::get({i}) of {n} is {g:?}, should be {:?}", s[i]);
            }
            let cap = 1usize.checked_shl(u32::from(c.bits)).unwrap_or(usize::MAX);
            for i in [n, n + 1, n + 31, n | 1 << 20, n.max(1) * 32, n + cap.min(1 << 40), n + (cap.min(1 << 30)) * cap.min(1 << 30), usize::MAX] {
                if i >= n {
                    ensure!(self.get(i).is_none(), "Vector::get({i}) with length {n} is not None");
                }
            }
            if n > 0 {
                let i = n / 2;
                ensure!((self[i].id(), self[i].tag()) == s[i], "Vector index {i} gives {}", self[i].id());
            }
            if n % 16 < 2 {
                must_panic("Vector index past the end", || self[n].id())?;
            }
        }
        Ok(())
    }
    fn each(&self, f: &mut dyn FnMut(&T, Option<&T>)) {
        self.iter().for_each(|x| f(x, None));
    }
    fn debug(&self) -> String {
        format!("{self}")
    }
    fn probe(&self, m: &M, key: u32, how: u32) -> R {
        let s = m.seq();
        let i = key as usize % (s.len() + 1);
        match how % 4 {
            0 => opt_eq("Vector::first", self.first(), s.front().copied()),
            1 => opt_eq("Vector::last", self.last(), s.back().copied()),
            _ => opt_eq("Vector::get", self.get(i), s.get(i).copied()),
        }
    }
}

// ------------------------------------------------------------------------------------------------ maps

fn del_keys(m: &BTreeMap<u32, (u32, u32, u32)>, n: u32, from: u32) -> Vec<u32> {
    let len = m.len();
    if len == 0 {
        return vec![];
    }
    let n = (n as usize).min(len);
    let keys: Vec<u32> = m.keys().copied().collect();
    let st = match from % 5 {
        0 => 1,
        1 => len - 1,
        2 => 2,
        3 => len / 2 + 1,
        _ => 5,
    };
    let mut out = vec![];
    let mut i = from as usize % len;
    let mut used = vec![false; len];
    for _ in 0..n {
        while used[i] {
            i = (i + 1) % len;
        }
        used[i] = true;
        out.push(keys[i]);
        i = (i + st) % len;
    }
    out
}

macro_rules! map_sub {
    ($name:literal, [$($gen:tt)*], $ty:ty, $empty:expr, $collect:expr, $ordered:literal) => {
        impl<$($gen)*> Sub<T> for $ty {
            const NAME: &'static str = $name;
            const KIND: Kind = Kind::Map;
            fn empty(c: &Conf) -> Self {
                let f: fn(&Conf) -> Self = $empty;
                f(c)
            }
            fn act_mut(&mut self, m: &mut M, a: &Act, c: &Conf) -> R {
                let mm = m.map_mut();
                match a {
                    Act::Add { id, tag, val } => {
                        self.insert_mut(T::mk(*id, *tag), T::mk(*val, val_tag(*tag)));
                        mm.insert(*id, (*tag, *val, val_tag(*tag)));
                    }
                    Act::Del { id } => {
                        let r = if id % 2 == 0 { self.remove_mut(id) } else { self.remove_mut::<T>(&T::mk(*id, 0)) };
                        let w = mm.remove(id).is_some();
                        ensure!(r == w, concat!($name, "::remove_mut({}) returned {}, should be {}"), id, r, w);
                    }
                    Act::Mod { id, tag, val } | Act::Mod2 { id, tag, val } => {
                        let r = if id % 2 == 0 { self.get_mut(id) } else { self.get_mut::<T>(&T::mk(*id, 0)) };
                        match (r, mm.get_mut(id)) {
                            (Some(x), Some(w)) => {
                                ensure!((x.id(), x.tag()) == (w.1, w.2), concat!($name, "::get_mut({}) shows {:?}, should be {:?}"), id, (x.id(), x.tag()), w);
                                x.set(*val, *tag);
                                w.1 = *val;
                                w.2 = *tag;
                            }
                            (None, None) => (),
                            (r, w) => return Err(format!(concat!($name, "::get_mut({}) is {:?}, should be {:?}"), id, r.map(|x| x.id()), w)),
                        }
                    }
                    Act::BulkAdd { n, start, tag } | Act::Extend { n, start, tag } => {
                        for i in 0..*n {
                            let id = bulk_key(c, *start, i);
                            self.insert_mut(T::mk(id, *tag), T::mk(i, val_tag(*tag)));
                            mm.insert(id, (*tag, i, val_tag(*tag)));
                        }
                    }
                    Act::BulkDel { n, from } => {
                        for k in del_keys(mm, *n, *from) {
                            ensure!(self.remove_mut(&k), concat!($name, "::remove_mut({}) returned false for a present key"), k);
                            mm.remove(&k);
                        }
                    }
                    Act::Rebuild => {
                        crate::elem::set_default_hash(c.hash.mode, c.hash.seed);
                        let f: fn(&BTreeMap<u32, (u32, u32, u32)>) -> Self = $collect;
                        *self = f(mm);
                    }
                }
                Ok(())
            }
            fn act_ref(&self, m: &M, a: &Act, c: &Conf) -> Result<Option<(Self, M)>, String> {
                let mut m = m.clone();
                let mm = m.map_mut();
                let r = match a {
                    Act::Add { id, tag, val } => {
                        mm.insert(*id, (*tag, *val, val_tag(*tag)));
                        self.insert(T::mk(*id, *tag), T::mk(*val, val_tag(*tag)))
                    }
                    Act::Del { id } => {
                        mm.remove(id);
                        if id % 2 == 0 { self.remove(id) } else { self.remove::<T>(&T::mk(*id, 0)) }
                    }
                    Act::BulkAdd { n, start, tag } | Act::Extend { n, start, tag } => {
                        let mut x = self.clone();
                        for i in 0..*n {
                            let id = bulk_key(c, *start, i);
                            x = x.insert(T::mk(id, *tag), T::mk(i, val_tag(*tag)));
                            mm.insert(id, (*tag, i, val_tag(*tag)));
                        }
                        x
                    }
                    Act::BulkDel { n, from } => {
                        let mut x = self.clone();
                        for k in del_keys(mm, *n, *from) {
                            x = x.remove(&k);
                            mm.remove(&k);
                        }
                        x
                    }
                    _ => return Ok(None),
                };
                Ok(Some((r, m)))
            }
            fn verify(&self, m: &M, c: &Conf, full: bool) -> R {
                let mm = m.map();
                ensure!(self.size() == mm.len(), concat!($name, "::size is {} but should be {}"), self.size(), mm.len());
                ensure!(self.is_empty() == mm.is_empty(), concat!($name, "::is_empty is {}"), self.is_empty());
                map_iter_eq(concat!($name, "::iter"), self.iter().map(|(k, v)| (k, Some(v))), mm, $ordered)?;
                if full {
                    map_iter_eq(concat!($name, "::keys"), self.keys().map(|k| (k, None)), mm, $ordered)?;
                    let mut it = self.iter();
                    for v in self.values() {
                        let w = it.next().map(|(_, v)| (v.id(), v.tag()));
                        ensure!(w == Some((v.id(), v.tag())), concat!($name, "::values disagrees with iter"));
                    }
                    ensure!(it.next().is_none(), concat!($name, "::values is shorter than iter"));
                    map_iter_eq(concat!("&", $name, " into_iter"), self.into_iter().map(|(k, v)| (k, Some(v))), mm, $ordered)?;
                    for (i, (k, w)) in mm.iter().enumerate() {
                        let (g, kv, has) = if i % 2 == 0 {
                            (self.get(k), self.get_key_value(k), self.contains_key(k))
                        } else {
                            let q = T::mk(*k, u32::MAX);
                            (self.get::<T>(&q), self.get_key_value::<T>(&q), self.contains_key::<T>(&q))
                        };
                        ensure!(has, concat!($name, "::contains_key({}) is false"), k);
                        opt_eq(concat!($name, "::get"), g, Some((w.1, w.2))).map_err(|e| format!("{e} (key {k})"))?;
                        let kv = kv.map(|(k, v)| (k.id(), k.tag(), v.id(), v.tag()));
                        ensure!(kv == Some((*k, w.0, w.1, w.2)), concat!($name, "::get_key_value({}) is {:?}, should be {:?}"), k, kv, w);
                        if i < 4 {
                            ensure!(self[k].id() == w.1, concat!($name, "[{}]"), k);
                        }
                    }
                    let mut absent = 0;
                    for j in 0..24u32 {
                        let k = if j < 16 { j % c.universe } else { mix(u64::from(j) + mm.len() as u64) as u32 % c.universe };
                        if !mm.contains_key(&k) {
                            ensure!(self.get(&k).is_none() && !self.contains_key(&k) && self.get_key_value(&k).is_none(), concat!($name, "::get({}) finds an absent key"), k);
                            absent += 1;
                            if absent == 1 && mm.len() % 8 < 2 {
                                must_panic(concat!($name, " index by an absent key"), || self[&k].id())?;
                            }
                        }
                    }
                    self.extra(mm)?;
                }
                Ok(())
            }
            fn each(&self, f: &mut dyn FnMut(&T, Option<&T>)) {
                self.iter().for_each(|(k, v)| f(k, Some(v)));
            }
            fn debug(&self) -> String {
                format!("{self}")
            }
            fn probe(&self, m: &M, key: u32, how: u32) -> R {
                let w = m.map().get(&key);
                match how % 4 {
                    0 => opt_eq(concat!($name, "::get"), self.get(&key), w.map(|w| (w.1, w.2))),
                    1 => opt_eq(concat!($name, "::get"), self.get::<T>(&T::mk(key, 9)), w.map(|w| (w.1, w.2))),
                    2 => opt_eq(concat!($name, "::get_key_value"), self.get_key_value(&key).map(|x| x.0), w.map(|w| (key, w.0))),
                    _ => {
                        ensure!(self.contains_key(&key) == w.is_some(), concat!($name, "::contains_key({}) is {}"), key, w.is_none());
                        Ok(())
                    }
                }
            }
        }
    };
}

macro_rules! set_sub {
    ($name:literal, [$($gen:tt)*], $ty:ty, $empty:expr, $collect:expr, $ordered:literal) => {
        impl<$($gen)*> Sub<T> for $ty {
            const NAME: &'static str = $name;
            const KIND: Kind = Kind::Set;
            fn empty(c: &Conf) -> Self {
                let f: fn(&Conf) -> Self = $empty;
                f(c)
            }
            fn act_mut(&mut self, m: &mut M, a: &Act, c: &Conf) -> R {
                let mm = m.map_mut();
                match a {
                    Act::Add { id, tag, .. } | Act::Mod { id, tag, .. } | Act::Mod2 { id, tag, .. } => {
                        self.insert_mut(T::mk(*id, *tag));
                        mm.insert(*id, (*tag, 0, 0));
                    }
                    Act::Del { id } => {
                        let r = if id % 2 == 0 { self.remove_mut(id) } else { self.remove_mut::<T>(&T::mk(*id, 0)) };
                        let w = mm.remove(id).is_some();
                        ensure!(r == w, concat!($name, "::remove_mut({}) returned {}, should be {}"), id, r, w);
                    }
                    Act::BulkAdd { n, start, tag } | Act::Extend { n, start, tag } => {
                        for i in 0..*n {
                            let id = bulk_key(c, *start, i);
                            self.insert_mut(T::mk(id, *tag));
                            mm.insert(id, (*tag, 0, 0));
                        }
                    }
                    Act::BulkDel { n, from } => {
                        for k in del_keys(mm, *n, *from) {
                            ensure!(self.remove_mut(&k), concat!($name, "::remove_mut({}) returned false for a present element"), k);
                            mm.remove(&k);
                        }
                    }
                    Act::Rebuild => {
                        crate::elem::set_default_hash(c.hash.mode, c.hash.seed);
                        let f: fn(&BTreeMap<u32, (u32, u32, u32)>) -> Self = $collect;
                        *self = f(mm);
                    }
                }
                Ok(())
            }
            fn act_ref(&self, m: &M, a: &Act, c: &Conf) -> Result<Option<(Self, M)>, String> {
                let mut m = m.clone();
                let mm = m.map_mut();
                let r = match a {
                    Act::Add { id, tag, .. } | Act::Mod { id, tag, .. } | Act::Mod2 { id, tag, .. } => {
                        mm.insert(*id, (*tag, 0, 0));
                        self.insert(T::mk(*id, *tag))
                    }
                    Act::Del { id } => {
                        mm.remove(id);
                        if id % 2 == 0 { self.remove(id) } else { self.remove::<T>(&T::mk(*id, 0)) }
                    }
                    Act::BulkAdd { n, start, tag } | Act::Extend { n, start, tag } => {
                        let mut x = self.clone();
                        for i in 0..*n {
                            let id = bulk_key(c, *start, i);
                            x = x.insert(T::mk(id, *tag));
                            mm.insert(id, (*tag, 0, 0));
                        }
                        x
                    }
                    Act::BulkDel { n, from } => {
                        let mut x = self.clone();
                        for k in del_keys(mm, *n, *from) {
                            x = x.remove(&k);
                            mm.remove(&k);
                        }
                        x
                    }
                    Act::Rebuild => return Ok(None),
                };
                Ok(Some((r, m)))
            }
            fn verify(&self, m: &M, c: &Conf, full: bool) -> R {
                let mm = m.map();
                ensure!(self.size() == mm.len(), concat!($name, "::size is {} but should be {}"), self.size(), mm.len());
                ensure!(self.is_empty() == mm.is_empty(), concat!($name, "::is_empty is {}"), self.is_empty());
                map_iter_eq(concat!($name, "::iter"), self.iter().map(|k| (k, None)), mm, $ordered)?;
                if full {
                    map_iter_eq(concat!("&", $name, " into_iter"), self.into_iter().map(|k| (k, None)), mm, $ordered)?;
                    for (i, (k, w)) in mm.iter().enumerate() {
                        let (g, has) = if i % 2 == 0 {
                            (self.get(k), self.contains(k))
                        } else {
                            let q = T::mk(*k, u32::MAX);
                            (self.get::<T>(&q), self.contains::<T>(&q))
                        };
                        ensure!(has, concat!($name, "::contains({}) is false"), k);
                        opt_eq(concat!($name, "::get"), g, Some((*k, w.0)))?;
                    }
                    for j in 0..24u32 {
                        let k = if j < 16 { j % c.universe } else { mix(u64::from(j) + mm.len() as u64) as u32 % c.universe };
                        if !mm.contains_key(&k) {
                            ensure!(self.get(&k).is_none() && !self.contains(&k), concat!($name, "::get({}) finds an absent element"), k);
                        }
                    }
                    self.extra(mm)?;
                }
                Ok(())
            }
            fn each(&self, f: &mut dyn FnMut(&T, Option<&T>)) {
                self.iter().for_each(|k| f(k, None));
            }
            fn debug(&self) -> String {
                format!("{self}")
            }
            fn probe(&self, m: &M, key: u32, how: u32) -> R {
                let w = m.map().get(&key);
                match how % 3 {
                    0 => opt_eq(concat!($name, "::get"), self.get(&key), w.map(|w| (key, w.0))),
                    1 => opt_eq(concat!($name, "::get"), self.get::<T>(&T::mk(key, 9)), w.map(|w| (key, w.0))),
                    _ => {
                        ensure!(self.contains(&key) == w.is_some(), concat!($name, "::contains({}) is {}"), key, w.is_none());
                        Ok(())
                    }
                }
            }
        }
    };
}

/// Compares an iteration with the model (in key order if `ordered`).
fn map_iter_eq<'a, T: Elem>(
    what: &str,
    it: impl Iterator<Item = (&'a T, Option<&'a T>)>,
    mm: &BTreeMap<u32, (u32, u32, u32)>,
    ordered: bool,
) -> R {
    let one = |k: &T, v: Option<&T>, wk: u32, w: &(u32, u32, u32)| -> R {
        ensure!(k.id() == wk && k.tag() == w.0, "{what}: entry ({},{}) should be ({wk},{})", k.id(), k.tag(), w.0);
        if let Some(v) = v {
            ensure!((v.id(), v.tag()) == (w.1, w.2), "{what}: value of {wk} is ({},{}), should be ({},{})", v.id(), v.tag(), w.1, w.2);
        }
        Ok(())
    };
    if ordered {
        let mut want = mm.iter();
        let mut n = 0;
        for (k, v) in it {
            let Some((wk, w)) = want.next() else { return Err(format!("{what}: more than {} entries (next key {})", mm.len(), k.id())) };
            one(k, v, *wk, w)?;
            n += 1;
        }
        ensure!(n == mm.len(), "{what}: {n} entries, should be {}", mm.len());
    } else {
        let mut n = 0usize;
        let mut sum = 0u64;
        let mut seen: Vec<u32> = Vec::with_capacity(mm.len());
        for (k, v) in it {
            let Some(w) = mm.get(&k.id()) else { return Err(format!("{what}: yields absent key {}", k.id())) };
            one(k, v, k.id(), w)?;
            n += 1;
            sum = sum.wrapping_add(mix(u64::from(k.id())));
            ensure!(n <= mm.len(), "{what}: more than {} entries", mm.len());
            seen.push(k.id());
        }
        ensure!(n == mm.len(), "{what}: {n} entries, should be {}", mm.len());
        let want = mm.keys().fold(0u64, |s, k| s.wrapping_add(mix(u64::from(*k))));
        if sum != want {
            seen.sort_unstable();
            return Err(format!("{what}: some entry twice, some missing: {:?}", &seen[..seen.len().min(40)]));
        }
    }
    Ok(())
}

/// Checks specific to one map type.
trait Extra<T> {
    fn extra(&self, _m: &BTreeMap<u32, (u32, u32, u32)>) -> R {
        Ok(())
    }
}
impl<T: Elem, P: SharedPointerKind> Extra<T> for HashTrieMap<T, T, P, TH> {}
impl<T: Elem, P: SharedPointerKind> Extra<T> for HashTrieSet<T, P, TH> {}
impl<T: Elem, P: SharedPointerKind> Extra<T> for RedBlackTreeMap<T, T, P> {
    fn extra(&self, mm: &BTreeMap<u32, (u32, u32, u32)>) -> R {
        let f = |x: Option<(&T, &T)>| x.map(|(k, v)| (k.id(), (k.tag(), v.id(), v.tag())));
        let w = |x: Option<(&u32, &(u32, u32, u32))>| x.map(|(k, v)| (*k, *v));
        ensure!(f(self.first()) == w(mm.first_key_value()), "RedBlackTreeMap::first is {:?}", f(self.first()));
        ensure!(f(self.last()) == w(mm.last_key_value()), "RedBlackTreeMap::last is {:?}", f(self.last()));
        ensure!(self.iter().rev().map(|(k, v)| (k.id(), v.tag())).eq(mm.iter().rev().map(|(k, v)| (*k, v.2))), "RedBlackTreeMap::iter().rev() is wrong");
        ensure!(self.keys().rev().map(|k| k.id()).eq(mm.keys().rev().copied()), "RedBlackTreeMap::keys().rev() is wrong");
        ensure!(self.values().rev().map(|k| k.tag()).eq(mm.values().rev().map(|v| v.2)), "RedBlackTreeMap::values().rev() is wrong");
        Ok(())
    }
}
impl<T: Elem, P: SharedPointerKind> Extra<T> for RedBlackTreeSet<T, P> {
    fn extra(&self, mm: &BTreeMap<u32, (u32, u32, u32)>) -> R {
        let f = |x: Option<&T>| x.map(|k| (k.id(), k.tag()));
        let w = |x: Option<(&u32, &(u32, u32, u32))>| x.map(|(k, v)| (*k, v.0));
        ensure!(f(self.first()) == w(mm.first_key_value()), "RedBlackTreeSet::first is {:?}", f(self.first()));
        ensure!(f(self.last()) == w(mm.last_key_value()), "RedBlackTreeSet::last is {:?}", f(self.last()));
        ensure!(self.iter().rev().map(|k| (k.id(), k.tag())).eq(mm.iter().rev().map(|(k, v)| (*k, v.0))), "RedBlackTreeSet::iter().rev() is wrong");
        Ok(())
    }
}

map_sub!("HashTrieMap", [T: Elem, P: SharedPointerKind], HashTrieMap<T, T, P, TH>,
    |c| HashTrieMap::new_with_hasher_and_degree_and_ptr_kind(c.hash.clone(), c.degree),
    |m| m.iter().map(|(k, v)| (src::<T>(*k, v.0), src::<T>(v.1, v.2))).collect(), false);
map_sub!("RedBlackTreeMap", [T: Elem, P: SharedPointerKind], RedBlackTreeMap<T, T, P>,
    |_| RedBlackTreeMap::new_with_ptr_kind(),
    |m| m.iter().map(|(k, v)| (src::<T>(*k, v.0), src::<T>(v.1, v.2))).collect(), true);
set_sub!("HashTrieSet", [T: Elem, P: SharedPointerKind], HashTrieSet<T, P, TH>,
    |c| HashTrieSet::new_with_hasher_and_degree_and_ptr_kind(c.hash.clone(), c.degree),
    |m| m.iter().map(|(k, v)| src::<T>(*k, v.0)).collect(), false);
set_sub!("RedBlackTreeSet", [T: Elem, P: SharedPointerKind], RedBlackTreeSet<T, P>,
    |_| RedBlackTreeSet::new_with_ptr_kind(),
    |m| m.iter().map(|(k, v)| src::<T>(*k, v.0)).collect(), true);

/// Runs `$body` with `$S` bound to the structure type selected by `$sel` (0..8) over element `$T` and pointer `$P`.
#[macro_export]
macro_rules! with_sub {
    ($sel:expr, $T:ty, $P:ty, $S:ident => $body:expr) => {
        match $sel % 8 {
            0 => { type $S = rpds::List<$T, $P>; $body }
            1 => { type $S = rpds::Stack<$T, $P>; $body }
            2 => { type $S = rpds::Queue<$T, $P>; $body }
            3 => { type $S = rpds::Vector<$T, $P>; $body }
            4 => { type $S = rpds::HashTrieMap<$T, $T, $P, $crate::elem::TH>; $body }
            5 => { type $S = rpds::RedBlackTreeMap<$T, $T, $P>; $body }
            6 => { type $S = rpds::HashTrieSet<$T, $P, $crate::elem::TH>; $body }
            _ => { type $S = rpds::RedBlackTreeSet<$T, $P>; $body }
        }
    };
}
