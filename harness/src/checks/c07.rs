//! C07: iterators visit every element once and report exact lengths.
use archery::{ArcTK, RcK, SharedPointerKind};
use rpds::*;
use rv::ends;
use rv::elem::{E, TH};
use rv::engine::*;
use rv::ensure;
use rv::hist::{BULKS, gen_ops};
use rv::subj::*;

/// (id, tag) of key and of value; what an iterator does not show is zero.
type X = (u32, u32, u32, u32);

fn one(e: &E) -> X {
    (e.id, e.tag, 0, 0)
}
fn two((k, v): (&E, &E)) -> X {
    (k.id, k.tag, v.id, v.tag)
}
fn val(e: &E) -> X {
    (0, 0, e.id, e.tag)
}

fn size(what: &str, h: (usize, Option<usize>), len: Option<usize>, left: usize) -> R {
    ensure!(h == (left, Some(left)), "{what}: size_hint is {h:?} with {left} elements left");
    ensure!(len.is_none_or(|l| l == left), "{what}: len is {len:?} with {left} elements left");
    Ok(())
}

/// Position argument of nth and friends: mostly small, sometimes at or past the end.
fn amount(a: u32, left: usize) -> usize {
    match a % 8 {
        0..=4 => (a >> 3) as usize % 5,
        5 => left + (a >> 3) as usize % 3,
        6 => left.saturating_sub(1 + (a >> 3) as usize % 2),
        _ => (a >> 3) as usize % (left + 1),
    }
}

/// Runs a forward-only program.
fn fwd<I: Iterator>(what: &str, mut it: I, conv: fn(I::Item) -> X, len: fn(&I) -> Option<usize>, want: &[X], prog: &[Op], cx: &mut Cx) -> R {
    let (mut l, r) = (0, want.len());
    size(what, it.size_hint(), len(&it), r)?;
    let step = |what: &str, got: Option<I::Item>, w: Option<X>| -> R {
        let g = got.map(conv);
        ensure!(g == w, "{what}: got {g:?}, should be {w:?}");
        Ok(())
    };
    for op in prog {
        cx.checks += 1;
        match op[0] % 8 {
            0..=3 => {
                let w = (l < r).then(|| want[l]);
                step(&format!("{what}: next at {l} of {r}"), it.next(), w)?;
                l = (l + 1).min(r);
            }
            4 | 5 => {
                let n = amount(op[1], r - l);
                let w = (n < r - l).then(|| want[l + n]);
                step(&format!("{what}: nth({n}) at {l} of {r}"), it.nth(n), w)?;
                l = (l + n + 1).min(r);
            }
            6 => {
                let n = amount(op[1], r - l);
                let g: Vec<X> = it.by_ref().take(n).map(conv).collect();
                ensure!(g == want[l..(l + n).min(r)], "{what}: take({n}) at {l} of {r} gives {g:?}");
                l = (l + n).min(r);
            }
            _ => {
                let pat = op[1] % 11;
                let g = it.by_ref().map(conv).find(|x| x.0 % 11 == pat && x.2 % 3 == 0);
                let p = want[l..].iter().position(|x| x.0 % 11 == pat && x.2 % 3 == 0);
                ensure!(g == p.map(|p| want[l + p]), "{what}: find at {l} of {r} gives {g:?}");
                l = p.map_or(r, |p| l + p + 1);
            }
        }
        size(&format!("{what} after {l} elements"), it.size_hint(), len(&it), r - l)?;
    }
    let a = prog.first().map_or(0, |o| o[2]);
    let left = &want[l..];
    if a % 5 > 0 {
        return ends::fwd(&format!("{what}, the rest from {l} of {r}"), it, conv, left, a / 5, a / 5 / ends::FWD);
    }
    let g: Vec<X> = it.by_ref().map(conv).collect();
    ensure!(g == left, "{what}: the rest from {l} of {r} is {:?}…, should be {:?}…", &g[..g.len().min(20)], &left[..left.len().min(20)]);
    size(&format!("{what} exhausted"), it.size_hint(), len(&it), 0)?;
    for _ in 0..3 {
        ensure!(it.next().is_none(), "{what}: next after the end is not None");
    }
    size(&format!("{what} exhausted"), it.size_hint(), len(&it), 0)?;
    Ok(())
}

/// Runs a program working from both ends.
fn dbl<I: DoubleEndedIterator>(what: &str, mut it: I, conv: fn(I::Item) -> X, len: fn(&I) -> Option<usize>, want: &[X], prog: &[Op], cx: &mut Cx) -> R {
    let (mut l, mut r) = (0, want.len());
    size(what, it.size_hint(), len(&it), r)?;
    let step = |what: &str, got: Option<I::Item>, w: Option<X>| -> R {
        let g = got.map(conv);
        ensure!(g == w, "{what}: got {g:?}, should be {w:?}");
        Ok(())
    };
    let (mut f, mut b) = (0, 0);
    for op in prog {
        cx.checks += 1;
        match op[0] % 12 {
            0..=3 => {
                let w = (l < r).then(|| want[l]);
                step(&format!("{what}: next with {l}..{r} left"), it.next(), w)?;
                l = (l + 1).min(r);
                f += 1;
            }
            4..=7 => {
                let w = (l < r).then(|| want[r - 1]);
                step(&format!("{what}: next_back with {l}..{r} left"), it.next_back(), w)?;
                r = if l < r { r - 1 } else { l };
                b += 1;
            }
            8 => {
                let n = amount(op[1], r - l);
                let w = (n < r - l).then(|| want[l + n]);
                step(&format!("{what}: nth({n}) with {l}..{r} left"), it.nth(n), w)?;
                l = (l + n + 1).min(r);
            }
            9 => {
                let n = amount(op[1], r - l);
                let w = (n < r - l).then(|| want[r - 1 - n]);
                step(&format!("{what}: nth_back({n}) with {l}..{r} left"), it.nth_back(n), w)?;
                r = if n < r - l { r - 1 - n } else { l };
            }
            10 => {
                let n = amount(op[1], r - l);
                let g: Vec<X> = it.by_ref().take(n).map(conv).collect();
                ensure!(g == want[l..(l + n).min(r)], "{what}: take({n}) with {l}..{r} left gives {g:?}");
                l = (l + n).min(r);
            }
            _ => {
                let n = amount(op[1], r - l);
                let g: Vec<X> = it.by_ref().rev().take(n).map(conv).collect();
                let w: Vec<X> = want[l..r].iter().rev().take(n).copied().collect();
                ensure!(g == w, "{what}: rev().take({n}) with {l}..{r} left gives {g:?}, should be {w:?}");
                r -= w.len();
            }
        }
        size(&format!("{what} with {l}..{r} left"), it.size_hint(), len(&it), r - l)?;
    }
    if f > 1 && b > 1 && want.len() > 3 {
        cx.nontrivial = true;
    }
    let a = prog.first().map_or(0, |o| o[2]);
    let left = &want[l..r];
    let cut = |x: &[X]| format!("{:?}", &x[..x.len().min(20)]);
    match a % 7 {
        0 => {
            let g: Vec<X> = it.by_ref().map(conv).collect();
            ensure!(g == left, "{what}: the rest of {l}..{r} is {}, should be {}", cut(&g), cut(left));
            for i in 0..4 {
                let n = if (a >> i) & 16 == 0 { it.next() } else { it.next_back() };
                ensure!(n.is_none(), "{what}: not None after the end");
                size(&format!("{what} exhausted"), it.size_hint(), len(&it), 0)?;
            }
        }
        1 => {
            let g: Vec<X> = it.by_ref().rev().map(conv).collect();
            let w: Vec<X> = left.iter().rev().copied().collect();
            ensure!(g == w, "{what}: the reversed rest of {l}..{r} is {}, should be {}", cut(&g), cut(&w));
            for i in 0..4 {
                let n = if (a >> i) & 16 == 0 { it.next() } else { it.next_back() };
                ensure!(n.is_none(), "{what}: not None after the end");
                size(&format!("{what} exhausted"), it.size_hint(), len(&it), 0)?;
            }
        }
        _ => {
            let a = a / 7;
            ends::dbl(&format!("{what}, the rest of {l}..{r}"), it, conv, left, a, a / (2 * ends::FWD + ends::BWD))?;
        }
    }
    Ok(())
}

fn esi<I: ExactSizeIterator>(i: &I) -> Option<usize> {
    Some(i.len())
}
fn no<I>(_: &I) -> Option<usize> {
    None
}

/// The programs for the iterators of one structure.
trait Its: Sub<E> {
    fn its(&self, m: &M, prog: &[Op], cx: &mut Cx) -> R;
}

fn keys_only(w: &[X]) -> Vec<X> {
    w.iter().map(|x| (x.0, x.1, 0, 0)).collect()
}
fn vals_only(w: &[X]) -> Vec<X> {
    w.iter().map(|x| (0, 0, x.2, x.3)).collect()
}
fn seq(m: &M) -> Vec<X> {
    m.seq().iter().map(|x| (x.0, x.1, 0, 0)).collect()
}
fn sorted(m: &M) -> Vec<X> {
    m.map().iter().map(|(k, v)| (*k, v.0, v.1, v.2)).collect()
}
/// Order of a hash structure: whatever a plain loop gives, if it is a permutation of the content.
fn unordered(name: &str, m: &M, got: Vec<X>) -> Result<Vec<X>, String> {
    let mut s = got.clone();
    s.sort_unstable();
    ensure!(s == sorted(m), "{name}: a loop gives {s:?}, the content is {:?}", sorted(m));
    Ok(got)
}

impl<P: SharedPointerKind> Its for List<E, P> {
    fn its(&self, m: &M, p: &[Op], cx: &mut Cx) -> R {
        let w = seq(m);
        fwd("List::iter", self.iter(), one, esi, &w, p, cx)?;
        fwd("&List into_iter", self.into_iter(), one, esi, &w, p, cx)
    }
}
impl<P: SharedPointerKind> Its for Stack<E, P> {
    fn its(&self, m: &M, p: &[Op], cx: &mut Cx) -> R {
        let w = seq(m);
        fwd("Stack::iter", self.iter(), one, esi, &w, p, cx)?;
        fwd("&Stack into_iter", self.into_iter(), one, esi, &w, p, cx)
    }
}
impl<P: SharedPointerKind> Its for Queue<E, P> {
    fn its(&self, m: &M, p: &[Op], cx: &mut Cx) -> R {
        let w = seq(m);
        fwd("Queue::iter", self.iter(), one, no, &w, p, cx)?;
        fwd("&Queue into_iter", self.into_iter(), one, no, &w, p, cx)
    }
}
impl<P: SharedPointerKind> Its for Vector<E, P> {
    fn its(&self, m: &M, p: &[Op], cx: &mut Cx) -> R {
        let w = seq(m);
        fwd("Vector::iter", self.iter(), one, esi, &w, p, cx)?;
        dbl("Vector::iter", self.iter(), one, esi, &w, p, cx)?;
        dbl("&Vector into_iter", self.into_iter(), one, esi, &w, p, cx)
    }
}
impl<P: SharedPointerKind> Its for HashTrieMap<E, E, P, TH> {
    fn its(&self, m: &M, p: &[Op], cx: &mut Cx) -> R {
        let w = unordered("HashTrieMap", m, self.iter().map(two).collect())?;
        fwd("HashTrieMap::iter", self.iter(), two, esi, &w, p, cx)?;
        fwd("HashTrieMap::keys", self.keys(), one, esi, &keys_only(&w), p, cx)?;
        fwd("HashTrieMap::values", self.values(), val, esi, &vals_only(&w), p, cx)?;
        fwd("&HashTrieMap into_iter", self.into_iter(), two, esi, &w, p, cx)
    }
}
impl<P: SharedPointerKind> Its for HashTrieSet<E, P, TH> {
    fn its(&self, m: &M, p: &[Op], cx: &mut Cx) -> R {
        let w = unordered("HashTrieSet", m, self.iter().map(one).collect())?;
        fwd("HashTrieSet::iter", self.iter(), one, esi, &w, p, cx)?;
        fwd("&HashTrieSet into_iter", self.into_iter(), one, esi, &w, p, cx)
    }
}
impl<P: SharedPointerKind> Its for RedBlackTreeMap<E, E, P> {
    fn its(&self, m: &M, p: &[Op], cx: &mut Cx) -> R {
        let w = sorted(m);
        fwd("RedBlackTreeMap::iter", self.iter(), two, esi, &w, p, cx)?;
        dbl("RedBlackTreeMap::iter", self.iter(), two, esi, &w, p, cx)?;
        dbl("RedBlackTreeMap::keys", self.keys(), one, esi, &keys_only(&w), p, cx)?;
        dbl("RedBlackTreeMap::values", self.values(), val, esi, &vals_only(&w), p, cx)?;
        dbl("&RedBlackTreeMap into_iter", self.into_iter(), two, esi, &w, p, cx)
    }
}
impl<P: SharedPointerKind> Its for RedBlackTreeSet<E, P> {
    fn its(&self, m: &M, p: &[Op], cx: &mut Cx) -> R {
        let w = sorted(m);
        fwd("RedBlackTreeSet::iter", self.iter(), one, esi, &w, p, cx)?;
        dbl("RedBlackTreeSet::iter", self.iter(), one, esi, &w, p, cx)?;
        dbl("&RedBlackTreeSet into_iter", self.into_iter(), one, esi, &w, p, cx)
    }
}

fn run<S: Its>(case: &Case, cx: &mut Cx) -> R {
    let conf = Conf::decode(case.c(2), case.c(3), case.c(4), case.c(5));
    let max_bulk = BULKS[case.c(6) as usize % 5];
    let mut tag = 0;
    let (mut s, mut m) = (S::empty(&conf), S::model(&conf));
    let mut keep = vec![];
    let nb = (case.c(7) as usize).min(case.ops.len());
    for op in &case.ops[..nb] {
        let act = decode(S::KIND, &[op[0], op[1], op[2], op[2] >> 12], &m, &conf, &mut tag, max_bulk);
        if op[3] % 4 == 0 {
            keep.push(s.clone());
        }
        s.act_mut(&mut m, &act, &conf)?;
        cx.log(|| format!("build {act:?} -> {}", m.brief()));
    }
    cx.label(S::NAME);
    let prog = &case.ops[nb..];
    cx.log(|| format!("iterator program {prog:?}"));
    if S::KIND == Kind::Map || S::KIND == Kind::Set || prog.len() > 2 {
        cx.nontrivial = m.len() > 1;
    }
    s.its(&m, prog, cx)
}

pub struct C;
impl Check for C {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "A case builds one of the eight structures by a history (pointer kinds, degrees, bits, hash functions) and then drives each of its iterators (iter, keys, values, borrowed into_iter) by a program of next, next_back, nth, nth_back, take, rev().take, find and one of 61 final operations that take the iterator by value or leave a rest (fold, for_each, try_fold, position, last, count, partition, rfold, rfind, ...), comparing each answer, size_hint and len with a slice of the expected sequence. Non-trivial: more than one element and a program working on them."
    }
    fn budget(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 200_000,
            Tier::Thorough => 8_000_000,
        }
    }
    fn generate(&self, r: &mut Rng, i: u64, _: Tier) -> Case {
        let big = i % 97 < 3;
        let bulk = if big { r.range(2, 4) } else { r.weighted(&[3, 5, 2]) };
        let nb = r.range(1, 12);
        let mut ops = gen_ops(r, nb);
        ops[0][0] = 4; // bulk first
        // program; sometimes only one kind of step, which runs into the other end
        let mode = r.below(5);
        for _ in 0..r.skewed(60) {
            let k = match mode {
                0 => r.below(8),
                1 => r.pick(&[0, 4]),
                2 => r.pick(&[8, 9, 10, 11, 4, 5, 6, 7]),
                _ => r.below(12),
            };
            ops.push([k, r.u32(), r.u32(), 0]);
        }
        Case { cfg: vec![(i % 8) as u32, r.below(2), r.below(6), r.below(12), r.u32() & 0xFFFF, r.range(1, 7), bulk, nb], ops }
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        match c.c(1) % 2 {
            0 => rv::with_sub!(c.c(0), E, RcK, S => run::<S>(c, cx)),
            _ => rv::with_sub!(c.c(0), E, ArcTK, S => run::<S>(c, cx)),
        }
    }
}
