//! C09: equality, order, hash and display depend only on the content.
use archery::{ArcTK, RcK, SharedPointerKind};
use rpds::*;
use rv::elem::{E, TH};
use rv::engine::*;
use rv::ensure;
use rv::ptrs::CountK;
use rv::routes::*;
use rv::subj::*;
use rv::with_sub;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::fmt::{Debug, Display, Write};
use std::hash::{Hash, Hasher};

/// Records everything written to it.
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
    fn finish(&self) -> u64 {
        0
    }
}

fn hashes<T: Hash>(t: &T) -> (u64, Vec<u8>) {
    let mut d = DefaultHasher::new();
    t.hash(&mut d);
    let mut r = Rec::default();
    t.hash(&mut r);
    // as elements of a slice
    Hash::hash_slice(std::slice::from_ref(t), &mut r);
    (d.finish(), r.0)
}

fn eqs<A: PartialEq<B>, B: PartialEq<A>>(what: &str, a: &A, b: &B, want: bool) -> R {
    ensure!((a == b) == want, "{what}: a == b is {}", !want);
    ensure!((a != b) != want, "{what}: a != b is {want}");
    ensure!((b == a) == want, "{what}: b == a is {}", !want);
    Ok(())
}

fn ords<A: PartialOrd<B>, B: PartialOrd<A>>(what: &str, a: &A, b: &B, want: Option<Ordering>) -> R {
    let g = a.partial_cmp(b);
    ensure!(g == want, "{what}: partial_cmp(a, b) is {g:?}, should be {want:?}");
    let g = b.partial_cmp(a);
    ensure!(g == want.map(Ordering::reverse), "{what}: partial_cmp(b, a) is {g:?}, should be {:?}", want.map(Ordering::reverse));
    use Ordering::*;
    ensure!((a < b) == (want == Some(Less)) && (a > b) == (want == Some(Greater)), "{what}: < or > disagrees with {want:?}");
    ensure!((a <= b) == matches!(want, Some(Less | Equal)) && (a >= b) == matches!(want, Some(Greater | Equal)), "{what}: <= or >= disagrees with {want:?}");
    Ok(())
}

fn totals<A: Ord + Clone>(what: &str, a: &A, b: &A, want: Ordering) -> R {
    ensure!(a.cmp(b) == want && b.cmp(a) == want.reverse(), "{what}: cmp is {:?}, should be {want:?}", a.cmp(b));
    // the provided methods
    let (lo, hi) = if want == Ordering::Greater { (b, a) } else { (a, b) };
    for (x, y) in [(a, b), (b, a)] {
        let (mx, mn) = (x.clone().max(y.clone()), x.clone().min(y.clone()));
        ensure!(mx.cmp(hi) == Ordering::Equal && mx == *hi, "{what}: max gives the smaller one");
        ensure!(mn.cmp(lo) == Ordering::Equal && mn == *lo, "{what}: min gives the larger one");
        ensure!(x.clone().clamp(lo.clone(), hi.clone()) == *x, "{what}: clamp changes a value inside the bounds");
        ensure!(x.clone().clamp(lo.clone(), lo.clone()) == *lo, "{what}: clamp to the smaller one");
        ensure!(x.clone().clamp(hi.clone(), hi.clone()) == *hi, "{what}: clamp to the larger one");
    }
    Ok(())
}

fn hash_eq<A: Hash, B: Hash>(what: &str, a: &A, b: &B, equal: bool) -> R {
    let (x, y) = (hashes(a), hashes(b));
    if equal {
        ensure!(x == y, "{what}: equal values hash differently");
    }
    Ok(())
}

/// Records all that is hashed.
#[derive(Default)]
struct Tape(Vec<u8>);
impl Hasher for Tape {
    fn finish(&self) -> u64 {
        self.0.len() as u64
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend(b);
    }
}

/// Two collections hashed one after the other must not look like the same elements divided in another way.
fn divided<T: FromIterator<u32> + Hash>(what: &str, v: &[u32], i: usize, j: usize) -> R {
    let tape = |i: usize| {
        let (a, b): (T, T) = (v[..i].iter().copied().collect(), v[i..].iter().copied().collect());
        let mut t = Tape::default();
        a.hash(&mut t);
        b.hash(&mut t);
        t.0
    };
    let (x, y) = (tape(i), tape(j));
    ensure!((x == y) == (i == j), "{what}: {v:?} divided after {i} elements and after {j} gives {} hash input", if x == y { "the same" } else { "different" });
    Ok(())
}

/// A red-black tree map of equal keys and values.
struct Twin<P: SharedPointerKind>(RedBlackTreeMap<u32, u32, P>);
impl<P: SharedPointerKind> Hash for Twin<P> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h);
    }
}
impl<P: SharedPointerKind> FromIterator<u32> for Twin<P> {
    fn from_iter<I: IntoIterator<Item = u32>>(i: I) -> Self {
        Twin(i.into_iter().map(|x| (x, x)).collect())
    }
}

/// A writer with room for some bytes.
struct Narrow {
    room: usize,
    text: String,
    failed: bool,
}
impl std::fmt::Write for Narrow {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.room {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        // (shorter pieces still fit after one that did not)
        self.room -= s.len();
        if !self.failed {
            self.text.push_str(s);
        }
        Ok(())
    }
}

/// Formatting must stop with an error when the writer fails.
fn narrow(what: &str, full: &str, room: usize, f: impl Fn(&mut Narrow) -> std::fmt::Result) -> R {
    let mut w = Narrow { room, text: String::new(), failed: false };
    let r = f(&mut w);
    ensure!(full.starts_with(&w.text), "{what}: to a writer with room for {room} bytes, {:?} is written", w.text);
    ensure!(r.is_err() == w.failed, "{what}: with a writer that fails after {room} bytes the result is {r:?}");
    ensure!(w.failed || w.text == full, "{what}: {:?} is written", w.text);
    Ok(())
}

fn display<A: Display + Debug>(what: &str, a: &A, open: &str, close: &str, items: Vec<String>) -> R {
    let want = format!("{open}{}{close}", items.join(", "));
    let got = format!("{a}");
    ensure!(got == want, "{what}: Display gives {got:?}, should be {want:?}");
    ensure!(a.to_string() == want, "{what}: to_string");
    let n = want.len();
    for room in [0, 1, n / 2, n.saturating_sub(open.len() + close.len()), n - close.len(), n - 1, n] {
        narrow(&format!("{what}: Display"), &want, room, |w| write!(w, "{a}"))?;
    }
    let full = format!("{a:?}");
    let room = want.len() * 7 % (full.len() + 1);
    narrow(&format!("{what}: Debug"), &full, room, |w| write!(w, "{a:?}"))?;
    Ok(())
}

struct In {
    ca: Vec<(u32, u32)>,
    cb: Vec<(u32, u32)>,
    fa: Conf,
    fb: Conf,
    ra: u32,
    rb: u32,
    seed: u64,
}

fn seqs(c: &[(u32, u32)]) -> Vec<u32> {
    c.iter().map(|x| x.0).collect()
}

macro_rules! mk {
    ($A:ty, $B:ty, $i:expr) => {{
        let i = $i;
        let mut r = Rng(i.seed);
        let (mut k1, mut k2) = (vec![], vec![]);
        let a = <$A as Route<E>>::route(&i.ca, i.ra, &mut r, &i.fa, &mut k1);
        let b = <$B as Route<E>>::route(&i.cb, i.rb, &mut r, &i.fb, &mut k2);
        (a, b, (k1, k2))
    }};
}

fn run<PA: SharedPointerKind, PB: SharedPointerKind>(sel: u32, i: &In) -> R {
    macro_rules! seq_case {
        ($T:ident, $name:literal, $open:literal, $close:literal) => {{
            let (a, b, _k) = mk!($T<E, PA>, $T<E, PB>, i);
            let (va, vb) = (seqs(&i.ca), seqs(&i.cb));
            eqs($name, &a, &b, va == vb)?;
            ords($name, &a, &b, va.partial_cmp(&vb))?;
            hash_eq($name, &a, &b, va == vb)?;
            let mut r = Rng(i.seed ^ 1);
            let b2 = <$T<E, PA> as Route<E>>::route(&i.cb, i.rb + 1, &mut r, &i.fb, &mut vec![]);
            totals($name, &a, &b2, va.cmp(&vb))?;
            eqs($name, &a, &b2, va == vb)?;
            eqs($name, &a, &a.clone(), true)?;
            hash_eq($name, &a, &b2, va == vb)?;
            let d = |v: &[u32]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
            display($name, &a, $open, $close, d(&va))?;
            display($name, &b, $open, $close, d(&vb))?;
        }};
    }
    match sel {
        0 => seq_case!(List, "List", "[", "]"),
        1 => seq_case!(Stack, "Stack", "Stack(", ")"),
        2 => seq_case!(Queue, "Queue", "Queue(", ")"),
        3 => seq_case!(Vector, "Vector", "[", "]"),
        4 => {
            let (a, b, _k) = mk!(HashTrieMap<E, E, PA, TH>, HashTrieMap<E, E, PB, TH>, i);
            eqs("HashTrieMap", &a, &b, i.ca == i.cb)?;
            eqs("HashTrieMap", &a, &a.clone(), true)?;
            display("HashTrieMap", &a, "{", "}", a.iter().map(|(k, v)| format!("{k}: {v}")).collect())?;
            display("HashTrieMap", &b, "{", "}", b.iter().map(|(k, v)| format!("{k}: {v}")).collect())?;
        }
        5 => {
            let (a, b, _k) = mk!(RedBlackTreeMap<E, E, PA>, RedBlackTreeMap<E, E, PB>, i);
            let eq = i.ca == i.cb;
            eqs("RedBlackTreeMap", &a, &b, eq)?;
            ords("RedBlackTreeMap", &a, &b, i.ca.partial_cmp(&i.cb))?;
            hash_eq("RedBlackTreeMap", &a, &b, eq)?;
            let mut r = Rng(i.seed ^ 1);
            let b2 = <RedBlackTreeMap<E, E, PA> as Route<E>>::route(&i.cb, i.rb + 1, &mut r, &i.fb, &mut vec![]);
            totals("RedBlackTreeMap", &a, &b2, i.ca.cmp(&i.cb))?;
            eqs("RedBlackTreeMap", &a, &b2, eq)?;
            display("RedBlackTreeMap", &a, "{", "}", i.ca.iter().map(|x| format!("{}: {}", x.0, x.1)).collect())?;
        }
        6 => {
            let (a, b, _k) = mk!(HashTrieSet<E, PA, TH>, HashTrieSet<E, PB, TH>, i);
            eqs("HashTrieSet", &a, &b, seqs(&i.ca) == seqs(&i.cb))?;
            eqs("HashTrieSet", &a, &a.clone(), true)?;
            display("HashTrieSet", &a, "{", "}", a.iter().map(|k| k.to_string()).collect())?;
        }
        7 => {
            let (a, b, _k) = mk!(RedBlackTreeSet<E, PA>, RedBlackTreeSet<E, PB>, i);
            let (va, vb) = (seqs(&i.ca), seqs(&i.cb));
            eqs("RedBlackTreeSet", &a, &b, va == vb)?;
            ords("RedBlackTreeSet", &a, &b, va.partial_cmp(&vb))?;
            hash_eq("RedBlackTreeSet", &a, &b, va == vb)?;
            let mut r = Rng(i.seed ^ 1);
            let b2 = <RedBlackTreeSet<E, PA> as Route<E>>::route(&i.cb, i.rb + 1, &mut r, &i.fb, &mut vec![]);
            totals("RedBlackTreeSet", &a, &b2, va.cmp(&vb))?;
            display("RedBlackTreeSet", &a, "{", "}", seqs(&i.ca).iter().map(|k| k.to_string()).collect())?;
        }
        8 => {
            // elements with a partial order only
            let f = |c: &[(u32, u32)]| c.iter().map(|x| if x.0 % 5 == 4 { f64::NAN } else { f64::from(x.0 % 5) }).collect::<Vec<f64>>();
            let (va, vb) = (f(&i.ca), f(&i.cb));
            macro_rules! part {
                ($T:ident) => {{
                    let a: $T<f64, PA> = va.iter().copied().collect();
                    let b: $T<f64, PB> = vb.iter().copied().collect();
                    eqs(stringify!($T), &a, &b, va == vb)?;
                    ords(stringify!($T), &a, &b, va.partial_cmp(&vb))?;
                }};
            }
            part!(List);
            part!(Stack);
            part!(Queue);
            part!(Vector);
            let ka: Vec<(usize, f64)> = va.iter().copied().enumerate().collect();
            let kb: Vec<(usize, f64)> = vb.iter().copied().enumerate().collect();
            let a: RedBlackTreeMap<usize, f64, PA> = ka.iter().copied().collect();
            let b: RedBlackTreeMap<usize, f64, PB> = kb.iter().copied().rev().collect();
            eqs("RedBlackTreeMap", &a, &b, va == vb)?;
            ords("RedBlackTreeMap", &a, &b, ka.partial_cmp(&kb))?;
            let a: HashTrieMap<usize, f64, PA> = ka.iter().copied().collect();
            let b: HashTrieMap<usize, f64, PB> = kb.iter().copied().rev().collect();
            // (the two have the same hasher type in different states)
            eqs("HashTrieMap", &a, &b, va == vb)?;
        }
        _ => {
            // different element types; nested structures
            let a: Vector<String, PA> = i.ca.iter().map(|x| x.0.to_string()).collect();
            let s: Vec<String> = i.cb.iter().map(|x| x.0.to_string()).collect();
            let mut b: Vector<&str, PB> = Vector::new_with_bits(i.fb.bits);
            b.extend(s.iter().map(String::as_str));
            let (va, vb): (Vec<String>, Vec<String>) = (a.iter().cloned().collect(), s.clone());
            ensure!((a == b) == (va == vb), "Vector<String> == Vector<&str> is {}", a == b);
            let nest = |c: &[(u32, u32)], k: u32| -> Vec<Vec<u32>> {
                let mut out = vec![vec![]];
                for x in c {
                    if x.0 % 3 == k % 3 {
                        out.push(vec![]);
                    } else {
                        out.last_mut().unwrap().push(x.0);
                    }
                }
                out
            };
            let (na, nb) = (nest(&i.ca, i.ra), nest(&i.cb, i.ra));
            macro_rules! nested {
                ($O:ident, $I:ident) => {{
                    let a: $O<$I<u32, PA>, PA> = na.iter().map(|v| v.iter().copied().collect()).collect();
                    let b: $O<$I<u32, PA>, PA> = nb.iter().map(|v| v.iter().copied().collect()).collect();
                    eqs(concat!(stringify!($O), " of ", stringify!($I)), &a, &b, na == nb)?;
                    ords(concat!(stringify!($O), " of ", stringify!($I)), &a, &b, na.partial_cmp(&nb))?;
                    hash_eq(concat!(stringify!($O), " of ", stringify!($I)), &a, &b, na == nb)?;
                }};
            }
            let mut v: Vec<u32> = i.ca.iter().map(|x| x.0).collect();
            v.sort_unstable();
            v.dedup();
            let n = v.len() + 1;
            let mut r = Rng(i.seed ^ 2);
            let (x, y) = (r.below(n as u32) as usize, r.below(n as u32) as usize);
            divided::<List<u32, PA>>("List", &v, x, y)?;
            divided::<Stack<u32, PA>>("Stack", &v, x, y)?;
            divided::<Queue<u32, PA>>("Queue", &v, x, y)?;
            divided::<Vector<u32, PA>>("Vector", &v, x, y)?;
            divided::<RedBlackTreeSet<u32, PA>>("RedBlackTreeSet", &v, x, y)?;
            divided::<Twin<PA>>("RedBlackTreeMap", &v, x, y)?;
            nested!(List, Vector);
            nested!(Vector, List);
            nested!(Queue, Stack);
            nested!(Stack, Queue);
        }
    }
    Ok(())
}

// Versions derived from one another, which share most of their nodes.

/// The comparisons which a structure has.
trait Pair: Sub<E> {
    fn pair(a: &Self, b: &Self, eq: bool, ord: Ordering) -> R;
}
macro_rules! pair {
    ([$($g:tt)*], $t:ty) => {
        impl<$($g)*> Pair for $t {
            fn pair(a: &Self, b: &Self, eq: bool, ord: Ordering) -> R {
                eqs(Self::NAME, a, b, eq)?;
                ords(Self::NAME, a, b, Some(ord))?;
                totals(Self::NAME, a, b, ord)?;
                hash_eq(Self::NAME, a, b, eq)
            }
        }
    };
}
pair!([P: SharedPointerKind], List<E, P>);
pair!([P: SharedPointerKind], Stack<E, P>);
pair!([P: SharedPointerKind], Queue<E, P>);
pair!([P: SharedPointerKind], Vector<E, P>);
pair!([P: SharedPointerKind], RedBlackTreeMap<E, E, P>);
pair!([P: SharedPointerKind], RedBlackTreeSet<E, P>);
impl<P: SharedPointerKind> Pair for HashTrieMap<E, E, P, TH> {
    fn pair(a: &Self, b: &Self, eq: bool, _: Ordering) -> R {
        eqs(Self::NAME, a, b, eq)
    }
}
impl<P: SharedPointerKind> Pair for HashTrieSet<E, P, TH> {
    fn pair(a: &Self, b: &Self, eq: bool, _: Ordering) -> R {
        eqs(Self::NAME, a, b, eq)
    }
}

fn ids(m: &M) -> Vec<(u32, u32)> {
    match m {
        M::Seq(s) => s.iter().map(|x| (x.0, 0)).collect(),
        M::Map(m) => m.iter().map(|(k, v)| (*k, v.1)).collect(),
    }
}

fn derived<S: Pair + Route<E>>(case: &Case, i: &In, cx: &mut Cx) -> R {
    let mut r = Rng(i.seed);
    let conf = &i.fa;
    let a = S::route(&i.ca, i.ra, &mut r, conf, &mut vec![]);
    let mut m = S::model(conf);
    match &mut m {
        M::Seq(q) => q.extend(i.ca.iter().map(|x| (x.0, 0))),
        M::Map(mm) => mm.extend(i.ca.iter().map(|x| (x.0, (0, x.1, 0)))),
    }
    a.verify(&m, conf, false)?;
    let mut vs = vec![(a, m)];
    let mut tag = 1;
    for (k, op) in case.ops.iter().enumerate() {
        let j = (op[3] >> 16) as usize % vs.len();
        let act = decode(S::KIND, &[op[0], op[1], op[2], op[2] >> 16], &vs[j].1, conf, &mut tag, 4);
        let (s, m) = &vs[j];
        let x = match s.act_ref(m, &act, conf)? {
            Some(x) if op[3] % 4 != 0 => x,
            _ => {
                let (mut s, mut m) = vs[j].clone();
                s.act_mut(&mut m, &act, conf)?;
                (s, m)
            }
        };
        cx.log(|| format!("v{} = v{j}.{act:?} -> {}", k + 1, x.1.brief()));
        vs.push(x);
    }
    if case.c(14) > 0 {
        // two clones go the same way but for a step or two
        let n = case.c(14).min(200);
        let mut f = Rng(u64::from(case.c(15)) ^ 0x1111_0000_0000);
        let j = f.below(vs.len() as u32) as usize;
        let (mut x, mut y) = (vs[j].clone(), vs[j].clone());
        let (d1, d2) = (f.below(n), f.below(2 * n));
        let w = [8, f.below(3), f.below(2), f.below(2), 0, 0, 0, f.below(2)];
        for k in 0..n {
            let op = [f.weighted(&w), f.u32(), f.u32(), f.u32()];
            for (side, v) in [&mut x, &mut y].into_iter().enumerate() {
                let mut op = op;
                if side == 1 && (k == d1 || k == d2) {
                    op[1] = op[1].wrapping_add(1);
                    op[2] = op[2].wrapping_add(1);
                }
                let mut t = tag;
                let act = decode(S::KIND, &op, &v.1, conf, &mut t, 4);
                v.0.act_mut(&mut v.1, &act, conf)?;
            }
            tag += 1;
        }
        cx.log(|| format!("from v{j}, {n} steps twice, different at step {d1} (and {d2}): {} / {}", x.1.brief(), y.1.brief()));
        vs.push(x);
        vs.push(y);
    }
    let c: Vec<_> = vs.iter().map(|v| ids(&v.1)).collect();
    for x in 0..vs.len() {
        for y in 0..=x {
            S::pair(&vs[x].0, &vs[y].0, c[x] == c[y], c[x].cmp(&c[y])).map_err(|e| format!("versions {x} and {y}: {e}"))?;
            cx.checks += 1;
        }
    }
    Ok(())
}

pub struct C;
impl Check for C {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "A case is a structure type (plus partially ordered elements, mixed element types and nested structures) and two contents, the second equal to the first or a small edit of it (changed, swapped, inserted, removed element, truncation, unrelated), each built by its own history, pointer kind, degree, bits per level and hash function. ==, !=, partial_cmp, <, <=, >, >=, cmp, Hash (two hashers) and Display are compared with the answers for plain vectors. In a third of the cases up to eight versions are derived from one another by single operations, so that they share nodes (half of the time with a fork: two clones changed in the same way except at one or two steps), and all pairs are compared. Non-trivial: at least two elements."
    }
    fn budget(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 400_000,
            Tier::Thorough => 10_000_000,
        }
    }
    fn generate(&self, r: &mut Rng, i: u64, _: Tier) -> Case {
        let big = mix(i) % 200 == 3;
        let n = if big { r.below(2000) } else { r.skewed(24) };
        let h = r.u32() & 0xFFFF;
        let h2 = if r.chance(1, 2) { h } else { r.u32() & 0xFFFF };
        let mut c = Case { cfg: vec![(i % 10) as u32, r.below(6), r.below(6), r.below(12), h, r.below(8), n, r.below(6), r.below(12), h2, r.below(6), r.below(6), r.u32(), r.u32()], ops: vec![] };
        if mix(i ^ 77) % 3 == 1 {
            c.cfg[0] = 10 + (i / 3 % 8) as u32;
            if !big && r.chance(1, 3) {
                c.cfg[6] = r.below(300);
                c.cfg[5] = r.range(4, 7);
            }
            let w = [3, 3, r.range(1, 8), r.range(1, 8), 1, 1, 0, 1];
            c.ops = (0..r.range(1, 8)).map(|_| [r.weighted(&w), r.u32(), r.u32(), r.u32()]).collect();
            if r.chance(1, 2) {
                c.ops.truncate(r.below(3) as usize);
                let most = if r.chance(1, 2) { 8 } else { 80 };
                let n = r.range(1, most);
                c.cfg.extend([n, r.u32()]);
            }
        }
        c
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        let sel = c.c(0) % 18;
        let kind = match sel {
            0..=3 | 8..=13 => Kind::Seq,
            4 | 5 | 14 | 15 => Kind::Map,
            _ => Kind::Set,
        };
        let fa = Conf::decode(c.c(2), c.c(3), c.c(4), c.c(5));
        let fb = Conf::decode(c.c(7), c.c(8), c.c(9), c.c(5));
        let mut r = Rng(u64::from(c.c(12)));
        let ca = content(kind, &mut r, (c.c(6) as usize).min(5000), fa.universe);
        let mut r2 = Rng(u64::from(c.c(13)) ^ 0xFFFF_0000_0000);
        let cb = edit(kind, &ca, &mut r2, fa.universe);
        let i = In { fa, fb, ra: c.c(10), rb: c.c(11), seed: r.next(), ca, cb };
        cx.log(|| format!("type {sel}, pointer kinds {}, a = {:?} by history {}, b = {:?} by history {}", c.c(1) % 6, &i.ca[..i.ca.len().min(20)], i.ra % 6, &i.cb[..i.cb.len().min(20)], i.rb % 6));
        cx.nontrivial = i.ca.len() > 1;
        if sel >= 10 {
            cx.label("derived versions");
            return if c.c(1) % 2 == 0 { with_sub!(sel - 10, E, RcK, S => derived::<S>(c, &i, cx)) } else { with_sub!(sel - 10, E, ArcTK, S => derived::<S>(c, &i, cx)) };
        }
        cx.label(if i.ca == i.cb { "equal contents" } else { "different contents" });
        cx.checks += 1;
        match c.c(1) % 6 {
            0 => run::<RcK, RcK>(sel, &i),
            1 => run::<RcK, ArcTK>(sel, &i),
            2 => run::<ArcTK, RcK>(sel, &i),
            3 => run::<ArcTK, ArcTK>(sel, &i),
            4 => run::<CountK, RcK>(sel, &i),
            _ => run::<RcK, CountK>(sel, &i),
        }
    }
}
