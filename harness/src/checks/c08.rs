//! C08: range queries return exactly the keys inside the bounds.
use archery::{ArcTK, RcK, SharedPointerKind};
use rpds::*;
use rv::ends;
use rv::elem::E;
use rv::engine::*;
use rv::ensure;
use rv::hist::{BULKS, gen_ops};
use rv::subj::*;
use std::collections::BTreeMap;
use std::ops::Bound::{self, *};

type X = (u32, u32, u32, u32);
type MM = BTreeMap<u32, (u32, u32, u32)>;

fn two((k, v): (&E, &E)) -> X {
    (k.id, k.tag, v.id, v.tag)
}
fn one(k: &E) -> X {
    (k.id, k.tag, 0, 0)
}

fn must_reject(s: Bound<u32>, e: Bound<u32>) -> bool {
    match (s, e) {
        (Excluded(s), Excluded(e)) => s >= e,
        (Included(s) | Excluded(s), Included(e) | Excluded(e)) => s > e,
        _ => false,
    }
}

fn expect(mm: &MM, s: Bound<u32>, e: Bound<u32>) -> Vec<X> {
    let lo = |k: u32| match s {
        Included(s) => k >= s,
        Excluded(s) => k > s,
        Unbounded => true,
    };
    let hi = |k: u32| match e {
        Included(s) => k <= s,
        Excluded(s) => k < s,
        Unbounded => true,
    };
    mm.iter().filter(|(k, _)| lo(**k) && hi(**k)).map(|(k, v)| (*k, v.0, v.1, v.2)).collect()
}

fn drive<I: DoubleEndedIterator>(what: &str, mk: impl FnOnce() -> I, conv: fn(I::Item) -> X, want: &Result<Vec<X>, ()>, prog: &[u32], cx: &mut Cx) -> R {
    cx.checks += 1;
    let it = guarded(mk);
    let want = match want {
        Err(()) => {
            ensure!(it.is_err(), "{what}: accepted, but the start is past the end (or both are equal and excluded)");
            cx.label("rejected bounds");
            return Ok(());
        }
        Ok(w) => w,
    };
    let mut it = it.map_err(|e| format!("{what}: {e}"))?;
    let (mut l, mut r) = (0, want.len());
    for op in prog {
        let hint = it.size_hint();
        ensure!(hint.0 <= r - l && hint.1.is_none_or(|h| h >= r - l), "{what}: size_hint {hint:?} with {} left", r - l);
        match op % 8 {
            0..=2 => {
                let w = (l < r).then(|| want[l]);
                let g = it.next().map(conv);
                ensure!(g == w, "{what}: next is {g:?}, should be {w:?} ({l}..{r} of {} left)", want.len());
                l = (l + 1).min(r);
            }
            3..=5 => {
                let w = (l < r).then(|| want[r - 1]);
                let g = it.next_back().map(conv);
                ensure!(g == w, "{what}: next_back is {g:?}, should be {w:?} ({l}..{r} of {} left)", want.len());
                r = if l < r { r - 1 } else { l };
            }
            6 => {
                let n = (op >> 3) as usize % 6;
                let w = (n < r - l).then(|| want[l + n]);
                let g = it.nth(n).map(conv);
                ensure!(g == w, "{what}: nth({n}) is {g:?}, should be {w:?} ({l}..{r} of {} left)", want.len());
                l = (l + n + 1).min(r);
            }
            _ => {
                let n = (op >> 3) as usize % 6;
                let w = (n < r - l).then(|| want[r - 1 - n]);
                let g = it.nth_back(n).map(conv);
                ensure!(g == w, "{what}: nth_back({n}) is {g:?}, should be {w:?} ({l}..{r} of {} left)", want.len());
                r = if n < r - l { r - 1 - n } else { l };
            }
        }
    }
    let fin = prog.first().copied().unwrap_or(0) >> 8;
    let cut = |x: &[X]| format!("{:?}", x.iter().map(|x| x.0).take(20).collect::<Vec<_>>());
    if fin % 4 > 1 {
        let a = fin / 4;
        return ends::dbl(&format!("{what}, the rest {l}..{r} of {}", want.len()), it, conv, &want[l..r], a, a / (2 * ends::FWD + ends::BWD));
    }
    if fin % 2 == 0 {
        let g: Vec<X> = it.by_ref().map(conv).collect();
        ensure!(g == want[l..r], "{what}: yields {}, should be {} ({l}..{r} of {} left)", cut(&g), cut(&want[l..r]), want.len());
    } else {
        let g: Vec<X> = it.by_ref().rev().map(conv).collect();
        let w: Vec<X> = want[l..r].iter().rev().copied().collect();
        ensure!(g == w, "{what}: reversed yields {}, should be {} ({l}..{r} of {} left)", cut(&g), cut(&w), want.len());
    }
    for i in 0..5 {
        let n = if (fin >> i) & 2 == 0 { it.next() } else { it.next_back() };
        ensure!(n.is_none(), "{what}: not None at the end");
    }
    Ok(())
}

/// Generates the queries of one structure.
macro_rules! queries {
    ($name:literal, $t:expr, $conv:expr, $mm:expr, $s:expr, $e:expr, $form:expr, $prog:expr, $cx:expr) => {{
        let (t, mm, s, e, prog, cx) = ($t, $mm, $s, $e, $prog, $cx);
        let sv = match s { Included(x) | Excluded(x) => x, Unbounded => 0 };
        let ev = match e { Included(x) | Excluded(x) => x, Unbounded => 0 };
        let want = |s: Bound<u32>, e: Bound<u32>| if must_reject(s, e) { Err(()) } else {
            let mut w = expect(mm, s, e);
            if $name == "RedBlackTreeSet" { w.iter_mut().for_each(|x| { x.2 = 0; x.3 = 0; }); }
            Ok(w)
        };
        let what = format!("{}::range({:?}, {:?}) [form {}]", $name, s, e, $form);
        match $form {
            0 => drive(&what, || t.range::<u32, _>((s, e)), $conv, &want(s, e), prog, cx),
            1 => drive(&what, || t.range::<u32, _>((s.as_ref(), e.as_ref())), $conv, &want(s, e), prog, cx),
            2 => drive(&what, || t.range::<E, _>((s.map(|x| E::mk(x, 0)), e.map(|x| E::mk(x, 0)))), $conv, &want(s, e), prog, cx),
            3 => drive(&format!("{}::range({sv}..{ev})", $name), || t.range::<u32, _>(sv..ev), $conv, &want(Included(sv), Excluded(ev)), prog, cx),
            4 => drive(&format!("{}::range({sv}..={ev})", $name), || t.range::<u32, _>(sv..=ev), $conv, &want(Included(sv), Included(ev)), prog, cx),
            5 => drive(&format!("{}::range({sv}..)", $name), || t.range::<u32, _>(sv..), $conv, &want(Included(sv), Unbounded), prog, cx),
            6 => drive(&format!("{}::range(..{ev})", $name), || t.range::<u32, _>(..ev), $conv, &want(Unbounded, Excluded(ev)), prog, cx),
            7 => drive(&format!("{}::range(..={ev})", $name), || t.range::<u32, _>(..=ev), $conv, &want(Unbounded, Included(ev)), prog, cx),
            _ => drive(&format!("{}::range(..)", $name), || t.range::<u32, _>(..), $conv, &want(Unbounded, Unbounded), prog, cx),
        }
    }};
}

use rv::elem::Elem;

fn bound(kind: u32, v: u32) -> Bound<u32> {
    match kind % 5 {
        0 | 1 => Included(v),
        2 | 3 => Excluded(v),
        _ => Unbounded,
    }
}

fn run<P: SharedPointerKind>(case: &Case, cx: &mut Cx) -> R {
    let conf = Conf::decode(0, 0, 0, case.c(5));
    let max_bulk = BULKS[case.c(6) as usize % 5];
    let mut tag = 0;
    let nb = (case.c(7) as usize).min(case.ops.len());
    type Map<P> = RedBlackTreeMap<E, E, P>;
    let (mut s, mut m) = (<Map<P> as Sub<E>>::empty(&conf), <Map<P> as Sub<E>>::model(&conf));
    let mut set: RedBlackTreeSet<E, P> = RedBlackTreeSet::new_with_ptr_kind();
    let mut keep = vec![];
    for op in &case.ops[..nb] {
        let act = decode(Kind::Map, &[op[0], op[1], op[2], op[2] >> 12], &m, &conf, &mut tag, max_bulk);
        if op[3] % 4 == 0 {
            keep.push((s.clone(), set.clone()));
        }
        let mut m2 = m.clone();
        s.act_mut(&mut m, &act, &conf)?;
        if !matches!(act, Act::Mod { .. } | Act::Mod2 { .. }) {
            set.act_mut(&mut m2, &act, &conf)?;
        }
        cx.log(|| format!("build {act:?} -> {}", m.brief()));
    }
    // the set's own content: its keys
    let mm = m.map().clone();
    let setm: MM = set.iter().map(|k| (k.id, (k.tag, 0, 0))).collect();
    ensure!(setm.keys().eq(mm.keys()), "RedBlackTreeSet::iter gives {:?}, should be {:?}", setm.keys(), mm.keys());
    let strings: RedBlackTreeMap<String, u32, P> = mm.keys().map(|k| (format!("{k:010}"), *k)).collect();
    let keys: Vec<u32> = mm.keys().copied().collect();
    for q in case.ops[nb..].chunks(4) {
        // bounds at, just around and between the keys
        let near = |a: u32| -> u32 {
            if keys.is_empty() || a % 5 == 0 {
                return (a >> 8) % conf.universe.saturating_add(2);
            }
            let k = keys[(a >> 8) as usize % keys.len()];
            match a % 5 {
                1 => k.saturating_sub(1),
                2 => k.saturating_add(1),
                _ => k,
            }
        };
        let h = q[0];
        let a = near(h[1]);
        let b = match h[0] % 4 {
            0 => a,
            1 if h[0] % 8 == 1 => a.saturating_add(1),
            _ => near(h[2]),
        };
        let (a, b) = if h[0] % 7 < 4 { (a.min(b), a.max(b)) } else { (a, b) };
        let (sb, eb) = (bound(h[3], a), bound(h[3] >> 8, b));
        let form = (h[3] >> 16) % 11;
        let prog: Vec<u32> = q[1..].iter().flatten().copied().take((h[2] >> 8) as usize % 13).collect();
        cx.log(|| format!("query {sb:?} {eb:?} form {form} program {prog:?}"));
        let inside = expect(&mm, sb, eb).len();
        if inside > 0 && inside < mm.len() {
            cx.nontrivial = true;
            cx.label("proper part");
        }
        if mm.is_empty() {
            cx.label("empty tree");
        }
        match form {
            9 | 10 => {
                // unsized borrowed keys
                let (x, y) = (format!("{a:010}"), format!("{b:010}"));
                let sb2: Bound<&str> = match sb { Included(_) => Included(x.as_str()), Excluded(_) => Excluded(x.as_str()), Unbounded => Unbounded };
                let eb2: Bound<&str> = match eb { Included(_) => Included(y.as_str()), Excluded(_) => Excluded(y.as_str()), Unbounded => Unbounded };
                let want = if must_reject(sb, eb) { Err(()) } else { Ok(expect(&mm, sb, eb).iter().map(|x| (x.0, x.0, 0, 0)).collect::<Vec<X>>()) };
                drive(&format!("RedBlackTreeMap<String>::range::<str>({sb2:?}, {eb2:?})"), || strings.range::<str, _>((sb2, eb2)), |(k, v)| (k.parse().unwrap(), *v, 0, 0), &want, &prog, cx)?;
            }
            _ => {
                queries!("RedBlackTreeMap", &s, two, &mm, sb, eb, form, &prog, &mut *cx)?;
                queries!("RedBlackTreeSet", &set, one, &setm, sb, eb, form, &prog, &mut *cx)?;
            }
        }
    }
    Ok(())
}

pub struct C;
impl Check for C {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "A case builds a tree (map, set and a map with String keys) by a history, then asks several range queries: bounds at, next to and between keys, included/excluded/unbounded, reversed and equal, given as tuples, references, elements, str and the six standard range types, driven by an interleaving of next, next_back, nth, nth_back and one of 61 final operations (collect, fold, last, count, rfold, try_rfold, ... from either end). Non-trivial: some query selects a non-empty proper part of the tree."
    }
    fn budget(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 1_500_000,
            Tier::Thorough => 10_000_000,
        }
    }
    fn generate(&self, r: &mut Rng, i: u64, _: Tier) -> Case {
        let big = i % 211 == 3;
        let bulk = if big { r.range(2, 4) } else { r.weighted(&[3, 5, 2]) };
        let nb = if r.chance(1, 25) { 0 } else { r.range(1, 10) };
        let mut ops = gen_ops(r, nb);
        if nb > 0 {
            ops[0][0] = 4;
        }
        for _ in 0..4 * r.range(1, 5) {
            ops.push([r.u32(), r.u32(), r.u32(), r.u32()]);
        }
        Case { cfg: vec![0, r.below(2), 0, 0, 0, r.below(8), bulk, nb], ops }
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        match c.c(1) % 2 {
            0 => run::<RcK>(c, cx),
            _ => run::<ArcTK>(c, cx),
        }
    }
}
