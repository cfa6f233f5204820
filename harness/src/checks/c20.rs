//! C20: ptr_eq is sound and holds for clones.
use archery::{ArcK, ArcTK, RcK, SharedPointerKind};
use rpds::{HashTrieMap, HashTrieSet, RedBlackTreeMap, RedBlackTreeSet};
use rv::elem::{E, TH};
use rv::engine::*;
use rv::ensure;
use rv::subj::*;

pub struct C;

trait PtrEq<O> {
    fn pe(&self, o: &O) -> bool;
}
impl<P: SharedPointerKind, Q: SharedPointerKind> PtrEq<HashTrieMap<E, E, Q, TH>> for HashTrieMap<E, E, P, TH> {
    fn pe(&self, o: &HashTrieMap<E, E, Q, TH>) -> bool {
        self.ptr_eq(o)
    }
}
impl<P: SharedPointerKind, Q: SharedPointerKind> PtrEq<HashTrieSet<E, Q, TH>> for HashTrieSet<E, P, TH> {
    fn pe(&self, o: &HashTrieSet<E, Q, TH>) -> bool {
        self.ptr_eq(o)
    }
}
impl<P: SharedPointerKind, Q: SharedPointerKind> PtrEq<RedBlackTreeMap<E, E, Q>> for RedBlackTreeMap<E, E, P> {
    fn pe(&self, o: &RedBlackTreeMap<E, E, Q>) -> bool {
        self.ptr_eq(o)
    }
}
impl<P: SharedPointerKind, Q: SharedPointerKind> PtrEq<RedBlackTreeSet<E, Q>> for RedBlackTreeSet<E, P> {
    fn pe(&self, o: &RedBlackTreeSet<E, Q>) -> bool {
        self.ptr_eq(o)
    }
}

struct Pool<S> {
    vs: Vec<(S, M, u32)>,
}

impl<S: Sub<E>> Pool<S> {
    #[allow(clippy::too_many_arguments)]
    fn step(&mut self, k: usize, op: &Op, conf: &Conf, tag: &mut u32, group: &mut u32, cx: &mut Cx, stat: &mut [u32; 3]) -> R
    where
        S: PtrEq<S>,
    {
        let n = self.vs.len();
        let i = (op[3] >> 16) as usize % n;
        let act = decode(S::KIND, &[op[0], op[1], op[2], op[2] >> 16], &self.vs[i].1, conf, tag, 40);
        *group += 1;
        match op[3] % 16 {
            0..=5 => {
                let absent = match act {
                    Act::Del { id } => !self.vs[i].1.map().contains_key(&id),
                    _ => false,
                };
                if let Some((s, m)) = self.vs[i].0.act_ref(&self.vs[i].1, &act, conf)? {
                    cx.log(|| format!("{k}: v{n} = v{i}.{act:?} -> {}", m.brief()));
                    if absent {
                        stat[0] += 1;
                        ensure!(s.pe(&self.vs[i].0) && self.vs[i].0.pe(&s), "step {k}: removing an absent key gives a {} that is not ptr_eq to the original", S::NAME);
                    }
                    let g = if absent { self.vs[i].2 } else { *group };
                    self.vs.push((s, m, g));
                }
            }
            6..=8 => {
                stat[1] += 1;
                let j = op[1] as usize % n;
                if op[2] % 3 == 0 && j != i {
                    let (from, to) = two(&mut self.vs, i, j);
                    to.0.clone_from(&from.0);
                    (to.1, to.2) = (from.1.clone(), from.2);
                    cx.log(|| format!("{k}: v{j} becomes a clone of v{i}"));
                } else {
                    let (s, m, g) = &self.vs[i];
                    let x = (s.clone(), m.clone(), *g);
                    cx.log(|| format!("{k}: v{n} = clone of v{i}"));
                    self.vs.push(x);
                }
            }
            9..=13 => {
                let v = &mut self.vs[i];
                v.0.act_mut(&mut v.1, &act, conf)?;
                v.2 = *group;
                stat[2] += 1;
                cx.log(|| format!("{k}: v{i} in place {act:?} -> {}", v.1.brief()));
            }
            14 => {
                if n > 1 {
                    self.vs.swap_remove(i);
                    cx.log(|| format!("{k}: drop v{i}"));
                }
            }
            // the same content made again, sharing nothing
            _ => {
                let mut s = S::empty(conf);
                let mut m = S::model(conf);
                for (key, w) in self.vs[i].1.map() {
                    s.act_mut(&mut m, &Act::Add { id: *key, tag: w.0, val: w.1 }, conf)?;
                }
                cx.log(|| format!("{k}: v{n} = v{i} built again -> {}", m.brief()));
                self.vs.push((s, m, *group));
            }
        }
        if self.vs.len() > 9 {
            self.vs.remove(op[1] as usize % 9);
        }
        Ok(())
    }
}

fn pairs<A: Sub<E> + PtrEq<B>, B: Sub<E> + PtrEq<A>>(a: &[(A, M, u32)], b: &[(B, M, u32)], same: bool, cx: &mut Cx) -> R {
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            let (p, q) = (x.0.pe(&y.0), y.0.pe(&x.0));
            ensure!(p == q, "{}: ptr_eq of versions {i} and {j} is {p} one way, {q} the other way", A::NAME);
            ensure!(!p || x.1 == y.1, "{}: versions {i} and {j} are ptr_eq but contain {} and {}", A::NAME, x.1.brief(), y.1.brief());
            if same {
                ensure!(i != j || p, "{}: version {i} is not ptr_eq to itself", A::NAME);
                ensure!(x.2 != y.2 || p, "{}: unchanged clones {i} and {j} are not ptr_eq", A::NAME);
            }
            cx.checks += 1;
        }
    }
    Ok(())
}

fn run<A, B>(case: &Case, cx: &mut Cx) -> R
where
    A: Sub<E> + PtrEq<A> + PtrEq<B>,
    B: Sub<E> + PtrEq<A> + PtrEq<B>,
{
    let conf = Conf::decode(case.c(2), 0, case.c(3), case.c(4));
    let (mut tag, mut group) = (0, 1);
    let mut a = Pool::<A> { vs: vec![(A::empty(&conf), A::model(&conf), 0)] };
    let mut b = Pool::<B> { vs: vec![(B::empty(&conf), B::model(&conf), 0)] };
    let mut st = [0u32; 3];
    // some histories begin with a large version
    if case.c(5) > 0 {
        let add = Act::BulkAdd { n: case.c(5).min(5000), start: 0, tag: 0 };
        let v = &mut a.vs[0];
        v.0.act_mut(&mut v.1, &add, &conf)?;
        if case.c(6) % 2 == 0 {
            let v = &mut b.vs[0];
            v.0.act_mut(&mut v.1, &add, &conf)?;
        }
        cx.log(|| format!("starting with {add:?}"));
        cx.label("large");
    }
    for (k, op) in case.ops.iter().enumerate() {
        if (op[3] >> 8) % 5 < 4 {
            a.step(k, op, &conf, &mut tag, &mut group, cx, &mut st)?;
        } else {
            b.step(k, op, &conf, &mut tag, &mut group, cx, &mut st)?;
        }
        let e = |e: String| format!("after step {k}: {e}");
        pairs(&a.vs, &a.vs, true, cx).map_err(e)?;
        pairs(&a.vs, &b.vs, false, cx).map_err(e)?;
        if k % 4 == 0 {
            pairs(&b.vs, &b.vs, true, cx).map_err(e)?;
        }
    }
    // the contents are what the models say
    for (s, m, _) in &a.vs {
        s.verify(m, &conf, false)?;
    }
    cx.label(A::NAME);
    if st[0] > 0 {
        cx.label("absent key removed");
    }
    if st[1] > 0 && st[2] > 0 {
        cx.nontrivial = true;
    }
    Ok(())
}

fn sel<P: SharedPointerKind, Q: SharedPointerKind>(c: &Case, cx: &mut Cx) -> R {
    match c.c(0) % 4 {
        0 => run::<HashTrieMap<E, E, P, TH>, HashTrieMap<E, E, Q, TH>>(c, cx),
        1 => run::<RedBlackTreeMap<E, E, P>, RedBlackTreeMap<E, E, Q>>(c, cx),
        2 => run::<HashTrieSet<E, P, TH>, HashTrieSet<E, Q, TH>>(c, cx),
        _ => run::<RedBlackTreeSet<E, P>, RedBlackTreeSet<E, Q>>(c, cx),
    }
}

impl Check for C {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "A case is a map or set type, two pointer kinds, a configuration and a history over two pools of versions (persistent, clone, clone_from, in place, drop, built again). After each step ptr_eq of every pair, in both directions and across pointer kinds, is compared with equality of the models; clones not changed since and results of removing an absent key must be ptr_eq. Non-trivial: clones were made and versions changed in place."
    }
    fn budget(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 1_500_000,
            Tier::Thorough => 20_000_000,
        }
    }
    fn generate(&self, r: &mut Rng, i: u64, _: Tier) -> Case {
        let cfg = vec![(i % 4) as u32, r.below(3), r.below(6), r.u32() & 0xFFFF, r.weighted(&[4, 3, 3, 3, 2, 1])];
        let (mut cfg, mut n) = (cfg, 1 + r.skewed(60));
        if i % 50 < 4 {
            cfg.push(if r.chance(1, 8) { r.range(100, 2500) } else { r.range(20, 400) });
            cfg.push(r.below(2));
            n = 1 + r.skewed(24);
        }
        let w = [r.range(1, 8), r.range(1, 8), r.range(0, 5), r.below(3), r.below(2), r.below(3), r.below(2), r.below(2)];
        let ops = (0..n).map(|_| [r.weighted(&w), r.u32(), r.u32(), r.u32()]).collect();
        Case { cfg, ops }
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        match c.c(1) % 3 {
            0 => sel::<RcK, ArcTK>(c, cx),
            1 => sel::<ArcTK, RcK>(c, cx),
            _ => sel::<ArcK, ArcTK>(c, cx),
        }
    }
}
