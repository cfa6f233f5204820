//! C25: comparing maps and sets with the same root takes constant time.
use archery::SharedPointerKind;
use rpds::*;
use rv::elem::{self, E, TH};
use rv::engine::*;
use rv::ensure;
use rv::ptrs::{self, CountK};
use rv::subj::*;
use rv::with_sub;

pub struct C;

type Rels<S> = Vec<(&'static str, fn(&S, &S) -> bool)>;

trait Rel: Sub<E> {
    /// The comparisons, with those that are true for equal contents first.
    fn rels() -> Rels<Self> {
        vec![]
    }
}
impl<P: SharedPointerKind> Rel for List<E, P> {}
impl<P: SharedPointerKind> Rel for Stack<E, P> {}
impl<P: SharedPointerKind> Rel for Queue<E, P> {}
impl<P: SharedPointerKind> Rel for Vector<E, P> {}
impl<P: SharedPointerKind> Rel for HashTrieMap<E, E, P, TH> {
    fn rels() -> Rels<Self> {
        vec![("==", |a, b| a == b), ("!=", |a, b| !(a != b))]
    }
}
impl<P: SharedPointerKind> Rel for RedBlackTreeMap<E, E, P> {
    fn rels() -> Rels<Self> {
        vec![("==", |a, b| a == b), ("!=", |a, b| !(a != b))]
    }
}
impl<P: SharedPointerKind> Rel for HashTrieSet<E, P, TH> {
    fn rels() -> Rels<Self> {
        vec![("==", |a, b| a == b), ("!=", |a, b| !(a != b)), ("is_subset", |a, b| a.is_subset(b)), ("is_superset", |a, b| a.is_superset(b))]
    }
}
impl<P: SharedPointerKind> Rel for RedBlackTreeSet<E, P> {
    fn rels() -> Rels<Self> {
        vec![("==", |a, b| a == b), ("!=", |a, b| !(a != b)), ("is_subset", |a, b| a.is_subset(b)), ("is_superset", |a, b| a.is_superset(b))]
    }
}

/// What a comparison may take: calls of user code and pointer operations.
const CALLS: u64 = 8;
const WORK: u64 = 24;

fn check<S: Rel>(a: &S, b: &S, n: usize, how: &str, cx: &mut Cx) -> R {
    for (name, f) in S::rels() {
        for (x, y) in [(a, b), (b, a)] {
            let before = ptrs::counts();
            elem::arm(31, u64::MAX);
            let r = f(x, y);
            let calls = elem::disarm();
            let work = ptrs::counts().minus(&before).work();
            ensure!(r, "{}: {name} says that {n} elements and {how} differ", S::NAME);
            ensure!(calls <= CALLS && work <= WORK, "{}: {name} of {n} elements with {how} takes {calls} calls of user code and {work} pointer operations", S::NAME);
            cx.checks += 1;
        }
    }
    Ok(())
}

fn run<S: Rel>(case: &Case, cx: &mut Cx) -> R {
    elem::set_fuel(1_000_000_000);
    let conf = Conf::decode(case.c(1), 0, case.c(2), case.c(3));
    let mut tag = 0;
    let mut vs = vec![(S::empty(&conf), S::model(&conf))];
    let v = &mut vs[0];
    v.0.act_mut(&mut v.1, &Act::BulkAdd { n: case.c(4).min(3000), start: case.c(5), tag: 0 }, &conf)?;
    let mut big = 0;
    for (k, op) in case.ops.iter().enumerate() {
        let i = (op[3] >> 16) as usize % vs.len();
        let act = decode(S::KIND, &[op[0], op[1], op[2], op[2] >> 16], &vs[i].1, &conf, &mut tag, 12);
        let n = vs[i].1.len();
        let at = |e: String| format!("step {k}, version {i}: {e}");
        if n >= 20 {
            big += 1;
        }
        match op[3] % 8 {
            0 | 1 => {
                let v = &mut vs[i];
                v.0.act_mut(&mut v.1, &act, &conf)?;
                cx.log(|| format!("{k}: v{i} in place {act:?} -> {}", v.1.brief()));
            }
            2 => {
                if let Some(x) = vs[i].0.act_ref(&vs[i].1, &act, &conf)? {
                    cx.log(|| format!("{k}: v{} = v{i}.{act:?} -> {}", vs.len(), x.1.brief()));
                    vs.push(x);
                }
            }
            3 => {
                let v = &vs[i].0;
                check(v, v, n, "itself", cx).map_err(at)?;
            }
            4 => {
                let c = vs[i].0.clone();
                check(&vs[i].0, &c, n, "a clone of it", cx).map_err(at)?;
                let d = c.clone();
                check(&vs[i].0, &d, n, "a clone of a clone of it", cx).map_err(at)?;
                let m = vs[i].1.clone();
                vs.push((d, m));
            }
            5 => {
                // the clone outlives a change of the original
                let c = vs[i].0.clone();
                let v = &mut vs[i];
                let (d, m) = (c.clone(), v.1.clone());
                v.0.act_mut(&mut v.1, &act, &conf)?;
                check(&d, &c, n, "another clone, of a version changed since,", cx).map_err(at)?;
                vs.push((d, m));
            }
            6 => {
                let j = op[1] as usize % vs.len();
                if i != j {
                    let (from, to) = two(&mut vs, i, j);
                    to.0.clone_from(&from.0);
                    to.1 = from.1.clone();
                    check(&from.0, &to.0, n, "what became a clone of it", cx).map_err(at)?;
                }
            }
            _ => {
                // an absent key
                let id = (0..).map(|x| op[1].wrapping_add(x) % 5000).find(|x| !vs[i].1.map().contains_key(x)).unwrap();
                if let Some((s, _)) = vs[i].0.act_ref(&vs[i].1, &Act::Del { id }, &conf)? {
                    check(&vs[i].0, &s, n, "the result of removing an absent key from it", cx).map_err(at)?;
                }
            }
        }
        if vs.len() > 6 {
            vs.remove(op[1] as usize % 6);
        }
    }
    cx.label(S::NAME);
    if big >= 2 {
        cx.nontrivial = true;
    }
    Ok(())
}

impl Check for C {
    fn id(&self) -> &'static str {
        "C25"
    }
    fn rule(&self) -> &'static str {
        "A case is one of the four map and set types over a counting pointer kind, a configuration, a size and a history of updates on a few versions. In between, a version is compared (==, !=, is_subset, is_superset, both ways round) with itself, with clones of it, direct and indirect, with what it was assigned to, and with the result of removing an absent key; calls of user code and pointer operations are counted and must not exceed a constant. Non-trivial: at least two steps at versions of 20 elements or more."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["looking at an element shows as a call of its Eq, Ord or Hash, or as an operation of the pointer kind"]
    }
    fn budget(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 300_000,
            Tier::Thorough => 20_000_000,
        }
    }
    fn generate(&self, r: &mut Rng, i: u64, _: Tier) -> Case {
        let n0 = if mix(i) % 100 == 0 { r.below(3000) } else if r.chance(1, 2) { r.range(20, 100) } else { r.skewed(40) };
        // large buckets of colliding keys take too long to build
        let (h, u) = if n0 > 300 { ([0, 7, 12][r.below(3) as usize], 7) } else { (r.u32() & 0xFFFF, r.below(8)) };
        let cfg = vec![4 + (i % 4) as u32, r.below(6), h, u, n0, r.u32()];
        let w = [r.range(1, 8), r.range(1, 8), r.range(0, 4), r.range(0, 4), r.below(4), r.below(2), r.below(2), r.below(2)];
        let ops = (0..r.range(2, 24)).map(|_| [r.weighted(&w), r.u32(), r.u32(), r.u32()]).collect();
        Case { cfg, ops }
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        with_sub!(4 + c.c(0) % 4, E, CountK, S => run::<S>(c, cx))
    }
}
