//! C23: every feature configuration gives the same behaviour. This program is built several times with different
//! features of rpds; the one with all features generates the cases and sends them to the others (`serve`).
use archery::{ArcK, ArcTK, RcK, SharedPointerKind};
use rpds::*;
use rv::elem::{E, Elem};
use rv::engine::*;
use rv::subj::Conf;
use rv::{ensure, hist, serve, with_sub};
use serde_json::json;
use std::collections::BTreeMap;

/// The checks of other properties, whose cases are run in every build.
#[path = "../checks/c01.rs"]
mod c01;
#[path = "../checks/c07.rs"]
mod c07;
#[path = "../checks/c08.rs"]
mod c08;
#[path = "../checks/c09.rs"]
mod c09;
#[path = "../checks/c10.rs"]
mod c10;
#[path = "../checks/c11.rs"]
mod c11;
#[cfg(feature = "f_serde")]
#[path = "../checks/c12.rs"]
mod c12;
#[path = "../checks/c14.rs"]
mod c14;
#[path = "../checks/c15.rs"]
mod c15;
#[path = "../checks/c16.rs"]
mod c16;
#[path = "../checks/c17.rs"]
mod c17;
#[path = "../checks/c19.rs"]
mod c19;
#[path = "../checks/c20.rs"]
mod c20;
#[path = "../checks/c21.rs"]
mod c21;
#[path = "../checks/c22.rs"]
mod c22;
#[path = "../checks/c24.rs"]
mod c24;
/// With the number of cases in ten thousand.
const OTHERS: [(&dyn Check, u64); 15] = [
    (&c01::C, 200),
    (&c07::C, 700),
    (&c08::C, 700),
    (&c09::C, 700),
    (&c10::C, 700),
    (&c11::C, 700),
    (&c14::C, 30),
    (&c15::C, 8),
    (&c16::C, 700),
    (&c17::C, 12),
    (&c19::C, 400),
    (&c20::C, 700),
    (&c21::C, 700),
    (&c22::C, 80),
    (&c24::C, 400),
];
/// The number of the check which needs serialization, and its share.
const WIRE: (usize, u64) = (OTHERS.len(), 700);

struct C;

/// Builds, in `target/v-<name>`. (All features together are what the other checks use.)
const VARIANTS: [&str; 4] = ["none", "std", "serde", "rayon"];

type Want = BTreeMap<u32, (u32, u32)>;
type Map<P> = HashTrieMap<E, E, P>;
type Set<P> = HashTrieSet<E, P>;

struct Ver<P: SharedPointerKind> {
    map: Map<P>,
    set: Set<P>,
    str: HashTrieMap<String, u32, P>,
    rb: RedBlackTreeMap<String, u32, P>,
    m: Want,
}

impl<P: SharedPointerKind> Clone for Ver<P> {
    fn clone(&self) -> Self {
        Ver { map: self.map.clone(), set: self.set.clone(), str: self.str.clone(), rb: self.rb.clone(), m: self.m.clone() }
    }
}

impl<P: SharedPointerKind> Ver<P> {
    fn new(d: u8) -> Self {
        Ver {
            map: HashTrieMap::new_with_hasher_and_degree_and_ptr_kind(Default::default(), d),
            set: HashTrieSet::new_with_hasher_and_degree_and_ptr_kind(Default::default(), d),
            str: HashTrieMap::new_with_hasher_and_degree_and_ptr_kind(Default::default(), d),
            rb: RedBlackTreeMap::new_with_ptr_kind(),
            m: Want::new(),
        }
    }
    fn key(k: u32) -> String {
        format!("key {k}")
    }
    fn put(&self, k: u32, tag: u32) -> Self {
        let mut m = self.m.clone();
        m.insert(k, (tag, tag ^ 5));
        Ver { map: self.map.insert(E::mk(k, tag), E::mk(k, tag ^ 5)), set: self.set.insert(E::mk(k, tag)), str: self.str.insert(Self::key(k), tag), rb: self.rb.insert(Self::key(k), tag), m }
    }
    fn put_mut(&mut self, k: u32, tag: u32) {
        self.m.insert(k, (tag, tag ^ 5));
        self.map.insert_mut(E::mk(k, tag), E::mk(k, tag ^ 5));
        self.set.insert_mut(E::mk(k, tag));
        self.str.insert_mut(Self::key(k), tag);
        self.rb.insert_mut(Self::key(k), tag);
    }
    fn del(&self, k: u32) -> Self {
        let mut m = self.m.clone();
        m.remove(&k);
        Ver { map: self.map.remove(&k), set: self.set.remove(&k), str: self.str.remove(Self::key(k).as_str()), rb: self.rb.remove(Self::key(k).as_str()), m }
    }
    fn del_mut(&mut self, k: u32) -> R {
        let w = self.m.remove(&k).is_some();
        let r = [self.map.remove_mut(&k), self.set.remove_mut::<E>(&E::mk(k, 0)), self.str.remove_mut(Self::key(k).as_str()), self.rb.remove_mut(Self::key(k).as_str())];
        ensure!(r == [w; 4], "removing {k} returned {r:?}, should be {w}");
        Ok(())
    }
    fn collected(&self) -> Self {
        Ver {
            map: self.m.iter().map(|(k, v)| (E::mk(*k, v.0), E::mk(*k, v.1))).collect(),
            set: self.m.iter().map(|(k, v)| E::mk(*k, v.0)).collect(),
            str: self.m.iter().map(|(k, v)| (Self::key(*k), v.0)).collect(),
            rb: self.m.iter().map(|(k, v)| (Self::key(*k), v.0)).collect(),
            m: self.m.clone(),
        }
    }
    fn check(&self, universe: u32) -> R {
        let n = self.m.len();
        let sizes = [self.map.size(), self.set.size(), self.str.size(), self.rb.size(), self.map.iter().count(), self.set.iter().count(), self.str.keys().count(), self.rb.values().count()];
        ensure!(sizes == [n; 8], "sizes and lengths are {sizes:?}, should be {n}");
        for (k, w) in &self.m {
            let (x, y) = (self.map.get(k), self.map.get::<E>(&E::mk(*k, 9)));
            for g in [x, y] {
                let g = g.map(|v| (v.id(), v.tag()));
                ensure!(g == Some((*k, w.1)), "HashTrieMap::get({k}) is {g:?}, should be {w:?}");
            }
            let g = self.set.get(k).map(|v| v.tag());
            ensure!(g == Some(w.0) && self.set.contains::<E>(&E::mk(*k, 0)), "HashTrieSet::get({k}) is {g:?}, should be {w:?}");
            let s = Self::key(*k);
            ensure!(self.str.get(&s) == Some(&w.0) && self.str.get(s.as_str()) == Some(&w.0), "HashTrieMap with strings: get({k})");
            ensure!(self.rb.get(&s) == Some(&w.0) && self.rb.get(s.as_str()) == Some(&w.0), "RedBlackTreeMap with strings: get({k})");
        }
        for j in 0..12 {
            let k = j % universe;
            if !self.m.contains_key(&k) {
                ensure!(!self.map.contains_key(&k) && !self.set.contains(&k) && !self.str.contains_key(Self::key(k).as_str()) && !self.rb.contains_key(Self::key(k).as_str()), "absent key {k} is found");
            }
        }
        for (k, v) in self.map.iter() {
            ensure!(self.m.get(&k.id()) == Some(&(k.tag(), v.tag())), "iteration yields the absent key {}", k.id());
        }
        Ok(())
    }
    fn same(&self, o: &Self) -> R {
        let want = self.m.keys().eq(o.m.keys());
        let strs = want && self.m.iter().all(|(k, v)| o.m[k].0 == v.0);
        let got = [self.map == o.map, o.map == self.map, self.set == o.set, o.set == self.set];
        ensure!(got == [want; 4], "equality of maps and sets is {got:?}, should be {want}: {:?} and {:?}", self.m, o.m);
        let got = [self.str == o.str, o.str == self.str, self.rb == o.rb];
        ensure!(got == [strs; 3], "equality of string maps is {got:?}, should be {strs}");
        let sub = self.m.keys().all(|k| o.m.contains_key(k));
        ensure!(self.set.is_subset(&o.set) == sub, "is_subset should be {sub}");
        Ok(())
    }
}

/// Maps and sets with the default hash builder of this build.
fn default_hashes<P: SharedPointerKind>(case: &Case, cx: &mut Cx) -> R {
    let conf = Conf::decode(case.c(2), 0, 0, case.c(5));
    let u = conf.universe.min(1 << 20);
    let mut vs = vec![Ver::<P>::new(conf.degree)];
    for i in 0..case.c(7) % 3000 {
        vs[0].put_mut(mix(u64::from(i)) as u32 % u, i);
    }
    let mut clones = 0;
    for (k, op) in case.ops.iter().enumerate() {
        let i = (op[3] >> 16) as usize % vs.len();
        let key = if op[1] % 3 == 0 && !vs[i].m.is_empty() { *vs[i].m.range(op[2] % u..).next().unwrap_or(vs[i].m.iter().next().unwrap()).0 } else { op[2] % u };
        let tag = k as u32 + 1;
        match op[3] % 12 {
            0..=1 => {
                let x = vs[i].put(key, tag);
                vs.push(x);
            }
            2..=3 => {
                let x = vs[i].del(key);
                vs.push(x);
            }
            4..=5 => vs[i].put_mut(key, tag),
            6 => vs[i].del_mut(key)?,
            // a clone, or a clone of a clone, worked on further
            7 | 8 => {
                let mut x = vs[i].clone();
                clones += 1;
                if op[1] % 2 == 0 {
                    x.put_mut(key, tag);
                    x = x.clone();
                }
                vs.push(x);
            }
            9 => {
                let x = vs[i].collected();
                vs[i].same(&x).map_err(|e| format!("step {k}, against collected: {e}"))?;
                vs.push(x);
            }
            10 => {
                for j in 0..op[1] % 200 {
                    vs[i].put_mut(op[2].wrapping_add(j) % u, tag);
                }
            }
            _ => {
                let j = (op[2] as usize >> 4) % vs.len();
                vs[i].same(&vs[j]).map_err(|e| format!("step {k}, versions {i} and {j}: {e}"))?;
            }
        }
        if vs.len() > 5 {
            vs.remove(op[1] as usize % 5);
        }
        for (j, v) in vs.iter().enumerate() {
            if v.m.len() < 100 || (j + k) % 5 == 0 {
                v.check(u).map_err(|e| format!("after step {k}, version {j}: {e}"))?;
                cx.checks += 1;
            }
        }
    }
    for v in &vs {
        v.check(u)?;
        extras(v)?;
    }
    if clones > 0 && vs.iter().any(|v| v.m.len() >= 3) {
        cx.nontrivial = true;
    }
    cx.label("default hash builder");
    Ok(())
}

fn extras<P: SharedPointerKind>(v: &Ver<P>) -> R {
    #[cfg(feature = "f_serde")]
    {
        let s = serde_json::to_string(&v.map).map_err(|e| e.to_string())?;
        let back: Map<P> = serde_json::from_str(&s).map_err(|e| e.to_string())?;
        ensure!(back == v.map && back.size() == v.m.len(), "a HashTrieMap is not read back as it was written");
        let s = serde_json::to_string(&v.set).map_err(|e| e.to_string())?;
        let back: Set<P> = serde_json::from_str(&s).map_err(|e| e.to_string())?;
        ensure!(back == v.set, "a HashTrieSet is not read back as it was written");
        let s = serde_json::to_string(&v.rb).map_err(|e| e.to_string())?;
        let back: RedBlackTreeMap<String, u32, P> = serde_json::from_str(&s).map_err(|e| e.to_string())?;
        ensure!(back == v.rb, "a RedBlackTreeMap is not read back as it was written");
    }
    let shown: Vec<String> = v.rb.iter().map(|(k, x)| format!("{k}: {x}")).collect();
    ensure!(format!("{}", v.rb) == format!("{{{}}}", shown.join(", ")), "Display of RedBlackTreeMap is {}", v.rb);
    Ok(())
}

#[cfg(feature = "f_rayon")]
fn parallel(case: &Case) -> R {
    use rayon::iter::{IntoParallelIterator, ParallelIterator};
    let mut m: HashTrieMapSync<u32, u32> = HashTrieMap::new_sync();
    for op in &case.ops {
        m.insert_mut(op[2] % 1000, op[1]);
    }
    let (a, b) = ((&m).into_par_iter().map(|(k, v)| u64::from(*k) ^ u64::from(*v) << 20).sum::<u64>(), m.iter().map(|(k, v)| u64::from(*k) ^ u64::from(*v) << 20).sum::<u64>());
    ensure!(a == b, "parallel iteration gives the sum {a}, sequential iteration {b}");
    Ok(())
}

/// The case, in this build.
fn here(c: &Case, cx: &mut Cx) -> R {
    let mode = c.cfg.last().copied().unwrap_or(0);
    if mode >= 2 {
        let mut inner = c.clone();
        inner.cfg.truncate(c.cfg.len().saturating_sub(2));
        #[cfg(feature = "f_serde")]
        if mode as usize - 2 == WIRE.0 {
            return c12::C.run(&inner, cx);
        }
        return OTHERS[(mode as usize - 2) % OTHERS.len()].0.run(&inner, cx);
    }
    if mode == 0 {
        match c.c(1) % 3 {
            0 => with_sub!(c.c(0), E, RcK, S => hist::run::<S>(c, cx)),
            1 => with_sub!(c.c(0), E, ArcTK, S => hist::run::<S>(c, cx)),
            _ => with_sub!(c.c(0), E, ArcK, S => hist::run::<S>(c, cx)),
        }
    } else {
        #[cfg(feature = "f_rayon")]
        parallel(c)?;
        match c.c(1) % 3 {
            0 => default_hashes::<RcK>(c, cx),
            1 => default_hashes::<ArcTK>(c, cx),
            _ => default_hashes::<ArcK>(c, cx),
        }
    }
}

struct Served;
impl Check for Served {
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> &'static str {
        ""
    }
    fn budget(&self, _: Tier) -> u64 {
        0
    }
    fn generate(&self, _: &mut Rng, _: u64, _: Tier) -> Case {
        Case::default()
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        here(c, cx)
    }
}

impl Check for C {
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> &'static str {
        "rpds is built without features, with std, with serde (no std) and with rayon (no std); the other checks build it with all features. A case names a build and is run in it: a model-based history of one of the eight structures as for C02 to C06, or a history over maps and sets (element and string keys, three pointer kinds) with the default hash builder of that build, with clones of clones, collected copies and equality between all, or a case of C01, C07 to C12, C14 to C17, C19 to C22 (serialization only in the build that has it). Non-trivial: as for the property the case is taken from; or clones made and at least three entries."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the programs are hosted: std is there for the harness even when rpds is built without it"]
    }
    fn budget(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 150_000,
            Tier::Thorough => 2_000_000,
        }
    }
    fn generate(&self, r: &mut Rng, i: u64, _: Tier) -> Case {
        let variant = (i % 4) as u32;
        let mut share = mix(i / 4) % 10_000;
        let n = i / 4;
        for (k, (check, s)) in OTHERS.iter().enumerate() {
            if share < *s {
                // (C17: a case for builds without optimisations)
                let mut c = check.generate(r, if check.id() == "C17" { n * 7 + 5 } else { n }, Tier::Quick);
                if check.id() == "C17" {
                    c.cfg.truncate(8);
                }
                c.cfg.extend([variant, k as u32 + 2]);
                return c;
            }
            share -= s;
        }
        if share < WIRE.1 {
            #[cfg(feature = "f_serde")]
            {
                let mut c = c12::C.generate(r, n, Tier::Quick);
                c.cfg.extend([2, WIRE.0 as u32 + 2]);
                return c;
            }
        }
        let mode = (share % 2) as u32;
        let big = mix(i) % 120 == 5;
        let bulk = if big { 3 } else { r.weighted(&[8, 8, 3]) };
        let n0 = if r.chance(1, 2) { 0 } else { r.skewed(if big { 3000 } else { 60 }) };
        let cfg = vec![r.below(8), r.below(3), r.below(6), r.below(12), r.u32() & 0xFFFF, r.below(8), bulk, n0, r.below(16), variant, mode];
        let n = if big { r.range(2, 12) } else { 1 + r.skewed(60) };
        let ops = if mode == 0 { hist::gen_ops(r, n) } else { (0..n).map(|_| [0, r.u32(), r.u32(), r.u32()]).collect() };
        Case { cfg, ops }
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        let v = c.cfg.iter().rev().nth(1).copied().unwrap_or(0) as usize % 4;
        cx.label(VARIANTS[v]);
        cx.log(|| format!("in the build with features: {}", VARIANTS[v]));
        let Some(a) = serve::ask(&format!("target/v-{}/variant/c23", VARIANTS[v]), c) else { return Err(format!("the build with features {} died in this case", VARIANTS[v])) };
        cx.nontrivial = a["nt"] == json!(true);
        cx.checks += a["checks"].as_u64().unwrap_or(0);
        match a["err"].as_str() {
            None => Ok(()),
            Some(e) => Err(format!("features {}: {e}", VARIANTS[v])),
        }
    }
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("serve") {
        serve::serve(&Served);
        return;
    }
    rv::engine::main(&[&C]);
}
