//! C13: parallel iteration equals sequential iteration.
use archery::ArcTK;
use rayon::iter::plumbing::{Consumer, Folder, Reducer, UnindexedConsumer};
use rayon::prelude::*;
use rpds::*;
use rv::elem::{E, TH};
use rv::engine::*;
use rv::ensure;
use rv::routes::*;
use rv::subj::{Conf, Kind};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Mutex, OnceLock};

type Map = HashTrieMap<E, E, ArcTK, TH>;
const SIZES: [usize; 8] = [1, 2, 3, 4, 8, 16, 48, 5];

fn pool(i: u32) -> &'static rayon::ThreadPool {
    static P: OnceLock<Vec<OnceLock<rayon::ThreadPool>>> = OnceLock::new();
    let v = P.get_or_init(|| SIZES.iter().map(|_| OnceLock::new()).collect());
    let i = i as usize % SIZES.len();
    v[i].get_or_init(|| rayon::ThreadPoolBuilder::new().num_threads(SIZES[i]).stack_size(4 << 20).build().unwrap())
}

/// Sometimes lets other threads steal.
fn jitter(x: u32, mask: u32) {
    if mask != 0 && rv::engine::mix(u64::from(x)) as u32 & mask == 0 {
        std::thread::yield_now();
    }
}

/// A consumer written for this check: it records what each folder got, and declares itself full after a limit.
#[derive(Clone, Copy)]
struct Own<'a> {
    seen: &'a Mutex<Vec<Vec<(u32, u32)>>>,
    taken: &'a AtomicUsize,
    limit: usize,
}
struct OwnFolder<'a> {
    own: Own<'a>,
    got: Vec<(u32, u32)>,
}
impl<'a, 'b> Consumer<(&'b E, &'b E)> for Own<'a> {
    type Folder = OwnFolder<'a>;
    type Reducer = Own<'a>;
    type Result = usize;
    fn split_at(self, _: usize) -> (Self, Self, Self) {
        (self, self, self)
    }
    fn into_folder(self) -> OwnFolder<'a> {
        OwnFolder { own: self, got: vec![] }
    }
    fn full(&self) -> bool {
        self.taken.load(SeqCst) >= self.limit
    }
}
impl<'a, 'b> UnindexedConsumer<(&'b E, &'b E)> for Own<'a> {
    fn split_off_left(&self) -> Self {
        *self
    }
    fn to_reducer(&self) -> Self {
        *self
    }
}
impl Reducer<usize> for Own<'_> {
    fn reduce(self, a: usize, b: usize) -> usize {
        a + b
    }
}
impl<'a, 'b> Folder<(&'b E, &'b E)> for OwnFolder<'a> {
    type Result = usize;
    fn consume(mut self, x: (&'b E, &'b E)) -> Self {
        self.own.taken.fetch_add(1, SeqCst);
        self.got.push((x.0.id, x.1.id));
        self
    }
    fn complete(self) -> usize {
        let n = self.got.len();
        self.own.seen.lock().unwrap().push(self.got);
        n
    }
    fn full(&self) -> bool {
        self.own.full()
    }
}

fn run(c: &Case, cx: &mut Cx) -> R {
    let conf = Conf::decode(c.c(2), 0, c.c(4), c.c(5));
    let mut r = Rng(u64::from(c.c(7)));
    let items = content(Kind::Map, &mut r, c.c(6).min(60_000) as usize, conf.universe);
    let mut keep = vec![];
    let m: Map = Route::<E>::route(&items, c.c(9), &mut r, &conf, &mut keep);
    let seq: BTreeMap<u32, u32> = m.iter().map(|(k, v)| (k.id, v.id)).collect();
    ensure!(seq.iter().map(|(k, v)| (*k, *v)).eq(items.iter().copied()) && m.size() == items.len(), "sequential iteration is wrong");
    let n = items.len();
    cx.nontrivial = n > 1;
    cx.checks += 1;
    cx.log(|| format!("{n} entries, degree {}, hash {:?}, {} threads", conf.degree, conf.hash, SIZES[c.c(1) as usize % 8]));
    let mask = [0, 1, 7, 63][c.c(8) as usize % 4];
    let what = c.c(0) % 12;
    let div = 1 + c.c(10) % 5;
    pool(c.c(1)).install(|| {
        let it = || (&m).into_par_iter();
        let pred = |k: &E, v: &E| (k.id ^ v.id) % div == 0;
        match what {
            0 => {
                cx.label("collect");
                let mut v: Vec<(u32, u32)> = it().map(|(k, v)| {
                    jitter(k.id, mask);
                    (k.id, v.id)
                }).collect();
                v.sort_unstable();
                ensure!(v == items, "collect gives {} entries: {:?}, should be {} entries: {:?}", v.len(), &v[..v.len().min(20)], n, &items[..n.min(20)]);
            }
            1 => {
                cx.label("count");
                let g = it().count();
                ensure!(g == n, "count is {g}, should be {n}");
            }
            2 => {
                cx.label("filter");
                let g: HashSet<u32> = it().filter(|(k, v)| pred(k, v)).map(|(k, _)| k.id).collect();
                let w: HashSet<u32> = m.iter().filter(|(k, v)| pred(k, v)).map(|(k, _)| k.id).collect();
                ensure!(g == w, "filter gives {} keys, should be {}", g.len(), w.len());
                let g = it().filter(|(k, v)| pred(k, v)).count();
                ensure!(g == w.len(), "filtered count is {g}, should be {}", w.len());
            }
            3 => {
                cx.label("reduce");
                let w = |k: u32, v: u32| mix(u64::from(k) << 32 | u64::from(v));
                let g = it().map(|(k, v)| {
                    jitter(k.id, mask);
                    w(k.id, v.id)
                }).reduce(|| 0, u64::wrapping_add);
                let want = items.iter().map(|x| w(x.0, x.1)).fold(0, u64::wrapping_add);
                ensure!(g == want, "reduce gives {g}, should be {want}");
                let g: u64 = it().map(|(k, _)| u64::from(k.id)).sum();
                ensure!(g == items.iter().map(|x| u64::from(x.0)).sum::<u64>(), "sum is {g}");
            }
            4 => {
                cx.label("find");
                for _ in 0..3 {
                    let k = if n > 0 && r.chance(2, 3) { items[r.below(n as u32) as usize].0 } else { r.u32() % conf.universe };
                    let g = it().find_any(|(x, _)| x.id == k).map(|(x, v)| (x.id, v.id));
                    let w = items.iter().find(|x| x.0 == k).copied();
                    ensure!(g == w, "find_any of key {k} gives {g:?}, should be {w:?}");
                }
                let g = it().find_any(|(k, v)| pred(k, v)).map(|(k, v)| pred(k, v));
                let w = m.iter().find(|(k, v)| pred(k, v)).map(|_| true);
                ensure!(g == w, "find_any gives {g:?}, should be {w:?}");
                let g = it().find_map_any(|(k, v)| pred(k, v).then_some(k.id));
                ensure!(g.is_some() == w.is_some() && g.is_none_or(|k| seq.contains_key(&k)), "find_map_any gives {g:?}");
            }
            5 => {
                cx.label("any, all");
                let g = it().any(|(k, v)| pred(k, v));
                let w = m.iter().any(|(k, v)| pred(k, v));
                ensure!(g == w, "any is {g}, should be {w}");
                let g = it().all(|(k, v)| pred(k, v));
                let w = m.iter().all(|(k, v)| pred(k, v));
                ensure!(g == w, "all is {g}, should be {w}");
                let last = items.last().map_or(0, |x| x.0);
                ensure!(it().all(|(k, _)| k.id != last) == items.is_empty(), "all misses the key {last}");
            }
            6 => {
                cx.label("min, max");
                let g = it().map(|(k, _)| k.id).min();
                ensure!(g == items.first().map(|x| x.0), "min is {g:?}");
                let g = it().map(|(k, _)| k.id).max();
                ensure!(g == items.last().map(|x| x.0), "max is {g:?}");
                let g = it().max_by_key(|(k, _)| k.id).map(|(k, _)| k.id);
                ensure!(g == items.last().map(|x| x.0), "max_by_key is {g:?}");
            }
            7 => {
                cx.label("for_each");
                let count: HashMap<u32, AtomicU64> = items.iter().map(|x| (x.0, AtomicU64::new(0))).collect();
                let stray = AtomicU64::new(0);
                it().for_each(|(k, v)| {
                    jitter(k.id, mask);
                    match count.get(&k.id) {
                        Some(c) if seq.get(&k.id) == Some(&v.id) => drop(c.fetch_add(1, Relaxed)),
                        _ => drop(stray.fetch_add(1, Relaxed)),
                    }
                });
                ensure!(stray.load(Relaxed) == 0, "for_each got entries which are not in the map");
                for (k, c) in &count {
                    ensure!(c.load(Relaxed) == 1, "for_each got key {k} {} times", c.load(Relaxed));
                }
            }
            8 => {
                cx.label("fold, partition, unzip");
                let parts: Vec<Vec<u32>> = it().fold(Vec::new, |mut v, (k, _)| {
                    v.push(k.id);
                    v
                }).collect();
                let mut all: Vec<u32> = parts.concat();
                all.sort_unstable();
                ensure!(all.iter().eq(seq.keys()), "fold gives {} keys, should be {n}", all.len());
                let (a, b): (Vec<_>, Vec<_>) = it().partition(|(k, v)| pred(k, v));
                ensure!(a.len() + b.len() == n && a.iter().all(|(k, v)| pred(k, v)), "partition");
                let (mut a, b): (Vec<u32>, Vec<u32>) = it().map(|(k, v)| (k.id, v.id)).unzip();
                a.sort_unstable();
                ensure!(a.iter().eq(seq.keys()) && b.len() == n, "unzip");
            }
            9 => {
                cx.label("try_for_each, flat_map, chain");
                let bad = if n > 0 { items[r.below(n as u32) as usize].0 } else { 0 };
                let g = it().try_for_each(|(k, _)| if k.id == bad { Err(k.id) } else { Ok(()) });
                ensure!(g == if n > 0 { Err(bad) } else { Ok(()) }, "try_for_each gives {g:?}");
                let g = it().flat_map_iter(|(k, _)| [k.id; 2]).count();
                ensure!(g == 2 * n, "flat_map_iter gives {g}");
                let g = it().chain(it()).count();
                ensure!(g == 2 * n, "chain gives {g}");
                let back: BTreeMap<u32, u32> = it().map(|(k, v)| (k.id, v.id)).collect();
                ensure!(back == seq, "collecting a map");
            }
            10 => {
                cx.label("own consumer");
                let (seen, taken) = (Mutex::new(vec![]), AtomicUsize::new(0));
                let got = it().drive_unindexed(Own { seen: &seen, taken: &taken, limit: usize::MAX });
                let mut all: Vec<(u32, u32)> = seen.into_inner().unwrap().concat();
                all.sort_unstable();
                ensure!(got == n && all == items, "the folders got {got} entries, should be {n}");
            }
            _ => {
                cx.label("own consumer with a limit");
                let limit = r.below(n as u32 + 2) as usize;
                let (seen, taken) = (Mutex::new(vec![]), AtomicUsize::new(0));
                let got = it().drive_unindexed(Own { seen: &seen, taken: &taken, limit });
                let all: Vec<(u32, u32)> = seen.into_inner().unwrap().concat();
                let set: HashSet<(u32, u32)> = all.iter().copied().collect();
                ensure!(set.len() == all.len() && all.len() == got, "an entry is delivered twice");
                ensure!(all.iter().all(|x| seq.get(&x.0) == Some(&x.1)), "an entry which is not in the map is delivered");
                ensure!(got >= limit.min(n), "only {got} of {n} entries delivered before the limit {limit}");
            }
        }
        Ok(())
    })
}

pub struct C;
impl Check for C {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "A case is a HashTrieMapSync with a generated content, history, degree and hash function (total and partial collisions included), a thread pool of 1, 2, 3, 4, 5, 8, 16 or 48 threads (which sets how finely the work is split) and an operation of the parallel iterator (collect, count, filter, reduce, sum, find, any, all, min, max, for_each, fold, partition, unzip, try_for_each, chain, or a consumer of our own with a limit); the result is compared with that over the sorted content. Non-trivial: at least two entries."
    }
    fn budget(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 150_000,
            Tier::Thorough => 3_000_000,
        }
    }
    fn parallel(&self) -> usize {
        4
    }
    fn generate(&self, r: &mut Rng, i: u64, _: Tier) -> Case {
        let n = if mix(i) % 300 == 0 { r.below(30_000) } else { r.skewed(300) };
        // large buckets of colliding keys take too long to build
        let h = if n > 1500 { [0, 7, 12][r.below(3) as usize] } else { r.u32() & 0xFFFF };
        let u = if n > 1000 { 7 } else { r.below(8) };
        Case { cfg: vec![r.below(12), r.below(8), r.below(6), 0, h, u, n, r.u32(), r.below(4), r.below(6), r.below(5)], ops: vec![] }
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        run(c, cx)
    }
}
