//! C18: the thread-safe variants behave sequentially under concurrent use.
use archery::{ArcK, ArcTK};
use rv::engine::*;
use rv::ensure;
use rv::sched::{self, Ctr, SE, SchedK};
use rv::subj::*;
use rv::with_sub;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Barrier};

pub struct C;

type Body<'a> = Box<dyn FnOnce() -> R + Send + 'a>;

/// What one thread does with its own handles, and a handle which it shares with the others.
fn body<S: Sub<SE>>(mut vs: Vec<(S, M)>, shared: &(S, M), ops: Vec<Op>, conf: &Conf, t: usize, max_bulk: u32) -> R {
    let mut tag = 1000 * (t as u32 + 1);
    for (k, op) in ops.iter().enumerate() {
        let n = vs.len();
        let i = (op[3] >> 16) as usize % n.max(1);
        let at = |e: String| format!("thread {t}, step {k}: {e}");
        let how = if n == 0 { 12 } else { op[3] % 16 };
        let act = |m: &M, tag: &mut u32| decode(S::KIND, &[op[0], op[1], op[2], op[2] >> 16], m, conf, tag, max_bulk);
        match how {
            0..=3 => {
                let a = act(&vs[i].1, &mut tag);
                if let Some(x) = vs[i].0.act_ref(&vs[i].1, &a, conf).map_err(at)? {
                    if op[1] % 2 == 0 { vs.push(x) } else { vs[i] = x }
                }
            }
            4..=8 => {
                let (s, m) = &mut vs[i];
                let a = act(m, &mut tag);
                s.act_mut(m, &a, conf).map_err(at)?;
            }
            9 => {
                let j = op[1] as usize % n;
                if op[2] % 2 == 0 && i != j {
                    let (from, to) = two(&mut vs, i, j);
                    to.0.clone_from(&from.0);
                    to.1 = from.1.clone();
                } else {
                    let c = vs[i].clone();
                    vs.push(c);
                }
            }
            10 | 11 => drop(vs.swap_remove(i)),
            // a handle of what all threads see
            12 => vs.push(shared.clone()),
            13 => {
                let a = act(&shared.1, &mut tag);
                if let Some(x) = shared.0.act_ref(&shared.1, &a, conf).map_err(at)? {
                    vs.push(x);
                }
            }
            14 => shared.0.verify(&shared.1, conf, true).map_err(at)?,
            _ => vs[i].0.verify(&vs[i].1, conf, true).map_err(at)?,
        }
        if op[2] % 3 == 0 {
            for (j, (s, m)) in vs.iter().enumerate() {
                s.verify(m, conf, false).map_err(|e| format!("thread {t}, after step {k}, its version {j}: {e}"))?;
            }
        }
    }
    for (j, (s, m)) in vs.iter().enumerate() {
        s.verify(m, conf, true).map_err(|e| format!("thread {t}, at the end, its version {j}: {e}"))?;
    }
    // its handles go away here, while the other threads go on
    Ok(())
}

/// Many single reads of a few related versions at a few keys, with an update now and then.
fn hammer<S: Sub<SE>>(vs: &[(S, M)], conf: &Conf, keys: &[u32], seed: u64, n: u32) -> R {
    let mut r = Rng(seed);
    let mut own: Vec<(S, M)> = vec![];
    for _ in 0..n {
        let x = r.next();
        let (s, m) = if own.is_empty() || x >> 50 & 3 != 0 { &vs[(x >> 8) as usize % vs.len()] } else { &own[(x >> 8) as usize % own.len()] };
        let key = keys[(x >> 16) as usize % keys.len()];
        if x >> 56 == 0 {
            let act = if x >> 40 & 1 == 0 { Act::Add { id: key, tag: 7, val: 7 } } else { Act::Del { id: key } };
            if let Some(y) = s.act_ref(m, &act, conf)? {
                own.push(y);
                if own.len() > 3 {
                    own.remove(0);
                }
            }
        } else {
            s.probe(m, key, (x >> 32) as u32).map_err(|e| format!("{e} (key {key})"))?;
        }
    }
    Ok(())
}

/// cfg: 0 selector, 1 mode, 2 degree, 3 bits, 4 hash, 5 universe, 6 bulk, 7 initial size, 8 threads, 9 length of the
/// plan, 10 what happens to the initial handles, 11 whether callbacks of elements are switching points too,
/// 12 number of reads of a case that mostly reads, 13 whether only of present keys. ops: first the plan, then the operations (thread in word 3, bits 8..).
fn run<S: Sub<SE> + Send + Sync>(case: &Case, cx: &mut Cx, scheduled: bool) -> R {
    let conf = Conf::decode(case.c(2), case.c(3), case.c(4), case.c(5));
    let max_bulk = [3, 12, 60][case.c(6) as usize % 3];
    let threads = if case.c(8) < 8 { 2 + case.c(8) as usize % 3 } else { case.c(8).min(64) as usize };
    let ctr = Arc::new(Ctr::default());
    sched::set_ctr(&ctr);
    ctr.points.store(case.c(11) % 2 == 1, SeqCst);
    let split = (case.c(9) as usize).min(case.ops.len());
    let plan: Vec<(u32, u32)> = case.ops[..split].iter().map(|o| (o[0] % 64, o[1])).collect();
    let res: R;
    {
        let mut base = (S::empty(&conf), S::model(&conf));
        base.0.act_mut(&mut base.1, &Act::BulkAdd { n: case.c(7) % 400, start: case.c(10), tag: 1 }, &conf)?;
        // a few related versions
        let mut start = vec![base.clone()];
        let mut tag = 10;
        for j in 0..case.c(10) % 4 {
            let a = decode(S::KIND, &[j + case.c(10), case.c(10) / 4 + j, j, 5], &start[0].1, &conf, &mut tag, 8);
            let (mut s, mut m) = start[(case.c(10) as usize / 8) % start.len()].clone();
            s.act_mut(&mut m, &a, &conf)?;
            start.push((s, m));
        }
        let hammered = case.c(12) > 0;
        let keys: Vec<u32> = (0..1 + case.c(10) / 64 % 5).map(|j| mix(u64::from(case.c(10)) + u64::from(j)) as u32 % (conf.universe.min(base.1.len() as u32 * 2 + 2))).collect();
        let mut keys = keys;
        if case.c(13) == 1 {
            // only keys which are there
            if let M::Map(m) = &base.1 && !m.is_empty() {
                keys = m.keys().copied().take(16).collect();
            }
        }
        let keys = &keys[..];
        let mut bodies: Vec<Body> = vec![];
        for t in 0..threads {
            let ops: Vec<Op> = case.ops[split..].iter().filter(|o| (o[3] >> 8) as usize % threads == t).copied().collect();
            cx.log(|| format!("thread {t}: {} steps", ops.len()));
            let mine = start.clone();
            let ctr = ctr.clone();
            let (base, conf) = (&base, &conf);
            bodies.push(Box::new(move || {
                sched::set_ctr(&ctr);
                if hammered {
                    return hammer::<S>(&mine, conf, keys, u64::from(case.c(10)) << 8 | t as u64, case.c(12).min(1 << 20)).map_err(|e| format!("thread {t}: {e}"));
                }
                body::<S>(mine, base, ops, conf, t, max_bulk)
            }));
        }
        drop(start);
        let out: Vec<Result<R, String>>;
        if scheduled {
            let (o, switches) = sched::run(&plan, 1 << 20, bodies);
            out = o;
            if switches as usize >= threads + 3 {
                cx.nontrivial = true;
            }
            cx.checks += switches;
        } else {
            let gate = Arc::new(Barrier::new(threads));
            out = std::thread::scope(|sc| {
                let hs: Vec<_> = bodies
                    .into_iter()
                    .enumerate()
                    .map(|(t, b)| {
                        let gate = gate.clone();
                        sc.spawn(move || {
                            if case.c(11) % 2 == 1 {
                                sched::jitter(u64::from(case.c(10)) * 8 + t as u64 + 1);
                            }
                            gate.wait();
                            let r = guarded(b);
                            sched::jitter(0);
                            rv::alloc::flush();
                            r
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
            });
            cx.nontrivial = hammered || case.ops.len() - split >= 6;
        }
        res = out.into_iter().try_for_each(|r| r.and_then(|r| r));
        if res.is_ok() {
            base.0.verify(&base.1, &conf, true).map_err(|e| format!("afterwards, the version all threads could read: {e}"))?;
        }
    }
    ensure!(ctr.bad.load(SeqCst) == 0, "{}: an element was used or dropped after it had been dropped", S::NAME);
    res.map_err(|e| format!("{}: {e}", S::NAME))?;
    let left = ctr.live.load(SeqCst);
    ensure!(left == 0, "{}: {left} elements too many were made or too few dropped", S::NAME);
    cx.label(S::NAME);
    cx.label(if scheduled { "generated schedule" } else { "free-running threads" });
    Ok(())
}

impl Check for C {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "A case is a structure (8), a configuration, two to four (some free-running cases: up to 40) threads which start with clones of related versions and a shared reference, an operation sequence for each, and a schedule. Under the instrumented pointer kind threads run one at a time and switch before reference-count operations (in half of the cases also in element comparison, hashing, clone and drop) as the schedule says; other cases run freely over ArcTK and ArcK, some of them with thousands of single reads of a few related versions. Each thread compares its handles with its own sequential models; at the end no element is left over or was dropped twice. Non-trivial: at least three switches besides starting the threads (free-running: at least 6 operations)."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["threads interact only through the shared-pointer kind (rpds has no other synchronisation or unsafe code)", "the scheduled runs are sequentially consistent"]
    }
    fn budget(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 60_000,
            Tier::Thorough => 3_000_000,
        }
    }
    fn generate(&self, r: &mut Rng, i: u64, _: Tier) -> Case {
        let mode = if i % 5 == 4 { r.range(1, 2) } else { 0 };
        let plan = if mode == 0 { r.range(4, 60) } else { 0 };
        let small = r.chance(1, 2);
        let cfg = vec![
            (i / 5 % 8) as u32, mode, r.below(6), r.below(12), r.u32() & 0xFFFF, r.below(8), r.weighted(&[6, 3, 1]),
            if small { r.below(8) } else { r.skewed(200) }, r.weighted(&[5, 3, 1]), plan, r.u32(), r.below(2), 0,
        ];
        let mut cfg = cfg;
        if i % 40 == 4 {
            // many reads
            cfg[0] = (i / 40 % 8) as u32;
            cfg[8] = r.range(0, 2);
            cfg[10] |= 1;
            cfg[12] = 3000;
            if i % 80 == 4 {
                // by many threads, half of the time at the end of the longest paths
                cfg[0] = (i / 80 % 8) as u32;
                cfg[8] = r.range(12, 40);
                if r.chance(1, 2) {
                    cfg[2] = 1;
                    cfg[4] = 4 + rv::elem::HMODES * r.below(100);
                    cfg[7] = r.range(4, 30);
                    cfg.push(1);
                }
            }
            return Case { cfg, ops: vec![] };
        }
        let mut ops = vec![];
        let far = if r.chance(1, 2) { 4 } else { 60 };
        for _ in 0..plan {
            ops.push([r.skewed(far), r.u32(), 0, 0]);
        }
        let w = [r.range(1, 8), r.range(1, 8), r.range(0, 5), r.range(0, 5), r.below(3), r.below(3), 0, r.below(2)];
        for _ in 0..r.range(4, 40) {
            ops.push([r.weighted(&w), r.u32(), r.u32(), r.u32()]);
        }
        Case { cfg, ops }
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        match c.c(1) % 3 {
            0 => with_sub!(c.c(0), SE, SchedK, S => run::<S>(c, cx, true)),
            1 => with_sub!(c.c(0), SE, ArcTK, S => run::<S>(c, cx, false)),
            _ => with_sub!(c.c(0), SE, ArcK, S => run::<S>(c, cx, false)),
        }
    }
}
