//! The property engine: deterministic generation from a seed, parallel execution in a worker process that may die
//! (stack overflow, abort, runaway memory), confirmation of such deaths in isolation, minimisation, replay files,
//! evidence.
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub type Op = [u32; 4];
pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

/// A generated case: a configuration header and a sequence of fixed-width operation records.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Case {
    pub cfg: Vec<u32>,
    pub ops: Vec<Op>,
}

impl Case {
    pub fn c(&self, i: usize) -> u32 {
        self.cfg.get(i).copied().unwrap_or(0)
    }
    pub fn to_json(&self) -> Value {
        json!({"cfg": self.cfg, "ops": self.ops})
    }
    pub fn from_json(v: &Value) -> Option<Case> {
        let w = |x: &Value| x.as_u64().map(|x| x as u32);
        let cfg = v.get("cfg")?.as_array()?.iter().map(w).collect::<Option<Vec<_>>>()?;
        let mut ops = vec![];
        for o in v.get("ops")?.as_array()? {
            let o = o.as_array()?.iter().map(w).collect::<Option<Vec<_>>>()?;
            ops.push([o[0], o[1], o[2], o[3]]);
        }
        Some(Case { cfg, ops })
    }
    fn key(&self) -> u64 {
        let mut h = 0x9E37_79B9_7F4A_7C15u64;
        let mut f = |x: u32| {
            h = mix(h ^ u64::from(x)).wrapping_add(0x1234_5678_9ABC_DEF1);
        };
        self.cfg.iter().for_each(|&x| f(x));
        f(0xFFFF_FFFF);
        self.ops.iter().flatten().for_each(|&x| f(x));
        h
    }
}

pub fn mix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    pub fn u32(&mut self) -> u32 {
        (self.next() >> 32) as u32
    }
    pub fn below(&mut self, n: u32) -> u32 {
        if n == 0 { 0 } else { ((u64::from(self.u32()) * u64::from(n)) >> 32) as u32 }
    }
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den) < num
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u32) as usize]
    }
    /// Index chosen with the given weights.
    pub fn weighted(&mut self, ws: &[u32]) -> u32 {
        let mut x = self.below(ws.iter().sum());
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i as u32;
            }
            x -= w;
        }
        0
    }
    /// A size that is usually small and sometimes as large as `max`.
    pub fn skewed(&mut self, max: u32) -> u32 {
        let bits = 32 - max.leading_zeros();
        let b = self.range(0, bits);
        let m = if b >= 32 { u32::MAX } else { (1u32 << b) - 1 };
        (self.u32() & m).min(max)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one execution of a case reports besides its verdict.
#[derive(Default)]
pub struct Cx {
    pub nontrivial: bool,
    pub labels: BTreeMap<&'static str, u64>,
    pub trace: Option<Vec<String>>,
    /// Property-specific measure of oracle comparisons made.
    pub checks: u64,
}

impl Cx {
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            if t.len() < 400 {
                let mut s = f();
                if s.len() > 300 {
                    let mut n = 300;
                    while !s.is_char_boundary(n) {
                        n -= 1;
                    }
                    s.truncate(n);
                    s.push('…');
                }
                t.push(s);
            }
        }
    }
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_default() += 1;
    }
}

pub trait Check: Sync {
    fn id(&self) -> &'static str;
    /// How cases are made and what makes one non-trivial.
    fn rule(&self) -> &'static str;
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
    fn level(&self) -> &'static str {
        "exploration"
    }
    /// Number of cases per tier.
    fn budget(&self, tier: Tier) -> u64;
    /// Threads used by a worker (1 for checks which are themselves multi-threaded).
    fn parallel(&self) -> usize {
        std::thread::available_parallelism().map_or(4, |n| n.get()).min(16)
    }
    /// Whether the memory is guarded (see `alloc`).
    fn guard(&self) -> bool {
        true
    }
    fn generate(&self, rng: &mut Rng, index: u64, tier: Tier) -> Case;
    fn run(&self, case: &Case, cx: &mut Cx) -> R;
    /// Decode arbitrary fuzzer bytes into a case (coverage-guided mode).
    fn from_bytes(&self, data: &[u8]) -> Case {
        let word = |c: &[u8]| {
            let mut b = [0u8; 4];
            b[..c.len()].copy_from_slice(c);
            u32::from_le_bytes(b)
        };
        let ncfg = 12usize;
        let cfg = data.iter().take(ncfg * 2).collect::<Vec<_>>().chunks(2).map(|c| word(&[*c[0], c.get(1).map_or(0, |x| **x)])).collect();
        let rest = data.get(ncfg * 2..).unwrap_or(&[]);
        let ops = rest.chunks(6).take(400).map(|c| {
            let g = |i: usize| u32::from(c.get(i).copied().unwrap_or(0));
            [g(0), g(1) | g(2) << 8, g(3) | g(4) << 8, g(5)]
        }).collect();
        Case { cfg, ops }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
static QUIET: AtomicU64 = AtomicU64::new(0);

/// No messages about panics.
pub fn quiet() {
    QUIET.store(1, Ordering::Relaxed);
}

pub fn install_hook() {
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<payload>".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some(format!("panic: {msg} (at {loc})")));
        if QUIET.load(Ordering::Relaxed) == 0 {
            prev(info);
        }
    }));
}

pub fn take_panic() -> String {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
}

/// Runs `f`, turning a panic into an error describing it.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| take_panic())
}

pub fn exec(check: &dyn Check, case: &Case, trace: bool) -> (R, Cx) {
    crate::elem::reset();
    crate::ptrs::reset();
    let mut cx = Cx { trace: trace.then(Vec::new), ..Cx::default() };
    let r = match catch_unwind(AssertUnwindSafe(|| check.run(case, &mut cx))) {
        Ok(r) => r,
        Err(_) => Err(take_panic()),
    };
    crate::alloc::flush();
    (r, cx)
}

fn case_rng(seed: u64, id: &str, i: u64) -> Rng {
    let mut h = mix(seed ^ 0xABCD_EF01);
    for b in id.bytes() {
        h = mix(h ^ u64::from(b));
    }
    Rng(mix(h ^ i.wrapping_mul(0x2545_F491_4F6C_DD1D)))
}

fn gen_case(check: &dyn Check, seed: u64, i: u64, tier: Tier) -> Case {
    if let Some(c) = corpus(check.id()).get(i as usize) {
        return c.clone();
    }
    check.generate(&mut case_rng(seed, check.id(), i), i, tier)
}

/// Committed regression cases (minimal reproductions of defects found and seeded), run before generated ones. (A
/// process runs one check only.)
fn corpus(id: &str) -> &'static [Case] {
    use std::sync::OnceLock;
    static C: OnceLock<Vec<Case>> = OnceLock::new();
    C.get_or_init(|| {
        let mut out = vec![];
        if std::env::var_os("RV_NO_CORPUS").is_some() {
            return out;
        }
        let dir = verif_dir().join("corpus").join(id);
        let mut names: Vec<_> = std::fs::read_dir(dir).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
        names.sort();
        for n in names {
            if let Ok(s) = std::fs::read_to_string(&n) {
                if let Ok(v) = serde_json::from_str::<Value>(&s) {
                    if let Some(c) = Case::from_json(v.get("case").unwrap_or(&v)) {
                        out.push(c);
                    }
                }
            }
        }
        out
    })
}

fn verif_dir() -> PathBuf {
    std::env::var_os("RV_HOME").map_or_else(|| PathBuf::from("."), PathBuf::from)
}

#[derive(Default)]
struct Stats {
    evals: u64,
    nontrivial: u64,
    checks: u64,
    keys: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    sample_idx: Vec<u64>,
}

/// Minimises `case` for which `fails` holds.
fn shrink(case: &Case, mut fails: impl FnMut(&Case) -> bool, max_tries: usize, max_time: Duration) -> Case {
    let start = Instant::now();
    let mut best = case.clone();
    let mut tries = 0usize; // (once exhausted, no attempt succeeds and the loop ends)
    let mut attempt = |best: &mut Case, c: Case| -> bool {
        if c == *best || tries >= max_tries || start.elapsed() > max_time {
            return false;
        }
        tries += 1;
        if fails(&c) {
            *best = c;
            true
        } else {
            false
        }
    };
    loop {
        let before = best.clone();
        // remove chunks of operations
        let mut chunk = best.ops.len().div_ceil(2).max(1);
        loop {
            let mut i = 0;
            while i < best.ops.len() {
                let mut c = best.clone();
                let e = (i + chunk).min(c.ops.len());
                c.ops.drain(i..e);
                if !attempt(&mut best, c) {
                    i += chunk;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk = chunk.div_ceil(2);
        }
        // shrink words
        let words = best.cfg.len() + best.ops.len() * 4;
        for w in 0..words {
            let get = |c: &Case| if w < c.cfg.len() { c.cfg[w] } else { c.ops[(w - c.cfg.len()) / 4][(w - c.cfg.len()) % 4] };
            if w >= best.cfg.len() + best.ops.len() * 4 {
                break;
            }
            let v = get(&best);
            if v == 0 {
                continue;
            }
            let mut cands = vec![0, 1, 2, v % 100, v % 256, v & 0xFFFF, v / 2, v - v / 4, v - 1];
            cands.retain(|x| *x < v);
            cands.dedup();
            for x in cands {
                let mut c = best.clone();
                let n = c.cfg.len();
                if w < n {
                    c.cfg[w] = x;
                } else {
                    c.ops[(w - n) / 4][(w - n) % 4] = x;
                }
                if attempt(&mut best, c) {
                    break;
                }
            }
        }
        if best == before || start.elapsed() > max_time {
            return best;
        }
    }
}

const MAXT: usize = 64;

/// Worker process: runs cases `0..budget`, writes its result file.
fn worker(check: &'static dyn Check, tier: Tier, seed: u64, out: &Path, budget: u64, skip: &[u64], deadline: Duration) -> i32 {
    QUIET.store(1, Ordering::Relaxed);
    let slots = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(out.with_extension("slots")).unwrap();
    slots.write_all_at(&vec![0xFFu8; MAXT * 16], 0).unwrap();
    let next = AtomicU64::new(0);
    let min_fail = AtomicU64::new(u64::MAX);
    let fails: Mutex<BTreeMap<u64, String>> = Mutex::new(BTreeMap::new());
    let total: Mutex<Stats> = Mutex::new(Stats::default());
    let t0 = Instant::now();
    let nthreads = check.parallel().clamp(1, MAXT);
    std::thread::scope(|s| {
        for t in 0..nthreads {
            let (slots, next, min_fail, fails, total) = (&slots, &next, &min_fail, &fails, &total);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    let mut st = Stats::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= budget || i > min_fail.load(Ordering::Relaxed) || t0.elapsed() > deadline {
                            break;
                        }
                        if skip.contains(&i) {
                            continue;
                        }
                        let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64;
                        let mut b = [0u8; 16];
                        b[..8].copy_from_slice(&i.to_le_bytes());
                        b[8..].copy_from_slice(&now.to_le_bytes());
                        slots.write_all_at(&b, (t * 16) as u64).unwrap();
                        let case = gen_case(check, seed, i, tier);
                        let (r, cx) = exec(check, &case, false);
                        st.evals += 1;
                        st.checks += cx.checks;
                        for (l, n) in cx.labels {
                            *st.labels.entry(l.to_string()).or_default() += n;
                        }
                        if cx.nontrivial {
                            st.nontrivial += 1;
                            st.keys.insert(case.key());
                            if st.sample_idx.len() < 2 {
                                st.sample_idx.push(i);
                            }
                        }
                        if let Err(e) = r {
                            fails.lock().unwrap().insert(i, e);
                            min_fail.fetch_min(i, Ordering::Relaxed);
                        }
                    }
                    slots.write_all_at(&[0xFFu8; 16], (t * 16) as u64).unwrap();
                    let mut g = total.lock().unwrap();
                    g.evals += st.evals;
                    g.nontrivial += st.nontrivial;
                    g.checks += st.checks;
                    g.keys.extend(st.keys);
                    g.sample_idx.extend(st.sample_idx);
                    for (l, n) in st.labels {
                        *g.labels.entry(l).or_default() += n;
                    }
                })
                .unwrap();
        }
    });
    let mut st = total.into_inner().unwrap();
    st.sample_idx.sort_unstable();
    st.sample_idx.truncate(3);
    let fails = fails.into_inner().unwrap();
    let first = fails.iter().next().map(|(i, e)| (*i, e.clone()));
    let mut res = json!({
        "evals": st.evals, "nontrivial": st.nontrivial, "distinct": st.keys.len(), "checks": st.checks, "labels": st.labels,
        "sample_idx": st.sample_idx, "samples": [], "deadline_hit": t0.elapsed() > deadline,
    });
    let save = |res: &Value| {
        std::fs::write(out, serde_json::to_string(res).unwrap()).unwrap();
    };
    if let Some((i, msg)) = first {
        let case = gen_case(check, seed, i, tier);
        res["failure"] = json!({"index": i, "message": msg, "case": case.to_json(), "minimised": false});
        save(&res);
        // Minimise; the failing run is repeated so that an unrepeatable failure is told apart.
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&i.to_le_bytes());
        b[8..].copy_from_slice(&(u64::MAX / 2).to_le_bytes());
        slots.write_all_at(&b, 0).unwrap();
        let small = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, || {
                    if exec(check, &case, false).0.is_ok() {
                        return None;
                    }
                    Some(shrink(&case, |c| exec(check, c, false).0.is_err(), 6000, Duration::from_secs(20)))
                })
                .unwrap()
                .join()
                .unwrap()
        });
        match small {
            None => res["failure"]["repeatable"] = json!(false),
            Some(small) => {
                let (r, cx) = exec(check, &small, true);
                res["failure"] = json!({"index": i, "message": r.err().unwrap_or(msg), "case": small.to_json(),
                    "original_case": case.to_json(), "minimised": true, "repeatable": true, "trace": cx.trace});
            }
        }
    } else {
        let mut samples = vec![];
        for i in &st.sample_idx {
            let case = gen_case(check, seed, *i, tier);
            let (_, cx) = exec(check, &case, true);
            let mut tr = cx.trace.unwrap_or_default();
            let n = tr.len();
            if n > 24 {
                tr.truncate(24);
                tr.push(format!("… ({n} lines)"));
            }
            samples.push(json!({"index": i, "cfg": case.cfg, "ops": case.ops.len(), "trace": tr}));
        }
        res["samples"] = json!(samples);
    }
    slots.write_all_at(&vec![0xFFu8; 16], 0).unwrap();
    res["done"] = json!(true);
    save(&res);
    0
}

/// Runs one case alone (child process); exit code 0 ok, 3 violation (message on stdout).
fn single(check: &'static dyn Check, file: &Path, trace: bool) -> i32 {
    QUIET.store(1, Ordering::Relaxed);
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let case = Case::from_json(v.get("case").unwrap_or(&v)).expect("bad case file");
    let (r, cx) = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
        let (r, cx) = exec(check, &case, trace);
        (r, cx.trace)
    }).unwrap().join().unwrap();
    if let Some(t) = cx {
        for l in t {
            println!("  {l}");
        }
    }
    match r {
        Ok(()) => 0,
        Err(e) => {
            println!("FAIL {e}");
            3
        }
    }
}

enum Outcome {
    Pass,
    Fail(String),
    Crash(String),
}

fn limit(cpu: u64, mem_gb: u64) {
    unsafe {
        let l = libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 5 };
        libc::setrlimit(libc::RLIMIT_CPU, &l);
        let l = libc::rlimit { rlim_cur: mem_gb << 30, rlim_max: mem_gb << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &l);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

fn set_guard(c: &mut Command, check: &dyn Check) {
    c.env_remove("RV_GUARD");
    if check.guard() {
        c.env("RV_GUARD", "1");
    }
}

fn run_single(check: &dyn Check, case: &Case, tmp: &Path, cpu: u64) -> Outcome {
    let f = tmp.join("single.json");
    std::fs::write(&f, case.to_json().to_string()).unwrap();
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("single").arg(check.id()).arg(&f).stdout(Stdio::piped()).stderr(Stdio::piped());
    set_guard(&mut c, check);
    unsafe {
        c.pre_exec(move || {
            limit(cpu, 8);
            Ok(())
        });
    }
    let o = c.output().unwrap();
    let so = String::from_utf8_lossy(&o.stdout);
    let se = String::from_utf8_lossy(&o.stderr);
    match o.status.code() {
        Some(0) => Outcome::Pass,
        Some(3) => Outcome::Fail(so.lines().find_map(|l| l.strip_prefix("FAIL ")).unwrap_or("").to_string()),
        _ => {
            let sig = o.status.signal();
            let what = match sig {
                Some(libc::SIGXCPU) | Some(libc::SIGKILL) => format!("did not terminate within {cpu} s of processor time"),
                _ => format!("process died ({:?}): {}", o.status, se.lines().filter(|l| !l.trim().is_empty()).take(3).collect::<Vec<_>>().join(" | ")),
            };
            Outcome::Crash(what)
        }
    }
}

struct Found {
    case: Case,
    message: String,
    trace: Value,
    original: Option<Value>,
    index: Option<u64>,
}

fn write_replay(check: &dyn Check, f: &Found, seed: u64, tier: Tier) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{:016x}.json", check.id(), f.case.key()));
    let v = json!({"property": check.id(), "message": f.message, "case": f.case.to_json(), "trace": f.trace,
        "original_case": f.original, "index": f.index, "seed": seed, "tier": format!("{tier:?}").to_lowercase(),
        "how_to_replay": format!("bash check.sh {} replay {}", check.id(), p.display())});
    std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    p
}

fn main_check(check: &'static dyn Check, tier: Tier, seed: u64) -> i32 {
    let t0 = Instant::now();
    let tmp = std::env::temp_dir().join(format!("rv-{}-{}", check.id(), std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let r = main_check_in(check, tier, seed, &tmp, t0);
    let _ = std::fs::remove_dir_all(&tmp);
    r
}

fn main_check_in(check: &'static dyn Check, tier: Tier, seed: u64, tmp: &Path, t0: Instant) -> i32 {
    let budget = std::env::var("RV_CASES").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| check.budget(tier));
    let deadline: u64 = match tier {
        Tier::Quick => 240,
        Tier::Thorough => 3600,
    };
    let out = tmp.join("out.json");
    let mut attempt = 0;
    let mut found: Option<Found> = None;
    let res: Value = loop {
        attempt += 1;
        let _ = std::fs::remove_file(&out);
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.arg("worker").arg(check.id()).arg(&out).env("RV_BUDGET", budget.to_string()).env("RV_DEADLINE", deadline.to_string());
        c.env("VERIF_SEED", seed.to_string()).env("VERIF_TIER", if tier == Tier::Quick { "quick" } else { "thorough" });
        set_guard(&mut c, check);
        let errf = std::fs::File::create(tmp.join("stderr")).unwrap();
        c.stdout(Stdio::null()).stderr(errf);
        unsafe {
            c.pre_exec(|| {
                limit(200_000, 24);
                Ok(())
            });
        }
        let mut child = c.spawn().unwrap();
        let mut stuck: Option<u64> = None;
        let status = loop {
            if let Some(s) = child.try_wait().unwrap() {
                break s;
            }
            std::thread::sleep(Duration::from_millis(10));
            let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64;
            if let Ok(b) = std::fs::read(out.with_extension("slots")) {
                for s in b.chunks_exact(16) {
                    let i = u64::from_le_bytes(s[..8].try_into().unwrap());
                    let t = u64::from_le_bytes(s[8..].try_into().unwrap());
                    if i != u64::MAX && t != u64::MAX && now > t && now - t > 90_000 {
                        stuck = Some(i);
                    }
                }
            }
            if stuck.is_some() {
                let _ = child.kill();
            }
        };
        let read = || std::fs::read_to_string(&out).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok());
        if status.success() {
            if let Some(v) = read() {
                break v;
            }
        }
        // The worker died. Which cases were running?
        if let Some(v) = read() {
            if v.get("failure").is_some() {
                break v; // died while minimising
            }
        }
        let mut cands: Vec<u64> = std::fs::read(out.with_extension("slots"))
            .map(|b| b.chunks_exact(16).map(|s| u64::from_le_bytes(s[..8].try_into().unwrap())).filter(|i| *i != u64::MAX).collect())
            .unwrap_or_default();
        cands.sort_unstable();
        if let Some(s) = stuck {
            cands.retain(|i| *i == s);
        }
        for i in cands {
            let case = gen_case(check, seed, i, tier);
            match run_single(check, &case, tmp, 60) {
                Outcome::Pass => {}
                Outcome::Fail(message) => {
                    let small = shrink(&case, |c| matches!(run_single(check, c, tmp, 20), Outcome::Fail(_)), 300, Duration::from_secs(40));
                    found = Some(Found { case: small, message, trace: Value::Null, original: Some(case.to_json()), index: Some(i) });
                    break;
                }
                Outcome::Crash(message) => {
                    let hang = message.contains("terminate");
                    let small = if hang { case.clone() } else {
                        shrink(&case, |c| matches!(run_single(check, c, tmp, 20), Outcome::Crash(_)), 300, Duration::from_secs(40))
                    };
                    found = Some(Found { case: small, message, trace: Value::Null, original: Some(case.to_json()), index: Some(i) });
                    break;
                }
            }
        }
        if found.is_some() {
            break json!({"evals": 0, "nontrivial": 0, "distinct": 0, "labels": {}, "samples": [], "crashed": true});
        }
        if attempt >= 2 {
            let e = std::fs::read_to_string(tmp.join("stderr")).unwrap_or_default();
            let what = format!("worker ended abnormally ({status:?}, stuck {stuck:?}) and no single case reproduces it");
            eprintln!("{}: {what}\n{}", check.id(), e.lines().take(20).collect::<Vec<_>>().join("\n"));
            if !matches!(status.signal(), Some(libc::SIGSEGV | libc::SIGABRT | libc::SIGBUS | libc::SIGILL)) {
                return 2;
            }
            // twice, so it is not an accident; the replay is the whole run
            found = Some(Found { case: Case::default(), message: what, trace: json!("run"), original: None, index: None });
            break json!({"evals": 0, "nontrivial": 0, "distinct": 0, "labels": {}, "samples": [], "crashed": true});
        }
    };
    if found.is_none() {
        if let Some(f) = res.get("failure") {
            let case = Case::from_json(&f["case"]).unwrap();
            found = Some(Found {
                case,
                message: f["message"].as_str().unwrap_or("").to_string(),
                trace: f.get("trace").cloned().unwrap_or(Value::Null),
                original: f.get("original_case").cloned(),
                index: f["index"].as_u64(),
            });
        }
    }
    let replay = found.as_ref().map(|f| write_replay(check, f, seed, tier));
    let tier_s = if tier == Tier::Quick { "quick" } else { "thorough" };
    let mut samples = res["samples"].clone();
    if let Some(f) = &found {
        samples = json!([{"violating_case": f.case.to_json(), "message": f.message, "trace": f.trace}]);
    }
    let ev = json!({
        "property": check.id(), "tier": tier_s, "seed": seed, "level": check.level(),
        "coverage": {
            "evaluations": res["evals"], "distinct_nontrivial": res["distinct"], "nontrivial": res["nontrivial"],
            "oracle_comparisons": res["checks"], "rule": check.rule(), "samples": samples, "classes": res["labels"],
            "planned_cases": budget, "stopped_by_deadline": res["deadline_hit"],
        },
        "assumptions": check.assumptions(), "wall_s": t0.elapsed().as_secs_f64(), "violations": i32::from(found.is_some()),
    });
    let evdir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(evdir.join(format!("{}.json", check.id())), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    match (found, replay) {
        (Some(f), Some(r)) => {
            println!("{}: {}", check.id(), f.message);
            if let Some(t) = f.trace.as_array() {
                for l in t.iter().take(40) {
                    println!("   {}", l.as_str().unwrap_or(""));
                }
            }
            println!("VIOLATION property={} replay={}", check.id(), r.display());
            1
        }
        _ => {
            println!(
                "{}: held on {} cases ({} distinct non-trivial), {:.1} s",
                check.id(), res["evals"], res["distinct"], t0.elapsed().as_secs_f64()
            );
            0
        }
    }
}

fn main_replay(check: &'static dyn Check, file: &Path) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    if v["trace"] == json!("run") {
        let tier = if v["tier"] == json!("thorough") { Tier::Thorough } else { Tier::Quick };
        return main_check(check, tier, v["seed"].as_u64().unwrap_or(1));
    }
    let case = Case::from_json(v.get("case").unwrap_or(&v)).expect("bad case file");
    let tmp = std::env::temp_dir().join(format!("rv-replay-{}", std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let o = run_single(check, &case, &tmp, 60);
    let st = Command::new(std::env::current_exe().unwrap()).arg("trace").arg(check.id()).arg(tmp.join("single.json")).stderr(Stdio::null()).status();
    drop(st);
    let _ = std::fs::remove_dir_all(&tmp);
    match o {
        Outcome::Pass => {
            println!("{}: replay passes", check.id());
            0
        }
        Outcome::Fail(m) | Outcome::Crash(m) => {
            println!("{}: {m}", check.id());
            println!("VIOLATION property={} replay={}", check.id(), file.display());
            1
        }
    }
}

/// Entry point of every property binary.
pub fn main(checks: &[&'static dyn Check]) -> ! {
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: check ID | replay ID FILE");
        std::process::exit(2)
    };
    if a.len() < 3 {
        usage();
    }
    let Some(check) = checks.iter().copied().find(|c| c.id() == a[2]) else { usage() };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let code = match a[1].as_str() {
        "check" => main_check(check, tier, seed),
        "replay" => main_replay(check, Path::new(&a[3])),
        "single" => single(check, Path::new(&a[3]), false),
        "trace" => single(check, Path::new(&a[3]), true),
        "worker" => {
            let env = |k: &str| std::env::var(k).unwrap().parse::<u64>().unwrap();
            worker(check, tier, seed, Path::new(&a[3]), env("RV_BUDGET"), &[], Duration::from_secs(env("RV_DEADLINE")))
        }
        _ => usage(),
    };
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}

/// One element to read and another one to change.
pub fn two<T>(v: &mut [T], from: usize, to: usize) -> (&T, &mut T) {
    assert_ne!(from, to);
    if from < to {
        let (a, b) = v.split_at_mut(to);
        (&a[from], &mut b[0])
    } else {
        let (a, b) = v.split_at_mut(from);
        (&b[0], &mut a[to])
    }
}
