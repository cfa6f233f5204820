//! Generated schedules: threads which run one at a time and switch at reference-count operations, as a plan says; a
//! pointer kind whose every reference-count operation is such a point; elements which count themselves across threads.
use crate::elem::Elem;
use archery::SharedPointerKind;
use std::borrow::Borrow;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicUsize, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};

struct St {
    cur: usize,
    alive: Vec<bool>,
    left: Vec<u64>,
    plan: Vec<(u32, u32)>,
    pos: usize,
    switches: u64,
}

struct Sched {
    m: Mutex<St>,
    cv: Vec<Condvar>,
}

thread_local! {
    static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
    static LEFT: Cell<u64> = const { Cell::new(u64::MAX) };
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static JITTER: Cell<u64> = const { Cell::new(0) };
}

/// Makes this (freely running) thread give way now and then in element callbacks.
pub fn jitter(seed: u64) {
    JITTER.set(seed);
}

/// A point in a callback of an element.
#[inline]
fn elem_point(c: &Ctr) {
    if c.points.load(Relaxed) {
        point();
    }
    let _ = JITTER.try_with(|j| {
        let x = j.get();
        if x != 0 {
            let y = crate::engine::mix(x) | 1;
            j.set(y);
            if y >> 58 == 0 {
                std::thread::yield_now();
            } else if y >> 60 == 1 {
                (0..y >> 52 & 63).for_each(|_| std::hint::spin_loop());
            }
        }
    });
}

impl Sched {
    /// Moves on to the thread which the plan names next, and gives it its number of steps.
    fn advance(&self, s: &mut St) {
        let n = s.alive.iter().filter(|a| **a).count();
        if n == 0 {
            return;
        }
        let (steps, next) = match s.plan.get(s.pos) {
            Some(p) => (u64::from(p.0), p.1 as usize),
            None => (u64::MAX - 1, 0),
        };
        s.pos += 1;
        s.cur = s.alive.iter().enumerate().filter(|(_, a)| **a).nth(next % n).unwrap().0;
        let c = s.cur;
        s.left[c] = steps;
        s.switches += 1;
        self.cv[c].notify_one();
    }
    fn wait_turn(&self, me: usize) {
        let mut s = self.m.lock().unwrap();
        while s.cur != me {
            s = self.cv[me].wait(s).unwrap();
        }
        LEFT.set(s.left[me]);
    }
}

/// A point at which another thread may run.
#[inline]
pub fn point() {
    let active = ACTIVE.try_with(Cell::get).unwrap_or(false);
    if !active {
        return;
    }
    let l = LEFT.get();
    if l > 0 {
        LEFT.set(l - 1);
        return;
    }
    let (s, me) = ME.with(|m| m.borrow().clone()).unwrap();
    {
        let mut st = s.m.lock().unwrap();
        s.advance(&mut st);
    }
    s.wait_turn(me);
}

/// Runs the bodies as threads under the plan, a list of (steps, thread); after the plan each runs to its end. Returns
/// the results and the number of switches.
pub fn run<T: Send>(plan: &[(u32, u32)], stack: usize, bodies: Vec<Box<dyn FnOnce() -> T + Send + '_>>) -> (Vec<Result<T, String>>, u64) {
    let n = bodies.len();
    let s = Arc::new(Sched {
        m: Mutex::new(St { cur: usize::MAX, alive: vec![true; n], left: vec![0; n], plan: plan.to_vec(), pos: 0, switches: 0 }),
        cv: (0..n).map(|_| Condvar::new()).collect(),
    });
    let out: Vec<Result<T, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = bodies
            .into_iter()
            .enumerate()
            .map(|(i, b)| {
                let s = s.clone();
                std::thread::Builder::new()
                    .stack_size(stack)
                    .spawn_scoped(sc, move || {
                        ME.with(|m| *m.borrow_mut() = Some((s.clone(), i)));
                        s.wait_turn(i);
                        ACTIVE.set(true);
                        let r = crate::engine::guarded(b);
                        ACTIVE.set(false);
                        crate::alloc::flush();
                        let mut st = s.m.lock().unwrap();
                        st.alive[i] = false;
                        st.cur = usize::MAX;
                        s.advance(&mut st);
                        r
                    })
                    .unwrap()
            })
            .collect();
        {
            let mut st = s.m.lock().unwrap();
            s.advance(&mut st);
        }
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
    });
    let sw = s.m.lock().unwrap().switches;
    (out, sw)
}

#[repr(C)]
struct Inner<T> {
    count: AtomicUsize,
    value: T,
}

/// Thread-safe pointer kind with a scheduling point before every reference-count operation.
pub struct SchedK {
    p: *mut (),
}
unsafe impl Send for SchedK {}
unsafe impl Sync for SchedK {}

impl fmt::Debug for SchedK {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("SchedK")
    }
}

impl SchedK {
    unsafe fn inner<T>(&self) -> *mut Inner<T> {
        self.p.cast::<Inner<T>>()
    }
}

unsafe impl SharedPointerKind for SchedK {
    fn new<T>(v: T) -> SchedK {
        SchedK { p: Box::into_raw(Box::new(Inner { count: AtomicUsize::new(1), value: v })).cast() }
    }
    fn from_box<T>(v: Box<T>) -> SchedK {
        SchedK::new::<T>(*v)
    }
    unsafe fn as_ptr<T>(&self) -> *const T {
        unsafe { &raw const (*self.inner::<T>()).value }
    }
    unsafe fn deref<T>(&self) -> &T {
        unsafe { &(*self.inner::<T>()).value }
    }
    unsafe fn try_unwrap<T>(self) -> Result<T, SchedK> {
        point();
        unsafe {
            if (*self.inner::<T>()).count.load(SeqCst) == 1 {
                let b: Box<Inner<T>> = Box::from_raw(self.inner::<T>());
                Ok(b.value)
            } else {
                Err(self)
            }
        }
    }
    unsafe fn get_mut<T>(&mut self) -> Option<&mut T> {
        point();
        unsafe {
            let i = self.inner::<T>();
            if (*i).count.load(SeqCst) == 1 { Some(&mut (*i).value) } else { None }
        }
    }
    unsafe fn make_mut<T: Clone>(&mut self) -> &mut T {
        point();
        unsafe {
            let i = self.inner::<T>();
            if (*i).count.load(SeqCst) != 1 {
                let copy = SchedK::new::<T>((*i).value.clone());
                let mut old = std::mem::replace(self, copy);
                SharedPointerKind::drop::<T>(&mut old);
            }
            &mut (*self.inner::<T>()).value
        }
    }
    unsafe fn strong_count<T>(&self) -> usize {
        point();
        unsafe { (*self.inner::<T>()).count.load(SeqCst) }
    }
    unsafe fn clone<T>(&self) -> SchedK {
        point();
        unsafe {
            (*self.inner::<T>()).count.fetch_add(1, SeqCst);
        }
        SchedK { p: self.p }
    }
    unsafe fn drop<T>(&mut self) {
        point();
        unsafe {
            if (*self.inner::<T>()).count.fetch_sub(1, SeqCst) == 1 {
                std::mem::drop(Box::from_raw(self.inner::<T>()));
            }
        }
    }
}

/// Counters shared by the elements of a case.
#[derive(Default)]
pub struct Ctr {
    pub live: AtomicI64,
    pub bad: AtomicU32,
    /// Whether threads may also be switched in the callbacks of elements.
    pub points: AtomicBool,
}

thread_local! {
    static CTR: RefCell<Option<Arc<Ctr>>> = const { RefCell::new(None) };
}

/// Sets the counters of the elements made by this thread.
pub fn set_ctr(c: &Arc<Ctr>) {
    CTR.with(|x| *x.borrow_mut() = Some(c.clone()));
}

/// An element which may be shared between threads.
pub struct SE {
    id: u32,
    tag: u32,
    state: u32,
    ctr: Arc<Ctr>,
}
const ALIVE: u32 = 0x5AFE_1234;

impl SE {
    fn check(&self) {
        if self.state != ALIVE {
            self.ctr.bad.fetch_add(1, SeqCst);
        }
    }
}
impl Drop for SE {
    fn drop(&mut self) {
        elem_point(&self.ctr);
        self.check();
        self.state = 0;
        self.ctr.live.fetch_sub(1, SeqCst);
    }
}
impl Clone for SE {
    fn clone(&self) -> SE {
        elem_point(&self.ctr);
        self.check();
        self.ctr.live.fetch_add(1, SeqCst);
        SE { id: self.id, tag: self.tag, state: ALIVE, ctr: self.ctr.clone() }
    }
}
impl PartialEq for SE {
    fn eq(&self, o: &SE) -> bool {
        elem_point(&self.ctr);
        self.check();
        self.id == o.id
    }
}
impl Eq for SE {}
impl PartialOrd for SE {
    fn partial_cmp(&self, o: &SE) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for SE {
    fn cmp(&self, o: &SE) -> Ordering {
        elem_point(&self.ctr);
        self.check();
        self.id.cmp(&o.id)
    }
}
impl Hash for SE {
    fn hash<H: Hasher>(&self, h: &mut H) {
        elem_point(&self.ctr);
        self.id.hash(h);
    }
}
impl Borrow<u32> for SE {
    fn borrow(&self) -> &u32 {
        &self.id
    }
}
impl fmt::Debug for SE {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.id)
    }
}
impl fmt::Display for SE {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.id)
    }
}
impl Elem for SE {
    fn mk(id: u32, tag: u32) -> SE {
        let ctr = CTR.with(|x| x.borrow().clone()).expect("counters not set");
        ctr.live.fetch_add(1, SeqCst);
        SE { id, tag, state: ALIVE, ctr }
    }
    fn id(&self) -> u32 {
        self.check();
        self.id
    }
    fn tag(&self) -> u32 {
        self.tag
    }
    fn set(&mut self, id: u32, tag: u32) {
        self.id = id;
        self.tag = tag;
    }
}
