//! The global allocator: it counts what a thread asks for, and in guarded runs (environment variable RV_GUARD) it
//! fills freed memory, keeps it back for a while, and ends the process when memory is freed twice or written after it
//! was freed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU8, Ordering::Relaxed};

#[derive(Clone, Copy, Default, Debug)]
pub struct Use {
    pub cur: i64,
    pub peak: i64,
    pub max_request: u64,
    pub calls: u64,
}

thread_local! {
    static U: Cell<Use> = const { Cell::new(Use { cur: 0, peak: 0, max_request: 0, calls: 0 }) };
}

/// Starts a measurement on this thread.
pub fn start() {
    U.with(|u| u.set(Use::default()));
}
pub fn usage() -> Use {
    U.with(Cell::get)
}

fn add(n: i64, request: bool) {
    let _ = U.try_with(|u| {
        let mut x = u.get();
        x.cur += n;
        x.peak = x.peak.max(x.cur);
        if request {
            x.max_request = x.max_request.max(n.max(0) as u64);
            x.calls += 1;
        }
        u.set(x);
    });
}


static MODE: AtomicU8 = AtomicU8::new(0);

/// Whether this is a guarded run.
#[inline]
pub fn guarded() -> bool {
    match MODE.load(Relaxed) {
        0 => {
            let on = unsafe { !libc::getenv(c"RV_GUARD".as_ptr()).is_null() };
            MODE.store(if on { 2 } else { 1 }, Relaxed);
            on
        }
        m => m == 2,
    }
}

fn die(what: &str) -> ! {
    unsafe {
        let m = b"memory misuse: ";
        libc::write(2, m.as_ptr().cast(), m.len());
        libc::write(2, what.as_ptr().cast(), what.len());
        libc::write(2, b"\n".as_ptr().cast(), 1);
        libc::abort()
    }
}

const LIVE: u64 = 0x11FE_11FE_A110_CA7E;
const FREED: u64 = 0xDEAD_F2EE_DEAD_F2EE;
const FILL: u8 = 0xDD;
const KEPT: usize = 512;
const MAX_KEPT: usize = 4096;

struct Quarantine {
    blocks: [Cell<(usize, usize, usize)>; KEPT], // address, offset of the user part, size
    at: Cell<usize>,
}
thread_local! {
    static Q: Quarantine = const { Quarantine { blocks: [const { Cell::new((0, 0, 0)) }; KEPT], at: Cell::new(0) } };
}

fn off(l: &Layout) -> usize {
    l.align().max(16)
}

unsafe fn release(b: (usize, usize, usize)) {
    if b.0 == 0 {
        return;
    }
    unsafe {
        let s = std::slice::from_raw_parts((b.0 + b.1) as *const u8, b.2);
        if s.iter().any(|x| *x != FILL) {
            die("memory was written after it had been freed");
        }
        System.dealloc(b.0 as *mut u8, Layout::from_size_align_unchecked(b.1 + b.2, b.1));
    }
}

/// Checks and gives back the memory that this thread has freed.
pub fn flush() {
    if guarded() {
        let _ = Q.try_with(|q| q.blocks.iter().for_each(|b| unsafe { release(b.replace((0, 0, 0))) }));
    }
}

unsafe fn g_alloc(l: Layout, zero: bool) -> *mut u8 {
    let o = off(&l);
    unsafe {
        let Ok(x) = Layout::from_size_align(l.size() + o, o) else { return std::ptr::null_mut() };
        let p = if zero { System.alloc_zeroed(x) } else { System.alloc(x) };
        if p.is_null() {
            return p;
        }
        let u = p.add(o);
        u.sub(8).cast::<u64>().write(LIVE ^ u as u64);
        u
    }
}

unsafe fn g_dealloc(u: *mut u8, l: Layout) {
    let o = off(&l);
    unsafe {
        let tag = u.sub(8).cast::<u64>();
        let t = tag.read() ^ u as u64;
        if t == FREED {
            die("memory was freed twice");
        }
        if t != LIVE {
            die("memory was freed that had not been allocated");
        }
        tag.write(FREED ^ u as u64);
        let p = u.sub(o);
        if l.size() > MAX_KEPT {
            return System.dealloc(p, Layout::from_size_align_unchecked(l.size() + o, o));
        }
        u.write_bytes(FILL, l.size());
        let old = Q.try_with(|q| {
            let i = q.at.get();
            q.at.set((i + 1) % KEPT);
            q.blocks[i].replace((p as usize, o, l.size()))
        });
        match old {
            Ok(b) => release(b),
            Err(_) => System.dealloc(p, Layout::from_size_align_unchecked(l.size() + o, o)),
        }
    }
}

pub struct Counting;

#[global_allocator]
static A: Counting = Counting;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64, true);
        unsafe { if guarded() { g_alloc(l, false) } else { System.alloc(l) } }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64, true);
        unsafe { if guarded() { g_alloc(l, true) } else { System.alloc_zeroed(l) } }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64), false);
        unsafe { if guarded() { g_dealloc(p, l) } else { System.dealloc(p, l) } }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64, true);
        unsafe {
            if !guarded() {
                return System.realloc(p, l, n);
            }
            let q = g_alloc(Layout::from_size_align_unchecked(n, l.align()), false);
            if !q.is_null() {
                q.copy_from_nonoverlapping(p, l.size().min(n));
                g_dealloc(p, l);
            }
            q
        }
    }
}
