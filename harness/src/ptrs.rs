//! An instrumented shared-pointer kind, plugged in through the public `P` parameter of the structures.
use archery::SharedPointerKind;
use std::cell::Cell;
use std::fmt;
use std::sync::atomic::{AtomicUsize, Ordering::*};

#[derive(Clone, Copy, Default, Debug, PartialEq, Eq)]
pub struct Counts {
    /// Pointers (nodes, elements) allocated.
    pub allocs: u64,
    /// Freed.
    pub frees: u64,
    /// Reference-count increments.
    pub clones: u64,
    /// Reference-count decrements.
    pub drops: u64,
    /// Dereferences.
    pub derefs: u64,
}

impl Counts {
    pub fn minus(&self, o: &Counts) -> Counts {
        Counts {
            allocs: self.allocs - o.allocs,
            frees: self.frees - o.frees,
            clones: self.clones - o.clones,
            drops: self.drops - o.drops,
            derefs: self.derefs - o.derefs,
        }
    }
    pub fn work(&self) -> u64 {
        self.allocs + self.frees + self.clones + self.drops + self.derefs
    }
}

thread_local! {
    static C: Cell<Counts> = const { Cell::new(Counts { allocs: 0, frees: 0, clones: 0, drops: 0, derefs: 0 }) };
}

pub fn reset() {
    C.with(|c| c.set(Counts::default()));
}
pub fn counts() -> Counts {
    C.with(Cell::get)
}
pub fn live() -> i64 {
    let c = counts();
    c.allocs as i64 - c.frees as i64
}

fn bump(f: impl FnOnce(&mut Counts)) {
    let _ = C.try_with(|c| {
        let mut x = c.get();
        f(&mut x);
        c.set(x);
    });
}

#[repr(C)]
struct Inner<T> {
    count: AtomicUsize,
    value: T,
}

/// Counting pointer kind (single-threaded).
pub struct CountK {
    p: *mut (),
}

impl fmt::Debug for CountK {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("CountK")
    }
}

impl CountK {
    unsafe fn inner<T>(&self) -> *mut Inner<T> {
        self.p.cast::<Inner<T>>()
    }
}

unsafe impl SharedPointerKind for CountK {
    fn new<T>(v: T) -> CountK {
        crate::elem::burn();
        bump(|c| c.allocs += 1);
        CountK { p: Box::into_raw(Box::new(Inner { count: AtomicUsize::new(1), value: v })).cast() }
    }
    fn from_box<T>(v: Box<T>) -> CountK {
        CountK::new::<T>(*v)
    }
    unsafe fn as_ptr<T>(&self) -> *const T {
        unsafe { &raw const (*self.inner::<T>()).value }
    }
    unsafe fn deref<T>(&self) -> &T {
        crate::elem::burn();
        bump(|c| c.derefs += 1);
        unsafe { &(*self.inner::<T>()).value }
    }
    unsafe fn try_unwrap<T>(self) -> Result<T, CountK> {
        unsafe {
            if (*self.inner::<T>()).count.load(Relaxed) == 1 {
                bump(|c| {
                    c.frees += 1;
                    c.drops += 1;
                });
                let b: Box<Inner<T>> = Box::from_raw(self.inner::<T>());
                Ok(b.value)
            } else {
                Err(self)
            }
        }
    }
    unsafe fn get_mut<T>(&mut self) -> Option<&mut T> {
        unsafe {
            let i = self.inner::<T>();
            bump(|c| c.derefs += 1);
            if (*i).count.load(Relaxed) == 1 { Some(&mut (*i).value) } else { None }
        }
    }
    unsafe fn make_mut<T: Clone>(&mut self) -> &mut T {
        unsafe {
            crate::elem::burn();
            bump(|c| c.derefs += 1);
            let i = self.inner::<T>();
            if (*i).count.load(Relaxed) != 1 {
                let copy = CountK::new::<T>((*i).value.clone());
                let mut old = std::mem::replace(self, copy);
                SharedPointerKind::drop::<T>(&mut old);
            }
            &mut (*self.inner::<T>()).value
        }
    }
    unsafe fn strong_count<T>(&self) -> usize {
        unsafe { (*self.inner::<T>()).count.load(Relaxed) }
    }
    unsafe fn clone<T>(&self) -> CountK {
        crate::elem::burn();
        bump(|c| c.clones += 1);
        unsafe {
            (*self.inner::<T>()).count.fetch_add(1, Relaxed);
        }
        CountK { p: self.p }
    }
    unsafe fn drop<T>(&mut self) {
        bump(|c| c.drops += 1);
        unsafe {
            if (*self.inner::<T>()).count.fetch_sub(1, Relaxed) == 1 {
                bump(|c| c.frees += 1);
                std::mem::drop(Box::from_raw(self.inner::<T>()));
            }
        }
    }
}
