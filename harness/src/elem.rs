//! Instrumented element type and hash functions.
use crate::engine::mix;
use std::borrow::Borrow;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::BTreeSet;
use std::fmt;
use std::hash::{BuildHasher, Hash, Hasher};

/// Element types used for keys and values. Equality, order and hash depend on `id` only; `tag` tells apart equal
/// elements.
pub trait Elem: Clone + Ord + Hash + fmt::Debug + fmt::Display + Borrow<u32> + 'static {
    fn mk(id: u32, tag: u32) -> Self;
    fn id(&self) -> u32;
    fn tag(&self) -> u32;
    fn set(&mut self, id: u32, tag: u32);
}

pub const EQ: u32 = 1;
pub const CMP: u32 = 2;
pub const HASH: u32 = 4;
pub const CLONE: u32 = 8;
pub const ITER: u32 = 16;

pub struct Tls {
    fuel: Cell<u64>,
    pub eqs: Cell<u64>,
    pub cmps: Cell<u64>,
    pub hashes: Cell<u64>,
    pub clones: Cell<u64>,
    next_uid: Cell<u32>,
    live_n: Cell<i64>,
    live: RefCell<Vec<u8>>,
    track: Cell<bool>,
    double_drop: Cell<u32>,
    /// Fault injection: remaining callbacks of the kinds in the mask before the panic.
    fault_mask: Cell<u32>,
    fault_left: Cell<u64>,
    pub fault_seen: Cell<u64>,
    record: Cell<bool>,
    seen: RefCell<BTreeSet<(u32, u32)>>,
    clone_log: RefCell<Vec<(u32, u32)>>,
    hmode: Cell<(u32, u64)>,
}

thread_local! {
    static T: Tls = const { Tls {
        fuel: Cell::new(u64::MAX), eqs: Cell::new(0), cmps: Cell::new(0), hashes: Cell::new(0), clones: Cell::new(0),
        next_uid: Cell::new(1), live_n: Cell::new(0), live: RefCell::new(Vec::new()), track: Cell::new(false), double_drop: Cell::new(0),
        fault_mask: Cell::new(0), fault_left: Cell::new(0), fault_seen: Cell::new(0), record: Cell::new(false),
        seen: RefCell::new(BTreeSet::new()), clone_log: RefCell::new(Vec::new()), hmode: Cell::new((0, 0)),
    } };
}

pub const FUEL: u64 = 100_000_000;

/// Resets everything before a case.
pub fn reset() {
    T.with(|t| {
        t.fuel.set(FUEL);
        t.eqs.set(0);
        t.cmps.set(0);
        t.hashes.set(0);
        t.clones.set(0);
        t.next_uid.set(1);
        t.live_n.set(0);
        t.live.borrow_mut().clear();
        t.track.set(false);
        t.double_drop.set(0);
        t.fault_mask.set(0);
        t.record.set(false);
        t.seen.borrow_mut().clear();
        t.clone_log.borrow_mut().clear();
        t.hmode.set((0, 0));
    });
}

pub fn set_fuel(n: u64) {
    T.with(|t| t.fuel.set(n));
}

pub fn burn() {
    let out = T.try_with(|t| {
        let f = t.fuel.get();
        t.fuel.set(f.wrapping_sub(1));
        f == 0
    });
    if out == Ok(true) {
        panic!("work limit of the case exceeded: an operation does not terminate");
    }
}

/// Turns on element tracking (live set, double drops) until the end of the case.
pub fn track() {
    T.with(|t| t.track.set(true));
}
pub fn live_count() -> i64 {
    T.with(|t| t.live_n.get())
}
pub fn double_drops() -> u32 {
    T.with(|t| t.double_drop.get())
}
/// Uids of the live tracked elements.
pub fn live_uids() -> Vec<u32> {
    T.with(|t| t.live.borrow().iter().enumerate().filter(|(_, l)| **l == 1).map(|(i, _)| i as u32).collect())
}
pub fn clones() -> u64 {
    T.with(|t| t.clones.get())
}
pub fn cmps() -> u64 {
    T.with(|t| t.cmps.get())
}
pub fn eqs() -> u64 {
    T.with(|t| t.eqs.get())
}
pub fn take_clone_log() -> Vec<(u32, u32)> {
    T.with(|t| std::mem::take(&mut *t.clone_log.borrow_mut()))
}
pub fn arm(mask: u32, k: u64) {
    T.with(|t| {
        t.fault_mask.set(mask);
        t.fault_left.set(k);
        t.fault_seen.set(0);
    });
}
pub fn disarm() -> u64 {
    T.with(|t| {
        t.fault_mask.set(0);
        t.fault_seen.get()
    })
}
/// Starts recording which pairs of elements are compared.
pub fn record(on: bool) {
    T.with(|t| {
        t.record.set(on);
        t.seen.borrow_mut().clear();
    });
}
pub fn recorded() -> BTreeSet<(u32, u32)> {
    T.with(|t| t.seen.borrow().clone())
}
fn note(a: u32, b: u32) {
    let _ = T.try_with(|t| {
        if t.record.get() {
            t.seen.borrow_mut().insert((a, b));
        }
    });
}
pub fn tick(kind: u32) {
    let hit = T.try_with(|t| {
        match kind {
            EQ => t.eqs.set(t.eqs.get() + 1),
            CMP => t.cmps.set(t.cmps.get() + 1),
            HASH => t.hashes.set(t.hashes.get() + 1),
            CLONE => t.clones.set(t.clones.get() + 1),
            _ => (),
        }
        if t.fault_mask.get() & kind != 0 {
            t.fault_seen.set(t.fault_seen.get() + 1);
            let l = t.fault_left.get();
            t.fault_left.set(l.wrapping_sub(1));
            if l == 0 {
                t.fault_mask.set(0);
                return true;
            }
        }
        false
    });
    if hit == Ok(true) {
        panic!("injected fault");
    }
    burn();
}

/// The standard element.
pub struct E {
    pub id: u32,
    pub tag: u32,
    uid: u32,
}

impl E {
    pub fn uid(&self) -> u32 {
        self.uid
    }
    fn new(id: u32, tag: u32) -> E {
        let uid = T.with(|t| {
            if !t.track.get() {
                return 0;
            }
            let u = t.next_uid.get();
            t.next_uid.set(u + 1);
            t.live_n.set(t.live_n.get() + 1);
            let mut l = t.live.borrow_mut();
            if l.len() <= u as usize {
                l.resize(u as usize + 1, 0);
            }
            l[u as usize] = 1;
            u
        });
        E { id, tag, uid }
    }
}

impl Drop for E {
    #[inline]
    fn drop(&mut self) {
        if self.uid != 0 {
            let _ = T.try_with(|t| {
                t.live_n.set(t.live_n.get() - 1);
                if let Ok(mut l) = t.live.try_borrow_mut() {
                    match l.get_mut(self.uid as usize) {
                        Some(x) if *x == 1 => *x = 0,
                        _ => t.double_drop.set(t.double_drop.get() + 1),
                    }
                }
            });
        }
    }
}
impl Clone for E {
    fn clone(&self) -> E {
        tick(CLONE);
        let _ = T.try_with(|t| {
            if t.track.get() {
                t.clone_log.borrow_mut().push((self.id, self.tag));
            }
        });
        E::new(self.id, self.tag)
    }
}
impl PartialEq for E {
    fn eq(&self, o: &E) -> bool {
        tick(EQ);
        note(self.id, o.id);
        self.id == o.id
    }
}
impl Eq for E {}
impl PartialOrd for E {
    fn partial_cmp(&self, o: &E) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for E {
    fn cmp(&self, o: &E) -> Ordering {
        tick(CMP);
        note(self.id, o.id);
        self.id.cmp(&o.id)
    }
}
impl Hash for E {
    fn hash<H: Hasher>(&self, h: &mut H) {
        tick(HASH);
        self.id.hash(h);
    }
}
impl Borrow<u32> for E {
    fn borrow(&self) -> &u32 {
        &self.id
    }
}
impl fmt::Debug for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.id)
    }
}
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.id)
    }
}
impl Elem for E {
    fn mk(id: u32, tag: u32) -> E {
        E::new(id, tag)
    }
    fn id(&self) -> u32 {
        self.id
    }
    fn tag(&self) -> u32 {
        self.tag
    }
    fn set(&mut self, id: u32, tag: u32) {
        self.id = id;
        self.tag = tag;
    }
}
impl serde::Serialize for E {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u32(self.id)
    }
}
impl<'de> serde::Deserialize<'de> for E {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<E, D::Error> {
        u32::deserialize(d).map(|i| E::new(i, 0))
    }
}

/// A borrowed form of a key that owns a key of its own kind (so that lookups through it go through instrumented
/// comparisons when `E` is used directly, and through plain `u32` otherwise).
pub type Id = u32;

// ---------------------------------------------------------------------------------------------------------------
// Hash functions

/// Number of hash modes.
pub const HMODES: u32 = 14;

/// A deterministic hash function of the element id chosen by `(mode, seed)`.
#[derive(Clone, Debug)]
pub struct TH {
    pub mode: u32,
    pub seed: u64,
}

impl Default for TH {
    fn default() -> TH {
        let (mode, seed) = T.with(|t| t.hmode.get());
        TH { mode, seed }
    }
}

/// Sets the hash function which `TH::default()` returns on this thread.
pub fn set_default_hash(mode: u32, seed: u64) {
    T.with(|t| t.hmode.set((mode % HMODES, seed)));
}

const EDGES: [u64; 12] = [u64::MAX, 0, u64::MAX - 1, 1, 1 << 63, (1 << 63) - 1, 0xFFFF_FFFF, 1 << 32, 63, 64, !0 << 32, 0x8000_0000];

pub fn hash_of(mode: u32, seed: u64, id: u32) -> u64 {
    let m = mix(u64::from(id) ^ seed.rotate_left(17));
    let base = match seed % 16 {
        0 => u64::MAX,
        1 => 0,
        _ => mix(seed ^ 0x55AA),
    };
    match mode % HMODES {
        0 => m,
        1 => base,
        2 => m & 1,
        3 => base ^ (m % 7),
        4 => base ^ ((m & 15) << 60),
        5 => u64::from(id) << (seed % 64),
        6 => {
            let mut mask = 0u64;
            for i in 0..(3 + seed % 5) {
                mask |= 1 << (mix(seed.wrapping_add(i * 77)) % 64);
            }
            (m & mask) | (base & !mask)
        }
        // values at the edges, among others
        7 if seed % 2 == 0 => EDGES.get(id as usize % 16).copied().unwrap_or(m),
        7 => u64::from(id),
        8 => base ^ (1 + m % 3).wrapping_shl(6 * (id % 11)),
        9 => if m & 1 == 0 { base } else { mix(m) },
        10 => base ^ (1u64 << (id % 64)),
        11 => u64::from(id).reverse_bits(),
        12 => u64::from(id / 3),
        _ => if id % 4 == 3 { m } else { base ^ ((m & 1) << 63) },
    }
}

impl BuildHasher for TH {
    type Hasher = THasher;
    fn build_hasher(&self) -> THasher {
        THasher { mode: self.mode, seed: self.seed, acc: 0, n: 0 }
    }
}

pub struct THasher {
    mode: u32,
    seed: u64,
    acc: u32,
    n: u32,
}

impl Hasher for THasher {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.acc = self.acc.wrapping_mul(0x0100_0193) ^ u32::from(*x);
            self.n += 1;
        }
    }
    fn write_u32(&mut self, x: u32) {
        self.acc = if self.n == 0 { x } else { self.acc.wrapping_mul(0x0100_0193) ^ x };
        self.n += 1;
    }
    fn finish(&self) -> u64 {
        hash_of(self.mode, self.seed, self.acc)
    }
}
