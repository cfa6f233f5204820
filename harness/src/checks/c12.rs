//! C12: serialization round-trips and rejects malformed input cleanly.
use archery::{ArcK, ArcTK, RcK};
use rpds::*;
use rv::alloc;
use rv::elem::{self, E, TH};
use rv::engine::*;
use rv::ensure;
use rv::routes::*;
use rv::subj::{Conf, Kind, Sub};
use rv::with_sub;
use serde::de::{DeserializeOwned, DeserializeSeed, Deserializer, Error as _, MapAccess, SeqAccess, Visitor};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

/// What the input denotes for the standard collections: sequence, set or map of integers.
type Want = Result<Vec<(u32, u32)>, String>;

fn want_of<'a, D: Deserializer<'a>>(kind: Kind, ordered_set: bool, d: D) -> Want
where
    D::Error: std::fmt::Display,
{
    let _ = ordered_set;
    match kind {
        Kind::Seq => Vec::<u32>::deserialize(d).map(|v| v.into_iter().map(|x| (x, 0)).collect()).map_err(|e| e.to_string()),
        Kind::Set => BTreeSet::<u32>::deserialize(d).map(|v| v.into_iter().map(|x| (x, 0)).collect()).map_err(|e| e.to_string()),
        Kind::Map => BTreeMap::<u32, u32>::deserialize(d).map(|v| v.into_iter().collect()).map_err(|e| e.to_string()),
    }
}

fn content_of<S: Sub<E>>(s: &S) -> Vec<(u32, u32)> {
    let mut v = vec![];
    s.each(&mut |k, x| v.push((k.id, x.map_or(0, |x| x.id))));
    if !ordered::<S>() {
        v.sort_unstable();
    }
    v
}

fn ordered<S: Sub<E>>() -> bool {
    !S::NAME.starts_with("HashTrie")
}

/// Compares a result with the one of the standard collections.
fn judge<S: Sub<E>>(what: &str, got: Result<S, String>, want: Want, conf: &Conf) -> R {
    match (got, want) {
        (Ok(s), Ok(w)) => {
            let g = content_of(&s);
            ensure!(g == w, "{}: {what} gives {:?}, should be {:?}", S::NAME, &g[..g.len().min(30)], &w[..w.len().min(30)]);
            // the result must be a working structure
            let mut m = S::model(conf);
            match &mut m {
                rv::subj::M::Seq(q) => q.extend(w.iter().map(|x| (x.0, 0))),
                rv::subj::M::Map(mm) => mm.extend(w.iter().map(|x| (x.0, (0, x.1, 0)))),
            }
            s.verify(&m, conf, w.len() < 300).map_err(|e| format!("{what}: {e}"))?;
        }
        (Err(_), Err(_)) => (),
        (Ok(_), Err(e)) => return Err(format!("{}: {what} is accepted, should be rejected ({e})", S::NAME)),
        (Err(e), Ok(_)) => return Err(format!("{}: {what} is rejected ({e}), should be accepted", S::NAME)),
    }
    Ok(())
}

/// A source of elements which claims whatever length it likes, and may fail.
#[derive(Clone)]
struct Src<'a> {
    items: &'a [(u32, u32)],
    pos: usize,
    hint: Option<usize>,
    /// The hint is about what is left.
    left: bool,
    fail_at: usize,
    map: bool,
}

type Er = serde::de::value::Error;

impl<'de> Deserializer<'de> for Src<'_> {
    type Error = Er;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        if self.map { v.visit_map(self) } else { v.visit_seq(self) }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

impl<'de> SeqAccess<'de> for Src<'_> {
    type Error = Er;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Er> {
        if self.pos == self.fail_at {
            return Err(Er::custom("broken source"));
        }
        let Some(x) = self.items.get(self.pos) else { return Ok(None) };
        self.pos += 1;
        seed.deserialize(serde::de::value::U32Deserializer::new(x.0)).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint.map(|h| if self.left { h.saturating_sub(self.pos) } else { h })
    }
}

impl<'de> MapAccess<'de> for Src<'_> {
    type Error = Er;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Er> {
        if self.pos == self.fail_at {
            return Err(Er::custom("broken source"));
        }
        let Some(x) = self.items.get(self.pos) else { return Ok(None) };
        seed.deserialize(serde::de::value::U32Deserializer::new(x.0)).map(Some)
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, Er> {
        self.pos += 1;
        if self.pos == self.fail_at {
            return Err(Er::custom("broken source"));
        }
        seed.deserialize(serde::de::value::U32Deserializer::new(self.items[self.pos - 1].1))
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint.map(|h| if self.left { h.saturating_sub(self.pos) } else { h })
    }
}

const LENS: [u64; 16] = [0, 1, 1 << 10, 1 << 20, 1 << 24, 1 << 28, 1 << 31, 1 << 32, 1 << 36, 1 << 40, 1 << 48, 1 << 60, 1 << 61, (1 << 63) - 1, 1 << 63, u64::MAX];
const TOKENS: [&str; 24] = [
    "[", "]", "{", "}", ",", ":", "1", "\"1\"", "null", "true", "-1", "4294967296", "1e3", "\"", "\\", " ", "[]", "{}", "[1]", "{\"1\":2}", "1,", "\"a\"", "0", "1.5",
];

fn mutate(b: &mut Vec<u8>, ops: &[Op], text: bool) {
    for op in ops {
        let n = b.len();
        let at = op[1] as usize % (n + 1);
        match op[0] % 9 {
            0 => b.truncate(at),
            1 if n > 0 => b[at % n] ^= 1 << (op[2] % 8),
            2 if n > 0 => b[at % n] = op[2] as u8,
            3 if n > 0 => {
                b.remove(at % n);
            }
            4 => {
                if text {
                    let t = TOKENS[op[2] as usize % TOKENS.len()].bytes();
                    b.splice(at..at, t);
                } else {
                    b.insert(at, op[2] as u8);
                }
            }
            5 if n > 0 => {
                let e = (at + 1 + op[2] as usize % 12).min(n);
                let s = at.min(e);
                let part = b[s..e].to_vec();
                b.splice(s..s, part);
            }
            6 if !text && n >= 8 => {
                let l = LENS[op[2] as usize % LENS.len()].wrapping_add(u64::from(op[3] % 3)).wrapping_sub(1);
                b[..8].copy_from_slice(&l.to_le_bytes());
            }
            7 if n > 0 => {
                // digits
                b[at % n] = b'0' + (op[2] % 10) as u8;
            }
            8 if n > 0 => {
                let e = (at + 1 + op[2] as usize % 12).min(n);
                b.drain(at.min(e)..e);
            }
            _ => (),
        }
        b.truncate(1 << 20);
    }
}

fn json_of(kind: Kind, items: &[(u32, u32)]) -> String {
    if kind == Kind::Map {
        format!("{{{}}}", items.iter().map(|x| format!("\"{}\":{}", x.0, x.1)).collect::<Vec<_>>().join(","))
    } else {
        format!("[{}]", items.iter().map(|x| x.0.to_string()).collect::<Vec<_>>().join(","))
    }
}

fn bin_of(kind: Kind, items: &[(u32, u32)]) -> Vec<u8> {
    let mut b = (items.len() as u64).to_le_bytes().to_vec();
    for x in items {
        b.extend(x.0.to_le_bytes());
        if kind == Kind::Map {
            b.extend(x.1.to_le_bytes());
        }
    }
    b
}

/// A writer which fails after some bytes.
struct Full(usize);
impl std::io::Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.len() > self.0 {
            return Err(std::io::Error::other("full"));
        }
        self.0 -= b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Deserializes, or does so in place over a structure with other content. Other versions of that
/// structure must not change, and the structure has to stay a working one also after an error.
fn read<'a, S, D>(d: D, c: &Case, conf: &Conf) -> Result<Result<S, String>, String>
where
    S: Sub<E> + Route<E> + Deserialize<'a>,
    D: Deserializer<'a>,
    D::Error: std::fmt::Display,
{
    let sel = c.c(12);
    if sel % 3 != 1 {
        return Ok(<S as Deserialize>::deserialize(d).map_err(|e| e.to_string()));
    }
    let mut r = Rng(u64::from(sel));
    let n = r.skewed(40) as usize;
    let old = content(S::KIND, &mut r, n, conf.universe);
    let mut keep = vec![];
    let mut place = S::route(&old, sel / 3, &mut r, conf, &mut keep);
    let other = place.clone();
    let shared = sel % 2 == 0;
    let other = if shared { Some(other) } else { None };
    let res = Deserialize::deserialize_in_place(d, &mut place).map_err(|e| e.to_string());
    if let Some(o) = other {
        let got = content_of(&o);
        ensure!(got == old, "{}: another version is {:?} after deserialize_in_place, was {:?}", S::NAME, &got[..got.len().min(30)], &old[..old.len().min(30)]);
    }
    Ok(res.and_then(|()| Ok(place)))
}

/// Runs a deserialization and bounds the memory it asks for.
fn measured<T>(len: usize, f: impl FnOnce() -> T) -> Result<T, String> {
    alloc::start();
    let r = f();
    let u = alloc::usage();
    let bound = (16 << 20) + 6000 * len as i64;
    ensure!(u.peak <= bound && u.max_request as i64 <= bound, "deserializing an input of {len} bytes asked for {} bytes of memory (largest request {})", u.peak, u.max_request);
    Ok(r)
}

fn run<S>(c: &Case, cx: &mut Cx) -> R
where
    S: Sub<E> + Route<E> + Serialize + DeserializeOwned + PartialEq,
{
    let kind = S::KIND;
    let conf = Conf::decode(c.c(2), c.c(3), c.c(4), c.c(5));
    elem::set_default_hash(conf.hash.mode, conf.hash.seed);
    let conf2 = Conf { hash: TH::default(), ..conf.clone() };
    let mut r = Rng(u64::from(c.c(7)));
    let items = content(kind, &mut r, c.c(6).min(200_000) as usize, conf.universe);
    let mode = c.c(8) % 6;
    cx.label(["round trip, text", "round trip, binary", "mutated text", "mutated binary", "lying source", "nested"][mode as usize]);
    cx.log(|| format!("{} mode {mode}, content {:?}", S::NAME, &items[..items.len().min(20)]));
    cx.nontrivial = items.len() > 1 || !c.ops.is_empty();
    cx.checks += 1;
    elem::track();
    match mode {
        0 | 1 => {
            let mut keep = vec![];
            let s = S::route(&items, c.c(9), &mut r, &conf, &mut keep);
            let mut order = vec![];
            s.each(&mut |k, v| order.push((k.id, v.map_or(0, |v| v.id))));
            let back: S = if mode == 0 {
                let t = serde_json::to_string(&s).map_err(|e| format!("serializing: {e}"))?;
                ensure!(t == json_of(kind, &order), "{} serializes to {t}, should be {}", S::NAME, json_of(kind, &order));
                let v = serde_json::to_value(&s).map_err(|e| format!("serializing: {e}"))?;
                let b: S = serde_json::from_value(v).map_err(|e| format!("{}: deserializing its own value: {e}", S::NAME))?;
                ensure!(b == s, "{}: does not round-trip through a value", S::NAME);
                serde_json::from_str(&t).map_err(|e| format!("{}: deserializing its own text: {e}", S::NAME))?
            } else {
                let t = bincode::serialize(&s).map_err(|e| format!("serializing: {e}"))?;
                ensure!(t == bin_of(kind, &order), "{} serializes to {t:?}", S::NAME);
                bincode::deserialize(&t).map_err(|e| format!("{}: deserializing its own bytes: {e}", S::NAME))?
            };
            if c.c(12) % 4 == 0 {
                // a writer with not enough room makes serialization fail
                let room = r.below(200) as usize;
                let (len, res) = if mode == 0 {
                    (json_of(kind, &order).len(), serde_json::to_writer(Full(room), &s).map_err(|e| e.to_string()))
                } else {
                    (bin_of(kind, &order).len(), bincode::serialize_into(Full(room), &s).map_err(|e| e.to_string()))
                };
                ensure!(res.is_ok() == (len <= room), "{}: serializing {len} bytes to a writer with room for {room} gives {res:?}", S::NAME);
            }
            ensure!(back == s && s == back, "{}: deserialized is not equal to the original", S::NAME);
            judge::<S>("round trip", Ok(back), Ok(items.clone()), &conf2)?;
        }
        2 => {
            let mut b = json_of(kind, &items).into_bytes();
            mutate(&mut b, &c.ops, true);
            cx.log(|| format!("input {:?}", String::from_utf8_lossy(&b)));
            let want = want_of(kind, true, &mut serde_json::Deserializer::from_slice(&b));
            cx.label(if want.is_ok() { "accepted" } else { "rejected" });
            let got = measured(b.len(), || read::<S, _>(&mut serde_json::Deserializer::from_slice(&b), c, &conf2))??;
            judge::<S>("mutated text", got, want, &conf2)?;
        }
        3 => {
            let mut b = bin_of(kind, &items);
            mutate(&mut b, &c.ops, false);
            cx.log(|| format!("input {b:?}"));
            let want: Want = match kind {
                Kind::Seq => bincode::deserialize::<Vec<u32>>(&b).map(|v| v.into_iter().map(|x| (x, 0)).collect()).map_err(|e| e.to_string()),
                Kind::Set => bincode::deserialize::<BTreeSet<u32>>(&b).map(|v| v.into_iter().map(|x| (x, 0)).collect()).map_err(|e| e.to_string()),
                Kind::Map => bincode::deserialize::<BTreeMap<u32, u32>>(&b).map(|v| v.into_iter().collect()).map_err(|e| e.to_string()),
            };
            cx.label(if want.is_ok() { "accepted" } else { "rejected" });
            let got = measured(b.len(), || bincode::deserialize::<S>(&b).map_err(|e| e.to_string()))?;
            judge::<S>("mutated bytes", got, want, &conf2)?;
        }
        4 => {
            let hint = match c.c(10) % 4 {
                0 => None,
                1 => Some(LENS[c.c(11) as usize % LENS.len()] as usize),
                2 => Some(items.len().saturating_sub(c.c(11) as usize % 4)),
                _ => Some(items.len() + c.c(11) as usize % 1000),
            };
            // repeated keys: the last one wins
            let mut src = items.clone();
            for op in &c.ops {
                if !src.is_empty() {
                    let x = src[op[1] as usize % src.len()];
                    let i = op[2] as usize % (src.len() + 1);
                    src.insert(i, (x.0, op[3] % 5));
                }
            }
            let fail_at = if c.c(9) % 3 == 0 { c.c(9) as usize / 3 % (src.len() + 1) } else { usize::MAX };
            let left = c.c(13) % 2 == 1;
            let s = Src { items: &src, pos: 0, hint, left, fail_at, map: kind == Kind::Map };
            cx.log(|| format!("source {src:?} claiming {hint:?} elements{}, failing at {fail_at}", if left { " (left)" } else { "" }));
            let want = want_of(kind, true, s.clone());
            let got = measured(src.len() * 8, || read::<S, _>(s, c, &conf2))??;
            judge::<S>("source", got, want, &conf2)?;
        }
        _ => nested(&items, c, cx)?,
    }
    ensure!(elem::live_count() == 0, "{} elements leaked", elem::live_count());
    ensure!(elem::double_drops() == 0, "elements dropped twice");
    Ok(())
}

/// Structures of structures, with wrong lengths at the inner levels too.
fn nested(items: &[(u32, u32)], c: &Case, cx: &mut Cx) -> R {
    let mut groups: BTreeMap<u32, Vec<u32>> = BTreeMap::new();
    for x in items {
        groups.entry(x.0 % 5).or_default().push(x.0);
    }
    let mut b = bincode::serialize(&groups).unwrap();
    for op in &c.ops {
        if op[0] % 2 == 0 && b.len() >= 20 {
            // an inner length
            let at = [12, 0, 8][op[1] as usize % 3].min(b.len() - 8);
            let l = LENS[op[2] as usize % LENS.len()];
            b[at..at + 8].copy_from_slice(&l.to_le_bytes());
        } else {
            mutate(&mut b, &[*op], false);
        }
    }
    cx.log(|| format!("input {b:?}"));
    let want = bincode::deserialize::<BTreeMap<u32, Vec<u32>>>(&b).map_err(|e| e.to_string());
    macro_rules! one {
        ($O:ident, $I:ident) => {{
            let got = measured(b.len(), || bincode::deserialize::<$O<E, $I<E, RcK>, RcK>>(&b).map_err(|e| e.to_string()))?;
            let g = got.map(|m| m.iter().map(|(k, l)| (k.id, l.iter().map(|x| x.id).collect::<Vec<_>>())).collect::<BTreeMap<_, _>>());
            ensure!(g.is_ok() == want.is_ok() && (g.is_err() || g == want), concat!(stringify!($O), " of ", stringify!($I), ": {:?}, should be {:?}"), g, want);
        }};
    }
    one!(RedBlackTreeMap, List);
    one!(RedBlackTreeMap, Vector);
    one!(RedBlackTreeMap, Queue);
    one!(RedBlackTreeMap, Stack);
    let t = serde_json::to_string(&groups).unwrap();
    let v: RedBlackTreeMap<E, RedBlackTreeSet<E>> = serde_json::from_str(&t).map_err(|e| e.to_string())?;
    let want: BTreeMap<u32, BTreeSet<u32>> = groups.iter().map(|(k, v)| (*k, v.iter().copied().collect())).collect();
    ensure!(serde_json::to_string(&v).unwrap() == serde_json::to_string(&want).unwrap(), "nested sets do not round-trip");
    Ok(())
}

pub struct C;
impl Check for C {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "A case is a structure type, pointer kind, content, hash function and one of: a round trip of a structure built by a generated history through JSON text, a JSON value or bincode (the serialized form is compared with that of the plain sequence or map in iteration order, and writing it fails exactly when the writer has not enough room); JSON text or bincode bytes after generated mutations (bit flips, truncation, inserted tokens, duplicated or removed chunks, hostile length prefixes); a source with a lying size hint which may fail midway (each of them also in place over another structure); nested structures with wrong inner lengths. Acceptance and content must agree with Vec, BTreeSet, BTreeMap read from the same input, memory asked for is bounded by the input's length, and no element leaks. Non-trivial: at least two elements or one mutation."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["elements consume input (a claimed number of zero-sized elements is honoured by every serde collection)", "memory bound: 16 MiB + 6000 bytes per input byte"]
    }
    fn budget(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 2_500_000,
            Tier::Thorough => 20_000_000,
        }
    }
    fn generate(&self, r: &mut Rng, i: u64, _: Tier) -> Case {
        let mode = (i / 8 % 6) as u32;
        let n = if mix(i) % 2000 < 2 { r.below(60_000) } else { r.skewed(40) };
        // much content in few buckets takes quadratic time: big contents get hash functions which spread
        let hash = if n > 1000 { [0, 7, 12][r.below(3) as usize] } else { r.u32() & 0xFFFF };
        let mut ops = vec![];
        if mode >= 2 {
            for _ in 0..1 + r.skewed(5) {
                ops.push([r.below(9), r.u32() >> r.below(32), r.u32() >> r.below(32), r.below(256)]);
            }
            if mode == 3 && r.chance(1, 3) {
                ops.push([6, 0, r.below(16), r.below(3)]);
            }
        }
        Case { cfg: vec![(i % 8) as u32, r.below(3), r.below(6), r.below(12), hash, r.below(8), n, r.u32(), mode, r.below(48), r.below(4), r.u32(), r.u32() & 0xFFFF, r.below(2)], ops }
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> R {
        match c.c(1) % 3 {
            0 => with_sub!(c.c(0), E, RcK, S => run::<S>(c, cx)),
            1 => with_sub!(c.c(0), E, ArcTK, S => run::<S>(c, cx)),
            _ => with_sub!(c.c(0), E, ArcK, S => run::<S>(c, cx)),
        }
    }
}
