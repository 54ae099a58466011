//! BpMap against BTreeMap: histories, sessions, maximum-size records and file size (C22-C25).
use crate::core::*;
use crate::{ck, ckeq};
use extended_collections::bp_tree::BpMap;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_derive::{Deserialize, Serialize};
use std::borrow::Borrow;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::hash::Hash;
use std::num::NonZeroU32;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};

/// keys and values are made from numbers; `pad` stretches variable-size ones to the maximum
pub trait BK: Clone + Ord + Hash + Debug + Serialize + DeserializeOwned + Borrow<Self::Q> + Send + Sync + 'static {
    type Q: Ord + ?Sized + Eq + Hash;
    const NAME: &'static str;
    const MAX: i64;
    fn mk(i: i64, pad: usize) -> Self;
    /// room needed for keys below `range`, with strings of up to `pad` bytes
    fn room(pad: usize) -> u64;
    fn q(&self) -> &Self::Q {
        self.borrow()
    }
}
pub trait BV: Clone + PartialEq + Debug + Serialize + DeserializeOwned + Send + Sync + 'static {
    const NAME: &'static str;
    fn mk(v: u64, pad: usize) -> Self;
    fn room(pad: usize) -> u64;
}
macro_rules! int_key {
    ($t:ty, $max:expr) => {
        impl BK for $t {
            type Q = $t;
            const NAME: &'static str = stringify!($t);
            const MAX: i64 = $max;
            fn mk(i: i64, _: usize) -> Self {
                i as $t
            }
            fn room(_: usize) -> u64 {
                std::mem::size_of::<$t>() as u64
            }
        }
    };
}
int_key!(u8, 256);
int_key!(u32, 1 << 31);
int_key!(u64, 1 << 40);
impl BK for i64 {
    type Q = i64;
    const NAME: &'static str = "i64";
    const MAX: i64 = 1 << 40;
    fn mk(i: i64, _: usize) -> Self {
        i - 500
    }
    fn room(_: usize) -> u64 {
        8
    }
}
impl BK for NonZeroU32 {
    type Q = NonZeroU32;
    const NAME: &'static str = "NonZeroU32";
    const MAX: i64 = 1 << 31;
    fn mk(i: i64, _: usize) -> Self {
        NonZeroU32::new(i as u32 + 1).unwrap()
    }
    fn room(_: usize) -> u64 {
        4
    }
}
impl BK for String {
    type Q = str;
    const NAME: &'static str = "String";
    const MAX: i64 = 100_000;
    fn mk(i: i64, pad: usize) -> Self {
        // length varies with the key unless padded to the full
        let mut s = format!("{:05}", i);
        while s.len() < pad {
            s.push((b'a' + (s.len() % 26) as u8) as char);
        }
        s
    }
    fn room(pad: usize) -> u64 {
        8 + pad.max(5) as u64
    }
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct Pair {
    a: u16,
    b: Option<bool>,
    c: char,
}
impl BK for Pair {
    type Q = Pair;
    const NAME: &'static str = "struct";
    const MAX: i64 = 60_000 * 4;
    fn mk(i: i64, _: usize) -> Self {
        Pair { a: (i / 4) as u16, b: if i / 2 % 2 == 0 { None } else { Some(true) }, c: if i % 2 == 0 { 'x' } else { '\u{10348}' } }
    }
    fn room(_: usize) -> u64 {
        2 + 2 + 4
    }
}

impl BV for u64 {
    const NAME: &'static str = "u64";
    fn mk(v: u64, _: usize) -> Self {
        v
    }
    fn room(_: usize) -> u64 {
        8
    }
}
impl BV for () {
    const NAME: &'static str = "()";
    fn mk(_: u64, _: usize) -> Self {}
    fn room(_: usize) -> u64 {
        0
    }
}
impl BV for bool {
    const NAME: &'static str = "bool";
    fn mk(v: u64, _: usize) -> Self {
        v % 2 == 1
    }
    fn room(_: usize) -> u64 {
        1
    }
}
fn len_of(v: u64, pad: usize) -> usize {
    // a third at the maximum, the rest anywhere below
    if v % 3 == 0 {
        pad
    } else {
        (v / 3) as usize % (pad + 1)
    }
}
impl BV for String {
    const NAME: &'static str = "String";
    fn mk(v: u64, pad: usize) -> Self {
        let n = len_of(v, pad);
        let mut s = v.to_string();
        while s.len() < n {
            s.push((b'a' + ((s.len() as u64 + v) % 26) as u8) as char);
        }
        s.truncate(n);
        s
    }
    fn room(pad: usize) -> u64 {
        8 + pad as u64
    }
}
impl BV for Vec<u8> {
    const NAME: &'static str = "Vec<u8>";
    fn mk(v: u64, pad: usize) -> Self {
        (0..len_of(v, pad)).map(|i| (v as usize * 31 + i * 7) as u8 | 1).collect()
    }
    fn room(pad: usize) -> u64 {
        8 + pad as u64
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Rec {
    a: Option<Box<str>>,
    b: Option<u64>,
    c: (i8, f64),
}
impl BV for Rec {
    const NAME: &'static str = "record";
    fn mk(v: u64, pad: usize) -> Self {
        Rec {
            a: if v % 4 == 1 { None } else { Some(<String as BV>::mk(v, pad).into_boxed_str()) },
            b: if v % 5 == 1 { None } else { Some(v * 977) },
            c: (v as i8, v as f64 / 8.0),
        }
    }
    fn room(pad: usize) -> u64 {
        1 + 8 + pad as u64 + 1 + 8 + 1 + 8
    }
}

static FILES: AtomicU64 = AtomicU64::new(0);
fn fresh() -> PathBuf {
    let n = FILES.fetch_add(1, Ordering::Relaxed);
    let mut p = PathBuf::from(scratch());
    p.push(format!("bp{}-{}", std::process::id(), n));
    let _ = std::fs::remove_file(&p);
    p
}
pub struct Bp<K: BK, V: BV> {
    pub m: Option<BpMap<K, V>>,
    pub model: BTreeMap<i64, u64>,
    pub path: PathBuf,
    pub range: i64,
    pub kpad: usize,
    pub vpad: usize,
    next: u64,
    pub peak: usize,
}
impl<K: BK, V: BV> Drop for Bp<K, V> {
    fn drop(&mut self) {
        self.m = None;
        let _ = std::fs::remove_file(&self.path);
    }
}
#[macro_export]
macro_rules! io {
    ($e:expr, $($a:tt)*) => { match $e { Ok(x) => x, Err(e) => return Err(format!("{} failed: {}", format!($($a)*), e)) } };
}
fn is_small<K: BK>(r: i64) -> i64 {
    r.min(K::MAX)
}
impl<K: BK, V: BV> Bp<K, V> {
    /// degrees: None = as `new` chooses
    pub fn new(ctx: &mut Ctx, range: i64, kpad: usize, vpad: usize, slack: u64, deg: Option<(usize, usize)>) -> Result<Self, String> {
        Self::new_at(ctx, fresh(), range, kpad, vpad, slack, deg)
    }
    pub fn new_at(ctx: &mut Ctx, path: PathBuf, range: i64, kpad: usize, vpad: usize, slack: u64, deg: Option<(usize, usize)>) -> Result<Self, String> {
        let range = is_small::<K>(range);
        let (ks, vs) = (K::room(kpad) + slack, V::room(vpad) + slack);
        ctx.note(format!("BpMap<{}, {}> key_size {} value_size {} degrees {:?} range {}", K::NAME, V::NAME, ks, vs, deg, range));
        let m = io!(
            match deg {
                None => BpMap::new(&path, ks, vs),
                Some((l, i)) => BpMap::with_degrees(&path, ks, vs, l, i),
            },
            "creating a map"
        );
        Ok(Bp { m: Some(m), model: BTreeMap::new(), path, range, kpad, vpad, next: 1, peak: 0 })
    }
    pub fn k(&self, i: i64) -> K {
        // variable-size keys: every third one is as long as possible
        let pad = if i % 3 == 0 { self.kpad } else { self.kpad.min(5 + (i % 7) as usize) };
        K::mk(i, pad)
    }
    pub fn v(&self, v: u64) -> V {
        V::mk(v, self.vpad)
    }
    pub fn m(&mut self) -> &mut BpMap<K, V> {
        self.m.as_mut().unwrap()
    }
    pub fn insert(&mut self, ctx: &mut Ctx, i: i64, v: u64) -> R {
        ctx.op("insert", i, v as i64);
        let (k, val) = (self.k(i), self.v(v));
        let got = io!(self.m().insert(k.clone(), val), "insert({})", i);
        let exp = self.model.insert(i, v).map(|o| (k, self.v(o)));
        ckeq!(got, exp, "insert({}, {})", i, v);
        self.peak = self.peak.max(self.model.len());
        ckeq!(self.m().len(), self.model.len(), "len after insert({})", i);
        Ok(())
    }
    pub fn fresh_value(&mut self, ctx: &mut Ctx) -> u64 {
        self.next += ctx.rng.range(1, 9);
        self.next
    }
    pub fn remove(&mut self, ctx: &mut Ctx, i: i64) -> R {
        ctx.op("remove", i, NOARG);
        let k = self.k(i);
        let got = io!(self.m().remove(k.q()), "remove({})", i);
        let exp = self.model.remove(&i).map(|o| (k, self.v(o)));
        ckeq!(got, exp, "remove({})", i);
        ckeq!(self.m().len(), self.model.len(), "len after remove({})", i);
        Ok(())
    }
    pub fn get(&mut self, ctx: &mut Ctx, i: i64) -> R {
        ctx.op("get", i, NOARG);
        let k = self.k(i);
        let got = io!(self.m().get(k.q()), "get({})", i);
        let exp = self.model.get(&i).map(|o| self.v(*o));
        ckeq!(got, exp, "get({})", i);
        let got = io!(self.m().contains_key(k.q()), "contains_key({})", i);
        ckeq!(got, exp.is_some(), "contains_key({})", i);
        Ok(())
    }
    pub fn min_max(&mut self, ctx: &mut Ctx) -> R {
        ctx.op("min_max", NOARG, NOARG);
        let got = io!(self.m().min(), "min");
        let exp = self.model.keys().next().map(|i| self.k(*i));
        ckeq!(got, exp, "min");
        let got = io!(self.m().max(), "max");
        let exp = self.model.keys().next_back().map(|i| self.k(*i));
        ckeq!(got, exp, "max");
        let n = self.model.len();
        ckeq!(self.m().len(), n, "len");
        ckeq!(self.m().is_empty(), n == 0, "is_empty");
        Ok(())
    }
    /// everything: iteration, then a lookup of every key and of the gaps
    pub fn full(&mut self, ctx: &mut Ctx, lookups: bool) -> R {
        ctx.count("full_state_comparisons", 1);
        self.min_max(ctx)?;
        let exp: Vec<(i64, u64)> = self.model.iter().map(|(a, b)| (*a, *b)).collect();
        {
            let mut n = 0;
            let (kpad, vpad) = (self.kpad, self.vpad);
            let mk = |i: i64| K::mk(i, if i % 3 == 0 { kpad } else { kpad.min(5 + (i % 7) as usize) });
            let mut it = io!(self.m.as_mut().unwrap().iter_mut(), "iter_mut");
            while let Some(x) = it.next() {
                let (k, v) = io!(x, "iter_mut().next()");
                ck!(n < exp.len(), "iter_mut yields {:?} past the {} entries of the map", k, exp.len());
                ckeq!(k, mk(exp[n].0), "key {} of iter_mut", n);
                ckeq!(v, V::mk(exp[n].1, vpad), "value of key {} in iter_mut", exp[n].0);
                n += 1;
            }
            ckeq!(n, exp.len(), "entries yielded by iter_mut");
        }
        if lookups {
            let mut i = 0;
            let step = (self.range / 2000).max(1);
            while i < self.range {
                let k = self.k(i);
                let got = io!(self.m().get(k.q()), "get({})", i);
                let e = self.model.get(&i).map(|o| self.v(*o));
                ckeq!(got, e, "get({}) in the full comparison", i);
                i += step;
            }
        }
        Ok(())
    }
    pub fn clear(&mut self, ctx: &mut Ctx) -> R {
        ctx.op("clear", NOARG, NOARG);
        io!(self.m().clear(), "clear");
        self.model.clear();
        self.min_max(ctx)
    }
    pub fn reopen(&mut self, ctx: &mut Ctx) -> R {
        ctx.op("reopen", NOARG, NOARG);
        ctx.count("sessions", 1);
        self.m = None;
        self.m = Some(io!(BpMap::open(&self.path), "open"));
        self.min_max(ctx)
    }
    pub fn partial_iter(&mut self, ctx: &mut Ctx) -> R {
        let n = ctx.rng.us(self.model.len() + 2);
        ctx.op("iter_mut_partial", n as i64, NOARG);
        let exp: Vec<(K, V)> = self.model.iter().take(n).map(|(a, b)| (self.k(*a), self.v(*b))).collect();
        let mut got = Vec::new();
        for x in self.m().into_iter().take(n) {
            got.push(io!(x, "iteration"));
        }
        ckeq!(got, exp, "first {} entries", n);
        Ok(())
    }
    pub fn file_len(&self) -> u64 {
        std::fs::metadata(&self.path).map(|m| m.len()).unwrap_or(0)
    }
    /// a phase of one style of operations
    pub fn phase(&mut self, ctx: &mut Ctx, steps: usize, reopen: bool) -> R {
        let style = ctx.rng.below(9);
        let ins = *ctx.rng.pick(&[20u64, 40, 50, 60, 80, 95]);
        let mut cur = ctx.rng.us(self.range as usize) as i64;
        let dir = if ctx.rng.chance(1, 2) { 1 } else { -1 };
        let width = (self.range / 8).max(4);
        for s in 0..steps {
            let i = match style {
                0 | 1 | 2 => ctx.rng.us(self.range as usize) as i64,
                3 => {
                    cur = (cur + dir).rem_euclid(self.range);
                    cur
                }
                4 => (cur + ctx.rng.us(width as usize) as i64).rem_euclid(self.range),
                5 => {
                    // around an existing key
                    let p = ctx.rng.us(self.range as usize) as i64;
                    self.model.range(p..).next().map(|(k, _)| *k).unwrap_or(p)
                }
                6 => {
                    // the ends
                    let e = if ctx.rng.chance(1, 2) { self.model.keys().next() } else { self.model.keys().next_back() };
                    let e = e.cloned().unwrap_or(0);
                    (e + ctx.rng.us(3) as i64 - 1).rem_euclid(self.range)
                }
                7 => (cur + (s as i64 / 2) * dir).rem_euclid(self.range),
                _ => {
                    // gaps of a regular comb
                    (ctx.rng.us(self.range as usize) as i64) / 4 * 4 % self.range
                }
            };
            let x = ctx.rng.below(100);
            if x < 70 {
                if ctx.rng.below(100) < ins {
                    let v = self.fresh_value(ctx);
                    self.insert(ctx, i, v)?;
                } else {
                    self.remove(ctx, i)?;
                }
            } else if x < 85 {
                self.get(ctx, i)?;
            } else if x < 93 {
                self.min_max(ctx)?;
            } else if x < 96 {
                self.partial_iter(ctx)?;
            } else if x < 97 && s % 7 == 0 {
                self.clear(ctx)?;
            } else if reopen && x < 99 {
                self.reopen(ctx)?;
            } else {
                self.full(ctx, false)?;
            }
        }
        Ok(())
    }
    /// removes what is left in some order, checking along the way
    pub fn drain(&mut self, ctx: &mut Ctx, keep: usize) -> R {
        let style = ctx.rng.below(5);
        let mut keys: Vec<i64> = self.model.keys().cloned().collect();
        match style {
            0 => {}
            1 => keys.reverse(),
            2 => {
                let h = keys.len() / 2;
                keys.rotate_left(h);
            }
            _ => ctx.rng.shuffle(&mut keys),
        }
        let total = keys.len();
        for (n, k) in keys.into_iter().enumerate() {
            if total - n <= keep {
                break;
            }
            self.remove(ctx, k)?;
            if n % 97 == 13 {
                self.full(ctx, false)?;
            }
        }
        self.full(ctx, true)
    }
}
pub fn degrees(ctx: &mut Ctx) -> Option<(usize, usize)> {
    match ctx.rng.below(8) {
        0 => None,
        1 => Some((3, 3)),
        2 => Some((4, 4)),
        3 => Some((3, 4)),
        4 => Some((4, 3)),
        5 => Some((ctx.rng.range(3, 6) as usize, ctx.rng.range(3, 6) as usize)),
        _ => Some((ctx.rng.range(3, 12) as usize, ctx.rng.range(3, 12) as usize)),
    }
}
pub fn history<K: BK, V: BV>(ctx: &mut Ctx) -> R {
    let range = *ctx.rng.pick(&[6i64, 12, 30, 100, 400]);
    let deg = degrees(ctx);
    let (kp, vp) = (ctx.rng.range(5, 14) as usize, ctx.rng.range(0, 30) as usize);
    let slack = ctx.rng.below(3) * 5;
    let mut b = Bp::<K, V>::new(ctx, range, kp, vp, slack, deg)?;
    for _ in 0..ctx.rng.range(1, 5) {
        let steps = ctx.rng.range(10, 250) as usize;
        b.phase(ctx, steps, false)?;
    }
    b.full(ctx, true)?;
    if ctx.rng.chance(1, 2) {
        b.drain(ctx, 0)?;
        b.phase(ctx, 30, false)?;
        b.full(ctx, true)?;
    }
    ctx.count("operations", ctx.ops.len() as u64);
    ctx.max("max_len", b.peak as u64);
    Ok(())
}
/// every order of inserting and removing a few keys at the smallest degrees: grow in one permutation,
/// shrink in another
pub fn small<K: BK, V: BV>(ctx: &mut Ctx) -> R {
    let deg = [(3, 3), (3, 4), (4, 3), (4, 4), (3, 5), (5, 3)][(ctx.idx % 6) as usize];
    let n = 4 + (ctx.idx / 6 % 11) as i64;
    let mut b = Bp::<K, V>::new(ctx, n, 8, 9, 0, Some(deg))?;
    let mut p: Vec<i64> = (0..n).collect();
    ctx.rng.shuffle(&mut p);
    for i in &p {
        let v = b.fresh_value(ctx);
        b.insert(ctx, *i, v)?;
    }
    b.full(ctx, true)?;
    let mut q = p.clone();
    match ctx.rng.below(4) {
        0 => q.reverse(),
        1 => q.sort(),
        _ => ctx.rng.shuffle(&mut q),
    }
    for i in &q {
        b.remove(ctx, *i)?;
        b.full(ctx, true)?;
    }
    // and once more on the pages that were freed
    for i in &p {
        let v = b.fresh_value(ctx);
        b.insert(ctx, *i, v)?;
        let v = b.fresh_value(ctx);
        b.insert(ctx, *i, v)?;
    }
    b.full(ctx, true)
}
/// more pages than fit 16 bits
pub fn huge<K: BK, V: BV>(ctx: &mut Ctx) -> R {
    let n = ctx.rng.range(100_000, 120_000) as i64;
    let mut b = Bp::<K, V>::new(ctx, n, 8, 12, 0, Some((3, 3)))?;
    ctx.sig(ctx.rng.clone().u());
    for j in 0..n {
        let i = if ctx.idx % 2 == 0 { j } else { n - 1 - j };
        let v = b.fresh_value(ctx);
        b.insert(ctx, i, v)?;
        if ctx.ops.len() > 60 {
            ctx.ops.clear();
        }
    }
    b.full(ctx, false)?;
    b.phase(ctx, 500, false)?;
    b.reopen(ctx)?;
    b.full(ctx, false)?;
    b.drain(ctx, n as usize * 3 / 4)?;
    b.full(ctx, false)?;
    ctx.max("max_len", b.peak as u64);
    Ok(())
}
pub fn large<K: BK, V: BV>(ctx: &mut Ctx) -> R {
    let n = ctx.rng.range(400, 2500) as i64;
    let deg = if ctx.rng.chance(1, 4) { None } else { Some((ctx.rng.range(3, 7) as usize, ctx.rng.range(3, 7) as usize)) };
    let mut b = Bp::<K, V>::new(ctx, n, 8, 12, 0, deg)?;
    let mut p: Vec<i64> = (0..b.range).collect();
    match ctx.rng.below(5) {
        0 => {}
        1 => p.reverse(),
        2 => {
            let h = p.len() / 2;
            let (a, z) = p.split_at(h);
            p = a.iter().zip(z.iter().rev()).flat_map(|(x, y)| [*x, *y]).collect();
        }
        _ => ctx.rng.shuffle(&mut p),
    }
    for i in &p {
        let v = b.fresh_value(ctx);
        b.insert(ctx, *i, v)?;
    }
    b.full(ctx, true)?;
    let keep = ctx.rng.us(b.model.len() / 3 + 1);
    b.drain(ctx, keep)?;
    for _ in 0..3 {
        b.phase(ctx, 200, false)?;
        b.full(ctx, false)?;
    }
    for i in &p {
        let v = b.fresh_value(ctx);
        b.insert(ctx, *i, v)?;
    }
    b.full(ctx, true)?;
    b.drain(ctx, 0)?;
    ctx.max("max_len", b.peak as u64);
    ctx.count("operations", ctx.ops.len() as u64);
    Ok(())
}
pub fn sessions<K: BK, V: BV>(ctx: &mut Ctx) -> R {
    let range = *ctx.rng.pick(&[6i64, 12, 30, 100, 400]);
    let deg = degrees(ctx);
    let (kp, vp) = (ctx.rng.range(5, 14) as usize, ctx.rng.range(0, 30) as usize);
    let slack = ctx.rng.below(3) * 5;
    let mut b = Bp::<K, V>::new(ctx, range, kp, vp, slack, deg)?;
    if ctx.rng.chance(1, 3) {
        b.reopen(ctx)?; // never written
        b.full(ctx, false)?;
    }
    for _ in 0..ctx.rng.range(1, 8) {
        match ctx.rng.below(5) {
            0 => b.drain(ctx, 0)?,
            1 => {
                let keep = ctx.rng.us(b.model.len() + 1);
                b.drain(ctx, keep)?
            }
            2 if ctx.rng.chance(1, 2) => b.clear(ctx)?,
            _ => {
                let steps = ctx.rng.range(1, 120) as usize;
                b.phase(ctx, steps, true)?
            }
        }
        b.reopen(ctx)?;
        b.full(ctx, true)?;
    }
    ctx.count("operations", ctx.ops.len() as u64);
    Ok(())
}
/// a session boundary after every single operation
pub fn sessions_tight<K: BK, V: BV>(ctx: &mut Ctx) -> R {
    let range = ctx.rng.range(4, 40) as i64;
    let deg = [(3, 3), (3, 4), (4, 3), (4, 4), (5, 3), (3, 6)][(ctx.idx % 6) as usize];
    let mut b = Bp::<K, V>::new(ctx, range, 8, 9, 0, Some(deg))?;
    let range = b.range as usize;
    for round in 0..4 {
        for _ in 0..ctx.rng.range(5, 40) {
            let i = ctx.rng.us(range) as i64;
            if ctx.rng.chance(if round % 2 == 0 { 3 } else { 1 }, 4) {
                let v = b.fresh_value(ctx);
                b.insert(ctx, i, v)?;
            } else {
                b.remove(ctx, i)?;
            }
            b.reopen(ctx)?;
            b.full(ctx, false)?;
        }
        if round == 1 && ctx.rng.chance(1, 3) {
            b.clear(ctx)?;
            b.reopen(ctx)?;
        }
    }
    b.full(ctx, true)
}
/// records of exactly the maximum size, nodes filled to capacity
pub fn full_pages<K: BK, V: BV>(ctx: &mut Ctx) -> R {
    let kpad = *ctx.rng.pick(&[5usize, 6, 8, 16, 40, 120]);
    let vpad = *ctx.rng.pick(&[0usize, 1, 2, 7, 8, 16, 60, 200, 500]);
    let room = K::room(kpad) + V::room(vpad);
    // both degrees so that the pages fit in a block, from the smallest to the largest possible
    let fit = ((3600 / (room + 24)) as usize).max(3);
    let deg = match ctx.rng.below(4) {
        0 if 4000 / (room + 24) >= 3 => None,
        1 => Some((fit.min(3 + ctx.rng.us(3)), 3)),
        2 => Some((3, ((3600 / (K::room(kpad) + 32)) as usize).max(3).min(3 + ctx.rng.us(40)))),
        _ => {
            let d = 3 + ctx.rng.us((fit - 2).min(30));
            Some((d, 3 + ctx.rng.us(4)))
        }
    };
    let dl = deg.map(|d| d.0).unwrap_or((4080 / room.max(1)) as usize + 1) as i64;
    let n = (dl * 5 + 8).min(K::MAX).min(2500);
    let mut b = Bp::<K, V>::new(ctx, n, kpad, vpad, 0, deg)?;
    let n = b.range;
    let mut order: Vec<i64> = (0..n).collect();
    match ctx.rng.below(3) {
        0 => {}
        1 => order.reverse(),
        _ => ctx.rng.shuffle(&mut order),
    }
    // values that are multiples of three are of maximum size
    for i in &order {
        let v = 3 * (1 + ctx.rng.below(1 << 20));
        b.insert(ctx, *i, v)?;
    }
    b.full(ctx, true)?;
    // rewrite every leaf, then merge and refill
    for _ in 0..3 {
        for _ in 0..(n / 2).min(200) {
            let i = ctx.rng.us(n as usize) as i64;
            match ctx.rng.below(3) {
                0 => b.remove(ctx, i)?,
                1 => {
                    let v = 3 * (1 + ctx.rng.below(1 << 20));
                    b.insert(ctx, i, v)?
                }
                _ => {
                    let v = 1 + ctx.rng.below(1 << 20);
                    b.insert(ctx, i, v)?
                }
            }
        }
        b.full(ctx, true)?;
    }
    b.reopen(ctx)?;
    for i in 0..n {
        let v = 3 * (1 + ctx.rng.below(1 << 20));
        b.insert(ctx, i, v)?;
    }
    b.full(ctx, true)?;
    b.reopen(ctx)?;
    b.full(ctx, true)?;
    ctx.count("records_of_maximum_size", 2 * n as u64);
    Ok(())
}
/// the most nodes n entries can need at the given minimum fills
fn most_nodes(n: usize, dl: usize, di: usize) -> u64 {
    let mut level = (n / ((dl + 1) / 2)).max(1);
    let mut total = level;
    while level > 1 {
        level = (level / ((di + 1) / 2)).max(1);
        total += level;
    }
    total as u64 + 1
}
pub fn file_size<K: BK, V: BV>(ctx: &mut Ctx) -> R {
    let (dl, di) = *ctx.rng.pick(&[(3usize, 3usize), (4, 4), (3, 5), (5, 3), (6, 4), (8, 8), (4, 3), (3, 4)]);
    // the page size, from what one more page adds to the file
    let mut page = u64::MAX;
    let empty;
    {
        let mut c = Bp::<K, V>::new(ctx, 200, 8, 9, 0, Some((dl, di)))?;
        empty = c.file_len();
        let mut last = empty;
        for i in 0..c.range.min(200) {
            let v = c.fresh_value(ctx);
            c.insert(ctx, i, v)?;
            let l = c.file_len();
            if l > last {
                page = page.min(l - last);
                last = l;
            }
        }
        ck!(page < u64::MAX && page <= empty, "the file never grew while {} entries were inserted at degrees {},{}", c.range.min(200), dl, di);
    }
    let range = *ctx.rng.pick(&[12i64, 40, 150, 400]);
    let mut b = Bp::<K, V>::new(ctx, range, 8, 9, 0, Some((dl, di)))?;
    let range = b.range;
    let cycles = ctx.rng.range(60, 160);
    let style = ctx.rng.below(8);
    let reopen = ctx.rng.below(3);
    ctx.note(format!("{} cycles, style {}, reopening {}", cycles, style, reopen));
    let mut worst = 0u64;
    for c in 0..cycles {
        // grow
        let upto = if style == 5 { range } else { ctx.rng.range(1, range as u64) as i64 };
        let mut ks: Vec<i64> = (0..upto).collect();
        match style {
            0 | 5 => {}
            1 => ks.reverse(),
            _ => ctx.rng.shuffle(&mut ks),
        }
        for k in &ks {
            if !b.model.contains_key(k) {
                let v = b.fresh_value(ctx);
                b.insert(ctx, *k, v)?;
            }
        }
        if reopen == 1 {
            b.reopen(ctx)?;
        }
        let bound = empty + page * (4 + most_nodes(b.peak, dl, di));
        let l = b.file_len();
        worst = worst.max(100 * l / bound);
        ck!(l <= bound, "after {} grow/shrink cycles the file has {} bytes; {} entries need at most {} pages of {} bytes ({} bytes)", c, l, b.peak, most_nodes(b.peak, dl, di), page, bound);
        // shrink
        if style == 7 {
            b.clear(ctx)?;
        } else if style == 6 {
            // stays around the same size, keys wander
            for _ in 0..upto {
                let i = ctx.rng.us(range as usize) as i64;
                b.remove(ctx, i)?;
                let i = ctx.rng.us(range as usize) as i64;
                let v = b.fresh_value(ctx);
                b.insert(ctx, i, v)?;
            }
        } else {
            let mut ks: Vec<i64> = b.model.keys().cloned().collect();
            match style {
                2 => ks.reverse(),
                3 | 5 => ctx.rng.shuffle(&mut ks),
                _ => {}
            }
            let keep = if style == 4 { ctx.rng.us(ks.len() + 1) } else { 0 };
            ks.truncate(ks.len() - keep);
            for k in ks {
                b.remove(ctx, k)?;
            }
        }
        if reopen == 2 {
            b.reopen(ctx)?;
        }
        if c % 16 == 15 {
            b.full(ctx, false)?;
        }
    }
    b.full(ctx, true)?;
    let bound = empty + page * (4 + most_nodes(b.peak, dl, di));
    ck!(b.file_len() <= bound, "at the end the file has {} bytes, more than {}", b.file_len(), bound);
    ctx.count("cycles", cycles);
    ctx.max("max_file_percent_of_bound", worst);
    ctx.count("operations", ctx.ops.len() as u64);
    Ok(())
}
/// maps made where files already are, opened where none are, and side by side
pub fn creation<K: BK, V: BV>(ctx: &mut Ctx) -> R {
    let range = *ctx.rng.pick(&[6i64, 20, 80]);
    let kp = ctx.rng.range(5, 14) as usize;
    let path = fresh();
    // nothing to open
    ctx.op("open_missing", NOARG, NOARG);
    ck!(guard("open", || BpMap::<K, V>::open(&path).is_err())?, "opening a map that does not exist succeeded");
    ck!(!path.exists(), "opening a map that does not exist made a file");
    let short = ctx.rng.us(40);
    let bytes: Vec<u8> = (0..short).map(|_| ctx.rng.below(256) as u8).collect();
    io!(std::fs::write(&path, &bytes), "writing a file");
    ctx.op("open_short", short as i64, NOARG);
    ck!(guard("open", || BpMap::<K, V>::open(&path).is_err())?, "opening a file of {} bytes as a map succeeded", short);
    ckeq!(io!(std::fs::read(&path), "reading the file"), bytes, "bytes of a file that could not be opened");
    // something is there already
    match ctx.rng.below(3) {
        0 => {
            let bytes: Vec<u8> = (0..ctx.rng.below(20_000)).map(|_| ctx.rng.below(256) as u8).collect();
            io!(std::fs::write(&path, &bytes), "writing a file");
        }
        _ => {
            let deg = degrees(ctx);
            let (r, vp) = (*ctx.rng.pick(&[6i64, 60, 300]), ctx.rng.us(30));
            let mut old = Bp::<K, V>::new_at(ctx, path.clone(), r, kp, vp, 0, deg)?;
            let steps = ctx.rng.range(0, 200) as usize;
            old.phase(ctx, steps, true)?;
            // its file outlives it
            old.path = fresh();
        }
    }
    let (deg, vp) = (degrees(ctx), ctx.rng.us(30));
    let mut b = Bp::<K, V>::new_at(ctx, path, range, kp, vp, 0, deg)?;
    ctx.count("maps_created_over_files", 1);
    b.full(ctx, true)?;
    {
        // what was in the file before leaves nothing behind in its size
        let new = Bp::<K, V>::new_at(ctx, fresh(), range, kp, vp, 0, deg)?;
        let sizes = (io!(std::fs::metadata(&b.path), "metadata").len(), io!(std::fs::metadata(&new.path), "metadata").len());
        ckeq!(sizes.0, sizes.1, "size of an empty map created over a file, and of one created where there was none");
    }
    if ctx.rng.chance(1, 2) {
        b.reopen(ctx)?;
        b.full(ctx, true)?;
    }
    // two maps side by side
    let (deg, vp, r) = (degrees(ctx), ctx.rng.us(30), *ctx.rng.pick(&[6i64, 20, 80]));
    let mut c = Bp::<K, V>::new(ctx, r, kp, vp, 0, deg)?;
    for _ in 0..ctx.rng.range(2, 8) {
        let steps = ctx.rng.range(1, 60) as usize;
        b.phase(ctx, steps, true)?;
        let steps = ctx.rng.range(1, 60) as usize;
        c.phase(ctx, steps, true)?;
        if ctx.rng.chance(1, 3) {
            b.reopen(ctx)?;
        }
        if ctx.rng.chance(1, 3) {
            c.clear(ctx)?;
        }
        b.full(ctx, true)?;
        c.full(ctx, true)?;
    }
    drop(c);
    b.reopen(ctx)?;
    b.full(ctx, true)
}
