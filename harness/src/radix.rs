//! RadixMap and RadixSet against a byte-sorted map (C15) and the longest-prefix query (C16).
use crate::core::*;
use extended_collections::radix::{RadixMap, RadixSet};
use std::collections::BTreeMap;

pub trait RV: 'static {
    fn mk(v: u64) -> Self;
    fn val(&self) -> u64;
    fn set(&mut self, v: u64);
}
impl RV for u64 {
    fn mk(v: u64) -> Self { v }
    fn val(&self) -> u64 { *self }
    fn set(&mut self, v: u64) { *self = v }
}
impl RV for String {
    fn mk(v: u64) -> Self { format!("v{}", v) }
    fn val(&self) -> u64 { self[1..].parse().unwrap_or(u64::MAX) }
    fn set(&mut self, v: u64) { *self = Self::mk(v) }
}
impl RV for () {
    fn mk(_: u64) -> Self {}
    fn val(&self) -> u64 { 0 }
    fn set(&mut self, _: u64) {}
}
pub trait Rad<V: RV>: Sized + 'static {
    const NAME: &'static str;
    const SET: bool;
    fn new() -> Self;
    fn dflt() -> Self;
    fn insert(&mut self, k: &[u8], v: V) -> Option<(Vec<u8>, V)>;
    fn remove(&mut self, k: &[u8]) -> Option<(Vec<u8>, V)>;
    fn get(&self, k: &[u8]) -> Option<u64>;
    fn get_mut(&mut self, k: &[u8], v: u64) -> Option<u64>;
    fn contains(&self, k: &[u8]) -> bool;
    fn index(&self, k: &[u8]) -> u64;
    fn index_mut(&mut self, k: &[u8], v: u64);
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn clear(&mut self);
    fn min(&self) -> Option<Vec<u8>>;
    fn max(&self) -> Option<Vec<u8>>;
    fn glp(&self, k: &[u8]) -> Vec<Vec<u8>>;
    fn iter<'a>(&'a self, by_ref: bool) -> Box<dyn Iterator<Item = (Vec<u8>, u64)> + 'a>;
    fn iter_mut<'a>(&'a mut self, by_ref: bool, f: &'a mut dyn FnMut(usize, Vec<u8>, u64) -> Option<u64>);
    fn consume(self) -> Box<dyn Iterator<Item = (Vec<u8>, V)>>;
}
impl<V: RV> Rad<V> for RadixMap<V> {
    const NAME: &'static str = "RadixMap";
    const SET: bool = false;
    fn new() -> Self { RadixMap::new() }
    fn dflt() -> Self { Default::default() }
    fn insert(&mut self, k: &[u8], v: V) -> Option<(Vec<u8>, V)> { RadixMap::insert(self, k, v) }
    fn remove(&mut self, k: &[u8]) -> Option<(Vec<u8>, V)> { RadixMap::remove(self, k) }
    fn get(&self, k: &[u8]) -> Option<u64> { RadixMap::get(self, k).map(|v| v.val()) }
    fn get_mut(&mut self, k: &[u8], v: u64) -> Option<u64> {
        RadixMap::get_mut(self, k).map(|x| {
            let o = x.val();
            x.set(v);
            o
        })
    }
    fn contains(&self, k: &[u8]) -> bool { self.contains_key(k) }
    fn index(&self, k: &[u8]) -> u64 { self[k].val() }
    fn index_mut(&mut self, k: &[u8], v: u64) { self[k].set(v) }
    fn len(&self) -> usize { RadixMap::len(self) }
    fn is_empty(&self) -> bool { RadixMap::is_empty(self) }
    fn clear(&mut self) { RadixMap::clear(self) }
    fn min(&self) -> Option<Vec<u8>> { RadixMap::min(self) }
    fn max(&self) -> Option<Vec<u8>> { RadixMap::max(self) }
    fn glp(&self, k: &[u8]) -> Vec<Vec<u8>> { self.get_longest_prefix(k) }
    fn iter<'a>(&'a self, by_ref: bool) -> Box<dyn Iterator<Item = (Vec<u8>, u64)> + 'a> {
        if by_ref { Box::new(IntoIterator::into_iter(self).map(|(k, v)| (k, v.val()))) } else { Box::new(RadixMap::iter(self).map(|(k, v)| (k, v.val()))) }
    }
    fn iter_mut<'a>(&'a mut self, by_ref: bool, f: &'a mut dyn FnMut(usize, Vec<u8>, u64) -> Option<u64>) {
        let it = if by_ref { IntoIterator::into_iter(self) } else { RadixMap::iter_mut(self) };
        for (i, (k, v)) in it.enumerate() {
            match f(i, k, v.val()) {
                Some(n) => v.set(n),
                None => break,
            }
        }
    }
    fn consume(self) -> Box<dyn Iterator<Item = (Vec<u8>, V)>> { Box::new(IntoIterator::into_iter(self)) }
}
impl Rad<()> for RadixSet {
    const NAME: &'static str = "RadixSet";
    const SET: bool = true;
    fn new() -> Self { RadixSet::new() }
    fn dflt() -> Self { Default::default() }
    fn insert(&mut self, k: &[u8], _: ()) -> Option<(Vec<u8>, ())> { RadixSet::insert(self, k).map(|k| (k, ())) }
    fn remove(&mut self, k: &[u8]) -> Option<(Vec<u8>, ())> { RadixSet::remove(self, k).map(|k| (k, ())) }
    fn get(&self, k: &[u8]) -> Option<u64> { if RadixSet::contains(self, k) { Some(0) } else { None } }
    fn get_mut(&mut self, k: &[u8], _: u64) -> Option<u64> { self.get(k) }
    fn contains(&self, k: &[u8]) -> bool { RadixSet::contains(self, k) }
    fn index(&self, k: &[u8]) -> u64 { self.get(k).unwrap() }
    fn index_mut(&mut self, k: &[u8], _: u64) { self.get(k).unwrap(); }
    fn len(&self) -> usize { RadixSet::len(self) }
    fn is_empty(&self) -> bool { RadixSet::is_empty(self) }
    fn clear(&mut self) { RadixSet::clear(self) }
    fn min(&self) -> Option<Vec<u8>> { RadixSet::min(self) }
    fn max(&self) -> Option<Vec<u8>> { RadixSet::max(self) }
    fn glp(&self, k: &[u8]) -> Vec<Vec<u8>> { self.get_longest_prefix(k) }
    fn iter<'a>(&'a self, by_ref: bool) -> Box<dyn Iterator<Item = (Vec<u8>, u64)> + 'a> {
        if by_ref { Box::new(IntoIterator::into_iter(self).map(|k| (k, 0))) } else { Box::new(RadixSet::iter(self).map(|k| (k, 0))) }
    }
    fn iter_mut<'a>(&'a mut self, _: bool, f: &'a mut dyn FnMut(usize, Vec<u8>, u64) -> Option<u64>) {
        for (i, k) in RadixSet::iter(self).enumerate() {
            if f(i, k, 0).is_none() {
                break;
            }
        }
    }
    fn consume(self) -> Box<dyn Iterator<Item = (Vec<u8>, ())>> { Box::new(IntoIterator::into_iter(self).map(|k| (k, ()))) }
}

pub struct Gen {
    alphabet: Vec<u8>,
    maxlen: usize,
    chain: bool,
}
impl Gen {
    pub fn new(rng: &mut Rng) -> Gen {
        let alphabet: Vec<u8> = match rng.below(6) {
            0 => vec![b'a'],
            1 => vec![0, 255],
            2 => vec![b'a', b'b'],
            3 => vec![b'a', b'b', b'c'],
            4 => vec![0, 1, 127, 128, 254, 255],
            _ => (0..=255).collect(),
        };
        let maxlen = *rng.pick(&[2usize, 3, 4, 6, 10]);
        Gen { alphabet, maxlen, chain: rng.chance(1, 6) }
    }
    pub fn key(&self, rng: &mut Rng, model: &BTreeMap<Vec<u8>, u64>) -> Vec<u8> {
        // related to an existing key, or fresh
        if !model.is_empty() && rng.chance(2, 5) {
            let p = self.fresh(rng);
            let base = model.range(p..).next().or_else(|| model.iter().next()).unwrap().0.clone();
            let mut k = base;
            match rng.below(5) {
                0 => {}
                1 => {
                    let n = rng.us(k.len() + 1);
                    k.truncate(n);
                }
                2 => k.push(*rng.pick(&self.alphabet)),
                3 => {
                    if let Some(b) = k.last_mut() {
                        *b = *rng.pick(&self.alphabet);
                    }
                }
                _ => {
                    let f = self.fresh(rng);
                    if k.len() < 40 {
                        k.extend(f);
                    }
                }
            }
            return k;
        }
        self.fresh(rng)
    }
    fn fresh(&self, rng: &mut Rng) -> Vec<u8> {
        if self.chain {
            return vec![self.alphabet[0]; rng.us(30)];
        }
        let n = rng.us(self.maxlen + 1);
        (0..n).map(|_| *rng.pick(&self.alphabet)).collect()
    }
}
fn show(k: &[u8]) -> String {
    if k.len() > 400 {
        return format!("{:?}.. of {} bytes", &k[..8], k.len());
    }
    format!("{:?}", k)
}
fn kop(ctx: &mut Ctx, name: &'static str, k: &[u8]) {
    // short keys are packed into the op; the full key goes to the notes only when replaying
    let mut x: i64 = k.len() as i64;
    for b in k.iter().take(7) {
        x = (x << 8) | *b as i64;
    }
    if ctx.verbose {
        ctx.note(format!("{}({})", name, show(k)));
    }
    ctx.op(name, x, k.len() as i64);
}
pub struct RH<V: RV, M: Rad<V>> {
    pub m: Option<M>,
    pub model: BTreeMap<Vec<u8>, u64>,
    _p: std::marker::PhantomData<fn() -> V>,
}
impl<V: RV, M: Rad<V>> RH<V, M> {
    pub fn new(dflt: bool) -> Self {
        RH { m: Some(if dflt { M::dflt() } else { M::new() }), model: BTreeMap::new(), _p: std::marker::PhantomData }
    }
    pub fn v(&self, v: u64) -> u64 {
        if M::SET { 0 } else { v }
    }
    pub fn full(&mut self, ctx: &mut Ctx) -> R {
        ctx.count("full_state_comparisons", 1);
        let m = self.m.as_ref().unwrap();
        ckeq!(m.len(), self.model.len(), "{}: len()", M::NAME);
        ckeq!(m.is_empty(), self.model.is_empty(), "{}: is_empty()", M::NAME);
        ckeq!(m.min(), self.model.keys().next().cloned(), "{}: min()", M::NAME);
        ckeq!(m.max(), self.model.keys().next_back().cloned(), "{}: max()", M::NAME);
        for by_ref in [false, true] {
            let got: Vec<_> = m.iter(by_ref).take(self.model.len() + 2).collect();
            let exp: Vec<_> = self.model.iter().map(|(k, v)| (k.clone(), *v)).collect();
            if got != exp {
                let at = got.iter().zip(&exp).position(|(a, b)| a != b).unwrap_or(got.len().min(exp.len()));
                return Err(format!("{}: iter yields {} elements for {}; element {} is {:?}, model says {:?}", M::NAME, got.len(), exp.len(), at, got.get(at), exp.get(at)));
            }
        }
        Ok(())
    }
    pub fn lookups(&mut self, ctx: &mut Ctx, k: &[u8]) -> R {
        let m = self.m.as_mut().unwrap();
        ckeq!(m.get(k), self.model.get(k).cloned(), "{}: get({})", M::NAME, show(k));
        ckeq!(m.contains(k), self.model.contains_key(k), "{}: contains({})", M::NAME, show(k));
        let _ = ctx;
        Ok(())
    }
    pub fn step(&mut self, ctx: &mut Ctx, g: &Gen, pi: u64, pr: u64) -> R {
        let k = g.key(&mut ctx.rng, &self.model);
        let x = ctx.rng.below(100);
        let v = ctx.rng.below(1 << 20);
        let set = M::SET;
        if x < pi {
            kop(ctx, "insert", &k);
            let got = self.m.as_mut().unwrap().insert(&k, V::mk(v)).map(|(k, v)| (k, v.val()));
            let v = self.v(v);
            let exp = self.model.insert(k.clone(), v).map(|v| (k.clone(), v));
            ckeq!(got, exp, "{}: insert({})", M::NAME, show(&k));
        } else if x < pi + pr {
            kop(ctx, "remove", &k);
            let got = self.m.as_mut().unwrap().remove(&k).map(|(k, v)| (k, v.val()));
            let exp = self.model.remove(&k).map(|v| (k.clone(), v));
            ckeq!(got, exp, "{}: remove({})", M::NAME, show(&k));
        } else {
            match ctx.rng.below(10) {
                0..=3 => {
                    kop(ctx, "get", &k);
                    self.lookups(ctx, &k)?;
                }
                4 | 5 => {
                    kop(ctx, "get_mut", &k);
                    let got = self.m.as_mut().unwrap().get_mut(&k, v);
                    let exp = self.model.get_mut(&k).map(|x| std::mem::replace(x, if set { 0 } else { v }));
                    ckeq!(got, exp, "{}: get_mut({})", M::NAME, show(&k));
                }
                6 => {
                    let m = self.m.as_mut().unwrap();
                    if let Some(x) = self.model.get_mut(&k) {
                        kop(ctx, "index", &k);
                        ckeq!(guard("index", || m.index(&k))?, *x, "{}: map[{}]", M::NAME, show(&k));
                        guard("index_mut", || m.index_mut(&k, v))?;
                        *x = if set { 0 } else { v };
                    } else if ctx.rng.chance(1, 6) {
                        ck!(panics(|| { m.index(&k); }), "{}: map[{}] on an absent key did not panic", M::NAME, show(&k));
                        ck!(panics(|| { m.index_mut(&k, v); }), "{}: mutable map[{}] on an absent key did not panic", M::NAME, show(&k));
                    }
                }
                7 => {
                    ctx.op("iter_mut", NOARG, NOARG);
                    let by_ref = ctx.rng.chance(1, 2);
                    let n = self.model.len();
                    let stop = if ctx.rng.chance(1, 2) { n + 1 } else { ctx.rng.us(n + 1) };
                    let exp: Vec<(Vec<u8>, u64)> = self.model.iter().map(|(k, v)| (k.clone(), *v)).collect();
                    let mut err = None;
                    let mut seen = 0;
                    self.m.as_mut().unwrap().iter_mut(by_ref, &mut |i, k, x| {
                        if i >= stop {
                            return None;
                        }
                        if exp.get(i) != Some(&(k.clone(), x)) {
                            err = Some(format!("{}: iter_mut element {} is {:?}, model says {:?}", M::NAME, i, (k, x), exp.get(i)));
                            return None;
                        }
                        seen += 1;
                        Some(v + i as u64)
                    });
                    if let Some(e) = err {
                        return Err(e);
                    }
                    ck!(seen == stop.min(n), "{}: iter_mut yielded {} of {} elements", M::NAME, seen, n);
                    for (i, x) in self.model.values_mut().enumerate().take(seen) {
                        *x = if set { 0 } else { v + i as u64 };
                    }
                }
                8 => {
                    if ctx.rng.chance(1, 6) {
                        ctx.op("clear", NOARG, NOARG);
                        self.m.as_mut().unwrap().clear();
                        self.model.clear();
                        self.full(ctx)?;
                    }
                }
                _ => {
                    if ctx.rng.chance(1, 4) {
                        ctx.op("into_iter", NOARG, NOARG);
                        let n = self.model.len();
                        let stop = if ctx.rng.chance(1, 2) { n + 1 } else { ctx.rng.us(n + 1) };
                        let mut it = self.m.take().unwrap().consume();
                        let exp: Vec<_> = std::mem::take(&mut self.model).into_iter().collect();
                        let mut m = M::new();
                        for i in 0..stop {
                            let g = it.next();
                            ckeq!(g.as_ref().map(|(k, v)| (k.clone(), v.val())), exp.get(i).cloned(), "{}: into_iter element {}", M::NAME, i);
                            if let Some((k, v)) = g {
                                if ctx.rng.chance(2, 3) {
                                    self.model.insert(k.clone(), v.val());
                                    m.insert(&k, v);
                                }
                            }
                        }
                        drop(it);
                        self.m = Some(m);
                        self.full(ctx)?;
                    }
                }
            }
        }
        Ok(())
    }
}
pub fn history<V: RV, M: Rad<V>>(ctx: &mut Ctx) -> R {
    let g = Gen::new(&mut ctx.rng);
    ctx.note(format!("{} alphabet {} maxlen {} chain {}", M::NAME, g.alphabet.len(), g.maxlen, g.chain));
    let mut h = RH::<V, M>::new(ctx.rng.chance(1, 4));
    let mut n = 0u64;
    for _ in 0..ctx.rng.range(2, 6) {
        let (pi, pr) = *ctx.rng.pick(&[(55u64, 15u64), (20, 50), (40, 40), (15, 15)]);
        for _ in 0..sz(ctx.rng.range(10, 90)) {
            h.step(ctx, &g, pi, pr)?;
            n += 1;
            if n % 5 == 0 {
                h.full(ctx)?;
            }
        }
        ctx.max("max_len", h.model.len() as u64);
        h.full(ctx)?;
        for _ in 0..sz(30) {
            let k = g.key(&mut ctx.rng, &h.model);
            h.lookups(ctx, &k)?;
        }
    }
    if ctx.rng.chance(1, 2) {
        let mut ks: Vec<_> = h.model.keys().cloned().collect();
        ctx.rng.shuffle(&mut ks);
        for k in ks {
            kop(ctx, "remove", &k);
            let got = h.m.as_mut().unwrap().remove(&k).map(|(k, v)| (k, v.val()));
            let exp = h.model.remove(&k).map(|v| (k.clone(), v));
            ckeq!(got, exp, "{}: remove({})", M::NAME, show(&k));
            h.full(ctx)?;
        }
        for _ in 0..10 {
            h.step(ctx, &g, 80, 10)?;
            h.full(ctx)?;
        }
    }
    ctx.count("operations", n);
    Ok(())
}
/// all sets of at most 5 keys over {"", a, b, aa, ab, ba, bb, aab, aba, abab..} in random insertion and removal order
pub fn small<V: RV, M: Rad<V>>(ctx: &mut Ctx) -> R {
    const POOL: [&[u8]; 14] = [b"", b"a", b"b", b"aa", b"ab", b"ba", b"bb", b"aab", b"aba", b"abb", b"abab", b"ababa", b"c", b"abc"];
    let mut mask = ctx.idx % (1 << 14);
    if ctx.idx >= 1 << 14 {
        mask = ctx.rng.below(1 << 14);
    }
    let mut ks: Vec<&[u8]> = (0..14).filter(|i| mask >> i & 1 == 1).map(|i| POOL[i as usize]).collect();
    ctx.rng.shuffle(&mut ks);
    let mut h = RH::<V, M>::new(false);
    for k in &ks {
        kop(ctx, "insert", k);
        ck!(h.m.as_mut().unwrap().insert(k, V::mk(1)).is_none(), "{}: insert({}) found the key", M::NAME, show(k));
        let v = h.v(1);
        h.model.insert(k.to_vec(), v);
    }
    h.full(ctx)?;
    ctx.rng.shuffle(&mut ks);
    for k in &ks {
        for p in POOL.iter() {
            h.lookups(ctx, p)?;
        }
        kop(ctx, "remove", k);
        let got = h.m.as_mut().unwrap().remove(k).map(|(k, v)| (k, v.val()));
        let exp = h.model.remove(*k).map(|v| (k.to_vec(), v));
        ckeq!(got, exp, "{}: remove({})", M::NAME, show(k));
        h.full(ctx)?;
    }
    Ok(())
}
/// wide nodes and long keys
pub fn wide<V: RV, M: Rad<V>>(ctx: &mut Ctx) -> R {
    let mut h = RH::<V, M>::new(false);
    let len = ctx.rng.range(1, 300) as usize;
    let prefix: Vec<u8> = (0..len).map(|_| ctx.rng.below(256) as u8).collect();
    ctx.note(format!("{} prefix length {}", M::NAME, len));
    ctx.sig(ctx.rng.clone().u());
    let mut bytes: Vec<u8> = (0..=255).collect();
    ctx.rng.shuffle(&mut bytes);
    for b in &bytes {
        let at = ctx.rng.us(len + 1);
        let mut k = prefix[..at].to_vec();
        k.push(*b);
        if ctx.rng.chance(1, 3) {
            k.extend_from_slice(&prefix);
        }
        let v = ctx.rng.below(1000);
        let got = h.m.as_mut().unwrap().insert(&k, V::mk(v)).map(|(k, v)| (k, v.val()));
        let v = h.v(v);
        let exp = h.model.insert(k.clone(), v).map(|v| (k.clone(), v));
        ckeq!(got, exp, "{}: insert({})", M::NAME, show(&k));
    }
    h.full(ctx)?;
    let mut ks: Vec<_> = h.model.keys().cloned().collect();
    ctx.rng.shuffle(&mut ks);
    for (i, k) in ks.iter().enumerate() {
        h.lookups(ctx, k)?;
        let got = h.m.as_mut().unwrap().remove(k).map(|(k, v)| (k, v.val()));
        let exp = h.model.remove(k).map(|v| (k.clone(), v));
        ckeq!(got, exp, "{}: remove({})", M::NAME, show(k));
        if i % 20 == 0 {
            h.full(ctx)?;
        }
    }
    h.full(ctx)
}
/// more keys than fit 16 bits
pub fn huge<V: RV, M: Rad<V>>(ctx: &mut Ctx) -> R {
    let mut h = RH::<V, M>::new(false);
    let n = ctx.rng.range(66_000, 90_000);
    let (letters, len) = [(256u64, 4u64), (2, 17), (16, 6), (3, 12)][(ctx.idx % 4) as usize];
    ctx.note(format!("{} {} keys of up to {} bytes over {} letters", M::NAME, n, len, letters));
    ctx.sig(ctx.rng.clone().u());
    let mut ks: Vec<Vec<u8>> = Vec::new();
    for i in 0..n {
        let l = if ctx.rng.chance(1, 4) { ctx.rng.below(len + 1) } else { len };
        let k: Vec<u8> = (0..l).map(|_| (ctx.rng.below(letters) * 255 / (letters - 1)) as u8).collect();
        let v = ctx.rng.below(1000);
        let got = h.m.as_mut().unwrap().insert(&k, V::mk(v)).map(|(k, v)| (k, v.val()));
        let v = h.v(v);
        let exp = h.model.insert(k.clone(), v).map(|v| (k.clone(), v));
        ckeq!(got, exp, "{}: insert({})", M::NAME, show(&k));
        if i % 50 == 0 {
            let q = ks.get(ctx.rng.us(ks.len() + 1)).unwrap_or(&k).clone();
            h.lookups(ctx, &q)?;
        }
        ks.push(k);
    }
    h.full(ctx)?;
    ctx.max("max_len", h.model.len() as u64);
    ctx.rng.shuffle(&mut ks);
    for (i, k) in ks.iter().enumerate() {
        let got = h.m.as_mut().unwrap().remove(k).map(|(k, v)| (k, v.val()));
        let exp = h.model.remove(k).map(|v| (k.clone(), v));
        ckeq!(got, exp, "{}: remove({})", M::NAME, show(k));
        if i % 50 == 0 {
            h.lookups(ctx, k)?;
        }
        if i % 20_000 == 0 {
            h.full(ctx)?;
        }
    }
    h.full(ctx)
}
// ------------------------------------------------------------------ C16
fn common(a: &[u8], b: &[u8]) -> usize {
    a.iter().zip(b).take_while(|(x, y)| x == y).count()
}
pub fn glp_oracle(model: &BTreeMap<Vec<u8>, u64>, q: &[u8]) -> Vec<Vec<u8>> {
    let l = model.keys().map(|k| common(k, q)).max().unwrap_or(0);
    if l >= 1 || q.is_empty() {
        model.keys().filter(|k| common(k, q) == l).cloned().collect()
    } else if model.contains_key(&Vec::new()) {
        vec![Vec::new()]
    } else {
        Vec::new()
    }
}
pub fn glp<V: RV, M: Rad<V>>(ctx: &mut Ctx) -> R {
    let g = Gen::new(&mut ctx.rng);
    ctx.note(format!("{} alphabet {} maxlen {} chain {}", M::NAME, g.alphabet.len(), g.maxlen, g.chain));
    let mut h = RH::<V, M>::new(ctx.rng.chance(1, 4));
    for _ in 0..ctx.rng.range(2, 6) {
        let (pi, pr) = *ctx.rng.pick(&[(55u64, 15u64), (20, 50), (40, 40)]);
        for _ in 0..ctx.rng.range(5, 60) {
            h.step(ctx, &g, pi, pr)?;
            if ctx.rng.chance(1, 3) {
                let q = g.key(&mut ctx.rng, &h.model);
                let exp = glp_oracle(&h.model, &q);
                ckeq!(h.m.as_ref().unwrap().glp(&q), exp, "{}: get_longest_prefix({}) over {} keys", M::NAME, show(&q), h.model.len());
                ctx.count("prefix_queries", 1);
                if exp.len() > 1 {
                    ctx.count("prefix_queries_with_several_keys", 1);
                }
            }
        }
        for _ in 0..20 {
            let mut q = g.key(&mut ctx.rng, &h.model);
            if ctx.rng.chance(1, 4) {
                q.extend_from_slice(b"xyz");
            }
            let exp = glp_oracle(&h.model, &q);
            ckeq!(h.m.as_ref().unwrap().glp(&q), exp, "{}: get_longest_prefix({}) over {} keys", M::NAME, show(&q), h.model.len());
            ctx.count("prefix_queries", 1);
        }
        let exp = glp_oracle(&h.model, b"");
        ckeq!(h.m.as_ref().unwrap().glp(b""), exp, "{}: get_longest_prefix of the empty key", M::NAME);
    }
    Ok(())
}
/// all subsets of a small pool, all queries of length <= 4 over {a, b, c}
pub fn glp_small<V: RV, M: Rad<V>>(ctx: &mut Ctx) -> R {
    const POOL: [&[u8]; 10] = [b"", b"a", b"b", b"aa", b"ab", b"ba", b"aab", b"aba", b"abab", b"bab"];
    let mask = ctx.idx % (1 << 10);
    let mut h = RH::<V, M>::new(false);
    let mut ks: Vec<usize> = (0..10).collect();
    ctx.rng.shuffle(&mut ks);
    // insert everything, then remove what is not in the subset: the answer must not depend on the history
    let history = ctx.idx / (1 << 10) % 2 == 1;
    for i in &ks {
        if history || mask >> i & 1 == 1 {
            kop(ctx, "insert", POOL[*i]);
            h.m.as_mut().unwrap().insert(POOL[*i], V::mk(1));
            let v = h.v(1);
            h.model.insert(POOL[*i].to_vec(), v);
        }
    }
    if history {
        ctx.rng.shuffle(&mut ks);
        for i in &ks {
            if mask >> i & 1 == 0 {
                kop(ctx, "remove", POOL[*i]);
                h.m.as_mut().unwrap().remove(POOL[*i]);
                h.model.remove(POOL[*i]);
            }
        }
    }
    let mut qs: Vec<Vec<u8>> = vec![vec![]];
    let mut i = 0;
    while i < qs.len() {
        if qs[i].len() < 4 {
            for b in b"abc" {
                let mut q = qs[i].clone();
                q.push(*b);
                qs.push(q);
            }
        }
        i += 1;
    }
    for q in &qs {
        ckeq!(h.m.as_ref().unwrap().glp(q), glp_oracle(&h.model, q), "{}: get_longest_prefix({}) over {:?}", M::NAME, show(q), h.model.keys().collect::<Vec<_>>());
        ctx.count("prefix_queries", 1);
    }
    h.full(ctx)
}
/// few very long keys which part at lengths around powers of two
pub fn long<V: RV, M: Rad<V>, const PREFIX: bool>(ctx: &mut Ctx) -> R {
    let mut h = RH::<V, M>::new(false);
    let most = *ctx.rng.pick(&[300usize, 1100, 5000, 34_000, 70_000]);
    let base: Vec<u8> = (0..most).map(|_| ctx.rng.below(256) as u8).collect();
    let mut cuts: Vec<usize> = Vec::new();
    for p in [7, 8, 9, 10, 12, 15, 16] {
        for d in 0..3 {
            cuts.push((1usize << p) + d - 1);
        }
    }
    cuts.retain(|c| *c <= most);
    // a few of the cuts, so that long runs of a key belong to one node
    let mut some = cuts.clone();
    ctx.rng.shuffle(&mut some);
    some.truncate(ctx.rng.range(2, 7) as usize);
    some.push(most);
    if ctx.rng.chance(1, 2) {
        some.push(0);
    }
    ctx.note(format!("{} keys of up to {} bytes parting at {:?}", M::NAME, most, some));
    ctx.sig(ctx.rng.clone().u());
    for _ in 0..ctx.rng.range(8, 40) {
        let mut k = base[..*ctx.rng.pick(&some)].to_vec();
        if ctx.rng.chance(1, 2) {
            k.push(*ctx.rng.pick(&[0u8, 1, 127, 128, 255]));
            if ctx.rng.chance(1, 2) {
                let t = *ctx.rng.pick(&cuts);
                k.extend_from_slice(&base[..t]);
            }
        }
        ctx.max("max_key_length", k.len() as u64);
        let v = ctx.rng.below(1000);
        if ctx.rng.chance(3, 5) {
            kop(ctx, "insert", &k);
            let got = h.m.as_mut().unwrap().insert(&k, V::mk(v)).map(|(k, v)| (k, v.val()));
            let v = h.v(v);
            let exp = h.model.insert(k.clone(), v).map(|v| (k.clone(), v));
            ck!(got == exp, "{}: insert({}) answers {:?}, model says {:?}", M::NAME, show(&k), got.map(|x| (show(&x.0), x.1)), exp.map(|x| (show(&x.0), x.1)));
        } else {
            kop(ctx, "remove", &k);
            let got = h.m.as_mut().unwrap().remove(&k).map(|(k, v)| (k, v.val()));
            let exp = h.model.remove(&k).map(|v| (k.clone(), v));
            ck!(got == exp, "{}: remove({}) answers {:?}, model says {:?}", M::NAME, show(&k), got.map(|x| (show(&x.0), x.1)), exp.map(|x| (show(&x.0), x.1)));
        }
        h.full(ctx).map_err(|e| e.chars().take(300).collect::<String>())?;
        let others: Vec<Vec<u8>> = h.model.keys().cloned().collect();
        for q in &others {
            h.lookups(ctx, q)?;
        }
        h.lookups(ctx, &k)?;
        let cut = *ctx.rng.pick(&cuts);
        h.lookups(ctx, &base[..cut])?;
        if PREFIX {
            for q in [&k[..], &base[..cut], &base[..]] {
                let (got, exp) = (h.m.as_ref().unwrap().glp(q), glp_oracle(&h.model, q));
                ck!(
                    got == exp,
                    "{}: get_longest_prefix({}) yields {} keys of lengths {:?}, model says {:?}",
                    M::NAME, show(q), got.len(), got.iter().map(Vec::len).collect::<Vec<_>>(), exp.iter().map(Vec::len).collect::<Vec<_>>()
                );
                ctx.count("prefix_queries", 1);
            }
        }
    }
    Ok(())
}
/// chains of nested keys of any depth, on a small stack: every prefix of one long string may be a key, and each of its bytes
/// may have a neighbour
struct Deep<V: RV, M: Rad<V>> {
    m: M,
    base: Vec<u8>,
    /// value of the prefix of this length, and of the same prefix followed by a byte the base does not go on with
    at: Vec<[Option<u64>; 2]>,
    len: usize,
    _p: std::marker::PhantomData<fn() -> V>,
}
impl<V: RV, M: Rad<V>> Deep<V, M> {
    fn fork(&self, l: usize) -> u8 {
        self.base.get(l).map_or(7, |b| b ^ 1)
    }
    fn key(&self, l: usize, f: usize) -> Vec<u8> {
        let mut k = Vec::with_capacity(l + 2);
        k.extend_from_slice(&self.base[..l]);
        if f == 1 {
            k.push(self.fork(l));
        }
        k
    }
    fn v(&self, v: u64) -> u64 {
        if M::SET { 0 } else { v }
    }
    fn insert(&mut self, l: usize, f: usize, v: u64) -> R {
        let k = self.key(l, f);
        let got = self.m.insert(&k, V::mk(v)).map(|(k, v)| (k, v.val()));
        let v = self.v(v);
        let exp = self.at[l][f].replace(v);
        self.len += exp.is_none() as usize;
        ck!(got == exp.map(|v| (k, v)), "{}: insert of a key of {} bytes returned a wrong entry", M::NAME, l + f);
        Ok(())
    }
    fn remove(&mut self, l: usize, f: usize) -> R {
        let k = self.key(l, f);
        let got = self.m.remove(&k).map(|(k, v)| (k, v.val()));
        let exp = self.at[l][f].take();
        self.len -= exp.is_some() as usize;
        ck!(got == exp.map(|v| (k, v)), "{}: remove of a key of {} bytes returned a wrong entry", M::NAME, l + f);
        Ok(())
    }
    /// keys in ascending order, as (length of the prefix, fork, value)
    fn sorted(&self) -> Vec<(usize, usize, u64)> {
        let mut out = Vec::new();
        let mut back = Vec::new();
        for l in 0..self.at.len() {
            if let Some(v) = self.at[l][0] {
                out.push((l, 0, v));
            }
            if let Some(v) = self.at[l][1] {
                if l == self.base.len() || self.fork(l) < self.base[l] {
                    out.push((l, 1, v));
                } else {
                    back.push((l, 1, v));
                }
            }
        }
        out.extend(back.into_iter().rev());
        out
    }
    fn ends(&self) -> R {
        let s = self.sorted();
        ckeq!(self.m.len(), self.len, "{}: len()", M::NAME);
        ck!(self.m.min() == s.first().map(|x| self.key(x.0, x.1)), "{}: min()", M::NAME);
        ck!(self.m.max() == s.last().map(|x| self.key(x.0, x.1)), "{}: max()", M::NAME);
        Ok(())
    }
    fn scan(&self, by_ref: bool, stop: usize) -> R {
        let s = self.sorted();
        let mut n = 0;
        for (i, (k, v)) in self.m.iter(by_ref).take(stop.min(s.len() + 1)).enumerate() {
            let ok = s.get(i).map_or(false, |x| k.len() == x.0 + x.1 && v == x.2 && k.starts_with(&self.base[..x.0]) && (x.1 == 0 || k[x.0] == self.fork(x.0)));
            ck!(ok, "{}: element {} of an iteration is wrong", M::NAME, i);
            n += 1;
        }
        ckeq!(n, stop.min(s.len()), "{}: elements of an iteration", M::NAME);
        Ok(())
    }
    /// a query near the lower end of the chain, so that the answer is short
    fn glp(&self, rng: &mut Rng) -> R {
        let depth = match (0..self.at.len()).rev().find(|l| self.at[*l] != [None, None]) {
            Some(d) => d,
            None => return Ok(()),
        };
        let l = depth - rng.us(depth.min(20) + 1);
        if l == 0 {
            return Ok(());
        }
        let mut q = self.base[..l].to_vec();
        let go_on = rng.below(3);
        let mut tail: Vec<_> = self.sorted().into_iter().filter(|x| x.0 >= l).collect();
        if go_on == 1 {
            q.push(self.fork(l));
            q.push(3);
            if self.at[l][1].is_some() {
                tail.retain(|x| x.0 == l && x.1 == 1);
            }
        } else if go_on == 2 {
            q.push(self.fork(l) ^ 2);
        }
        let got = self.m.glp(&q);
        let exp: Vec<_> = tail.iter().map(|x| self.key(x.0, x.1)).collect();
        ck!(got == exp, "{}: get_longest_prefix of a key of {} bytes yields {} keys, {} share the longest prefix", M::NAME, q.len(), got.len(), exp.len());
        Ok(())
    }
}
pub fn deep<V: RV, M: Rad<V>, const PREFIX: bool>(ctx: &mut Ctx) -> R {
    let depth = *ctx.rng.pick(if ctx.tier == Tier::Quick { &[2000usize, 6000, 12_000] } else { &[2000usize, 6000, 12_000, 30_000] });
    let mut rng = Rng::new(ctx.rng.u());
    let order = ctx.idx % 4;
    let end = ctx.idx / 4 % 4;
    ctx.note(format!("{} chain of up to {} nested keys, order {}, ending {}", M::NAME, depth, order, end));
    ctx.sig(ctx.rng.clone().u());
    let h = std::thread::Builder::new().stack_size(128 << 10).spawn(move || -> Result<u64, String> {
        let base: Vec<u8> = (0..depth).map(|_| rng.below(256) as u8).collect();
        let mut d = Deep::<V, M> { m: M::new(), base, at: vec![[None; 2]; depth + 1], len: 0, _p: std::marker::PhantomData };
        let step = *rng.pick(&[1usize, 1, 2, 5]);
        let mut ls: Vec<usize> = (0..=depth).step_by(step).collect();
        match order {
            0 => {}
            1 => ls.reverse(),
            2 => rng.shuffle(&mut ls),
            _ => {
                // the two ends first
                let n = ls.len();
                ls = (0..n).map(|i| if i % 2 == 0 { ls[i / 2] } else { ls[n - 1 - i / 2] }).collect();
            }
        }
        for l in ls {
            let v = rng.below(1000);
            d.insert(l, 0, v)?;
            if rng.chance(1, 8) {
                d.insert(l, 1, v + 1)?;
            }
        }
        d.ends()?;
        let mut ops = d.len as u64;
        for _ in 0..300 {
            let l = if rng.chance(1, 3) { depth - rng.us(40) } else { rng.us(depth + 1) };
            let f = rng.chance(1, 3) as usize;
            ops += 1;
            match rng.below(8) {
                0 | 1 => {
                    let v = rng.below(1000);
                    d.insert(l, f, v)?
                }
                2 | 3 => d.remove(l, f)?,
                4 => {
                    let k = d.key(l, f);
                    ckeq!(d.m.get(&k), d.at[l][f], "{}: get of a key of {} bytes", M::NAME, l + f);
                    ckeq!(d.m.contains(&k), d.at[l][f].is_some(), "{}: contains of a key of {} bytes", M::NAME, l + f);
                }
                5 => {
                    let k = d.key(l, f);
                    let v = rng.below(1000);
                    let got = d.m.get_mut(&k, v);
                    ckeq!(got, d.at[l][f], "{}: get_mut of a key of {} bytes", M::NAME, l + f);
                    let v = d.v(v);
                    if let Some(x) = d.at[l][f].as_mut() {
                        *x = v;
                    }
                }
                6 if PREFIX => d.glp(&mut rng)?,
                _ if rng.chance(1, 20) => d.ends()?,
                _ => {}
            }
        }
        if PREFIX {
            for _ in 0..60 {
                d.glp(&mut rng)?;
            }
        }
        d.scan(false, usize::MAX)?;
        d.scan(true, rng.us(d.len + 1))?;
        match end {
            0 => {
                d.m.clear();
                d.at.iter_mut().for_each(|x| *x = [None; 2]);
                d.len = 0;
                d.ends()?;
                d.insert(depth, 0, 1)?;
                d.scan(false, usize::MAX)?;
            }
            1 => {
                let stop = rng.us(d.len + 2);
                let s = d.sorted();
                let mut it = d.m.consume();
                for i in 0..stop {
                    let got = it.next().map(|(k, v)| (k.len(), v.val()));
                    ckeq!(got, s.get(i).map(|x| (x.0 + x.1, x.2)), "{}: into_iter element {}", M::NAME, i);
                }
                drop(it);
            }
            2 => {
                let mut s = d.sorted();
                if rng.chance(1, 2) {
                    rng.shuffle(&mut s);
                }
                for (i, x) in s.iter().enumerate() {
                    d.remove(x.0, x.1)?;
                    if i % 1000 == 0 {
                        d.ends()?;
                    }
                }
                d.ends()?;
            }
            _ => {}
        }
        Ok(ops)
    });
    ctx.max("max_nested_keys", depth as u64);
    match h.unwrap().join() {
        Ok(Ok(n)) => {
            ctx.count("operations_on_nested_keys", n);
            Ok(())
        }
        Ok(Err(e)) => Err(e),
        Err(_) => Err(format!("{}: panicked", M::NAME)),
    }
}
