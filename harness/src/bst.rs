//! Model-based suites for the five ordered map families (and the sets, driven through the same code).
use crate::core::*;
use crate::keys::*;
use crate::omap::*;
use std::collections::BTreeMap;
use std::marker::PhantomData;

pub type Model = BTreeMap<i64, (u32, u64)>;

#[derive(Clone, Copy, Debug)]
pub enum Dist {
    Uniform,
    Asc,
    Desc,
    Zig,
    Existing,
    Edge,
}
pub const DISTS: [Dist; 6] = [Dist::Uniform, Dist::Asc, Dist::Desc, Dist::Zig, Dist::Existing, Dist::Edge];

pub struct Hist<KT: KeyT, VT: Val, M: OMap<KT, VT>> {
    pub m: Option<M>,
    pub model: Model,
    pub next_tag: u32,
    pub range: i64,
    pub cursor: i64,
    pub dist: Dist,
    _p: PhantomData<fn() -> (KT, VT)>,
}

fn vv<VT: Val>(v: u64) -> u64 {
    if VT::UNIT {
        0
    } else {
        v
    }
}

impl<KT: KeyT, VT: Val, M: OMap<KT, VT>> Hist<KT, VT, M> {
    pub fn new(dflt: bool, range: i64) -> Self {
        Hist {
            m: Some(if dflt { M::dflt() } else { M::new() }),
            model: Model::new(),
            next_tag: 1,
            range,
            cursor: 0,
            dist: Dist::Uniform,
            _p: PhantomData,
        }
    }
    pub fn with(m: M, model: Model, range: i64, next_tag: u32) -> Self {
        Hist { m: Some(m), model, next_tag, range, cursor: 0, dist: Dist::Uniform, _p: PhantomData }
    }
    pub fn m(&mut self) -> &mut M {
        self.m.as_mut().unwrap()
    }
    pub fn key(&mut self, rng: &mut Rng) -> i64 {
        match self.dist {
            Dist::Uniform => rng.below(self.range as u64) as i64,
            Dist::Asc => {
                self.cursor = (self.cursor + 1) % self.range;
                self.cursor
            }
            Dist::Desc => {
                self.cursor = (self.cursor + self.range - 1) % self.range;
                self.cursor
            }
            Dist::Zig => {
                self.cursor = (self.cursor + 1) % self.range;
                if self.cursor % 2 == 0 {
                    self.cursor / 2
                } else {
                    self.range - 1 - self.cursor / 2
                }
            }
            Dist::Existing => match self.some_key(rng) {
                Some(k) => k,
                None => rng.below(self.range as u64) as i64,
            },
            Dist::Edge => {
                let e = match rng.below(4) {
                    0 => self.model.keys().next().cloned(),
                    1 => self.model.keys().next_back().cloned(),
                    2 => self.model.keys().next().map(|k| k - 1),
                    _ => self.model.keys().next_back().map(|k| k + 1),
                };
                e.unwrap_or(self.range / 2)
            }
        }
    }
    pub fn some_key(&self, rng: &mut Rng) -> Option<i64> {
        if self.model.is_empty() {
            return None;
        }
        let p = rng.below(self.range as u64) as i64;
        self.model.range(p..).next().or_else(|| self.model.iter().next()).map(|(k, _)| *k)
    }
    pub fn insert(&mut self, ctx: &mut Ctx, q: i64, v: u64) -> R {
        ctx.op("insert", q, v as i64);
        let tag = self.next_tag;
        self.next_tag += 1;
        let got = self.m().insert(KT::mk(q, tag), VT::mk(v)).map(|(k, v)| (k.q(), k.tag(), v.val()));
        let exp = self.model.insert(q, (tag, vv::<VT>(v))).map(|(t, v)| (q, t, v));
        ckeq!(got, exp, "{}: insert({}) result (key, tag, value)", M::NAME, q);
        Ok(())
    }
    pub fn remove(&mut self, ctx: &mut Ctx, q: i64) -> R {
        ctx.op("remove", q, NOARG);
        let got = self.m().remove(&Q(q)).map(|(k, v)| (k.q(), k.tag(), v.val()));
        let exp = self.model.remove(&q).map(|(t, v)| (q, t, v));
        ckeq!(got, exp, "{}: remove({}) result (key, tag, value)", M::NAME, q);
        Ok(())
    }
    pub fn reads(&mut self, ctx: &mut Ctx, q: i64, which: u64) -> R {
        let model = &mut self.model;
        let m = self.m.as_mut().unwrap();
        match which {
            0 => {
                ctx.op("get", q, NOARG);
                ckeq!(m.get(&Q(q)).map(|v| v.val()), model.get(&q).map(|x| x.1), "{}: get({})", M::NAME, q);
            }
            1 => {
                let nv = ctx.rng.below(1 << 20);
                ctx.op("get_mut", q, nv as i64);
                let got = m.get_mut(&Q(q)).map(|v| {
                    let o = v.val();
                    v.set(nv);
                    o
                });
                let exp = model.get_mut(&q).map(|x| std::mem::replace(&mut x.1, vv::<VT>(nv)));
                ckeq!(got, exp, "{}: get_mut({})", M::NAME, q);
            }
            2 => {
                ctx.op("contains", q, NOARG);
                ckeq!(m.contains(&Q(q)), model.contains_key(&q), "{}: contains({})", M::NAME, q);
            }
            3 => {
                ctx.op("floor", q, NOARG);
                let exp = model.range(..=q).next_back().map(|(k, x)| (*k, x.0));
                ckeq!(m.floor(&Q(q)).map(|k| (k.q(), k.tag())), exp, "{}: floor({})", M::NAME, q);
            }
            4 => {
                ctx.op("ceil", q, NOARG);
                let exp = model.range(q..).next().map(|(k, x)| (*k, x.0));
                ckeq!(m.ceil(&Q(q)).map(|k| (k.q(), k.tag())), exp, "{}: ceil({})", M::NAME, q);
            }
            5 => {
                ctx.op("min_max", NOARG, NOARG);
                let e = model.iter().next().map(|(k, x)| (*k, x.0));
                ckeq!(m.min().map(|k| (k.q(), k.tag())), e, "{}: min()", M::NAME);
                let e = model.iter().next_back().map(|(k, x)| (*k, x.0));
                ckeq!(m.max().map(|k| (k.q(), k.tag())), e, "{}: max()", M::NAME);
            }
            6 => {
                ctx.op("len", NOARG, NOARG);
                ckeq!(m.len(), model.len(), "{}: len()", M::NAME);
                ckeq!(m.is_empty(), model.is_empty(), "{}: is_empty()", M::NAME);
            }
            7 => {
                // indexing: present keys only, absent ones are rarer (panics are slow)
                if let Some(x) = model.get_mut(&q) {
                    ctx.op("index", q, NOARG);
                    ckeq!(guard("index", || m.index(&Q(q)).val())?, x.1, "{}: map[{}]", M::NAME, q);
                    let nv = ctx.rng.below(1 << 20);
                    guard("index_mut", || m.index_mut(&Q(q)).set(nv))?;
                    x.1 = vv::<VT>(nv);
                } else if ctx.rng.chance(1, 8) {
                    ctx.op("index_absent", q, NOARG);
                    ck!(panics(|| { m.index(&Q(q)); }), "{}: map[{}] on an absent key did not panic", M::NAME, q);
                    ck!(panics(|| { m.index_mut(&Q(q)); }), "{}: mutable map[{}] on an absent key did not panic", M::NAME, q);
                }
            }
            _ => {
                // neighbourhood
                ctx.op("floor_ceil_edges", NOARG, NOARG);
                for p in [-1, self.range, self.range / 2] {
                    let exp = model.range(..=p).next_back().map(|(k, x)| (*k, x.0));
                    ckeq!(m.floor(&Q(p)).map(|k| (k.q(), k.tag())), exp, "{}: floor({})", M::NAME, p);
                    let exp = model.range(p..).next().map(|(k, x)| (*k, x.0));
                    ckeq!(m.ceil(&Q(p)).map(|k| (k.q(), k.tag())), exp, "{}: ceil({})", M::NAME, p);
                }
            }
        }
        Ok(())
    }
    pub fn clear(&mut self, ctx: &mut Ctx) -> R {
        ctx.op("clear", NOARG, NOARG);
        self.m().clear();
        self.model.clear();
        self.full(ctx)
    }
    pub fn iter_mut(&mut self, ctx: &mut Ctx) -> R {
        ctx.op("iter_mut", NOARG, NOARG);
        let by_ref = ctx.rng.chance(1, 2);
        let base = ctx.rng.below(1000);
        let m = self.m.as_mut().unwrap();
        let stop = if ctx.rng.chance(1, 3) { ctx.rng.us(self.model.len() + 1) } else { usize::MAX };
        let mut it = m.iter_mut(by_ref);
        let mut n = 0;
        for (k, x) in self.model.iter_mut() {
            if n == stop {
                return Ok(());
            }
            match it.next() {
                None => return Err(format!("{}: iter_mut ended after {} of the elements", M::NAME, n)),
                Some((kk, v)) => {
                    ckeq!((kk.q(), kk.tag(), v.val()), (*k, x.0, x.1), "{}: iter_mut element {}", M::NAME, n);
                    v.set(base + n as u64);
                    x.1 = vv::<VT>(base + n as u64);
                }
            }
            n += 1;
        }
        ck!(it.next().is_none(), "{}: iter_mut yields more than the {} elements", M::NAME, n);
        Ok(())
    }
    /// consumes the map (possibly only partly) and starts over with some of the elements
    pub fn consume(&mut self, ctx: &mut Ctx) -> R {
        ctx.op("into_iter", NOARG, NOARG);
        let n = self.model.len();
        let stop = if ctx.rng.chance(1, 2) { n + 2 } else { ctx.rng.us(n + 1) };
        let m = self.m.take().unwrap();
        let mut it = m.consume();
        let old = std::mem::take(&mut self.model);
        let mut back: Vec<(KT, VT)> = Vec::new();
        let mut exp = old.iter();
        for i in 0..stop {
            let got = it.next();
            let e = exp.next().map(|(k, x)| (*k, x.0, x.1));
            ckeq!(got.as_ref().map(|(k, v)| (k.q(), k.tag(), v.val())), e, "{}: into_iter element {}", M::NAME, i);
            match got {
                Some(x) => back.push(x),
                None => break,
            }
        }
        drop(it);
        let mut m = M::new();
        // put back about half of what came out, in a shuffled order
        ctx.rng.shuffle(&mut back);
        back.truncate(back.len() / 2);
        for (k, v) in back {
            let (q, t, val) = (k.q(), k.tag(), v.val());
            ck!(m.insert(k, v).is_none(), "{}: insert into a fresh map found key {}", M::NAME, q);
            self.model.insert(q, (t, val));
        }
        self.m = Some(m);
        self.full(ctx)
    }
    /// whole-state comparison
    pub fn full(&mut self, ctx: &mut Ctx) -> R {
        ctx.count("full_state_comparisons", 1);
        let model = &self.model;
        let m = self.m.as_mut().unwrap();
        ckeq!(m.len(), model.len(), "{}: len()", M::NAME);
        ckeq!(m.is_empty(), model.is_empty(), "{}: is_empty()", M::NAME);
        for by_ref in [false, true] {
            let got: Vec<(i64, u32, u64)> = m.iter(by_ref).take(model.len() + 2).map(|(k, v)| (k.q(), k.tag(), v.val())).collect();
            let mut exp = model.iter();
            for (i, g) in got.iter().enumerate() {
                let e = exp.next().map(|(k, x)| (*k, x.0, x.1));
                ckeq!(Some(*g), e, "{}: iter element {}", M::NAME, i);
            }
            ck!(got.len() == model.len(), "{}: iter yields {} elements, model has {}", M::NAME, got.len(), model.len());
        }
        let e = model.iter().next().map(|(k, x)| (*k, x.0));
        ckeq!(m.min().map(|k| (k.q(), k.tag())), e, "{}: min()", M::NAME);
        let e = model.iter().next_back().map(|(k, x)| (*k, x.0));
        ckeq!(m.max().map(|k| (k.q(), k.tag())), e, "{}: max()", M::NAME);
        Ok(())
    }
    /// every key in and around the range is looked up in every way
    pub fn deep(&mut self, ctx: &mut Ctx) -> R {
        self.full(ctx)?;
        let ks: Vec<i64> = if self.range <= 40 {
            (-1..=self.range).collect()
        } else {
            let mut v: Vec<i64> = (0..40).map(|_| ctx.rng.below(self.range as u64) as i64).collect();
            for _ in 0..20 {
                if let Some(k) = self.some_key(&mut ctx.rng) {
                    v.push(k);
                }
            }
            v.push(-1);
            v.push(self.range);
            v
        };
        let model = &self.model;
        let m = self.m.as_mut().unwrap();
        for q in ks {
            ckeq!(m.get(&Q(q)).map(|v| v.val()), model.get(&q).map(|x| x.1), "{}: get({})", M::NAME, q);
            ckeq!(m.contains(&Q(q)), model.contains_key(&q), "{}: contains({})", M::NAME, q);
            let exp = model.range(..=q).next_back().map(|(k, x)| (*k, x.0));
            ckeq!(m.floor(&Q(q)).map(|k| (k.q(), k.tag())), exp, "{}: floor({})", M::NAME, q);
            let exp = model.range(q..).next().map(|(k, x)| (*k, x.0));
            ckeq!(m.ceil(&Q(q)).map(|k| (k.q(), k.tag())), exp, "{}: ceil({})", M::NAME, q);
        }
        Ok(())
    }
    /// one phase of a random history
    pub fn phase(&mut self, ctx: &mut Ctx, steps: usize, mut after: impl FnMut(&mut Self, &mut Ctx) -> R) -> R {
        self.dist = *ctx.rng.pick(&DISTS);
        let steps = sz(steps as u64) as usize;
        let style = ctx.rng.below(4); // grow, shrink, churn, read-mostly
        let (pi, pr) = match style {
            0 => (60, 15),
            1 => (15, 60),
            2 => (40, 40),
            _ => (12, 12),
        };
        for _ in 0..steps {
            if ctx.rng.chance(1, 16) {
                self.dist = *ctx.rng.pick(&DISTS);
            }
            let q = self.key(&mut ctx.rng);
            let x = ctx.rng.below(100);
            if x < pi {
                let v = ctx.rng.below(1 << 20);
                self.insert(ctx, q, v)?;
            } else if x < pi + pr {
                self.remove(ctx, q)?;
            } else {
                let w = ctx.rng.below(9);
                self.reads(ctx, q, w)?;
            }
            if ctx.rng.chance(1, 150) {
                match ctx.rng.below(8) {
                    0 => self.clear(ctx)?,
                    1 | 2 => self.consume(ctx)?,
                    _ => self.iter_mut(ctx)?,
                }
            }
            after(self, ctx)?;
        }
        Ok(())
    }
}

pub fn pick_range(rng: &mut Rng) -> i64 {
    *rng.pick(&[4, 8, 16, 32, 64, 64, 256, 1024])
}

/// random histories against the model
pub fn history<KT: KeyT, VT: Val, M: OMap<KT, VT>>(ctx: &mut Ctx) -> R {
    let range = pick_range(&mut ctx.rng);
    let mut h = Hist::<KT, VT, M>::new(ctx.rng.chance(1, 4), range);
    ctx.note(format!("{} range {}", M::NAME, range));
    let every = if range <= 32 { 4 } else { 40 };
    let mut n = 0;
    let phases = ctx.rng.range(2, 6);
    for _ in 0..phases {
        let steps = ctx.rng.range(20, if range > 64 { 400 } else { 150 }) as usize;
        h.phase(ctx, steps, |h, ctx| {
            n += 1;
            if n % every == 0 {
                h.full(ctx)?;
            }
            Ok(())
        })?;
        h.deep(ctx)?;
        ctx.max("max_len", h.model.len() as u64);
    }
    ctx.count("operations", n);
    ctx.nontrivial = n > 30;
    // removing everything in some order
    if ctx.rng.chance(1, 2) {
        let mut ks: Vec<i64> = h.model.keys().cloned().collect();
        if ctx.rng.chance(1, 2) {
            ctx.rng.shuffle(&mut ks);
        }
        for k in ks {
            h.remove(ctx, k)?;
        }
        h.deep(ctx)?;
        h.insert(ctx, 0, 5)?;
        h.deep(ctx)?;
    }
    Ok(())
}

pub fn perm(mut idx: u64, n: usize) -> Vec<i64> {
    let mut pool: Vec<i64> = (0..n as i64).collect();
    let mut out = Vec::new();
    for i in (1..=n as u64).rev() {
        let j = (idx % i) as usize;
        idx /= i;
        out.push(pool.remove(j));
    }
    out
}
fn fact(n: u64) -> u64 {
    (1..=n).product()
}
/// every insertion order of n keys (0..n) with a random removal order; the whole state is compared after each step
pub fn small<KT: KeyT, VT: Val, M: OMap<KT, VT>>(ctx: &mut Ctx) -> R {
    // idx enumerates the permutations of sizes 1, 2, .., 7 and then of 8, 9
    let mut i = ctx.idx;
    let mut n = 1u64;
    while n < 9 && i >= fact(n) {
        i -= fact(n);
        n += 1;
    }
    let ins = perm(i % fact(n), n as usize);
    let rem = perm(ctx.rng.below(fact(n)), n as usize);
    let mut h = Hist::<KT, VT, M>::new(false, n as i64);
    for (j, k) in ins.iter().enumerate() {
        h.insert(ctx, 2 * k % (2 * n as i64), j as u64)?;
        h.full(ctx)?;
    }
    h.range = 2 * n as i64;
    h.deep(ctx)?;
    for k in rem {
        h.remove(ctx, 2 * k)?;
        h.deep(ctx)?;
    }
    ctx.count("orders", 1);
    Ok(())
}

/// a few thousand elements in structured orders: long runs that small ranges never reach
pub fn large<KT: KeyT, VT: Val, M: OMap<KT, VT>>(ctx: &mut Ctx) -> R {
    let n = ctx.rng.range(2000, 6000) as i64;
    let mut h = Hist::<KT, VT, M>::new(false, n);
    let order = ctx.rng.below(4);
    ctx.note(format!("{} n {} order {}", M::NAME, n, order));
    ctx.sig(ctx.rng.clone().u());
    let mut ks: Vec<i64> = (0..n).collect();
    match order {
        0 => {}
        1 => ks.reverse(),
        2 => ctx.rng.shuffle(&mut ks),
        _ => ks = (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
    }
    for k in &ks {
        let v = ctx.rng.below(1000);
        h.insert(ctx, *k, v)?;
    }
    h.deep(ctx)?;
    h.phase(ctx, 2000, |_, _| Ok(()))?;
    h.deep(ctx)?;
    let mut ks: Vec<i64> = h.model.keys().cloned().collect();
    match ctx.rng.below(3) {
        0 => {}
        1 => ks.reverse(),
        _ => ctx.rng.shuffle(&mut ks),
    }
    let cut = ks.len() * 3 / 4;
    for k in &ks[..cut] {
        h.remove(ctx, *k)?;
    }
    h.deep(ctx)?;
    for k in &ks[cut..] {
        h.remove(ctx, *k)?;
    }
    h.deep(ctx)?;
    ctx.ops.truncate(50);
    ctx.count("operations", (n + 2000) as u64);
    Ok(())
}

fn order_of(ctx: &mut Ctx, n: i64, order: u64) -> Vec<i64> {
    let mut ks: Vec<i64> = (0..n).collect();
    match order {
        0 => {}
        1 => ks.reverse(),
        2 => ctx.rng.shuffle(&mut ks),
        _ => ks = (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
    }
    ks
}
/// more elements than fit 16 bits
pub fn huge<KT: KeyT, VT: Val, M: OMap<KT, VT>>(ctx: &mut Ctx) -> R {
    let n = ctx.rng.range(66_000, 110_000) as i64;
    let order = ctx.idx as u64 % 4;
    let mut h = Hist::<KT, VT, M>::new(false, n);
    ctx.note(format!("{} n {} order {}", M::NAME, n, order));
    ctx.sig(ctx.rng.clone().u());
    for k in order_of(ctx, n, order) {
        let v = ctx.rng.below(1000);
        h.insert(ctx, k, v)?;
        if ctx.ops.len() > 60 {
            ctx.ops.clear();
        }
    }
    h.deep(ctx)?;
    for _ in 0..20_000 {
        let q = h.key(&mut ctx.rng);
        match ctx.rng.below(5) {
            0 => {
                let v = ctx.rng.below(1 << 20);
                h.insert(ctx, q, v)?
            }
            1 => h.remove(ctx, q)?,
            _ => {
                let w = ctx.rng.below(9);
                h.reads(ctx, q, w)?
            }
        }
        if ctx.ops.len() > 60 {
            ctx.ops.clear();
        }
    }
    h.deep(ctx)?;
    h.iter_mut(ctx)?;
    h.consume(ctx)?;
    h.deep(ctx)?;
    for k in order_of(ctx, n, ctx.idx as u64 / 4 % 4) {
        h.remove(ctx, k)?;
        if ctx.ops.len() > 60 {
            ctx.ops.clear();
        }
        if h.model.len() == n as usize / 4 {
            h.deep(ctx)?;
        }
    }
    ctx.max("max_len", n as u64);
    h.deep(ctx)
}

// ------------------------------------------------------------------ shapes
pub struct Shape {
    /// key -> (left, right)
    pub kids: BTreeMap<i64, (Option<i64>, Option<i64>)>,
    /// keys by increasing depth
    pub order: Vec<i64>,
}
/// the binary search tree implied by the keys each successful lookup examines; None if there is no such tree
pub fn shape<KT: KeyT, VT: Val, M: OMap<KT, VT>>(m: &M, model: &Model) -> Option<(Shape, usize)> {
    let mut parent: BTreeMap<i64, Option<i64>> = BTreeMap::new();
    let mut depth: BTreeMap<i64, usize> = BTreeMap::new();
    let mut longest = 0;
    let mut ok = true;
    for k in model.keys() {
        let (_, path) = record(*k, || m.get(&Q(*k)).is_some());
        longest = longest.max(path.len());
        if path.last() != Some(k) {
            ok = false;
        }
        for (i, x) in path.iter().enumerate() {
            let p = if i == 0 { None } else { Some(path[i - 1]) };
            if *parent.entry(*x).or_insert(p) != p || *depth.entry(*x).or_insert(i) != i {
                ok = false;
            }
        }
    }
    if parent.len() != model.len() {
        ok = false;
    }
    let mut kids: BTreeMap<i64, (Option<i64>, Option<i64>)> = model.keys().map(|k| (*k, (None, None))).collect();
    if ok {
        for (k, p) in &parent {
            if let Some(p) = p {
                let e = match kids.get_mut(p) {
                    Some(e) => e,
                    None => {
                        ok = false;
                        break;
                    }
                };
                let side = if k < p { &mut e.0 } else { &mut e.1 };
                if side.is_some() {
                    ok = false;
                }
                *side = Some(*k);
            }
        }
    }
    if !ok {
        return Some((Shape { kids: BTreeMap::new(), order: Vec::new() }, longest));
    }
    let mut order: Vec<i64> = depth.keys().cloned().collect();
    order.sort_by_key(|k| depth[k]);
    Some((Shape { kids, order }, longest))
}
fn lg(x: f64) -> f64 {
    x.log2()
}
pub fn check_avl<KT: KeyT, VT: Val, M: OMap<KT, VT>>(h: &mut Hist<KT, VT, M>, ctx: &mut Ctx) -> R {
    let n = h.model.len();
    let (s, mut longest) = shape::<KT, VT, M>(h.m.as_ref().unwrap(), &h.model).unwrap();
    ctx.count("shapes_checked", 1);
    ctx.max("max_path", longest as u64);
    for _ in 0..4 {
        let q = ctx.rng.below(h.range as u64 + 1) as i64;
        let (_, p) = record(q, || h.m.as_ref().unwrap().contains(&Q(q)));
        longest = longest.max(p.len());
    }
    let bound = 1.45 * lg(n as f64 + 2.0);
    ck!(longest as f64 <= bound, "{}: a lookup among {} keys examined {} distinct keys (bound {:.1})", M::NAME, n, longest, bound);
    if n > 0 && s.order.is_empty() {
        ctx.count("shapes_not_reconstructible", 1);
        return Ok(());
    }
    let mut ht: BTreeMap<i64, i64> = BTreeMap::new();
    for k in s.order.iter().rev() {
        let (l, r) = s.kids[k];
        let hl = l.map(|x| ht[&x]).unwrap_or(0);
        let hr = r.map(|x| ht[&x]).unwrap_or(0);
        ck!((hl - hr).abs() <= 1, "{}: node {} has subtrees of heights {} and {}", M::NAME, k, hl, hr);
        ht.insert(*k, 1 + hl.max(hr));
    }
    Ok(())
}
pub fn check_rb<KT: KeyT, VT: Val, M: OMap<KT, VT>>(h: &mut Hist<KT, VT, M>, ctx: &mut Ctx) -> R {
    let n = h.model.len();
    let (s, mut longest) = shape::<KT, VT, M>(h.m.as_ref().unwrap(), &h.model).unwrap();
    ctx.count("shapes_checked", 1);
    ctx.max("max_path", longest as u64);
    for _ in 0..4 {
        let q = ctx.rng.below(h.range as u64 + 1) as i64;
        let (_, p) = record(q, || h.m.as_ref().unwrap().contains(&Q(q)));
        longest = longest.max(p.len());
    }
    let bound = 2.0 * lg(n as f64 + 1.0) + 1e-9;
    ck!(longest as f64 <= bound, "{}: a lookup among {} keys examined {} distinct keys (bound {:.1})", M::NAME, n, longest, bound);
    if n > 0 && s.order.is_empty() {
        ctx.count("shapes_not_reconstructible", 1);
        return Ok(());
    }
    // black heights possible for each subtree with a (black, red) root
    let mut bh: BTreeMap<i64, (u64, u64)> = BTreeMap::new();
    for k in s.order.iter().rev() {
        let (l, r) = s.kids[k];
        let (lb, lr) = l.map(|x| bh[&x]).unwrap_or((1, 0));
        let (rb, rr) = r.map(|x| bh[&x]).unwrap_or((1, 0));
        let b = ((lb | lr) & (rb | rr)) << 1;
        let red = lb & rb;
        ck!(b | red != 0, "{}: the subtree at node {} of {} keys admits no red-black colouring", M::NAME, k, n);
        bh.insert(*k, (b, red));
    }
    Ok(())
}
type Checker<KT, VT, M> = fn(&mut Hist<KT, VT, M>, &mut Ctx) -> R;
fn shape_history<KT: KeyT, VT: Val, M: OMap<KT, VT>>(ctx: &mut Ctx, chk: Checker<KT, VT, M>) -> R {
    let range = *ctx.rng.pick(&[6, 10, 16, 32, 64, 128, 400]);
    let mut h = Hist::<KT, VT, M>::new(ctx.rng.chance(1, 4), range);
    ctx.note(format!("{} range {}", M::NAME, range));
    let every = if range <= 32 { 1 } else if range <= 128 { 4 } else { 25 };
    let mut n = 0;
    let phases = ctx.rng.range(2, 5);
    for _ in 0..phases {
        let steps = ctx.rng.range(20, if range > 64 { 500 } else { 120 }) as usize;
        let mut last = usize::MAX;
        h.phase(ctx, steps, |h, ctx| {
            n += 1;
            if n % every == 0 && last != h.model.len() {
                last = h.model.len();
                chk(h, ctx)?;
            }
            Ok(())
        })?;
        chk(&mut h, ctx)?;
        h.full(ctx)?;
    }
    ctx.count("operations", n as u64);
    Ok(())
}
fn shape_small<KT: KeyT, VT: Val, M: OMap<KT, VT>>(ctx: &mut Ctx, chk: Checker<KT, VT, M>) -> R {
    let mut i = ctx.idx;
    let mut n = 1u64;
    while n < 9 && i >= fact(n) {
        i -= fact(n);
        n += 1;
    }
    let ins = perm(i % fact(n), n as usize);
    let rem = perm(ctx.rng.below(fact(n)), n as usize);
    let mut h = Hist::<KT, VT, M>::new(false, n as i64);
    for k in ins {
        h.insert(ctx, k, 0)?;
        chk(&mut h, ctx)?;
    }
    for k in rem {
        h.remove(ctx, k)?;
        chk(&mut h, ctx)?;
    }
    ctx.count("orders", 1);
    Ok(())
}
fn shape_large<KT: KeyT, VT: Val, M: OMap<KT, VT>>(ctx: &mut Ctx, chk: Checker<KT, VT, M>) -> R {
    let n = ctx.rng.range(1000, 5000) as i64;
    let mut h = Hist::<KT, VT, M>::new(false, n);
    let order = ctx.rng.below(5);
    ctx.note(format!("{} n {} order {}", M::NAME, n, order));
    ctx.sig(ctx.rng.clone().u());
    let mut ks: Vec<i64> = (0..n).collect();
    match order {
        0 => {}
        1 => ks.reverse(),
        2 => ctx.rng.shuffle(&mut ks),
        3 => ks = (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
        _ => {
            // blocks of ascending runs
            let b = ctx.rng.range(2, 64) as i64;
            ks.sort_by_key(|k| (k % b, *k));
        }
    }
    for k in &ks {
        h.insert(ctx, *k, 0)?;
    }
    chk(&mut h, ctx)?;
    let mut ks: Vec<i64> = h.model.keys().cloned().collect();
    match ctx.rng.below(4) {
        0 => {}
        1 => ks.reverse(),
        2 => ctx.rng.shuffle(&mut ks),
        _ => {
            let b = ctx.rng.range(2, 9) as i64;
            ks.sort_by_key(|k| (k % b, *k));
        }
    }
    let mut left = ks.len();
    for k in ks {
        h.remove(ctx, k)?;
        left -= 1;
        if left % 300 == 0 || (left < 120 && left % 7 == 0) {
            chk(&mut h, ctx)?;
        }
    }
    ctx.ops.truncate(50);
    ctx.count("operations", 2 * n as u64);
    Ok(())
}
pub fn avl_history<KT: KeyT, VT: Val, M: OMap<KT, VT>>(ctx: &mut Ctx) -> R {
    shape_history::<KT, VT, M>(ctx, check_avl)
}
pub fn avl_small<KT: KeyT, VT: Val, M: OMap<KT, VT>>(ctx: &mut Ctx) -> R {
    shape_small::<KT, VT, M>(ctx, check_avl)
}
pub fn avl_large<KT: KeyT, VT: Val, M: OMap<KT, VT>>(ctx: &mut Ctx) -> R {
    shape_large::<KT, VT, M>(ctx, check_avl)
}
pub fn rb_history<KT: KeyT, VT: Val, M: OMap<KT, VT>>(ctx: &mut Ctx) -> R {
    shape_history::<KT, VT, M>(ctx, check_rb)
}
pub fn rb_small<KT: KeyT, VT: Val, M: OMap<KT, VT>>(ctx: &mut Ctx) -> R {
    shape_small::<KT, VT, M>(ctx, check_rb)
}
pub fn rb_large<KT: KeyT, VT: Val, M: OMap<KT, VT>>(ctx: &mut Ctx) -> R {
    shape_large::<KT, VT, M>(ctx, check_rb)
}

// ------------------------------------------------------------------ set algebra (C08, C12)
fn build<KT: KeyT, VT: Val, M: OMap<KT, VT>>(ctx: &mut Ctx, range: i64, tag0: u32) -> Result<Hist<KT, VT, M>, String> {
    let mut h = Hist::<KT, VT, M>::new(ctx.rng.chance(1, 3), range);
    h.next_tag = tag0;
    match ctx.rng.below(8) {
        0 => {}
        1 => {
            let k = ctx.rng.below(range as u64) as i64;
            h.insert(ctx, k, 1)?;
        }
        2 => {
            // a contiguous block
            let a = ctx.rng.below(range as u64) as i64;
            let b = ctx.rng.range(a as u64, range as u64 - 1) as i64;
            for k in a..=b {
                h.insert(ctx, k, k as u64)?;
            }
        }
        3 | 5 | 6 | 7 if range > 1000 => {
            // some density of random keys
            let p = ctx.rng.range(1, 100);
            for k in order_of(ctx, range, ctx.idx as u64 % 4) {
                if ctx.rng.chance(p, 100) {
                    h.insert(ctx, k, k as u64)?;
                }
            }
        }
        3 => {
            let s = ctx.rng.range(1, 5) as i64;
            let mut k = ctx.rng.below(s as u64) as i64;
            while k < range {
                h.insert(ctx, k, k as u64)?;
                k += s;
            }
        }
        _ => {
            let n = ctx.rng.range(1, if range > 64 { 300 } else { 60 }) as usize;
            h.phase(ctx, n, |_, _| Ok(()))?;
        }
    }
    Ok(h)
}
pub fn algebra<KT: KeyT, VT: Val, M: OMap<KT, VT> + Algebra>(ctx: &mut Ctx) -> R {
    let range = *ctx.rng.pick(&[3i64, 6, 12, 24, 48, 256]);
    algebra_of::<KT, VT, M>(ctx, range)
}
/// operands of thousands of keys
pub fn algebra_large<KT: KeyT, VT: Val, M: OMap<KT, VT> + Algebra>(ctx: &mut Ctx) -> R {
    let range = if ctx.idx % 10 == 0 { 70_000 } else { ctx.rng.range(1001, 8000) as i64 };
    algebra_of::<KT, VT, M>(ctx, range)?;
    ctx.sig(ctx.rng.clone().u());
    ctx.ops.truncate(50);
    Ok(())
}
fn algebra_of<KT: KeyT, VT: Val, M: OMap<KT, VT> + Algebra>(ctx: &mut Ctx, range: i64) -> R {
    ctx.note(format!("{} range {}", M::NAME, range));
    let mut a = build::<KT, VT, M>(ctx, range, 1_000_000)?;
    let mut tag = 2_000_000;
    let rounds = ctx.rng.range(1, 5);
    for _ in 0..rounds {
        ctx.op("|", NOARG, NOARG);
        let b = build::<KT, VT, M>(ctx, range, tag)?;
        tag += 1_000_000;
        let swap = ctx.rng.chance(1, 3);
        let (mut l, mut r) = if swap { (b, a) } else { (a, b) };
        let which = ctx.rng.below(6);
        let (lm, rm) = (l.m.take().unwrap(), r.m.take().unwrap());
        ctx.op(["union", "intersection", "difference", "symmetric_difference", "add", "sub"][which as usize], swap as i64, NOARG);
        let res = match which {
            0 => M::union(lm, rm, false),
            1 => M::intersection(lm, rm),
            2 => M::difference(lm, rm, false),
            3 => M::symmetric_difference(lm, rm),
            4 => M::union(lm, rm, true),
            _ => M::difference(lm, rm, true),
        };
        let mut model = Model::new();
        for (k, x) in &l.model {
            let inr = r.model.contains_key(k);
            let keep = match which {
                0 | 4 => true,
                1 => inr,
                _ => !inr,
            };
            if keep {
                model.insert(*k, *x);
            }
        }
        if which == 0 || which == 3 || which == 4 {
            for (k, x) in &r.model {
                if !l.model.contains_key(k) {
                    model.insert(*k, *x);
                }
            }
        }
        a = Hist::with(res, model, range, tag);
        tag += 1_000_000;
        ctx.count("set_operations", 1);
        a.deep(ctx)?;
        // the result must stay fully usable
        let n = ctx.rng.below(40) as usize;
        a.phase(ctx, n, |_, _| Ok(()))?;
        a.deep(ctx)?;
        if ctx.rng.chance(1, 4) {
            let ks: Vec<i64> = a.model.keys().cloned().collect();
            for k in ks {
                a.remove(ctx, k)?;
            }
            a.deep(ctx)?;
        }
    }
    Ok(())
}
pub fn split<KT: KeyT, VT: Val, M: OMap<KT, VT> + Algebra + SplitOff>(ctx: &mut Ctx) -> R {
    let range = *ctx.rng.pick(&[3i64, 6, 12, 24, 48, 256]);
    split_of::<KT, VT, M>(ctx, range)
}
pub fn split_large<KT: KeyT, VT: Val, M: OMap<KT, VT> + Algebra + SplitOff>(ctx: &mut Ctx) -> R {
    let range = if ctx.idx % 10 == 0 { 70_000 } else { ctx.rng.range(1001, 8000) as i64 };
    split_of::<KT, VT, M>(ctx, range)?;
    ctx.sig(ctx.rng.clone().u());
    ctx.ops.truncate(50);
    Ok(())
}
fn split_of<KT: KeyT, VT: Val, M: OMap<KT, VT> + Algebra + SplitOff>(ctx: &mut Ctx, range: i64) -> R {
    ctx.note(format!("{} range {}", M::NAME, range));
    let mut a = build::<KT, VT, M>(ctx, range, 1_000_000)?;
    let rounds = ctx.rng.range(1, 5);
    let mut tag = 2_000_000;
    for _ in 0..rounds {
        let q = match ctx.rng.below(6) {
            0 => -1,
            1 => range,
            2 | 3 => a.some_key(&mut ctx.rng).unwrap_or(0),
            _ => ctx.rng.below(range as u64) as i64,
        };
        let incl = ctx.rng.chance(1, 2);
        ctx.op("split_off", q, incl as i64);
        let right = a.m().split_off(q, incl);
        // inclusive: the given key stays on the left
        let rmodel = a.model.split_off(&(if incl { q + 1 } else { q }));
        let mut r = Hist::<KT, VT, M>::with(right, rmodel, range, tag);
        tag += 1_000_000;
        ctx.count("splits", 1);
        a.deep(ctx)?;
        r.deep(ctx)?;
        let n = ctx.rng.below(20) as usize;
        a.phase(ctx, n, |_, _| Ok(()))?;
        a.deep(ctx)?;
        let n = ctx.rng.below(20) as usize;
        r.phase(ctx, n, |_, _| Ok(()))?;
        r.deep(ctx)?;
        // join again
        ctx.op("union", NOARG, NOARG);
        let mut model = r.model.clone();
        for (k, x) in &a.model {
            model.insert(*k, *x);
        }
        let m = M::union(a.m.take().unwrap(), r.m.take().unwrap(), ctx.rng.chance(1, 2));
        a = Hist::with(m, model, range, tag);
        tag += 1_000_000;
        a.deep(ctx)?;
    }
    Ok(())
}
