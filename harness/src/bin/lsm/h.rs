//! LsmMap with a model: configurations, cases, operations and comparisons.
use crate::shim::{self, SLOT, SLOTS};
use extended_collections::lsm_tree::compaction::{LeveledStrategy, SizeTieredStrategy};
use extended_collections::lsm_tree::{LsmMap, Result as LResult};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};
use vh::bp::{BK, BV};
use vh::core::*;
use vh::{ck, ckeq};

macro_rules! io {
    ($e:expr, $($a:tt)*) => { match $e { Ok(x) => x, Err(e) => return Err(format!("{} failed: {:?}", format!($($a)*), e)) } };
}
pub(crate) use io;

pub enum Lsm<K: BK, V: BV> {
    S(LsmMap<K, V, SizeTieredStrategy<K, V>>),
    L(LsmMap<K, V, LeveledStrategy<K, V>>),
}
macro_rules! on {
    ($s:expr, $m:ident => $e:expr) => {
        match $s {
            $crate::h::Lsm::S($m) => $e,
            $crate::h::Lsm::L($m) => $e,
        }
    };
}
pub(crate) use on;

#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub leveled: bool,
    pub mem: u64,
    pub count: usize,
    /// smallest bucket of the size-tiered strategy, largest SSTable of the leveled one
    pub size: u64,
    pub low: f64,
    pub high: f64,
    pub initial: usize,
    pub growth: u64,
}
impl Cfg {
    pub fn random(ctx: &mut Ctx, leveled: bool) -> Cfg {
        let r = &mut ctx.rng;
        Cfg {
            leveled,
            mem: *r.pick(&[0, 30, 80, 150, 300, 300, 600, 2000, 20000]),
            count: *r.pick(&[1, 1, 2, 2, 3, 4, 6]),
            size: if leveled { *r.pick(&[1, 60, 120, 200, 500, 2000, 50000]) } else { *r.pick(&[0, 0, 100, 300, 1000, 50000]) },
            low: *r.pick(&[0.1, 0.5, 0.5, 0.8, 1.0]),
            high: *r.pick(&[1.0, 1.2, 1.5, 1.5, 3.0]),
            initial: *r.pick(&[1, 1, 2, 3, 5]),
            growth: *r.pick(&[1, 2, 2, 3, 10]),
        }
    }
    pub fn make<K: BK, V: BV>(&self, dir: &Path) -> LResult<Lsm<K, V>> {
        Ok(if self.leveled {
            Lsm::L(LsmMap::new(LeveledStrategy::new(dir, self.mem, self.count, self.size, self.initial, self.growth)?))
        } else {
            Lsm::S(LsmMap::new(SizeTieredStrategy::new(dir, self.mem, self.count, self.size, self.low, self.high)?))
        })
    }
    pub fn open<K: BK, V: BV>(&self, dir: &Path) -> LResult<Lsm<K, V>> {
        Ok(if self.leveled { Lsm::L(LsmMap::new(LeveledStrategy::open(dir)?)) } else { Lsm::S(LsmMap::new(SizeTieredStrategy::open(dir)?)) })
    }
}

static IN_USE: [AtomicBool; SLOTS] = {
    const N: AtomicBool = AtomicBool::new(false);
    [N; SLOTS]
};
static NEXT: AtomicUsize = AtomicUsize::new(0);
static DIRS: AtomicU64 = AtomicU64::new(0);
/// a directory of its own and a slot of the shim
pub struct Case {
    pub slot: usize,
    pub dir: PathBuf,
}
impl Case {
    pub fn new() -> Case {
        let slot = loop {
            let s = NEXT.fetch_add(1, SeqCst) % SLOTS;
            if !IN_USE[s].swap(true, SeqCst) {
                break s;
            }
        };
        SLOT[slot].reset();
        let dir = PathBuf::from(format!("{}/L{:02}-{}", scratch(), slot, DIRS.fetch_add(1, SeqCst)));
        let _ = shim::bypass(|| std::fs::remove_dir_all(&dir));
        shim::set_fg(Some(slot));
        Case { slot, dir }
    }
}
impl Drop for Case {
    fn drop(&mut self) {
        SLOT[self.slot].reset();
        let _ = shim::bypass(|| std::fs::remove_dir_all(&self.dir));
        shim::set_fg(None);
        IN_USE[self.slot].store(false, SeqCst);
    }
}

pub struct H<K: BK, V: BV> {
    pub lsm: Option<Lsm<K, V>>,
    pub model: BTreeMap<i64, u64>,
    pub cfg: Cfg,
    pub range: i64,
    pub kpad: usize,
    pub vpad: usize,
    pub next: u64,
    /// percentage of foreground operations that let the held compaction thread go on; 0: not held
    pub gate: u64,
    /// states after each operation, when crash images are judged
    pub states: Option<Vec<BTreeMap<i64, u64>>>,
    pub case: Case,
}
impl<K: BK, V: BV> Drop for H<K, V> {
    fn drop(&mut self) {
        // ends the compaction thread before the directory goes away
        let s = &SLOT[self.case.slot];
        s.fail_kinds.store(0, SeqCst);
        s.image.store(false, SeqCst);
        s.quiet.store(0, SeqCst);
        s.allowed.store(u64::MAX, SeqCst);
        if let Some(mut m) = self.lsm.take() {
            let _ = catch_unwind(AssertUnwindSafe(|| on!(&mut m, m => { let _ = m.flush(); })));
            let _ = catch_unwind(AssertUnwindSafe(move || drop(m)));
        }
    }
}
pub fn kmk<K: BK>(i: i64, kpad: usize) -> K {
    K::mk(i, if i % 3 == 0 { kpad } else { kpad.min(5 + (i % 7) as usize) })
}
impl<K: BK, V: BV> H<K, V> {
    pub fn new(ctx: &mut Ctx, cfg: Cfg, range: i64, kpad: usize, vpad: usize) -> Result<Self, String> {
        let case = Case::new();
        let range = range.min(K::MAX);
        ctx.note(format!("LsmMap<{}, {}> {:?} range {} lengths {} {}", K::NAME, V::NAME, cfg, range, kpad, vpad));
        let lsm = io!(cfg.make(&case.dir), "creating a map");
        Ok(H { lsm: Some(lsm), model: BTreeMap::new(), cfg, range, kpad, vpad, next: 1, gate: 0, states: None, case })
    }
    pub fn k(&self, i: i64) -> K {
        kmk(i, self.kpad)
    }
    pub fn v(&self, v: u64) -> V {
        V::mk(v, self.vpad)
    }
    pub fn m(&mut self) -> &mut Lsm<K, V> {
        self.lsm.as_mut().unwrap()
    }
    pub fn slot(&self) -> &'static shim::Slot {
        &SLOT[self.case.slot]
    }
    pub fn fresh(&mut self, ctx: &mut Ctx) -> u64 {
        self.next += ctx.rng.range(1, 9);
        self.next
    }
    /// before an operation; `joins`: it waits for the compaction thread
    fn pre(&mut self, ctx: &mut Ctx, joins: bool) {
        if self.gate == 0 {
            return;
        }
        let s = self.slot();
        if joins {
            s.allowed.store(u64::MAX, SeqCst);
        } else if ctx.rng.below(100) < self.gate {
            let by = *ctx.rng.pick(&[1u64, 1, 2, 3, 7, 20]);
            let at = s.bg_ops.load(SeqCst);
            s.allowed.store(at + by, SeqCst);
            // let it reach the new gate
            let t = Instant::now();
            while t.elapsed() < Duration::from_micros(300) && s.bg_ops.load(SeqCst) <= at + by {
                std::thread::yield_now();
            }
            ctx.count("schedule_decisions", 1);
        }
        if s.waiting.load(SeqCst) {
            ctx.count("operations_while_compaction_is_held", 1);
        }
    }
    fn post(&mut self, ctx: &mut Ctx, joins: bool) {
        if self.gate != 0 && joins {
            let s = self.slot();
            let n = s.bg_ops.load(SeqCst) + *ctx.rng.pick(&[0u64, 0, 1, 2, 5, 12, 30, 60]);
            s.allowed.store(n, SeqCst);
        }
        if let Some(st) = &mut self.states {
            st.push(self.model.clone());
        }
    }
    pub fn insert(&mut self, ctx: &mut Ctx, i: i64) -> R {
        let v = self.fresh(ctx);
        ctx.op("insert", i, v as i64);
        self.pre(ctx, false);
        let (k, val) = (self.k(i), self.v(v));
        io!(on!(self.m(), m => m.insert(k, val)), "insert({})", i);
        self.model.insert(i, v);
        self.post(ctx, false);
        Ok(())
    }
    pub fn remove(&mut self, ctx: &mut Ctx, i: i64) -> R {
        ctx.op("remove", i, NOARG);
        self.pre(ctx, false);
        let k = self.k(i);
        io!(on!(self.m(), m => m.remove(k)), "remove({})", i);
        self.model.remove(&i);
        self.post(ctx, false);
        Ok(())
    }
    pub fn get(&mut self, ctx: &mut Ctx, i: i64) -> R {
        ctx.op("get", i, NOARG);
        self.pre(ctx, false);
        self.look(i)?;
        let k = self.k(i);
        let got = io!(on!(self.m(), m => m.contains_key(k.q())), "contains_key({})", i);
        ckeq!(got, self.model.contains_key(&i), "contains_key({})", i);
        self.post(ctx, false);
        Ok(())
    }
    pub fn look(&mut self, i: i64) -> R {
        let k = self.k(i);
        let got = io!(on!(self.m(), m => m.get(k.q())), "get({})", i);
        let exp = self.model.get(&i).map(|v| self.v(*v));
        ckeq!(got, exp, "get({})", i);
        Ok(())
    }
    pub fn min_max(&mut self, ctx: &mut Ctx) -> R {
        ctx.op("min_max", NOARG, NOARG);
        self.pre(ctx, false);
        let got = io!(on!(self.m(), m => m.min()), "min");
        let exp = self.model.keys().next().map(|i| self.k(*i));
        ckeq!(got, exp, "min");
        let got = io!(on!(self.m(), m => m.max()), "max");
        let exp = self.model.keys().next_back().map(|i| self.k(*i));
        ckeq!(got, exp, "max");
        self.post(ctx, false);
        Ok(())
    }
    pub fn len_hint(&mut self, ctx: &mut Ctx) -> R {
        ctx.op("len_hint", NOARG, NOARG);
        self.pre(ctx, false);
        let got = io!(on!(self.m(), m => m.len_hint()), "len_hint");
        ck!(got >= self.model.len(), "len_hint is {} for {} entries", got, self.model.len());
        self.post(ctx, false);
        Ok(())
    }
    pub fn len(&mut self, ctx: &mut Ctx) -> R {
        ctx.op("len", NOARG, NOARG);
        self.pre(ctx, true);
        let got = io!(on!(self.m(), m => m.len()), "len");
        ckeq!(got, self.model.len(), "len");
        let got = io!(on!(self.m(), m => m.is_empty()), "is_empty");
        ckeq!(got, self.model.is_empty(), "is_empty");
        self.post(ctx, true);
        Ok(())
    }
    pub fn flush(&mut self, ctx: &mut Ctx) -> R {
        ctx.op("flush", NOARG, NOARG);
        self.pre(ctx, true);
        io!(on!(self.m(), m => m.flush()), "flush");
        self.post(ctx, true);
        Ok(())
    }
    pub fn clear(&mut self, ctx: &mut Ctx) -> R {
        ctx.op("clear", NOARG, NOARG);
        self.pre(ctx, true);
        io!(on!(self.m(), m => m.clear()), "clear");
        self.model.clear();
        self.post(ctx, true);
        Ok(())
    }
    pub fn iter(&mut self, ctx: &mut Ctx, upto: usize) -> R {
        ctx.op("iter", if upto == usize::MAX { -1 } else { upto as i64 }, NOARG);
        self.pre(ctx, true);
        let exp: Vec<(i64, u64)> = self.model.iter().map(|(a, b)| (*a, *b)).collect();
        let (kpad, vpad) = (self.kpad, self.vpad);
        let it = io!(on!(self.m(), m => m.iter()), "iter");
        let mut n = 0;
        for x in it {
            if n >= upto {
                break;
            }
            let (k, v) = io!(x, "iter().next()");
            ck!(n < exp.len(), "iter yields {:?} past the {} entries of the map", k, exp.len());
            ckeq!(k, kmk::<K>(exp[n].0, kpad), "key {} of iter", n);
            ckeq!(v, V::mk(exp[n].1, vpad), "value of key {} in iter", exp[n].0);
            n += 1;
        }
        ckeq!(n, exp.len().min(upto), "entries yielded by iter");
        self.post(ctx, true);
        Ok(())
    }
    pub fn lookups(&mut self) -> R {
        let step = (self.range / 1500).max(1);
        let mut i = 0;
        while i < self.range {
            self.look(i)?;
            i += step;
        }
        Ok(())
    }
    pub fn full(&mut self, ctx: &mut Ctx) -> R {
        ctx.count("full_state_comparisons", 1);
        self.lookups()?;
        self.min_max(ctx)?;
        self.len_hint(ctx)?;
        self.iter(ctx, usize::MAX)?;
        self.len(ctx)
    }
    /// drops the map and opens its directory again
    pub fn reopen(&mut self, ctx: &mut Ctx) -> R {
        ctx.op("reopen", NOARG, NOARG);
        ctx.count("sessions", 1);
        self.lsm = None;
        self.lsm = Some(io!(self.cfg.open(&self.case.dir), "open"));
        Ok(())
    }
    pub fn panicked(&self) -> R {
        ckeq!(self.slot().bg_panics.load(SeqCst), 0, "panics of compaction threads");
        Ok(())
    }
    /// writes only, of one style
    pub fn key(&self, ctx: &mut Ctx, style: u64, s: i64, cur: i64) -> i64 {
        match style {
            0 | 1 => ctx.rng.us(self.range as usize) as i64,
            2 => (cur + s).rem_euclid(self.range),
            3 => (cur - s).rem_euclid(self.range),
            4 => (cur + ctx.rng.us((self.range as usize / 6).max(3)) as i64).rem_euclid(self.range),
            5 => {
                let p = ctx.rng.us(self.range as usize) as i64;
                self.model.range(p..).next().map(|(k, _)| *k).unwrap_or(p)
            }
            6 => {
                let e = if ctx.rng.chance(1, 2) { self.model.keys().next() } else { self.model.keys().next_back() };
                (e.cloned().unwrap_or(0) + ctx.rng.us(3) as i64 - 1).rem_euclid(self.range)
            }
            _ => {
                // two distant clusters
                let w = (self.range as usize / 8).max(2);
                let x = ctx.rng.us(w) as i64;
                if ctx.rng.chance(1, 2) {
                    x
                } else {
                    self.range - 1 - x
                }
            }
        }
    }
    pub fn phase(&mut self, ctx: &mut Ctx, steps: usize, p: &Mix) -> R {
        let style = ctx.rng.below(9);
        let ins = *ctx.rng.pick(&[5u64, 20, 40, 60, 80, 95, 100]);
        let cur = ctx.rng.us(self.range as usize) as i64;
        for s in 0..steps {
            let i = self.key(ctx, style, s as i64, cur);
            let x = ctx.rng.below(1000);
            if x < p.write {
                if ctx.rng.below(100) < ins {
                    self.insert(ctx, i)?;
                } else {
                    self.remove(ctx, i)?;
                }
            } else if x < p.write + p.join {
                match ctx.rng.below(6) {
                    0 | 1 | 2 => self.flush(ctx)?,
                    3 => self.len(ctx)?,
                    4 => self.iter(ctx, usize::MAX)?,
                    _ => {
                        let n = ctx.rng.us(self.model.len() + 2);
                        self.iter(ctx, n)?
                    }
                }
            } else if x < p.write + p.join + p.clear {
                self.clear(ctx)?;
            } else {
                match ctx.rng.below(10) {
                    0 => self.min_max(ctx)?,
                    1 => self.len_hint(ctx)?,
                    _ => self.get(ctx, i)?,
                }
            }
        }
        Ok(())
    }
    /// deletes everything or a contiguous part of it
    pub fn wave(&mut self, ctx: &mut Ctx) -> R {
        let mut keys: Vec<i64> = self.model.keys().cloned().collect();
        match ctx.rng.below(4) {
            0 => {}
            1 => keys.reverse(),
            2 => ctx.rng.shuffle(&mut keys),
            _ => {
                let (a, b) = (ctx.rng.us(keys.len() + 1), ctx.rng.us(keys.len() + 1));
                keys = keys[a.min(b)..a.max(b)].to_vec();
            }
        }
        for k in keys {
            self.remove(ctx, k)?;
            if ctx.rng.chance(1, 12) {
                self.get(ctx, k)?;
            }
        }
        Ok(())
    }
}
/// per thousand
#[derive(Clone, Copy)]
pub struct Mix {
    pub write: u64,
    pub join: u64,
    pub clear: u64,
}

/// sub-directories of a map's directory
pub fn tables(dir: &Path) -> Vec<PathBuf> {
    shim::bypass(|| {
        let mut v: Vec<PathBuf> = std::fs::read_dir(dir).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.is_dir()).collect()).unwrap_or_default();
        v.sort();
        v
    })
}
pub fn bytes_in(dir: &Path) -> u64 {
    shim::bypass(|| {
        let mut n = 0;
        if let Ok(d) = std::fs::read_dir(dir) {
            for e in d.filter_map(|e| e.ok()) {
                if let Ok(m) = e.metadata() {
                    n += if m.is_dir() { bytes_in(&e.path()) } else { m.len() };
                }
            }
        }
        n
    })
}
