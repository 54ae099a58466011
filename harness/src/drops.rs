//! Exactly-once destruction and heap balance (C20).
use crate::bst::*;
use crate::core::*;
use crate::keys::*;
use crate::list::*;
use crate::omap::*;
use crate::radix::{Gen, Rad, RH, RV};
use extended_collections::arena::TypedArena;
use extended_collections::skiplist::{SkipList, SkipMap};
use extended_collections::treap::{TreapList, TreapMap};
use std::borrow::Borrow;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;

thread_local! {
    // 0 = never created, 1 = live, 2 = dropped
    static TAB: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
    static BAD: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
const CAP: usize = 1 << 16;
const MAGIC: u32 = 0x5EED_CAFE;
fn born() -> u32 {
    LIVE.with(|l| l.set(l.get() + 1));
    TAB.with(|t| {
        let mut t = t.borrow_mut();
        let id = t.len();
        if id < CAP {
            t.push(1);
            id as u32
        } else {
            u32::MAX
        }
    })
}
fn died(id: u32, magic: u32) {
    LIVE.with(|l| l.set(l.get() - 1));
    if magic != MAGIC {
        BAD.with(|b| b.set(b.get() + 1));
        return;
    }
    if id == u32::MAX {
        return;
    }
    TAB.with(|t| {
        let mut t = t.borrow_mut();
        match t.get_mut(id as usize) {
            Some(s) if *s == 1 => *s = 2,
            _ => BAD.with(|b| b.set(b.get() + 1)),
        }
    })
}
fn reset() {
    TAB.with(|t| {
        let mut t = t.borrow_mut();
        t.clear();
        t.reserve_exact(CAP);
    });
    BAD.with(|b| b.set(0));
    LIVE.with(|l| l.set(0));
}
fn bad() -> u64 {
    BAD.with(|b| b.get())
}
fn live() -> i64 {
    LIVE.with(|l| l.get())
}
/// a key whose destruction is recorded
pub struct DK {
    q: Q,
    tag: u32,
    id: u32,
    magic: u32,
}
impl Drop for DK {
    fn drop(&mut self) {
        died(self.id, self.magic)
    }
}
impl PartialEq for DK {
    fn eq(&self, o: &DK) -> bool { self.q == o.q }
}
impl Eq for DK {}
impl PartialOrd for DK {
    fn partial_cmp(&self, o: &DK) -> Option<Ordering> { Some(self.cmp(o)) }
}
impl Ord for DK {
    fn cmp(&self, o: &DK) -> Ordering { self.q.cmp(&o.q) }
}
impl Borrow<Q> for DK {
    fn borrow(&self) -> &Q { &self.q }
}
impl KeyT for DK {
    fn mk(q: i64, tag: u32) -> Self { DK { q: Q(q), tag, id: born(), magic: MAGIC } }
    fn q(&self) -> i64 { self.q.0 }
    fn tag(&self) -> u32 { self.tag }
    fn probe(q: i64) -> Self { Self::mk(q, u32::MAX) }
}
pub struct DV {
    v: u64,
    id: u32,
    magic: u32,
}
impl Drop for DV {
    fn drop(&mut self) {
        died(self.id, self.magic)
    }
}
impl DV {
    fn make(v: u64) -> Self { DV { v, id: born(), magic: MAGIC } }
}
impl Val for DV {
    fn mk(v: u64) -> Self { DV::make(v) }
    fn val(&self) -> u64 { self.v }
    fn set(&mut self, v: u64) { *self = DV::make(v) }
}
impl Elem for DV {
    fn mk(v: u64) -> Self { DV::make(v) }
    fn val(&self) -> u64 { self.v }
    fn set(&mut self, v: u64) { *self = DV::make(v) }
}
impl RV for DV {
    fn mk(v: u64) -> Self { DV::make(v) }
    fn val(&self) -> u64 { self.v }
    fn set(&mut self, v: u64) { *self = DV::make(v) }
}
impl crate::arena::AV for DV {
    fn mk(v: u64) -> Self { DV::make(v) }
    fn val(&self) -> u64 { self.v }
    fn set(&mut self, v: u64) { *self = DV::make(v) }
}
const COUNTERS: [&str; 14] = ["full_state_comparisons", "operations", "objects_tracked", "live_checks", "set_operations", "splits", "concatenations", "reused_slots", "vacant_misuses", "foreign_misuses", "max_live", "max_len", "heap_blocks_balanced", "orders"];
fn warm() {
    // lazily allocated thread-local generators
    let mut m: TreapMap<u32, u32> = TreapMap::new();
    m.insert(1, 1);
    let mut m: SkipMap<u32, u32> = SkipMap::new();
    m.insert(1, 1);
    let mut l: SkipList<u32> = SkipList::new();
    l.push_back(1);
    let mut l: TreapList<u32> = TreapList::new();
    l.push_back(1);
    let _ = panics(|| panic!("warm"));
}
fn accounted(ctx: &mut Ctx, f: impl FnOnce(&mut Ctx) -> R) -> R {
    warm();
    reset();
    ctx.ops.reserve(1 << 14);
    ctx.notes.reserve(64);
    for c in COUNTERS {
        ctx.count(c, 0);
    }
    crate::core::clear_last_panic();
    let a0 = allocs();
    let m0 = mem();
    let notes0: usize = ctx.notes.iter().map(|s| s.capacity()).sum();
    let nn0 = ctx.notes.len();
    f(ctx)?;
    crate::core::clear_last_panic();
    let m1 = mem();
    // the notes and the op log belong to the harness
    let notes1: usize = ctx.notes.iter().map(|s| s.capacity()).sum();
    let blocks = m1.1 - m0.1 - (ctx.notes.len() - nn0) as i64;
    let bytes = m1.0 - m0.0 - (notes1 - notes0) as i64;
    ck!(bad() == 0, "{} objects were dropped twice or never created", bad());
    let n = TAB.with(|t| t.borrow().len());
    let undropped = TAB.with(|t| t.borrow().iter().filter(|s| **s == 1).count());
    ck!(undropped == 0 && live() == 0, "{} of {} objects were never dropped ({} live)", undropped, n, live());
    if allocs() > 0 && ctx.ops.len() < (1 << 14) && ctx.notes.len() <= 64 && !ctx.verbose {
        ck!(blocks == 0 && bytes == 0, "{} heap blocks ({} bytes) were not released", blocks, bytes);
        ctx.count("heap_blocks_balanced", allocs() - a0);
    }
    ctx.count("objects_tracked", n as u64);
    Ok(())
}
fn live_is(ctx: &mut Ctx, exp: usize, what: &str) -> R {
    ctx.count("live_checks", 1);
    ck!(bad() == 0, "{}: an object was dropped twice or never created", what);
    ck!(live() == exp as i64, "{}: {} objects are alive, the collection should own {}", what, live(), exp);
    Ok(())
}
pub fn map_history<VT: Val, M: OMap<DK, VT>>(ctx: &mut Ctx) -> R {
    accounted(ctx, |ctx| {
        let range = *ctx.rng.pick(&[4i64, 8, 16, 64, 256]);
        ctx.note(format!("{} range {}", M::NAME, range));
        let per = if VT::UNIT { 1 } else { 2 };
        let mut h = Hist::<DK, VT, M>::new(false, range);
        for _ in 0..ctx.rng.range(1, 4) {
            let steps = ctx.rng.range(10, 200) as usize;
            h.phase(ctx, steps, |h, ctx| live_is(ctx, h.model.len() * per, M::NAME))?;
        }
        if ctx.rng.chance(1, 60) {
            // thousands of entries in one order
            h.range = ctx.rng.range(2000, 10_000) as i64;
            let down = ctx.rng.chance(1, 2);
            for i in 0..h.range {
                let q = if down { h.range - 1 - i } else { i };
                h.insert(ctx, q, 7)?;
            }
            ctx.ops.clear();
            ctx.count("large_collections", 1);
            live_is(ctx, h.model.len() * per, M::NAME)?;
        }
        h.full(ctx)?;
        match ctx.rng.below(4) {
            0 => {
                h.clear(ctx)?;
                live_is(ctx, 0, M::NAME)
            }
            1 => {
                let n = h.model.len();
                let stop = ctx.rng.us(n + 1);
                let mut it = h.m.take().unwrap().consume();
                for i in 0..stop {
                    ck!(it.next().is_some(), "{}: into_iter ended early", M::NAME);
                    live_is(ctx, (n - i - 1) * per, M::NAME)?;
                }
                drop(it);
                live_is(ctx, 0, M::NAME)
            }
            _ => {
                drop(h.m.take());
                live_is(ctx, 0, M::NAME)
            }
        }
    })
}
pub fn map_algebra<VT: Val, M: OMap<DK, VT> + Algebra>(ctx: &mut Ctx) -> R {
    accounted(ctx, |ctx| algebra::<DK, VT, M>(ctx))
}
pub fn map_split<VT: Val, M: OMap<DK, VT> + Algebra + SplitOff>(ctx: &mut Ctx) -> R {
    accounted(ctx, |ctx| split::<DK, VT, M>(ctx))
}
pub fn list_history<S: SeqT<DV>>(ctx: &mut Ctx) -> R {
    accounted(ctx, |ctx| {
        let mut l = L::<DV, S>::new(ctx.rng.chance(1, 2));
        ctx.note(S::NAME.to_string());
        for _ in 0..ctx.rng.range(1, 4) {
            let grow = *ctx.rng.pick(&[25u64, 40, 55, 70]);
            for _ in 0..ctx.rng.range(5, 150) {
                l.step(ctx, grow)?;
                live_is(ctx, l.model.len(), S::NAME)?;
            }
        }
        if ctx.rng.chance(1, 60) {
            let front = ctx.rng.chance(1, 2);
            for _ in 0..ctx.rng.range(2000, 10_000) {
                let n = l.model.len();
                l.insert(ctx, if front { 0 } else { n })?;
            }
            ctx.ops.clear();
            ctx.count("large_collections", 1);
            live_is(ctx, l.model.len(), S::NAME)?;
        }
        l.full(ctx)?;
        if ctx.rng.chance(1, 2) {
            let n = l.model.len();
            let stop = ctx.rng.us(n + 1);
            let mut it = l.s.take().unwrap().consume();
            for i in 0..stop {
                ck!(it.next().is_some(), "{}: into_iter ended early", S::NAME);
                live_is(ctx, n - i - 1, S::NAME)?;
            }
            drop(it);
        } else {
            drop(l.s.take());
        }
        live_is(ctx, 0, S::NAME)
    })
}
pub fn list_concat<S: SeqT<DV>>(ctx: &mut Ctx) -> R {
    accounted(ctx, |ctx| crate::list::concat::<DV, S>(ctx))
}
pub fn radix_history<M: Rad<DV>>(ctx: &mut Ctx) -> R {
    accounted(ctx, |ctx| {
        let g = Gen::new(&mut ctx.rng);
        let mut h = RH::<DV, M>::new(false);
        for _ in 0..ctx.rng.range(1, 4) {
            let (pi, pr) = *ctx.rng.pick(&[(55u64, 15u64), (20, 50), (40, 40)]);
            for _ in 0..ctx.rng.range(5, 100) {
                h.step(ctx, &g, pi, pr)?;
                live_is(ctx, h.model.len(), M::NAME)?;
            }
        }
        if ctx.rng.chance(1, 2) {
            let n = h.model.len();
            let stop = ctx.rng.us(n + 1);
            let mut it = h.m.take().unwrap().consume();
            for i in 0..stop {
                ck!(it.next().is_some(), "{}: into_iter ended early", M::NAME);
                live_is(ctx, n - i - 1, M::NAME)?;
            }
            drop(it);
        } else {
            drop(h.m.take());
        }
        live_is(ctx, 0, M::NAME)
    })
}
pub fn arena_history(ctx: &mut Ctx) -> R {
    accounted(ctx, |ctx| {
        crate::arena::history::<DV>(ctx)?;
        live_is(ctx, 0, "TypedArena")?;
        // live counts while in use
        let chunk = ctx.rng.range(1, 9) as usize;
        let mut a: TypedArena<DV> = TypedArena::new(chunk);
        let mut es = Vec::new();
        for i in 0..ctx.rng.range(1, 150) {
            if es.is_empty() || ctx.rng.chance(3, 5) {
                es.push(a.allocate(DV::make(i)));
            } else {
                let e = es.swap_remove(ctx.rng.us(es.len()));
                drop(a.free(&e));
            }
            live_is(ctx, es.len(), "TypedArena")?;
        }
        drop(a);
        live_is(ctx, 0, "TypedArena")
    })
}
