//! Heap held by the in-memory collections (C38), read from the counting allocator after every operation.
use crate::core::*;
use crate::keys::*;
use crate::list::*;
use crate::omap::*;
use crate::radix::*;
use extended_collections::arena::{Entry, TypedArena};
use std::collections::BTreeMap;

const PER_ELEM: i64 = 128;
const FIXED: i64 = 8192;

/// base: the heap before the collections existed; `n` elements in `c` collections
fn held(ctx: &mut Ctx, name: &str, base: (i64, i64), n: usize, c: i64, op: &str) -> R {
    let (by, bl) = mem();
    let (by, bl, n) = (by - base.0, bl - base.1, n as i64);
    ctx.count("measurements", 1);
    ck!(bl <= n + 6 * c, "{}: {} heap blocks are held for {} elements after {}", name, bl, n, op);
    ck!(by <= PER_ELEM * n + FIXED * c, "{}: {} heap bytes are held for {} elements after {}", name, by, n, op);
    if n >= 1000 {
        ctx.max("max_bytes_per_element", (by / n) as u64);
        ctx.max("max_blocks_percent_of_elements", (100 * bl / n) as u64);
    }
    ctx.max("max_elements", n as u64);
    Ok(())
}
fn plan(ctx: &mut Ctx) -> (Vec<(u8, i64)>, usize) {
    let n = if ctx.idx % 50 == 7 { 20_000 } else { *ctx.rng.pick(&[20usize, 60, 200, 1500]) };
    let range = (*ctx.rng.pick(&[n / 8 + 1, n / 2 + 1, n * 4])) as i64;
    let mut v = Vec::new();
    let seqn = ctx.rng.chance(1, 4);
    let mut next = 0;
    while v.len() < n {
        let grow = *ctx.rng.pick(&[20u64, 50, 80, 95]);
        for _ in 0..1 + n / 5 {
            let q = if seqn {
                next += 1;
                next % range
            } else {
                ctx.rng.us(range as usize) as i64
            };
            let x = ctx.rng.below(100);
            v.push((if x < grow { 0 } else { 1 + (ctx.rng.below(60) as u8) }, q));
        }
    }
    ctx.sig(v.iter().fold(0u64, |h, x| h.wrapping_mul(31).wrapping_add(x.0 as u64 * 7919 + x.1 as u64)));
    (v, n)
}
pub fn maps<KT: KeyT, VT: Val, M: OMap<KT, VT>>(ctx: &mut Ctx) -> R {
    let (ops, n) = plan(ctx);
    ctx.note(format!("{} {} operations", M::NAME, n));
    ctx.op("space", n as i64, NOARG);
    ctx.ops.reserve(16);
    let base = mem();
    let mut m = M::new();
    held(ctx, M::NAME, base, 0, 1, "new")?;
    for (i, &(op, q)) in ops.iter().enumerate() {
        let what = match op {
            0 => {
                m.insert(KT::mk(q, i as u32), VT::mk(i as u64));
                "insert"
            }
            1..=45 => {
                m.remove(&Q(q));
                "remove"
            }
            46..=50 => {
                m.get_mut(&Q(q));
                "get_mut"
            }
            51..=57 => {
                m.get(&Q(q));
                m.contains(&Q(q));
                m.floor(&Q(q));
                m.ceil(&Q(q));
                m.min();
                m.max();
                "lookups"
            }
            58 if i % 7 == 0 => {
                m.clear();
                "clear"
            }
            _ => {
                let k = m.iter(true).take(3).count();
                ctx.count("iterated", k as u64);
                "iter"
            }
        };
        let n = m.len();
        if !M::SET || op != 46 {
            held(ctx, M::NAME, base, n, 1, what)?;
        }
    }
    let ks: Vec<i64> = (0..ops.iter().map(|o| o.1).max().unwrap_or(0) + 1).collect();
    let base = (base.0 + (ks.capacity() * 8) as i64, base.1 + 1);
    for &k in &ks {
        m.remove(&Q(k));
        let n = m.len();
        held(ctx, M::NAME, base, n, 1, "removing every key")?;
    }
    ckeq!(m.len(), 0, "{}: length after removing every key", M::NAME);
    m.insert(KT::mk(1, 1), VT::mk(1));
    m.insert(KT::mk(2, 1), VT::mk(1));
    m.clear();
    held(ctx, M::NAME, base, 0, 1, "clear")
}
pub fn algebra<KT: KeyT, VT: Val, M: OMap<KT, VT> + Algebra>(ctx: &mut Ctx) -> R {
    let (ops, n) = plan(ctx);
    ctx.note(format!("{} {} operations", M::NAME, n));
    ctx.op("space_algebra", n as i64, NOARG);
    let base = mem();
    let mut m = M::new();
    for part in ops.chunks(1 + ops.len() / 5) {
        let mut o = M::new();
        for (i, &(op, q)) in part.iter().enumerate() {
            if op < 40 {
                o.insert(KT::mk(q, i as u32), VT::mk(i as u64));
            } else {
                o.remove(&Q(q));
            }
        }
        let total = m.len() + o.len();
        held(ctx, M::NAME, base, total, 2, "building the operands")?;
        let w = ctx.rng.below(7);
        let (a, b) = if ctx.rng.chance(1, 2) { (m, o) } else { (o, m) };
        m = match w {
            0..=2 => M::union(a, b, w == 1),
            3 => M::symmetric_difference(a, b),
            4 | 5 => M::difference(a, b, w == 5),
            _ => M::intersection(a, b),
        };
        let n = m.len();
        held(ctx, M::NAME, base, n, 1, ["union", "+", "union", "symmetric_difference", "difference", "-", "intersection"][w as usize])?;
        ctx.count("set_operations", 1);
    }
    drop(m);
    held(ctx, M::NAME, base, 0, 1, "drop")
}
pub fn split<KT: KeyT, VT: Val, M: OMap<KT, VT> + Algebra + SplitOff>(ctx: &mut Ctx) -> R {
    let (ops, n) = plan(ctx);
    ctx.note(format!("{} {} operations", M::NAME, n));
    ctx.op("space_split", n as i64, NOARG);
    let base = mem();
    let mut m = M::new();
    for (i, &(op, q)) in ops.iter().enumerate() {
        if op < 50 {
            m.insert(KT::mk(q, i as u32), VT::mk(i as u64));
        } else if op < 56 {
            m.remove(&Q(q));
        } else {
            let r = m.split_off(q, i % 2 == 0);
            ctx.count("splits", 1);
            let total = m.len() + r.len();
            held(ctx, M::NAME, base, total, 2, "split_off")?;
            m = match i % 3 {
                0 => r,
                1 => m,
                _ => M::union(r, m, false),
            };
        }
        let n = m.len();
        held(ctx, M::NAME, base, n, 1, "an operation")?;
    }
    Ok(())
}
pub fn lists<S: SeqT<u64>>(ctx: &mut Ctx) -> R {
    let (ops, n) = plan(ctx);
    ctx.note(format!("{} {} operations", S::NAME, n));
    ctx.op("space_list", n as i64, NOARG);
    let base = mem();
    let mut s = S::new();
    held(ctx, S::NAME, base, 0, 1, "new")?;
    for (i, &(op, q)) in ops.iter().enumerate() {
        let l = s.len();
        let q = q as usize;
        let what = match op {
            0 if i % 41 == 0 => {
                let mut o = S::new();
                for j in 0..q % 7 {
                    o.push_back(j as u64);
                }
                s = if i % 2 == 0 { s.concat(o) } else { o.concat(s) };
                "+"
            }
            0 if i % 9 == 0 => {
                s.push_front(i as u64);
                "push_front"
            }
            0 if i % 9 == 1 => {
                s.push_back(i as u64);
                "push_back"
            }
            0 => {
                s.insert(q % (l + 1), i as u64);
                "insert"
            }
            1..=40 if l > 0 => {
                s.remove(q % l);
                "remove"
            }
            41..=44 if l > 0 => {
                s.pop_front();
                "pop_front"
            }
            45..=48 if l > 0 => {
                s.pop_back();
                "pop_back"
            }
            58 if i % 7 == 0 => {
                s.clear();
                "clear"
            }
            _ => {
                s.get(q);
                s.get_mut(q);
                ctx.count("iterated", s.iter(true).take(3).count() as u64);
                "get"
            }
        };
        let l = s.len();
        held(ctx, S::NAME, base, l, 1, what)?;
    }
    while s.len() > 0 {
        let l = s.len();
        s.remove(l / 2);
        held(ctx, S::NAME, base, l - 1, 1, "removing every element")?;
    }
    s.push_back(1);
    s.clear();
    held(ctx, S::NAME, base, 0, 1, "clear")
}
/// nodes of the path-compressed tree of these keys: the keys, and the points where two of them part
fn tree_nodes(model: &BTreeMap<Vec<u8>, u64>) -> i64 {
    let mut n = model.len() as i64;
    let mut seen = std::collections::BTreeSet::new();
    for (a, b) in model.keys().zip(model.keys().skip(1)) {
        let c = a.iter().zip(b).take_while(|(x, y)| x == y).count();
        if !model.contains_key(&a[..c]) && seen.insert(&a[..c]) {
            n += 1;
        }
    }
    n
}
pub fn radixes<V: RV, M: Rad<V>>(ctx: &mut Ctx) -> R {
    ctx.note(M::NAME.to_string());
    let g = Gen::new(&mut ctx.rng);
    let mut model: BTreeMap<Vec<u8>, u64> = BTreeMap::new();
    let (mut by, mut bl) = (0i64, 0i64);
    let before = mem();
    let mut m = Some(M::new());
    let d = mem();
    by += d.0 - before.0;
    bl += d.1 - before.1;
    let big = ctx.idx % 40 == 3;
    let mut ever: i64 = 1;
    for _ in 0..ctx.rng.range(1, 6) {
        let grow = *ctx.rng.pick(&[10u64, 30, 60, 80, 95]);
        for _ in 0..if big { 3000 } else { sz(ctx.rng.range(4, 120)) } {
            let mut k = g.key(&mut ctx.rng, &model);
            let ins = ctx.rng.below(100) < grow;
            if !ins && ctx.rng.chance(3, 4) && !model.is_empty() {
                let p = k.clone();
                k = model.range(p..).next().or_else(|| model.iter().next()).unwrap().0.clone();
            }
            ctx.op(if ins { "insert" } else { "remove" }, k.len() as i64, k.first().map_or(-1, |x| *x as i64));
            let t = m.as_mut().unwrap();
            let r;
            let b0 = mem();
            if ins {
                r = t.insert(&k, V::mk(1));
            } else {
                r = t.remove(&k);
            }
            drop(r);
            let b1 = mem();
            by += b1.0 - b0.0;
            bl += b1.1 - b0.1;
            if ins {
                ever += k.len() as i64 + 1;
                model.insert(k, 1);
            } else {
                model.remove(&k);
            }
            // V may own one block each
            let own = if std::mem::size_of::<V>() > 8 { model.len() as i64 } else { 0 };
            if !big || ctx.rng.chance(1, 100) {
                let nodes = tree_nodes(&model) + 1;
                ctx.count("measurements", 1);
                ctx.max("max_nodes", nodes as u64);
                ck!(
                    bl <= 2 * nodes + own + 4,
                    "{}: {} heap blocks are held for {} keys, whose tree needs {} nodes",
                    M::NAME, bl, model.len(), nodes
                );
                ck!(by <= 256 * nodes + 2 * ever + FIXED, "{}: {} heap bytes are held for {} keys ({} nodes)", M::NAME, by, model.len(), nodes);
            }
        }
    }
    let left: Vec<Vec<u8>> = model.keys().cloned().collect();
    let mut t = m.take().unwrap();
    for k in &left {
        let b0 = mem();
        drop(t.remove(k));
        bl += mem().1 - b0.1;
    }
    ckeq!(t.len(), 0, "{}: length after removing every key", M::NAME);
    ck!(bl <= 4, "{}: {} heap blocks are held by the map that has become empty", M::NAME, bl);
    Ok(())
}
pub fn arenas(ctx: &mut Ctx) -> R {
    let chunk = *ctx.rng.pick(&[1usize, 1, 2, 3, 7, 16, 64, 1000]);
    let (ops, n) = plan(ctx);
    ctx.note(format!("arena of chunk size {}, {} operations", chunk, n));
    ctx.op("space_arena", n as i64, chunk as i64);
    let mut live: Vec<Entry> = Vec::with_capacity(ops.len() + 1);
    let base = mem();
    let mut a: TypedArena<u64> = TypedArena::new(chunk);
    let (mut peak, mut total) = (0usize, 0u64);
    for &(op, q) in &ops {
        if op < 14 {
            live.push(a.allocate(q as u64));
            total += 1;
        } else if !live.is_empty() {
            let e = live.swap_remove(q as usize % live.len());
            a.free(&e);
        }
        peak = peak.max(live.len());
        let chunks = ((peak + chunk - 1) / chunk) as i64;
        let (by, bl) = mem();
        let (by, bl) = (by - base.0, bl - base.1);
        ctx.count("measurements", 1);
        ck!(bl <= chunks + 3, "arena of chunk size {}: {} heap blocks are held, {} values were live at most", chunk, bl, peak);
        ck!(
            by <= chunks * (chunk as i64 * 40 + 64) + 1024,
            "arena of chunk size {}: {} heap bytes are held, {} values were live at most",
            chunk, by, peak
        );
    }
    ctx.max("max_allocations_per_peak", total / peak.max(1) as u64);
    Ok(())
}
