//! Search cost suites: distinct keys examined (treap, skip list) and amortized comparisons (splay tree).
use crate::bst::*;
use crate::core::*;
use crate::keys::*;
use crate::omap::*;

/// key orders for bulk building
pub fn order(rng: &mut Rng, which: u64, n: usize) -> Vec<i64> {
    let n = n as i64;
    let mut ks: Vec<i64> = (0..n).collect();
    match which {
        0 => {}
        1 => ks.reverse(),
        2 => rng.shuffle(&mut ks),
        3 => ks = (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
        4 => {
            let b = rng.range(2, 64) as i64;
            ks.sort_by_key(|k| (k % b, *k));
        }
        _ => {
            // bit reversal
            let bits = 64 - (n as u64).leading_zeros();
            ks.sort_by_key(|k| (*k as u64).reverse_bits() >> (64 - bits));
        }
    }
    ks
}
pub struct Depth {
    pub max: usize,
    pub avg: f64,
    pub n: usize,
}
pub fn depths<KT: KeyT, VT: Val, M: OMap<KT, VT>>(m: &M, keys: &[i64]) -> Result<Depth, String> {
    let mut max = 0;
    let mut sum = 0u64;
    for k in keys {
        let (f, p) = record(*k, || m.contains(&Q(*k)));
        ck!(f, "{}: key {} is not found", M::NAME, k);
        max = max.max(p.len());
        sum += p.len() as u64;
    }
    Ok(Depth { max, avg: sum as f64 / keys.len().max(1) as f64, n: keys.len() })
}
fn treap_bound<M>(name: &str, d: Depth, ctx: &mut Ctx, what: &str, _m: &M) -> R {
    let b = 4.4 * (d.n.max(1) as f64).ln() + 30.0;
    ctx.max("max_depth", d.max as u64);
    ctx.max("max_n", d.n as u64);
    ctx.max("max_depth_percent_of_bound", (100.0 * d.max as f64 / b) as u64);
    ctx.count("depth_checks", 1);
    ck!(d.max as f64 <= b, "{}: after {} a lookup among {} keys examined {} distinct keys (bound {:.0})", name, what, d.n, d.max, b);
    Ok(())
}
/// C10: bulk orders, then removals
pub fn treap_orders<KT: KeyT, VT: Val, M: OMap<KT, VT>>(ctx: &mut Ctx) -> R {
    let n = *ctx.rng.pick(&[300usize, 1000, 3000, 10000]);
    let w = ctx.rng.below(6);
    let ks = order(&mut ctx.rng, w, n);
    ctx.note(format!("{} n {} order {}", M::NAME, n, w));
    ctx.sig(ctx.rng.clone().u());
    let mut m = M::new();
    for k in &ks {
        m.insert(KT::mk(*k, 0), VT::mk(0));
    }
    let all: Vec<i64> = (0..n as i64).collect();
    treap_bound(M::NAME, depths::<KT, VT, M>(&m, &all)?, ctx, "inserting", &m)?;
    // overwriting must not disturb the balance
    for k in &ks {
        m.insert(KT::mk(*k, 1), VT::mk(1));
    }
    treap_bound(M::NAME, depths::<KT, VT, M>(&m, &all)?, ctx, "overwriting", &m)?;
    let w = ctx.rng.below(6);
    let del = order(&mut ctx.rng, w, n);
    for k in &del[..n / 2] {
        m.remove(&Q(*k));
    }
    let rest: Vec<i64> = del[n / 2..].to_vec();
    treap_bound(M::NAME, depths::<KT, VT, M>(&m, &rest)?, ctx, "removing", &m)?;
    // churn: sliding window
    let mut lo = 0;
    let mut m = M::new();
    for k in 0..(3 * n as i64) {
        m.insert(KT::mk(k, 0), VT::mk(0));
        if k - lo > n as i64 / 4 {
            m.remove(&Q(lo));
            lo += 1;
        }
    }
    let rest: Vec<i64> = (lo..3 * n as i64).collect();
    treap_bound(M::NAME, depths::<KT, VT, M>(&m, &rest)?, ctx, "a sliding window", &m)
}
/// C10: many independently built maps combined
pub fn treap_merges<KT: KeyT, VT: Val, M: OMap<KT, VT> + Algebra + SplitOff>(ctx: &mut Ctx) -> R {
    let parts = *ctx.rng.pick(&[4usize, 20, 100, 400]);
    let each = *ctx.rng.pick(&[1usize, 3, 10, 40]);
    let (mode, way) = (ctx.rng.below(4), ctx.rng.below(2));
    ctx.note(format!("{} parts {} each {} mode {} by {}", M::NAME, parts, each, mode, ["union", "symmetric difference"][way as usize]));
    ctx.sig(ctx.rng.clone().u());
    let total = (parts * each) as i64;
    let mut acc = M::new();
    let ids: Vec<usize> = match mode {
        0 => (0..parts).collect(),
        1 => (0..parts).rev().collect(),
        _ => {
            let mut v: Vec<usize> = (0..parts).collect();
            ctx.rng.shuffle(&mut v);
            v
        }
    };
    for p in ids {
        let mut m = M::new();
        for j in 0..each {
            // mode 3 interleaves the parts, the others keep them disjoint ranges
            let k = if mode == 3 { (j * parts + p) as i64 } else { (p * each + j) as i64 };
            m.insert(KT::mk(k, 0), VT::mk(0));
        }
        // the parts are disjoint: union and symmetric difference agree
        let left = ctx.rng.chance(1, 2);
        acc = match (way, left) {
            (0, true) => M::union(acc, m, false),
            (0, false) => M::union(m, acc, true),
            (_, true) => M::symmetric_difference(acc, m),
            (_, false) => M::symmetric_difference(m, acc),
        };
    }
    let all: Vec<i64> = (0..total).collect();
    treap_bound(M::NAME, depths::<KT, VT, M>(&acc, &all)?, ctx, "unions", &acc)?;
    // split into pieces and join them again in another order
    for _ in 0..10 {
        let q = ctx.rng.below(total as u64) as i64;
        let r = acc.split_off(q, ctx.rng.chance(1, 2));
        acc = if ctx.rng.chance(1, 2) { M::union(acc, r, true) } else { M::union(r, acc, true) };
    }
    treap_bound(M::NAME, depths::<KT, VT, M>(&acc, &all)?, ctx, "splits and unions", &acc)?;
    // keys are taken out and put back in again and again
    let mut present: Vec<bool> = vec![true; total as usize];
    for _ in 0..ctx.rng.below(30) {
        let mut m = M::new();
        let (from, n, w) = (ctx.rng.below(total as u64) as i64, ctx.rng.range(1, 1 + total as u64 / 4), ctx.rng.below(6));
        let o = order(&mut ctx.rng, w, n as usize);
        for k in o {
            m.insert(KT::mk((from + k) % total, 0), VT::mk(0));
        }
        let op = ctx.rng.below(4);
        for k in 0..n as i64 {
            let p = &mut present[((from + k) % total) as usize];
            *p = match op {
                0 => false,
                1 => true,
                _ => !*p,
            };
        }
        acc = match op {
            0 => M::difference(acc, m, ctx.rng.chance(1, 2)),
            1 => M::union(m, acc, false),
            2 => M::symmetric_difference(acc, m),
            _ => M::symmetric_difference(m, acc),
        };
    }
    let there: Vec<i64> = (0..total).filter(|k| present[*k as usize]).collect();
    treap_bound(M::NAME, depths::<KT, VT, M>(&acc, &there)?, ctx, "many set operations", &acc)?;
    let mut rest = M::new();
    for k in (0..total).filter(|k| !present[*k as usize]) {
        rest.insert(KT::mk(k, 0), VT::mk(0));
    }
    acc = M::union(acc, rest, true);
    // difference and intersection
    let mut other = M::new();
    for k in (0..total).step_by(2) {
        other.insert(KT::mk(k, 0), VT::mk(0));
    }
    let (res, rest): (M, Vec<i64>) = if ctx.rng.chance(1, 2) {
        (M::difference(acc, other, false), (0..total).filter(|k| k % 2 == 1).collect())
    } else {
        (M::intersection(acc, other), (0..total).filter(|k| k % 2 == 0).collect())
    };
    treap_bound(M::NAME, depths::<KT, VT, M>(&res, &rest)?, ctx, "difference/intersection", &res)
}

fn skip_bound(name: &str, d: Depth, ctx: &mut Ctx, what: &str) -> R {
    if d.n == 0 {
        return Ok(());
    }
    let b = 3.0 * (d.n as f64).log2() + 16.0;
    ctx.max("max_n", d.n as u64);
    ctx.max("max_avg_percent_of_bound", (100.0 * d.avg / b) as u64);
    ctx.count("cost_checks", 1);
    ck!(d.avg <= b, "{}: after {} a lookup among {} keys examines {:.1} distinct keys on average (bound {:.1})", name, what, d.n, d.avg, b);
    Ok(())
}
/// C14
pub fn skip_orders<KT: KeyT, VT: Val, M: OMap<KT, VT>>(ctx: &mut Ctx) -> R {
    let n = *ctx.rng.pick(&[300usize, 1000, 3000, 10000]);
    let w = ctx.rng.below(6);
    let ks = order(&mut ctx.rng, w, n);
    ctx.note(format!("{} n {} order {}", M::NAME, n, w));
    ctx.sig(ctx.rng.clone().u());
    let mut m = M::new();
    for k in &ks {
        m.insert(KT::mk(*k, 0), VT::mk(0));
    }
    let all: Vec<i64> = (0..n as i64).collect();
    skip_bound(M::NAME, depths::<KT, VT, M>(&m, &all)?, ctx, "inserting")?;
    for k in &ks {
        m.insert(KT::mk(*k, 1), VT::mk(1));
    }
    skip_bound(M::NAME, depths::<KT, VT, M>(&m, &all)?, ctx, "overwriting")?;
    let w = ctx.rng.below(6);
    let del = order(&mut ctx.rng, w, n);
    for k in &del[..n / 2] {
        m.remove(&Q(*k));
    }
    let rest: Vec<i64> = del[n / 2..].to_vec();
    skip_bound(M::NAME, depths::<KT, VT, M>(&m, &rest)?, ctx, "removing")?;
    // misses also have to be cheap
    let mut sum = 0;
    for k in &del[..n / 2] {
        let (f, p) = record(*k, || m.contains(&Q(*k)));
        ck!(!f, "{}: removed key {} is still found", M::NAME, k);
        sum += p.len();
    }
    let d = Depth { max: 0, avg: sum as f64 / (n / 2) as f64, n: rest.len() };
    skip_bound(M::NAME, d, ctx, "removing (searching absent keys)")?;
    // sliding window, emptied and refilled
    let mut lo = 0;
    for k in &rest {
        m.remove(&Q(*k));
    }
    for k in 0..(2 * n as i64) {
        m.insert(KT::mk(k, 0), VT::mk(0));
        if k - lo > n as i64 / 4 {
            m.remove(&Q(lo));
            lo += 1;
        }
    }
    let rest: Vec<i64> = (lo..2 * n as i64).collect();
    skip_bound(M::NAME, depths::<KT, VT, M>(&m, &rest)?, ctx, "a sliding window")
}
pub fn skip_algebra<KT: KeyT, VT: Val, M: OMap<KT, VT> + Algebra>(ctx: &mut Ctx) -> R {
    let n = *ctx.rng.pick(&[300i64, 1000, 3000, 10000]);
    ctx.note(format!("{} n {}", M::NAME, n));
    ctx.sig(ctx.rng.clone().u());
    let which = ctx.rng.below(4);
    let shape = ctx.rng.below(3);
    let mut inl = vec![false; n as usize];
    let mut inr = vec![false; n as usize];
    let (mut l, mut r) = (M::new(), M::new());
    for k in 0..n {
        let (a, b) = match shape {
            0 => (ctx.rng.chance(1, 2), ctx.rng.chance(1, 2)),
            1 => (k < n / 2, k >= n / 2),
            _ => (true, k % 50 == 0),
        };
        inl[k as usize] = a;
        inr[k as usize] = b;
        if a {
            l.insert(KT::mk(k, 0), VT::mk(0));
        }
        if b {
            r.insert(KT::mk(k, 0), VT::mk(0));
        }
    }
    if ctx.rng.chance(1, 2) {
        std::mem::swap(&mut inl, &mut inr);
        std::mem::swap(&mut l, &mut r);
    }
    ctx.op(["union", "intersection", "difference", "symmetric_difference"][which as usize], shape as i64, NOARG);
    let (m, f): (M, fn(bool, bool) -> bool) = match which {
        0 => (M::union(l, r, false), |a, b| a || b),
        1 => (M::intersection(l, r), |a, b| a && b),
        2 => (M::difference(l, r, false), |a, b| a && !b),
        _ => (M::symmetric_difference(l, r), |a, b| a != b),
    };
    let keys: Vec<i64> = (0..n).filter(|k| f(inl[*k as usize], inr[*k as usize])).collect();
    skip_bound(M::NAME, depths::<KT, VT, M>(&m, &keys)?, ctx, "a set operation")
}

/// C14: many independently built maps combined, and maps that keep growing between set operations
pub fn skip_merges<KT: KeyT, VT: Val, M: OMap<KT, VT> + Algebra>(ctx: &mut Ctx) -> R {
    let parts = *ctx.rng.pick(&[20usize, 60, 150, 400]);
    let each = *ctx.rng.pick(&[1usize, 1, 2, 3, 10]);
    let mode = ctx.rng.below(4);
    let via = ctx.rng.below(4);
    ctx.note(format!("{} parts {} each {} mode {} via {}", M::NAME, parts, each, mode, via));
    ctx.sig(ctx.rng.clone().u());
    let total = (parts * each) as i64;
    let mut ids: Vec<usize> = (0..parts).collect();
    match mode {
        0 => {}
        1 => ids.reverse(),
        _ => ctx.rng.shuffle(&mut ids),
    }
    let mut acc = M::new();
    for p in ids {
        let ks: Vec<i64> = (0..each).map(|j| if mode == 3 { (j * parts + p) as i64 } else { (p * each + j) as i64 }).collect();
        if via < 2 {
            // a fresh map per part
            let mut m = M::new();
            for k in &ks {
                m.insert(KT::mk(*k, 0), VT::mk(0));
            }
            let left = ctx.rng.chance(1, 2);
            acc = match (via, left) {
                (0, true) => M::union(acc, m, ctx.rng.chance(1, 2)),
                (0, false) => M::union(m, acc, ctx.rng.chance(1, 2)),
                (_, true) => M::symmetric_difference(acc, m),
                (_, false) => M::symmetric_difference(m, acc),
            };
        } else {
            // the result of a set operation goes on growing
            acc = match via {
                2 => M::union(acc, M::new(), ctx.rng.chance(1, 2)),
                _ => M::difference(acc, M::new(), ctx.rng.chance(1, 2)),
            };
            for k in &ks {
                acc.insert(KT::mk(*k, 0), VT::mk(0));
            }
        }
    }
    let all: Vec<i64> = (0..total).collect();
    skip_bound(M::NAME, depths::<KT, VT, M>(&acc, &all)?, ctx, "combining many maps")
}

/// C06: amortized cost
pub fn splay_cost<KT: KeyT, VT: Val, M: OMap<KT, VT>>(ctx: &mut Ctx) -> R {
    let n = *ctx.rng.pick(&[10usize, 64, 300, 1000, 4000]);
    let w = ctx.rng.below(6);
    let ks = order(&mut ctx.rng, w, n);
    let access = ctx.rng.below(8);
    ctx.note(format!("{} n {} build order {} access pattern {}", M::NAME, n, w, access));
    ctx.sig(ctx.rng.clone().u());
    let mut m = M::new();
    let mut ops = 0u64;
    let c0 = cmps();
    const C: f64 = 4.0;
    let check = |ctx: &mut Ctx, ops: u64, what: &str| -> R {
        let used = cmps() - c0;
        let bound = C * ((ops + n as u64) as f64) * ((n + 2) as f64).log2();
        ctx.max("max_percent_of_bound", (100.0 * used as f64 / bound) as u64);
        ctx.count("cost_checks", 1);
        ck!(used as f64 <= bound, "{}: {} operations on at most {} elements made {} comparisons (bound {:.0}) after {}", M::NAME, ops, n, used, bound, what);
        Ok(())
    };
    let front = |m: &M, k: i64, what: &str| -> R {
        let a = cmps();
        ck!(m.contains(&Q(k)), "{}: key {} not found after {}", M::NAME, k, what);
        let c = cmps() - a;
        ck!(c <= 8, "{}: key {} accessed by {} needs {} comparisons to be found again", M::NAME, k, what, c);
        Ok(())
    };
    for k in &ks {
        m.insert(KT::mk(*k, 0), VT::mk(0));
        ops += 1;
    }
    check(ctx, ops, "building")?;
    let rounds = 3;
    // sets have no get_mut; overwriting through insert accesses the key in the same way
    let touch = |m: &mut M, k: i64| {
        if M::SET {
            m.insert(KT::mk(k, 1), VT::mk(0));
        } else {
            m.get_mut(&Q(k));
        }
    };
    for _ in 0..rounds {
        match access {
            0 => {
                for k in 0..n as i64 {
                    touch(&mut m, k);
                    ops += 1;
                }
            }
            1 => {
                for k in (0..n as i64).rev() {
                    touch(&mut m, k);
                    ops += 1;
                }
            }
            2 => {
                let o = order(&mut ctx.rng, 5, n);
                for k in o {
                    touch(&mut m, k);
                    ops += 1;
                }
            }
            3 => {
                // always the deepest end
                for i in 0..n as i64 {
                    touch(&mut m, if i % 2 == 0 { 0 } else { n as i64 - 1 });
                    ops += 1;
                }
            }
            4 => {
                // misses on the far side of the map
                for i in 0..n as i64 {
                    touch(&mut m, if i % 2 == 0 { -1 } else { n as i64 });
                    if M::SET {
                        m.remove(&Q(if i % 2 == 0 { -1 } else { n as i64 }));
                    }
                    ops += 2;
                }
            }
            5 => {
                // removals from one end and back
                for k in 0..n as i64 / 2 {
                    m.remove(&Q(k));
                    ops += 1;
                }
                for k in (0..n as i64 / 2).rev() {
                    m.insert(KT::mk(k, 0), VT::mk(0));
                    ops += 1;
                }
            }
            6 => {
                // zig-zag from both ends towards the middle
                let o = order(&mut ctx.rng, 3, n);
                for k in o {
                    touch(&mut m, k);
                    ops += 1;
                }
            }
            _ => {
                for _ in 0..n {
                    let k = ctx.rng.below(n as u64) as i64;
                    touch(&mut m, k);
                    ops += 1;
                }
            }
        }
        check(ctx, ops, "accessing")?;
    }
    // locality
    for _ in 0..50 {
        let k = ctx.rng.below(n as u64) as i64;
        touch(&mut m, k);
        front(&m, k, if M::SET { "insert" } else { "get_mut" })?;
        let k = ctx.rng.below(n as u64) as i64;
        m.insert(KT::mk(k, 0), VT::mk(0));
        front(&m, k, "insert")?;
        ctx.count("locality_checks", 2);
    }
    Ok(())
}
/// C06: a path-shaped tree of any size must not exhaust a small stack
pub fn splay_deep<KT: KeyT, VT: Val, M: OMap<KT, VT>>(ctx: &mut Ctx) -> R {
    let n = if ctx.tier == Tier::Quick { 200_000i64 } else { 500_000 };
    let desc = ctx.idx % 2 == 1;
    let op = (ctx.idx / 2) % 9;
    ctx.note(format!("{} {} sequential inserts ({}), then operation {} on a 128 KB stack", M::NAME, n, if desc { "descending" } else { "ascending" }, op));
    ctx.sig(ctx.idx);
    let h = std::thread::Builder::new().stack_size(128 << 10).spawn(move || -> R {
        let mut m = M::new();
        for i in 0..n {
            let k = if desc { n - 1 - i } else { i };
            m.insert(KT::mk(k, 0), VT::mk(k as u64));
        }
        let far = if desc { n - 1 } else { 0 };
        match op {
            0 => {
                ck!(m.get(&Q(far)).is_some(), "{}: get({}) misses", M::NAME, far);
                ck!(m.contains(&Q(far)), "{}: contains({}) misses", M::NAME, far);
                ck!(m.get(&Q(-1)).is_none(), "{}: get(-1) hits", M::NAME);
            }
            1 => ckeq!(m.floor(&Q(far)).map(|k| k.q()), Some(far), "{}: floor", M::NAME),
            2 => ckeq!(m.ceil(&Q(far)).map(|k| k.q()), Some(far), "{}: ceil", M::NAME),
            3 => {
                ckeq!(m.min().map(|k| k.q()), Some(0), "{}: min", M::NAME);
                ckeq!(m.max().map(|k| k.q()), Some(n - 1), "{}: max", M::NAME);
            }
            4 => {
                let mut e = 0;
                for (k, _) in m.iter(false).take(n as usize + 1) {
                    ckeq!(k.q(), e, "{}: iter", M::NAME);
                    e += 1;
                }
                ckeq!(e, n, "{}: iter count", M::NAME);
            }
            5 => {
                m.clear();
                ck!(m.is_empty(), "{}: not empty after clear", M::NAME);
            }
            6 => {
                let mut e = 0;
                for (k, _) in m.consume().take(n as usize / 2) {
                    ckeq!(k.q(), e, "{}: into_iter", M::NAME);
                    e += 1;
                }
                return Ok(());
            }
            7 => {
                ck!(m.get_mut(&Q(far)).is_some(), "{}: get_mut misses", M::NAME);
                ck!(m.remove(&Q(far)).is_some(), "{}: remove misses", M::NAME);
                ckeq!(m.len(), n as usize - 1, "{}: len", M::NAME);
                for (_, v) in m.iter_mut(false).take(n as usize) {
                    v.set(1);
                }
            }
            _ => {}
        }
        drop(m);
        Ok(())
    });
    ctx.count("deep_operations", 1);
    match h.unwrap().join() {
        Ok(r) => r,
        Err(_) => Err(format!("{}: panicked", M::NAME)),
    }
}
/// C06: model history with the comparison budget on top
pub fn splay_mix<KT: KeyT, VT: Val, M: OMap<KT, VT>>(ctx: &mut Ctx) -> R {
    let range = *ctx.rng.pick(&[16i64, 64, 256, 1024]);
    let mut h = Hist::<KT, VT, M>::new(false, range);
    ctx.note(format!("{} range {}", M::NAME, range));
    let c0 = cmps();
    let mut ops = 0u64;
    let mut peak = 0usize;
    for _ in 0..6 {
        h.dist = *ctx.rng.pick(&DISTS);
        let pi = ctx.rng.range(10, 70);
        for _ in 0..300 {
            let q = h.key(&mut ctx.rng);
            let x = ctx.rng.below(100);
            if x < pi {
                h.insert(ctx, q, 1)?;
            } else if x < 80 {
                h.remove(ctx, q)?;
            } else {
                h.reads(ctx, q, if M::SET { 6 } else { 1 })?;
            }
            ops += 1;
            peak = peak.max(h.model.len());
        }
    }
    let used = cmps() - c0;
    let bound = 4.0 * ((ops + peak as u64) as f64) * ((peak + 2) as f64).log2();
    ctx.max("max_percent_of_bound", (100.0 * used as f64 / bound) as u64);
    ctx.count("cost_checks", 1);
    ck!(used as f64 <= bound, "{}: {} operations on at most {} elements made {} comparisons (bound {:.0})", M::NAME, ops, peak, used, bound);
    h.full(ctx)
}
