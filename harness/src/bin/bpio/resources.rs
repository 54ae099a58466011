//! What a BpMap holds besides its file: memory (C47) and descriptors (C48).
use crate::{errno, reads, shim, Case};
use extended_collections::bp_tree::BpMap;
use shim::{K_ALL, K_READ, K_WRITE};
use std::collections::BTreeMap;
use std::mem::size_of;
use std::sync::atomic::Ordering::SeqCst;
use vh::bp::*;
use vh::core::*;
use vh::{ck, ckeq, io};

struct Memory<K, V> {
    /// live bytes of the map, by the allocations and frees within its calls, and the most during a call
    live: i64,
    peak: i64,
    m: Option<BpMap<K, V>>,
}
impl<K, V> Memory<K, V> {
    fn call<T>(&mut self, f: impl FnOnce(&mut Option<BpMap<K, V>>) -> T) -> T {
        peak_reset();
        let a = mem().0;
        let r = f(&mut self.m);
        self.peak = self.live + peak() - a;
        self.live += mem().0 - a;
        r
    }
}
pub fn memory<K: BK, V: BV>(ctx: &mut Ctx) -> R {
    let case = Case::new();
    let range = (*ctx.rng.pick(&[1000i64, 4000, 12000])).min(K::MAX);
    let deg = if ctx.rng.chance(1, 4) { None } else { Some((ctx.rng.range(3, 30) as usize, ctx.rng.range(3, 30) as usize)) };
    let (kpad, vpad) = (5 + ctx.rng.us(12), ctx.rng.us(60));
    let (ks, vs) = (K::room(kpad), V::room(vpad));
    ctx.note(format!("BpMap<{}, {}> key_size {} value_size {} degrees {:?} range {}", K::NAME, V::NAME, ks, vs, deg, range));
    let path = case.path.clone();
    let mut m = Memory::<K, V> { live: 0, peak: 0, m: None };
    let made = m.call(|m| {
        match deg {
            None => BpMap::new(&path, ks, vs),
            Some((l, i)) => BpMap::with_degrees(&path, ks, vs, l, i),
        }
        .map(|x| *m = Some(x))
    });
    io!(made, "creating a map");
    let k = |i: i64| K::mk(i, kpad);
    let v = |x: u64| V::mk(x, vpad);
    let mut model: BTreeMap<i64, u64> = BTreeMap::new();
    io!(m.call(|m| m.as_mut().unwrap().insert(k(0), v(1)).map(drop)), "insert(0)");
    model.insert(0, 1);
    // one page of the file, and the memory one node may take: its bytes as read and its entries
    let page = reads(&case, 1, || m.m.as_mut().unwrap().min())?;
    if page == 0 {
        ctx.count("unmeasurable_histories", 1);
        return Ok(());
    }
    let (l, i) = deg.unwrap_or((page as usize / (ks + vs + 1) as usize + 1, page as usize / (ks + 8) as usize + 1));
    let entry = (size_of::<K>() + size_of::<V>() + 16) as u64;
    let node = 2 * page + 2 * (l.max(i) as u64 + 2) * entry;
    let (mut next, mut full) = (1u64, 0u64);
    for phase in 0..ctx.rng.range(3, 7) {
        let (style, ins) = (ctx.rng.below(4), if phase == 0 { 100 } else { *ctx.rng.pick(&[0u64, 30, 50, 90]) });
        let from = ctx.rng.below(range as u64) as i64;
        let steps = if phase == 0 { range } else { ctx.rng.range(100, 1500) as i64 };
        for j in 0..steps {
            let i = match style {
                0 => (from + j) % range,
                1 => (from - j).rem_euclid(range),
                _ => ctx.rng.below(range as u64) as i64,
            };
            let h = if j % 50 == 0 { reads(&case, page, || m.m.as_mut().unwrap().min())? } else { 0 };
            full = full.max(h);
            let what = ctx.rng.below(100);
            ctx.op("step", i, what as i64);
            let name = if what < 4 {
                let exp = model.get(&i).map(|x| v(*x));
                let got = io!(m.call(|m| { let got = m.as_mut().unwrap().get(k(i).q())?; Ok::<_, extended_collections::bp_tree::Error>(got == exp) }), "get({})", i);
                ck!(got, "get({}) differs from the model", i);
                "get"
            } else if what < 7 {
                let got = io!(m.call(|m| m.as_mut().unwrap().max().map(|x| x == model.keys().next_back().map(|i| k(*i)))), "max");
                ck!(got, "max differs from the model");
                "max"
            } else if ctx.rng.below(100) < ins {
                next += 1;
                io!(m.call(|m| m.as_mut().unwrap().insert(k(i), v(next)).map(drop)), "insert({})", i);
                model.insert(i, next);
                "insert"
            } else {
                io!(m.call(|m| m.as_mut().unwrap().remove(k(i).q()).map(drop)), "remove({})", i);
                model.remove(&i);
                "remove"
            };
            judge(ctx, &m, name, node, full, model.len())?;
        }
        let mut bad = 0u64;
        let n = io!(
            m.call(|m| -> Result<usize, extended_collections::bp_tree::Error> {
                let mut exp = model.iter();
                let mut n = 0;
                for x in m.as_mut().unwrap().iter_mut()? {
                    let (a, b) = x?;
                    if !exp.next().map_or(false, |(i, x)| a == k(*i) && b == v(*x)) {
                        bad += 1;
                    }
                    n += 1;
                }
                Ok(n)
            }),
            "an iteration"
        );
        ckeq!((n, bad), (model.len(), 0), "entries of iter_mut, and those that differ from the model");
        judge(ctx, &m, "an iteration", node, full, model.len())?;
        ctx.count("iterations_measured", 1);
        if ctx.rng.chance(1, 4) {
            let r = m.call(|m| {
                *m = None;
                BpMap::open(&path).map(|x| *m = Some(x))
            });
            io!(r, "open");
            judge(ctx, &m, "opening the map", node, full, model.len())?;
        }
        if ctx.rng.chance(1, 8) {
            io!(m.call(|m| m.as_mut().unwrap().clear()), "clear");
            model.clear();
            judge(ctx, &m, "clear", node, full, 0)?;
        }
        let size = std::fs::metadata(&path).map_or(0, |x| x.len());
        ctx.max("max_file_bytes", size);
        ctx.max("max_file_in_percent_of_the_bound", 100 * size / most(node, full) as u64);
    }
    m.call(|m| *m = None);
    ck!(m.live <= 0, "{} bytes of memory are left after a map was dropped", m.live);
    Ok(())
}
/// bytes a map may need during an operation: a few nodes per level
fn most(node: u64, levels: u64) -> i64 {
    (4096 + (levels + 4) * node) as i64
}
fn judge<K: BK, V: BV>(ctx: &mut Ctx, m: &Memory<K, V>, what: &str, node: u64, levels: u64, len: usize) -> R {
    let (most, rest) = (most(node, levels), (4096 + 4 * node) as i64);
    ctx.count("operations_measured", 1);
    ctx.max("max_bytes_held", m.peak.max(0) as u64);
    ctx.max("max_percent_of_the_bound", (100 * m.peak.max(0) / most) as u64);
    ctx.max("max_percent_of_the_bound_at_rest", (100 * m.live.max(0) / rest) as u64);
    ck!(m.peak <= most, "{} needs {} bytes of memory; {} levels of nodes of at most {} bytes justify {} (there are {} entries)", what, m.peak, levels, node, most, len);
    ck!(m.live <= rest, "after {} the map holds {} bytes of memory; nodes of at most {} bytes justify {} (there are {} entries)", what, m.live, node, rest, len);
    Ok(())
}

/// one descriptor while the map is open, none otherwise, faults and panics included
pub fn handles<K: BK, V: BV>(ctx: &mut Ctx) -> R {
    let case = Case::new();
    let s = case.s();
    let range = *ctx.rng.pick(&[6i64, 40, 200]);
    let deg = if ctx.rng.chance(1, 4) { None } else { Some((ctx.rng.range(3, 8) as usize, ctx.rng.range(3, 8) as usize)) };
    let (kpad, vpad) = (5 + ctx.rng.us(4), ctx.rng.us(10));
    let mut m = Bp::<K, V>::new_at(ctx, case.path.clone(), range, kpad, vpad, 0, deg)?;
    let path = case.path.clone();
    let see = |ctx: &mut Ctx, most: i64, what: &str| -> R {
        let held = s.fds.load(SeqCst);
        let peak = s.max_fds.swap(held, SeqCst);
        ctx.count("states_measured", 1);
        ctx.max("max_descriptors", peak as u64);
        ck!(held <= most && peak <= most.max(2), "{} files are open {}, {} at once before", held, what, peak);
        Ok(())
    };
    see(ctx, 1, "after a map was created")?;
    for _ in 0..ctx.rng.range(2, 8) {
        let steps = ctx.rng.range(1, 60) as usize;
        m.phase(ctx, steps, true)?;
        see(ctx, 1, "after a number of operations")?;
        if ctx.rng.chance(1, 2) {
            m.full(ctx, false)?;
            see(ctx, 1, "after an iteration")?;
            let n = ctx.rng.us(5);
            let mut it = io!(m.m().iter_mut(), "iter_mut");
            for _ in 0..n {
                it.next();
            }
            see(ctx, 2, "while a map is iterated")?;
            drop(it);
        }
        m.m = None;
        see(ctx, 0, "after the map was dropped")?;
        for _ in 0..ctx.rng.range(0, 4) {
            // attempts that fail, or not
            let e = errno(ctx);
            let (from, kinds) = (ctx.rng.below(8), *ctx.rng.pick(&[K_READ, K_WRITE, K_ALL]));
            let short = ctx.rng.chance(1, 3);
            case.fail(kinds, from, u64::MAX, e, short);
            let what = ctx.rng.below(3);
            let other = path.with_extension("other");
            let opened = guard("open", || match what {
                0 => BpMap::<K, V>::open(&path).is_ok(),
                1 => BpMap::<K, V>::open(&other).is_ok(),
                _ => BpMap::<K, V>::new(&other, K::room(kpad), V::room(vpad)).is_ok(),
            })?;
            case.heal();
            let _ = std::fs::remove_file(&other);
            ctx.count(if opened { "short_sessions" } else { "failed_sessions" }, 1);
            see(ctx, 0, "after an attempt to open or create a map")?;
        }
        m.m = Some(io!(BpMap::open(&path), "open"));
        see(ctx, 1, "after a map was opened")?;
    }
    // an operation that fails, the last one
    let e = errno(ctx);
    let (from, kinds) = (ctx.rng.below(20), *ctx.rng.pick(&[K_READ, K_WRITE, K_ALL]));
    case.fail(kinds, from, u64::MAX, e, false);
    loop {
        let i = ctx.rng.below(m.range as u64) as i64;
        let (k, v) = (m.k(i), m.v(3));
        let ok = match ctx.rng.below(4) {
            0 => guard("insert", || m.m().insert(k, v).is_ok())?,
            1 => guard("remove", || m.m().remove(k.q()).is_ok())?,
            2 => guard("iter_mut", || m.m().iter_mut().map(|mut it| it.all(|x| x.is_ok())).unwrap_or(false))?,
            _ => guard("get", || m.m().get(k.q()).is_ok())?,
        };
        see(ctx, 1, "after an operation that may have failed")?;
        if !ok || s.failed.load(SeqCst) > 0 {
            break;
        }
    }
    ctx.count("failed_file_system_calls", case.heal());
    m.m = None;
    see(ctx, 0, "after the map was dropped")
}
