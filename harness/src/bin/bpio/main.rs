//! BpMap under failing file-system calls, partial transfers and oversized records (C36); pages read by lookups (C37); costs of updates and iteration (C44); memory and descriptors held (C47, C48).
#[allow(dead_code)]
#[path = "../lsm/shim.rs"]
mod shim;
#[path = "../lsm/step.rs"]
mod step;
mod resources;
use shim::{Slot, K_ALL, K_READ, K_WRITE, SLOT, SLOTS};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use vh::bp::*;
use vh::core::*;
use vh::picky::Picky;
use vh::{ck, ckeq};

#[global_allocator]
static A: Counting = Counting;

const FREE: AtomicBool = AtomicBool::new(false);
static IN_USE: [AtomicBool; SLOTS] = [FREE; SLOTS];
static FILES: AtomicU64 = AtomicU64::new(0);
struct Case {
    slot: usize,
    path: PathBuf,
}
impl Case {
    fn new() -> Self {
        let slot = loop {
            if let Some(i) = (0..SLOTS).find(|i| IN_USE[*i].compare_exchange(false, true, SeqCst, SeqCst).is_ok()) {
                break i;
            }
        };
        SLOT[slot].reset();
        shim::set_fg(Some(slot));
        Case { slot, path: PathBuf::from(format!("{}/L{:02}-{}", scratch(), slot, FILES.fetch_add(1, SeqCst))) }
    }
    fn s(&self) -> &'static Slot {
        &SLOT[self.slot]
    }
    fn fail(&self, kinds: u32, from: u64, n: u64, errno: i32, short: bool) {
        let s = self.s();
        s.fail_from.store(from, SeqCst);
        s.fail_n.store(n, SeqCst);
        s.fail_errno.store(errno, SeqCst);
        s.fail_short.store(short, SeqCst);
        s.matched.store(0, SeqCst);
        s.failed.store(0, SeqCst);
        s.fail_kinds.store(kinds, SeqCst);
    }
    /// ends the faults; the number of calls that failed
    fn heal(&self) -> u64 {
        let s = self.s();
        s.fail_kinds.store(0, SeqCst);
        s.fail_short.store(false, SeqCst);
        s.failed.load(SeqCst)
    }
}
impl Drop for Case {
    fn drop(&mut self) {
        SLOT[self.slot].reset();
        shim::set_fg(None);
        IN_USE[self.slot].store(false, SeqCst);
        let _ = std::fs::remove_file(&self.path);
    }
}
fn errno(ctx: &mut Ctx) -> i32 {
    *ctx.rng.pick(&[libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::ENOMEM])
}
/// what the map holds, in memory and after opening the file again
fn intact<K: BK, V: BV>(ctx: &mut Ctx, m: &mut Bp<K, V>, reopen: bool, what: &str) -> R {
    m.full(ctx, true).map_err(|e| format!("after {}: {}", what, e))?;
    if reopen {
        m.reopen(ctx).and_then(|_| m.full(ctx, true)).map_err(|e| format!("after {} and reopening: {}", what, e))?;
    }
    Ok(())
}
/// outcome of a call under faults: Some(value), None = Err
fn outcome<T>(what: &str, f: impl FnOnce() -> Result<T, extended_collections::bp_tree::Error>) -> Result<Option<T>, String> {
    Ok(guard(what, f)?.ok())
}
fn faults<K: BK, V: BV>(ctx: &mut Ctx) -> R {
    let case = Case::new();
    let range = *ctx.rng.pick(&[6i64, 16, 40, 120]);
    let deg = match ctx.rng.below(5) {
        0 => None,
        _ => Some((ctx.rng.range(3, 6) as usize, ctx.rng.range(3, 6) as usize)),
    };
    let (kpad, vpad) = (5 + ctx.rng.us(20), ctx.rng.us(30));
    let mut m = Bp::<K, V>::new_at(ctx, case.path.clone(), range, kpad, vpad, 0, deg)?;
    let range = m.range;
    for _ in 0..ctx.rng.range(2, 8) {
        if ctx.rng.chance(1, 3) {
            // every transfer moves a few bytes only
            case.s().trickle.store(ctx.rng.range(1, 40), SeqCst);
            ctx.count("phases_with_partial_transfers", 1);
        }
        let steps = ctx.rng.range(1, 50) as usize;
        m.phase(ctx, steps, true)?;
        case.s().trickle.store(u64::MAX, SeqCst);
        for _ in 0..ctx.rng.range(1, 6) {
            let i = ctx.rng.below(range as u64) as i64;
            // how many reads does it take to get to the leaf of i?
            case.fail(K_READ, u64::MAX, 0, 0, false);
            let k = m.k(i);
            let _ = m.m().get(k.q());
            let depth = case.s().matched.load(SeqCst);
            case.heal();
            let e = errno(ctx);
            let n = *ctx.rng.pick(&[1u64, 1, 2, u64::MAX]);
            match ctx.rng.below(10) {
                0 | 1 => {
                    // a lookup under failing reads
                    ctx.op("get_with_faults", i, NOARG);
                    let at = ctx.rng.below(depth);
                    case.fail(K_READ, at, n, e, false);
                    let got = outcome("get", || m.m.as_mut().unwrap().get(k.q()))?;
                    let hit = case.heal();
                    if let Some(v) = got {
                        let exp = m.model.get(&i).map(|v| m.v(*v));
                        ckeq!(v, exp, "get({}) with {} failed reads", i, hit);
                    }
                    case.fail(K_READ, at, n, e, false);
                    let got = outcome("contains_key", || m.m.as_mut().unwrap().contains_key(k.q()))?;
                    let hit = hit + case.heal();
                    if let Some(v) = got {
                        ckeq!(v, m.model.contains_key(&i), "contains_key({}) with {} failed reads", i, hit);
                    }
                    ctx.count("failed_calls", hit);
                    m.get(ctx, i)?;
                }
                2 => {
                    ctx.op("ends_with_faults", NOARG, NOARG);
                    for max in [false, true] {
                        case.fail(K_READ, ctx.rng.below(depth), n, e, false);
                        let got = outcome("min or max", || if max { m.m.as_mut().unwrap().max() } else { m.m.as_mut().unwrap().min() })?;
                        ctx.count("failed_calls", case.heal());
                        if let Some(v) = got {
                            let exp = if max { m.model.keys().next_back() } else { m.model.keys().next() };
                            ckeq!(v, exp.map(|i| m.k(*i)), "{} with failed reads", if max { "max" } else { "min" });
                        }
                    }
                    m.min_max(ctx)?;
                }
                3 => {
                    // an iteration whose reads fail now and then, tried again each time
                    ctx.op("iter_with_faults", NOARG, NOARG);
                    let exp: Vec<(K, V)> = m.model.iter().map(|(a, b)| (m.k(*a), m.v(*b))).collect();
                    let mut seen = Vec::new();
                    case.fail(K_READ, ctx.rng.below(depth + 3), n, e, false);
                    let it = outcome("iter_mut", || m.m.as_mut().unwrap().iter_mut())?;
                    if let Some(mut it) = it {
                        loop {
                            match guard("an iterator's next", || it.next())? {
                                None => break,
                                Some(Ok(x)) => seen.push(x),
                                Some(Err(_)) => {
                                    ctx.count("failed_calls", case.heal());
                                    ctx.count("iterations_resumed", 1);
                                    if ctx.rng.chance(1, 2) {
                                        case.fail(K_READ, ctx.rng.below(3), 1, e, false);
                                    }
                                }
                            }
                            ck!(seen.len() <= exp.len(), "an iteration with failed reads yields more than the {} entries", exp.len());
                        }
                        ckeq!(seen, exp, "entries of an iteration with failed reads that were tried again");
                    }
                    ctx.count("failed_calls", case.heal());
                    intact(ctx, &mut m, false, "an iteration with failed reads")?;
                }
                4 | 5 => {
                    // an update that cannot even find its place changes nothing
                    let v = m.fresh_value(ctx);
                    let ins = ctx.rng.chance(1, 2);
                    ctx.op(if ins { "insert_unread" } else { "remove_unread" }, i, v as i64);
                    let val = m.v(v);
                    case.fail(K_READ, ctx.rng.below(depth), u64::MAX, e, false);
                    let (kk, mm) = (k.clone(), m.m.as_mut().unwrap());
                    let r = if ins { outcome("insert", || mm.insert(kk, val))? } else { outcome("remove", || mm.remove(k.q()))? };
                    let hit = case.heal();
                    ctx.count("failed_calls", hit);
                    ck!(r.is_none() || hit == 0, "an update of {} succeeds although the page it goes to cannot be read", i);
                    ck!(hit > 0, "an update of {} reads fewer pages than a lookup", i);
                    let re = ctx.rng.chance(1, 2);
                    intact(ctx, &mut m, re, "an update whose reads failed")?;
                }
                6 | 7 => {
                    // an update none of whose writes succeed changes nothing
                    let v = m.fresh_value(ctx);
                    let w = ctx.rng.below(9);
                    ctx.op(["insert_unwritten", "remove_unwritten", "clear_unwritten"][match w { 0..=3 => 0, 4..=7 => 1, _ => 2 }], i, v as i64);
                    let val = m.v(v);
                    case.fail(K_WRITE, 0, u64::MAX, e, false);
                    let (kk, mm) = (k.clone(), m.m.as_mut().unwrap());
                    let r = match w {
                        0..=3 => outcome("insert", || mm.insert(kk, val))?.map(|_| true),
                        4..=7 => outcome("remove", || mm.remove(k.q()))?.map(|r| r.is_some()),
                        _ => outcome("clear", || mm.clear())?.map(|_| true),
                    };
                    let hit = case.heal();
                    ctx.count("failed_calls", hit);
                    ck!(r != Some(true), "an update of {} succeeds although nothing can be written", i);
                    ck!(hit > 0 || !m.model.contains_key(&i), "an update of {} writes nothing", i);
                    let re = ctx.rng.chance(1, 2);
                    intact(ctx, &mut m, re, "an update whose writes all failed")?;
                }
                8 => {
                    ctx.op("open_with_faults", NOARG, NOARG);
                    m.m = None;
                    case.fail(K_ALL, ctx.rng.below(3), n, e, false);
                    let p = m.path.clone();
                    let r = outcome("open", || extended_collections::bp_tree::BpMap::<K, V>::open(&p))?;
                    let hit = case.heal();
                    ctx.count("failed_calls", hit);
                    ck!(r.is_none() || hit == 0, "opening succeeds although its file-system calls fail");
                    drop(r);
                    m.reopen(ctx)?;
                    intact(ctx, &mut m, false, "a failed open")?;
                }
                _ => {
                    // creating another map
                    ctx.op("new_with_faults", NOARG, NOARG);
                    let c2 = PathBuf::from(format!("{}n", case.path.display()));
                    case.fail(K_ALL, ctx.rng.below(5), n, e, false);
                    let r = outcome("new", || extended_collections::bp_tree::BpMap::<K, V>::with_degrees(&c2, K::room(8), V::room(8), 3, 3));
                    let hit = case.heal();
                    let _ = std::fs::remove_file(&c2);
                    ck!(r?.is_none() || hit == 0, "creating a map succeeds although its file-system calls fail");
                    ctx.count("failed_calls", hit);
                    intact(ctx, &mut m, false, "creating another map")?;
                }
            }
        }
    }
    // finally an update that fails somewhere in the middle: an error or a correct result, no panic
    let i = ctx.rng.below(range as u64) as i64;
    let k = m.k(i);
    let v = m.fresh_value(ctx);
    let val = m.v(v);
    let w = ctx.rng.below(9);
    ctx.op(["insert_with_faults", "remove_with_faults", "clear_with_faults"][match w { 0..=3 => 0, 4..=7 => 1, _ => 2 }], i, v as i64);
    let old = m.model.get(&i).map(|o| (k.clone(), m.v(*o)));
    let e = errno(ctx);
    case.fail(*ctx.rng.pick(&[K_WRITE, K_WRITE, K_READ, K_READ | K_WRITE]), ctx.rng.below(10), *ctx.rng.pick(&[1u64, 1, 3, u64::MAX]), e, ctx.rng.chance(1, 3));
    let (kk, mm) = (k.clone(), m.m.as_mut().unwrap());
    let r = match w {
        0..=3 => outcome("insert", || mm.insert(kk, val))?,
        4..=7 => outcome("remove", || mm.remove(k.q()))?,
        _ => outcome("clear", || mm.clear())?.map(|_| None),
    };
    let hit = case.heal();
    ctx.count("failed_calls", hit);
    if let Some(got) = r {
        match w {
            0..=3 => {
                m.model.insert(i, v);
                ckeq!(got, old, "insert({}) with {} failed calls", i, hit);
            }
            4..=7 => {
                m.model.remove(&i);
                ckeq!(got, old, "remove({}) with {} failed calls", i, hit);
            }
            _ => m.model.clear(),
        }
        intact(ctx, &mut m, true, "an update that succeeded in spite of failed calls")?;
    }
    Ok(())
}
/// records over the configured size are refused by a panic, before anything changes
fn oversized<K: BK, V: BV>(ctx: &mut Ctx) -> R {
    let case = Case::new();
    let range = *ctx.rng.pick(&[6i64, 16, 40]);
    let deg = if ctx.rng.chance(1, 4) { None } else { Some((ctx.rng.range(3, 6) as usize, ctx.rng.range(3, 6) as usize)) };
    let (kpad, vpad) = (5 + ctx.rng.us(20), ctx.rng.us(30));
    let mut m = Bp::<K, V>::new_at(ctx, case.path.clone(), range, kpad, vpad, 0, deg)?;
    let (ks, vs) = (K::room(kpad), V::room(vpad));
    for _ in 0..ctx.rng.range(2, 8) {
        let steps = ctx.rng.range(1, 60) as usize;
        m.phase(ctx, steps, true)?;
        for _ in 0..6 {
            let i = ctx.rng.below(m.range as u64) as i64;
            let extra = *ctx.rng.pick(&[0usize, 1, 1, 2, 9, 300]);
            let big_key = ctx.rng.chance(1, 2);
            let (kn, vn) = (kpad + if big_key { extra } else { 0 }, vpad + if big_key { 0 } else { extra });
            let x = m.fresh_value(ctx);
            let (k, v) = (if big_key { K::mk(i, kn) } else { m.k(i) }, V::mk(x / 3 * 3, vn));
            let too_big = bincode::serialized_size(&k).unwrap() > ks || bincode::serialized_size(&v).unwrap() > vs;
            if !too_big {
                continue;
            }
            ctx.op(if big_key { "insert_big_key" } else { "insert_big_value" }, i, extra as i64);
            ctx.count("oversized_records", 1);
            let mm = m.m();
            ck!(panics(|| drop(mm.insert(k, v))), "insert({}) of a record larger than the maximum ({} bytes more) did not panic", i, extra);
            let re = ctx.rng.chance(1, 4);
            intact(ctx, &mut m, re, "refusing an oversized record")?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C50
/// keys and values that refuse to be serialized change nothing
fn refused(ctx: &mut Ctx) -> R {
    let case = Case::new();
    let range = *ctx.rng.pick(&[6i64, 16, 40, 150]);
    let deg = if ctx.rng.chance(1, 6) { None } else { Some((ctx.rng.range(3, 6) as usize, ctx.rng.range(3, 6) as usize)) };
    let (kpad, vpad) = (5 + ctx.rng.us(10), ctx.rng.us(20));
    let mut m = Bp::<Picky, Picky>::new_at(ctx, case.path.clone(), range, kpad, vpad, 0, deg)?;
    for _ in 0..ctx.rng.range(2, 8) {
        let steps = ctx.rng.range(1, 60) as usize;
        m.phase(ctx, steps, true)?;
        let before = std::fs::read(&case.path).map_err(|e| e.to_string())?;
        for _ in 0..8 {
            let i = ctx.rng.below(m.range as u64) as i64;
            let mood = 1 + ctx.rng.below(2) as u8;
            let x = m.fresh_value(ctx);
            let (mut k, mut v) = (m.k(i), m.v(x));
            let name = if ctx.rng.chance(1, 2) {
                k.mood = mood;
                "insert_bad_key"
            } else {
                v.mood = mood;
                "insert_bad_value"
            };
            ctx.op(name, i, mood as i64);
            ctx.count("refused_records", 1);
            let mm = m.m();
            let returned = caught(|| mm.insert(k, v).is_ok());
            ck!(returned != Some(true), "{}({}) of a record that cannot be serialized returned Ok", name, i);
            ck!(mood == 2 || returned.is_some(), "{}({}) panicked, where serialization returns an error", name, i);
            if ctx.rng.chance(1, 3) {
                m.get(ctx, i)?;
            }
        }
        let after = std::fs::read(&case.path).map_err(|e| e.to_string())?;
        ck!(before == after, "records that cannot be serialized changed the file ({} and {} bytes)", before.len(), after.len());
        let re = ctx.rng.chance(1, 3);
        intact(ctx, &mut m, re, "refusing records that cannot be serialized")?;
    }
    Ok(())
}

/// bytes of the file read by one lookup, in units of `page` bytes: the number of pages between root and leaf
fn reads<T>(case: &Case, page: u64, f: impl FnOnce() -> Result<T, extended_collections::bp_tree::Error>) -> Result<u64, String> {
    case.s().read_bytes.store(0, SeqCst);
    let r = f();
    let n = case.s().read_bytes.load(SeqCst);
    match r {
        Ok(_) => Ok((n + page - 1) / page),
        Err(e) => Err(format!("a lookup failed: {}", e)),
    }
}
/// the fewest entries a tree of h levels may hold
fn fewest(h: u64, leaf: u64, internal: u64) -> u64 {
    if h <= 1 {
        0
    } else {
        (2 * leaf).saturating_mul(internal.saturating_pow(h as u32 - 2))
    }
}
fn levels<K: BK, V: BV>(ctx: &mut Ctx, m: &mut Bp<K, V>, case: &Case, page: u64, deg: Option<(usize, usize)>, all: bool) -> R {
    let (l, i) = deg.unwrap_or((3, 3));
    let n = m.model.len() as u64;
    if n == 0 {
        return Ok(());
    }
    let h = reads(case, page, || m.m.as_mut().unwrap().min())?;
    ctx.count("height_measurements", 1);
    ctx.max("max_levels", h);
    ck!(
        n >= fewest(h, (l as u64 + 1) / 2, (i as u64 + 1) / 2),
        "a lookup reads {} pages although the map has only {} entries (degrees {} and {}): {} levels need at least {}",
        h, n, l, i, h, fewest(h, (l as u64 + 1) / 2, (i as u64 + 1) / 2)
    );
    let g = reads(case, page, || m.m.as_mut().unwrap().max())?;
    ckeq!(g, h, "pages read by max, where min reads {}", h);
    let step = if all { 1 } else { (m.range / 24).max(1) };
    let mut q = if all { 0 } else { ctx.rng.below(step as u64) as i64 };
    while q < m.range {
        let k = m.k(q);
        let g = reads(case, page, || m.m.as_mut().unwrap().get(k.q()))?;
        ckeq!(g, h, "pages read by get({}) among {} entries, where min reads {}", q, n, h);
        q += step;
    }
    Ok(())
}
/// the height of the tree through growth, churn and decay
fn height<K: BK, V: BV>(ctx: &mut Ctx) -> R {
    let case = Case::new();
    let range = *ctx.rng.pick(&[8i64, 30, 100, 400, 1500]);
    let deg = if ctx.rng.chance(1, 12) { None } else { Some((ctx.rng.range(3, 9) as usize, ctx.rng.range(3, 9) as usize)) };
    let (kpad, vpad) = (5 + ctx.rng.us(4), ctx.rng.us(6));
    let mut m = Bp::<K, V>::new_at(ctx, case.path.clone(), range, kpad, vpad, 0, deg)?;
    // a map of one entry is one page
    let v = m.fresh_value(ctx);
    m.insert(ctx, 0, v)?;
    let page = reads(&case, 1, || m.m.as_mut().unwrap().min())?;
    if page == 0 {
        // pages kept in memory cannot be counted
        ctx.count("unmeasurable_histories", 1);
        return Ok(());
    }
    for _ in 0..ctx.rng.range(2, 7) {
        match ctx.rng.below(4) {
            0 => {
                let steps = ctx.rng.range(5, 120) as usize;
                m.phase(ctx, steps, true)?;
            }
            1 | 2 => {
                // one run of inserts in some order
                let style = ctx.rng.below(4);
                let (r, from, count) = (m.range, ctx.rng.below(m.range as u64) as i64, ctx.rng.range(1, m.range as u64) as i64);
                for j in 0..count {
                    let q = match style {
                        0 => (from + j) % r,
                        1 => (from + r - j).rem_euclid(r),
                        _ => ctx.rng.below(r as u64) as i64,
                    };
                    let v = m.fresh_value(ctx);
                    m.insert(ctx, q, v)?;
                    if j % 16 == 0 {
                        levels(ctx, &mut m, &case, page, deg, false)?;
                    }
                }
            }
            _ => {
                let style = ctx.rng.below(4);
                let mut keys: Vec<i64> = m.model.keys().cloned().collect();
                match style {
                    0 => {}
                    1 => keys.reverse(),
                    _ => ctx.rng.shuffle(&mut keys),
                }
                let keep = if ctx.rng.chance(1, 2) { 0 } else { ctx.rng.us(keys.len() + 1) };
                let n = keys.len() - keep;
                for q in keys.into_iter().take(n) {
                    m.remove(ctx, q)?;
                    if m.model.len() % 8 == 0 || m.model.len() < 6 {
                        levels(ctx, &mut m, &case, page, deg, false)?;
                    }
                }
            }
        }
        let all = m.range < 200;
        levels(ctx, &mut m, &case, page, deg, all)?;
    }
    m.full(ctx, false)
}

// ---------------------------------------------------------------- C44
/// bytes read and written by one operation, and calls that wrote
struct Cost {
    read: u64,
    written: u64,
    calls: u64,
}
fn cost(case: &Case, f: impl FnOnce() -> R) -> Result<Cost, String> {
    let s = case.s();
    let at = |a: &AtomicU64| a.load(SeqCst);
    let b = (at(&s.read_bytes), at(&s.write_bytes), at(&s.write_calls));
    f()?;
    Ok(Cost { read: at(&s.read_bytes) - b.0, written: at(&s.write_bytes) - b.1, calls: at(&s.write_calls) - b.2 })
}
/// what one insertion or removal may read and write in a tree of h levels
fn judge_update(ctx: &mut Ctx, what: &str, i: i64, c: &Cost, h: u64, page: u64) -> R {
    // per level: the page itself, a sibling or a new page, its parent, a free page; the root; small headers
    let (r, w, n) = ((3 * h + 3) * page, (4 * h + 4) * page, 6 * h + 10);
    ctx.count("updates_measured", 1);
    ctx.max("max_percent_of_reads_allowed", 100 * c.read / r);
    ctx.max("max_percent_of_bytes_allowed", 100 * c.written / w);
    ctx.max("max_percent_of_writes_allowed", 100 * c.calls / n);
    ck!(c.read <= r, "{}({}) read {} bytes in a tree of {} levels of {} bytes a page; {} are enough", what, i, c.read, h, page, r);
    ck!(c.written <= w, "{}({}) wrote {} bytes in a tree of {} levels of {} bytes a page; {} are enough", what, i, c.written, h, page, w);
    ck!(c.calls <= n, "{}({}) wrote {} times in a tree of {} levels; {} times are enough", what, i, c.calls, h, n);
    Ok(())
}
fn costs<K: BK, V: BV>(ctx: &mut Ctx) -> R {
    let case = Case::new();
    let range = *ctx.rng.pick(&[8i64, 40, 200, 800, 3000]);
    let deg = if ctx.rng.chance(1, 6) { None } else { Some((ctx.rng.range(3, 12) as usize, ctx.rng.range(3, 12) as usize)) };
    let (kpad, vpad) = (5 + ctx.rng.us(8), ctx.rng.us(20));
    let mut m = Bp::<K, V>::new_at(ctx, case.path.clone(), range, kpad, vpad, 0, deg)?;
    let v = m.fresh_value(ctx);
    m.insert(ctx, 0, v)?;
    let page = reads(&case, 1, || m.m.as_mut().unwrap().min())?;
    if page == 0 {
        ctx.count("unmeasurable_histories", 1);
        return Ok(());
    }
    let range = m.range;
    // the smallest leaf holds half of the leaf degree
    let least = deg.map_or(1, |d| (d.0 as u64 + 1) / 2);
    for _ in 0..ctx.rng.range(2, 7) {
        let (style, ins) = (ctx.rng.below(4), *ctx.rng.pick(&[0u64, 10, 50, 95, 100]));
        let (from, steps) = (ctx.rng.below(range as u64) as i64, ctx.rng.range(1, (range as u64).min(600)) as i64);
        for j in 0..steps {
            let i = match style {
                0 => (from + j) % range,
                1 => (from - j).rem_euclid(range),
                _ => ctx.rng.below(range as u64) as i64,
            };
            let h = reads(&case, page, || m.m.as_mut().unwrap().min())?;
            ctx.max("max_levels", h);
            let (c, what) = if ctx.rng.below(100) < ins {
                let v = m.fresh_value(ctx);
                (cost(&case, || m.insert(ctx, i, v))?, "insert")
            } else {
                (cost(&case, || m.remove(ctx, i))?, "remove")
            };
            judge_update(ctx, what, i, &c, h, page)?;
            if j % 8 == 0 {
                let c = cost(&case, || m.get(ctx, i).and_then(|_| m.min_max(ctx)))?;
                ckeq!(c.calls, 0, "writes to the file by get({}), contains_key, min, max and len", i);
                ctx.count("reads_measured", 1);
            }
        }
        let h = reads(&case, page, || m.m.as_mut().unwrap().min())?;
        let n = m.model.len() as u64;
        let mut seen = 0u64;
        let c = cost(&case, || {
            for x in m.m.as_mut().unwrap().iter_mut().map_err(|e| format!("iter_mut failed: {}", e))? {
                x.map_err(|e| format!("next failed: {}", e))?;
                seen += 1;
            }
            Ok(())
        })?;
        ckeq!(seen, n, "entries of iter_mut");
        ckeq!(c.calls, 0, "writes to the file by an iterator over {} entries", n);
        let most = (h + n / least + 1) * page;
        ctx.count("iterations_measured", 1);
        ctx.max("max_percent_of_an_iteration", 100 * c.read / most);
        ck!(
            c.read <= most,
            "an iterator over {} entries read {} bytes; {} levels and every leaf, of at least {} entries, once are {} (pages of {})",
            n, c.read, h, least, most, page
        );
        if ctx.rng.chance(1, 5) {
            let c = cost(&case, || m.clear(ctx))?;
            judge_update(ctx, "clear", 0, &c, 1, page)?;
        }
        if ctx.rng.chance(1, 5) {
            let c = cost(&case, || m.reopen(ctx))?;
            ckeq!(c.calls, 0, "writes to the file by dropping and opening the map");
        }
    }
    m.full(ctx, false)
}

fn main() {
    let o = parse_opts();
    let _ = shim::PREFIX.set(format!("{}/L", scratch()).into_bytes());
    if o.prop == "C44" {
        let suites = vec![
            suite("costs_u32", 1200, 30000, costs::<u32, u64>),
            suite("costs_string", 400, 10000, costs::<String, String>),
            suite("costs_struct", 300, 8000, costs::<Pair, Rec>),
        ];
        std::process::exit(run(&o, suites));
    }
    if o.prop == "C47" {
        let suites = vec![
            suite("memory_bp_u32", 60, 2000, resources::memory::<u32, u64>),
            suite("memory_bp_string", 60, 2000, resources::memory::<String, String>),
            suite("memory_bp_struct", 40, 1000, resources::memory::<Pair, Rec>),
        ];
        std::process::exit(run(&o, suites));
    }
    if o.prop == "C48" {
        let suites = vec![
            suite("handles_bp_u32", 1200, 40000, resources::handles::<u32, u64>),
            suite("handles_bp_string", 600, 20000, resources::handles::<String, String>),
            suite("handles_bp_struct", 400, 10000, resources::handles::<Pair, Rec>),
        ];
        std::process::exit(run(&o, suites));
    }
    if o.prop == "C50" {
        std::process::exit(run(&o, vec![suite("refused_bp", 800, 30000, refused)]));
    }
    if o.prop == "C37" {
        let suites = vec![
            suite("height_u32", 1600, 40000, height::<u32, u64>),
            suite("height_string", 500, 12000, height::<String, String>),
            suite("height_struct", 400, 10000, height::<Pair, Rec>),
        ];
        std::process::exit(run(&o, suites));
    }
    let suites = vec![
        suite("faults_u32", 2400, 80000, faults::<u32, u64>),
        suite("faults_string", 1200, 40000, faults::<String, String>),
        suite("faults_struct", 800, 20000, faults::<Pair, Rec>),
        suite("faults_unit", 400, 10000, faults::<i64, ()>),
        suite("oversized_string", 600, 20000, oversized::<String, String>),
        suite("oversized_record", 400, 10000, oversized::<u64, Rec>),
        suite("oversized_vec", 400, 10000, oversized::<u8, Vec<u8>>),
        suite("oversized_key", 400, 10000, oversized::<String, u64>),
    ];
    std::process::exit(run(&o, suites));
}
