//! What an LsmMap holds besides its files: memory (C47), descriptors and threads (C48).
use crate::h::*;
use crate::shim::{self, Slot};
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};
use vh::bp::{BK, BV};
use vh::core::*;
use vh::{ck, ckeq};

/// SSTable directories, bytes of their summaries and filters, bytes of their records
fn on_disk(dir: &Path) -> (u64, u64, u64) {
    shim::bypass(|| {
        let (mut tables, mut meta, mut data) = (0, 0, 0);
        for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                tables += 1;
                let size = |f: &str| std::fs::metadata(p.join(f)).map_or(0, |m| m.len());
                meta += size("summary.dat") + size("filter.dat");
                data += size("data.dat");
            }
        }
        (tables, meta, data)
    })
}
struct Memory<K: BK> {
    /// live bytes of the map, by the allocations and frees within its calls
    live: i64,
    /// most live bytes during a call
    peak: i64,
    tables: u64,
    meta: u64,
    data: u64,
    lsm: Option<Lsm<K, Vec<u8>>>,
}
impl<K: BK> Memory<K> {
    fn call<T>(&mut self, f: impl FnOnce(&mut Option<Lsm<K, Vec<u8>>>) -> T) -> T {
        peak_reset();
        let a = mem().0;
        let r = f(&mut self.lsm);
        self.peak = self.live + peak() - a;
        self.live += mem().0 - a;
        r
    }
    fn see(&mut self, dir: &Path) {
        let (t, m, d) = on_disk(dir);
        self.tables = self.tables.max(t);
        self.meta = self.meta.max(m);
        self.data = self.data.max(d);
    }
}
pub fn memory<K: BK, const LEVELED: bool>(ctx: &mut Ctx) -> R {
    let case = Case::new();
    let s: &'static Slot = &shim::SLOT[case.slot];
    let r = &mut ctx.rng;
    let longest = *r.pick(&[300u64, 600, 1200]);
    let budget = *r.pick(&[4_000u64, 10_000, 30_000]);
    let total = *r.pick(&[600_000u64, 1_200_000, 2_500_000]);
    let cfg = Cfg {
        leveled: LEVELED,
        mem: budget,
        count: *r.pick(&[1usize, 2, 4]),
        size: if LEVELED { *r.pick(&[budget, 4 * budget, 200_000, 10_000_000]) } else { *r.pick(&[0u64, 20_000, 100_000_000]) },
        low: 0.5,
        high: 1.5,
        initial: *r.pick(&[2usize, 4, 10]),
        growth: *r.pick(&[2u64, 4, 10]),
    };
    let kpad = 5 + r.us(20);
    let range = ((2 * total / longest) as i64).min(K::MAX);
    ctx.note(format!("LsmMap<{}, Vec<u8>> {:?} values to {} bytes, {} bytes in all", K::NAME, cfg, longest, total));
    let mut model: BTreeMap<i64, (u64, usize)> = BTreeMap::new();
    let mut m = Memory { live: 0, peak: 0, tables: 0, meta: 0, data: 0, lsm: None };
    let dir = case.dir.clone();
    let made = m.call(|l| cfg.make::<K, Vec<u8>>(&dir).map(|x| *l = Some(x)));
    io!(made, "creating a map");
    let record = longest + kpad as u64 + 100;
    let style = ctx.rng.below(3);
    let (mut written, mut step, mut flushed) = (0u64, 0u64, s.fg_mkdirs.load(SeqCst));
    // the map may hold its memtable, filters and summaries, and some records at a time
    let most = |m: &Memory<K>| (100_000 + 4 * budget + m.tables * (1500 + 4 * record) + 10 * m.meta) as i64;
    let judge = |ctx: &mut Ctx, m: &mut Memory<K>, what: &str| -> R {
        let most = most(m);
        ctx.max("max_bytes_held", m.peak.max(0) as u64);
        ctx.max("max_percent_of_the_bound", (100 * m.peak.max(0) / most) as u64);
        ck!(
            m.peak <= most,
            "{} needs {} bytes of memory; {} SSTables with {} bytes of summaries and filters, records of at most {} bytes, and a memory budget of {} justify {} (there are {} bytes of records)",
            what, m.peak, m.tables, m.meta, record, budget, most, m.data
        );
        Ok(())
    };
    let value = |v: u64, n: usize| vec![v as u8; n];
    while written < total {
        step += 1;
        let i = match style {
            0 => ctx.rng.below(range as u64) as i64,
            1 => step as i64 % range,
            _ => (range - 1) - step as i64 % range,
        };
        let k = |l: i64| kmk::<K>(l, kpad);
        let what = ctx.rng.below(1000);
        ctx.op("step", i, what as i64);
        if what < 60 {
            let r = m.call(|l| on!(l.as_mut().unwrap(), m => m.remove(k(i))));
            io!(r, "remove({})", i);
            model.remove(&i);
            judge(ctx, &mut m, "a removal")?;
        } else if what < 120 {
            let exp = model.get(&i).map(|x| value(x.0, x.1));
            let same = m.call(|l| on!(l.as_mut().unwrap(), m => m.get(k(i).q()).map(|x| x == exp)));
            ck!(io!(same, "get({})", i), "get({}) differs from the model", i);
            judge(ctx, &mut m, "get")?;
        } else if what < 123 {
            let mut bad = None;
            let mut n = 0;
            let upto = if ctx.rng.chance(1, 2) { usize::MAX } else { ctx.rng.us(2000) };
            {
                let mut exp = model.iter();
                let r = m.call(|l| -> R {
                    for x in on!(l.as_mut().unwrap(), m => m.iter()).map_err(|e| format!("iter failed: {:?}", e))?.take(upto) {
                        let (a, b) = x.map_err(|e| format!("iter().next() failed: {:?}", e))?;
                        if !exp.next().map_or(false, |(i, x)| a == k(*i) && b == value(x.0, x.1)) && bad.is_none() {
                            bad = Some(n);
                        }
                        n += 1;
                    }
                    Ok(())
                });
                r?;
            }
            ck!(bad.is_none(), "entry {:?} of iter differs from the model", bad);
            ckeq!(n, model.len().min(upto), "entries of iter");
            judge(ctx, &mut m, "an iterator")?;
            ctx.count("iterations_measured", 1);
        } else if what < 126 {
            let n = m.call(|l| on!(l.as_mut().unwrap(), m => m.len()));
            ckeq!(io!(n, "len"), model.len(), "len");
            judge(ctx, &mut m, "len")?;
            let same = m.call(|l| on!(l.as_mut().unwrap(), m => m.max())).map(|x| x == model.keys().next_back().map(|i| k(*i)));
            ck!(io!(same, "max"), "max differs from the model");
            judge(ctx, &mut m, "max")?;
        } else {
            let n = ctx.rng.range(longest / 3, longest) as usize;
            let r = m.call(|l| on!(l.as_mut().unwrap(), m => m.insert(k(i), value(step, n))));
            io!(r, "insert({})", i);
            model.insert(i, (step, n));
            written += n as u64;
            judge(ctx, &mut m, "an insertion")?;
        }
        let now = s.fg_mkdirs.load(SeqCst);
        if now != flushed {
            flushed = now;
            m.see(&dir);
        }
        if what >= 997 || written >= total {
            ctx.op("flush", step as i64, model.len() as i64);
            let r = m.call(|l| on!(l.as_mut().unwrap(), m => m.flush()));
            io!(r, "flush");
            m.see(&dir);
            judge(ctx, &mut m, "flush")?;
            ckeq!(s.bg_panics.load(SeqCst), 0, "panics of compaction threads");
            let (t, meta, data) = on_disk(&dir);
            if s.bg_threads.load(SeqCst) == 0 {
                // compaction has ended: what is there now, in both threads together
                let held = m.live + s.bg_live.load(SeqCst);
                let most = (16_000 + 1500 * t + 8 * meta) as i64;
                ctx.count("states_at_rest_measured", 1);
                ctx.max("max_percent_of_the_bound_at_rest", (100 * held.max(0) / most) as u64);
                ck!(held <= most, "a map at rest holds {} bytes of memory; {} SSTables with {} bytes of summaries and filters justify {} (there are {} bytes of records)", held, t, meta, most, data);
            }
            let held = s.bg_peak.load(SeqCst);
            let most = most(&m);
            ctx.max("max_percent_of_the_bound_by_compactions", (100 * held.max(0) / most) as u64);
            ctx.max("max_data_in_percent_of_the_bound", (100 * m.data as i64 / most) as u64);
            ck!(
                held <= most,
                "a compaction needs {} bytes of memory; {} SSTables with {} bytes of summaries and filters, records of at most {} bytes, and a memory budget of {} justify {} (there are {} bytes of records)",
                held, m.tables, m.meta, record, budget, most, m.data
            );
            if ctx.rng.chance(1, 2) {
                let opened = m.call(|l| {
                    *l = None;
                    cfg.open::<K, Vec<u8>>(&dir).map(|x| *l = Some(x))
                });
                io!(opened, "open");
                judge(ctx, &mut m, "opening the map")?;
            }
        }
    }
    ctx.count("bytes_written", written);
    ctx.count("operations", step);
    let gone = m.call(|l| *l = None);
    let _ = gone;
    ck!(m.live + s.bg_live.load(SeqCst) < 16_000, "{} bytes of memory are left after a map was dropped", m.live + s.bg_live.load(SeqCst));
    Ok(())
}

/// no more files than needed are open, at any time, and one compaction thread at most is at work
pub fn handles<K: BK, V: BV, const LEVELED: bool>(ctx: &mut Ctx) -> R {
    let mut cfg = Cfg::random(ctx, LEVELED);
    cfg.mem = *ctx.rng.pick(&[0, 40, 100, 200, 600]);
    if !LEVELED && ctx.rng.chance(1, 2) {
        cfg.size = 1 << 30;
    }
    let range = *ctx.rng.pick(&[3i64, 20, 100, 400]);
    let mut h = H::<K, V>::new(ctx, cfg, range, 6, 12)?;
    let s = h.slot();
    let dir = h.case.dir.clone();
    let mut tables = 0u64;
    for _ in 0..ctx.rng.range(1, 6) {
        let faulty = ctx.rng.chance(1, 3);
        if faulty {
            crate::suites::arm(ctx, s);
        }
        let mut its = Vec::new();
        for _ in 0..ctx.rng.range(1, 60) {
            let i = ctx.rng.us(h.range as usize) as i64;
            let (k, v) = (h.k(i), h.v(i as u64 + 1));
            let what = ctx.rng.below(20);
            let m = h.m();
            let ok = match what {
                0..=11 => guard("insert", || on!(m, m => m.insert(k, v)).is_ok())?,
                12 | 13 => guard("remove", || on!(m, m => m.remove(k)).is_ok())?,
                14 => guard("get", || on!(m, m => m.get(k.q())).is_ok())?,
                15 => guard("min", || on!(m, m => m.min()).is_ok())?,
                16 => guard("max", || on!(m, m => m.max()).is_ok())?,
                17 => guard("len", || on!(m, m => m.len()).is_ok())?,
                18 => guard("flush", || on!(m, m => m.flush()).is_ok())?,
                _ => {
                    let n = ctx.rng.us(40);
                    match guard("iter", || on!(m, m => m.iter()))? {
                        Ok(mut it) => {
                            for _ in 0..n {
                                if guard("next", || it.next())?.is_none() {
                                    break;
                                }
                            }
                            if its.len() < 3 {
                                its.push(it);
                            }
                            true
                        }
                        Err(_) => false,
                    }
                }
            };
            ctx.op(["insert", "remove", "get", "min", "max", "len", "flush", "iter"][match what { 0..=11 => 0, 12 | 13 => 1, x => x as usize - 12 }], i, ok as i64);
            ck!(ok || faulty, "an operation fails without a fault");
            tables = tables.max(on_disk(&dir).0).max(s.max_dirs.swap(s.dirs.load(SeqCst), SeqCst).max(0) as u64);
            let iterators = its.len() as i64;
            if what == 19 && ctx.rng.chance(1, 2) {
                its.clear();
            }
            // every iterator (with one just made) and the compaction may have each SSTable open, and each thread writes a new one
            let most = 12 + (tables as i64 + 2) * (iterators + 3);
            let held = s.max_fds.swap(s.fds.load(SeqCst), SeqCst);
            ctx.max("max_descriptors", held as u64);
            ctx.max("max_percent_of_the_bound", (100 * held.max(0) / most) as u64);
            ck!(held <= most, "{} files were open at once; there were {} SSTables and {} iterators", held, tables, iterators);
        }
        drop(its);
        if faulty {
            s.fail_kinds.store(0, SeqCst);
            ctx.count("failed_file_system_calls", s.failed.load(SeqCst));
        }
        io!(on!(h.m(), m => m.flush()), "flush");
        let end = Instant::now() + Duration::from_secs(5);
        while s.bg_threads.load(SeqCst) > 0 && Instant::now() < end {
            std::thread::yield_now();
        }
        h.panicked()?;
        ckeq!(s.bg_overlaps.load(SeqCst), 0, "steps of a compaction while another one was at work");
        if s.bg_threads.load(SeqCst) > 0 {
            ctx.count("compactions_not_over_after_flush", 1);
            continue;
        }
        ctx.count("states_at_rest_measured", 1);
        let held = s.fds.load(SeqCst);
        ctx.max("max_descriptors_at_rest", held as u64);
        ck!(held <= 4, "{} files are open although no operation, iterator or compaction is at work", held);
        if ctx.rng.chance(1, 2) {
            h.lsm = None;
            ckeq!(s.fds.load(SeqCst), 0, "files open after the map was dropped");
            if ctx.rng.chance(1, 3) {
                // attempts that fail
                crate::suites::arm(ctx, s);
                for _ in 0..3 {
                    if let Ok(m) = guard("open", || cfg.open::<K, V>(&dir))? {
                        drop(m);
                    }
                }
                s.fail_kinds.store(0, SeqCst);
                ckeq!(s.fds.load(SeqCst), 0, "files open after attempts to open the map");
            }
            h.lsm = Some(io!(cfg.open(&dir), "open"));
            ctx.count("sessions", 1);
        }
    }
    ctx.count("compaction_steps", s.bg_ops.load(SeqCst));
    Ok(())
}
