//! When an LsmMap writes its entries out (C42), which tables the size-tiered strategy merges (C43), and which the leveled one (C45).
use crate::h::*;
use crate::shape;
use crate::shim;
use extended_collections::lsm_tree::compaction::{LeveledStrategy, SizeTieredStrategy};
use extended_collections::lsm_tree::LsmMap;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::Ordering::SeqCst;
use vh::bp::{BK, BV};
use vh::core::*;
use vh::{ck, ckeq};

// ---------------------------------------------------------------- C42
/// the entries not written out yet, and the bytes of their keys and values
pub struct Unwritten {
    pub bytes: BTreeMap<i64, u64>,
    pub made: u64,
}
impl Unwritten {
    fn sum(&self) -> u64 {
        self.bytes.values().sum()
    }
}
/// bytes that an entry may be accounted with beyond its key and value
const OVERHEAD: u64 = 24;

/// after an operation that may write the entries out: did it, and was it right to?
pub fn judge<K: BK, V: BV>(ctx: &mut Ctx, h: &H<K, V>, u: &mut Unwritten, what: &str, write: bool) -> R {
    let made = h.slot().fg_mkdirs.load(SeqCst);
    let (new, max) = (made - u.made, h.cfg.mem);
    u.made = made;
    let (sum, n) = (u.sum(), u.bytes.len() as u64);
    if write {
        ck!(new <= 1, "{} made {} SSTables", what, new);
        if new == 1 {
            ctx.count("tables_made_by_writes", 1);
            ck!(
                sum + n * OVERHEAD > max,
                "{} wrote the in-memory entries out although there are only {} of them, {} bytes of keys and values; max_in_memory_size is {}",
                what, n, sum, max
            );
        } else {
            ctx.count("writes_kept_in_memory", 1);
            ctx.max("max_percent_of_budget", if max > 0 { 100 * sum / max } else { 0 });
            ck!(
                sum <= max,
                "{} left {} entries in memory, {} bytes of keys and values; max_in_memory_size is {}",
                what, n, sum, max
            );
        }
    } else {
        ck!(new <= (n > 0) as u64, "{} made {} SSTables of {} in-memory entries", what, new, n);
        ctx.count("other_operations", 1);
    }
    if new > 0 {
        u.bytes.clear();
    }
    Ok(())
}
pub fn budget<K: BK, V: BV, const LEVELED: bool>(ctx: &mut Ctx) -> R {
    let mut cfg = Cfg::random(ctx, LEVELED);
    cfg.mem = match ctx.rng.below(4) {
        0 => ctx.rng.below(60),
        1 => ctx.rng.below(600),
        2 => ctx.rng.below(3000),
        _ => ctx.rng.below(40_000),
    };
    let range = *ctx.rng.pick(&[1i64, 3, 10, 60, 400]);
    let (kp, vp) = (5 + ctx.rng.us(20), *ctx.rng.pick(&[0usize, 8, 14, 60, 300]));
    let mut h = H::<K, V>::new(ctx, cfg, range, kp, vp)?;
    let mut u = Unwritten { bytes: BTreeMap::new(), made: h.slot().fg_mkdirs.load(SeqCst) };
    let (size, other) = (ctx.rng.range(20, 500), *ctx.rng.pick(&[4u64, 20, 80]));
    let ins = *ctx.rng.pick(&[20u64, 60, 90, 100]);
    for _ in 0..size {
        let i = ctx.rng.us(h.range as usize) as i64;
        if ctx.rng.below(1000) < other {
            match ctx.rng.below(8) {
                0 | 1 => h.clear(ctx)?,
                2 => {
                    h.flush(ctx)?;
                    h.reopen(ctx)?;
                }
                3 => h.flush(ctx)?,
                4 => h.iter(ctx, usize::MAX)?,
                5 => h.len(ctx)?,
                6 => h.min_max(ctx)?,
                _ => h.len_hint(ctx)?,
            }
            judge(ctx, &h, &mut u, &format!("{:?}", ctx.ops.last().map(|o| o.0)), false)?;
            match ctx.ops.last().map(|o| o.0) {
                Some("clear") => u.bytes.clear(),
                _ => (),
            }
        } else if ctx.rng.chance(1, 12) {
            h.get(ctx, i)?;
            ckeq!(h.slot().fg_mkdirs.load(SeqCst), u.made, "SSTables made so far, after get({})", i);
        } else {
            let write = ctx.rng.below(100) < ins;
            let k = bincode::serialized_size(&h.k(i)).map_err(|e| e.to_string())?;
            let v = if write {
                h.insert(ctx, i)?;
                let v = *h.model.get(&i).ok_or("an inserted key is not in the model")?;
                bincode::serialized_size(&h.v(v)).map_err(|e| e.to_string())?
            } else {
                h.remove(ctx, i)?;
                0
            };
            u.bytes.insert(i, k + v);
            judge(ctx, &h, &mut u, &format!("{}({})", if write { "insert" } else { "remove" }, i), true)?;
        }
    }
    h.full(ctx)?;
    h.panicked()
}

// ---------------------------------------------------------------- C43
type StMeta = (u64, usize, u64, f64, f64, Vec<PathBuf>);
type Summary = (usize, usize, u64, (u32, u32), (u64, u64), Vec<(u32, u64)>);
/// the tables the metadata names, with their sizes
fn sizes(dir: &Path) -> Option<BTreeMap<PathBuf, u64>> {
    shim::bypass(|| {
        let m: StMeta = bincode::deserialize(&std::fs::read(dir.join("metadata.dat")).ok()?).ok()?;
        let mut out = BTreeMap::new();
        for p in m.5 {
            let s: Summary = bincode::deserialize(&std::fs::read(p.join("summary.dat")).ok()?).ok()?;
            let d = std::fs::metadata(p.join("data.dat")).ok()?.len();
            let i = std::fs::metadata(p.join("index.dat")).ok()?.len();
            // the size that buckets go by is that of the records and index blocks
            if s.2 < d || s.2 > d + i {
                return None;
            }
            out.insert(p, s.2);
        }
        Some(out)
    })
}
/// must a compaction find something to merge, however it forms its buckets?
fn must_merge(cfg: &Cfg, all: &[u64]) -> Option<String> {
    let mut v = all.to_vec();
    v.sort();
    let small = v.iter().filter(|s| **s <= cfg.size).count();
    if small > cfg.count {
        return Some(format!("{} tables of at most min_sstable_size {}", small, cfg.size));
    }
    // tables of similar size, apart from all others
    for a in 0..v.len() {
        for b in a + cfg.count..v.len() {
            let (lo, hi) = (v[a] as f64, v[b] as f64);
            let similar = lo > cfg.size as f64 && cfg.low * hi <= lo && hi <= cfg.high * lo;
            let bucket = |i: usize, j: usize| {
                let avg = v[i..=j].iter().sum::<u64>() as f64 / (j + 1 - i) as f64;
                cfg.low * avg <= v[i] as f64 && v[j] as f64 <= cfg.high * avg
            };
            let apart_below = (0..a).all(|i| (a..=b).all(|j| !bucket(i, j)));
            let apart_above = (b + 1..v.len()).all(|j| (a..=b).all(|i| !bucket(i, j)));
            if similar && apart_below && apart_above {
                return Some(format!("{} tables of {} to {} bytes", b + 1 - a, v[a], v[b]));
            }
        }
    }
    None
}
pub fn buckets(ctx: &mut Ctx) -> R {
    let case = Case::new();
    let s = &shim::SLOT[case.slot];
    let r = &mut ctx.rng;
    let cfg = Cfg {
        leveled: false,
        mem: 0,
        count: *r.pick(&[1usize, 2, 2, 3, 4, 6]),
        size: *r.pick(&[0u64, 0, 60, 100, 300, 1000]),
        low: *r.pick(&[0.1, 0.5, 0.5, 0.8]),
        high: *r.pick(&[1.2, 1.5, 1.5, 3.0]),
        initial: 1,
        growth: 1,
    };
    // the lengths of values come in classes
    let classes: Vec<(u64, u64)> = (0..r.range(1, 4)).map(|_| { let a = *r.pick(&[0u64, 10, 40, 200, 1000, 4000]); (a, a / *r.pick(&[100u64, 20, 6, 2])) }).collect();
    let range = *r.pick(&[5u32, 40, 1 << 30, 1 << 30]);
    let class_run = r.range(1, 9);
    ctx.note(format!("LsmMap<u32, Vec<u8>> {:?} classes {:?} range {}", cfg, classes, range));
    let strategy: SizeTieredStrategy<u32, Vec<u8>> = io!(SizeTieredStrategy::new(&case.dir, cfg.mem, cfg.count, cfg.size, cfg.low, cfg.high), "creating a map");
    let mut m = LsmMap::new(strategy);
    let mut model: BTreeMap<u32, Vec<u8>> = BTreeMap::new();
    let mut class = 0;
    for step in 0..ctx.rng.range(10, 90) {
        if step % class_run == 0 {
            class = ctx.rng.us(classes.len());
        }
        let k = ctx.rng.below(range as u64) as u32;
        let remove = ctx.rng.chance(1, 12);
        let (a, w) = classes[class];
        let n = a + if w > 0 { ctx.rng.below(w) } else { 0 };
        ctx.op(if remove { "remove" } else { "insert" }, k as i64, n as i64);
        // the compaction thread waits at its first file operation
        s.allowed.store(s.bg_ops.load(SeqCst), SeqCst);
        if remove {
            io!(m.remove(k), "remove({})", k);
            model.remove(&k);
        } else {
            let v: Vec<u8> = (0..n).map(|x| (x as u64 + step) as u8).collect();
            io!(m.insert(k, v.clone()), "insert({})", k);
            model.insert(k, v);
        }
        let before = sizes(&case.dir);
        let bg = s.bg_ops.load(SeqCst);
        s.allowed.store(u64::MAX, SeqCst);
        io!(m.flush(), "flush");
        ckeq!(s.bg_panics.load(SeqCst), 0, "panics of compaction threads");
        let after = sizes(&case.dir);
        let (before, after) = match (before, after) {
            (Some(b), Some(a)) => (b, a),
            _ => {
                ctx.count("metadata_not_decoded", 1);
                continue;
            }
        };
        ctx.max("max_tables", before.len() as u64);
        let all: Vec<u64> = before.values().cloned().collect();
        let merged: Vec<u64> = before.iter().filter(|(p, _)| !after.contains_key(*p)).map(|(_, s)| *s).collect();
        let new = after.keys().filter(|p| !before.contains_key(*p)).count();
        if merged.is_empty() {
            ctx.count("steps_without_compaction", 1);
            ckeq!(new, 0, "tables made by a compaction that replaces none");
            if let Some(why) = must_merge(&cfg, &all) {
                return Err(format!("nothing is merged although there are {} (all sizes {:?}, {:?})", why, all, cfg));
            }
            continue;
        }
        ctx.count("compactions_observed", 1);
        ck!(bg > 0 || s.bg_ops.load(SeqCst) > bg, "tables vanished without a compaction");
        ctx.max("max_tables_merged", merged.len() as u64);
        ctx.count("tables_merged", merged.len() as u64);
        ck!(new <= 1, "a compaction of {} tables made {}", merged.len(), new);
        ck!(merged.len() >= cfg.count, "only {} tables were merged; max_sstable_count is {} (all sizes {:?})", merged.len(), cfg.count, all);
        let avg = merged.iter().sum::<u64>() as f64 / merged.len() as f64;
        let (lo, hi) = (*merged.iter().min().unwrap(), *merged.iter().max().unwrap());
        if hi > cfg.size {
            ctx.count("compactions_of_other_buckets_than_the_first", 1);
            ck!(
                hi as f64 <= avg * cfg.high * 1.000001 && lo as f64 >= avg * cfg.low * 0.999999,
                "tables of {:?} bytes were merged: their average is {}, a bucket reaches from {} to {} (min_sstable_size {}; all sizes {:?})",
                merged, avg, avg * cfg.low, avg * cfg.high, cfg.size, all
            );
        }
    }
    let got: Vec<(u32, Vec<u8>)> = {
        let mut out = Vec::new();
        for x in io!(m.iter(), "iter") {
            out.push(io!(x, "iter().next()"));
        }
        out
    };
    ckeq!(got.len(), model.len(), "entries of iter");
    ck!(got.iter().map(|(a, b)| (a, b)).eq(model.iter()), "contents at the end differ from the model");
    ctx.count("full_state_comparisons", 1);
    Ok(())
}

// ---------------------------------------------------------------- C45
type Keys = BTreeSet<u32>;
/// the tables by level, the overlapping ones of level 0 apart, with their keys
struct Levels {
    fresh: BTreeMap<PathBuf, Keys>,
    at: Vec<BTreeMap<PathBuf, Keys>>,
}
fn read_levels(dir: &Path, seen: &mut BTreeMap<PathBuf, Keys>) -> Option<Levels> {
    let (fresh, levels) = shape::levels::<u32>(dir)?;
    let mut keys = |p: PathBuf| -> Option<(PathBuf, Keys)> {
        if !seen.contains_key(&p) {
            let t = shape::table::<u32>(&p)?;
            seen.insert(p.clone(), t.keys.into_iter().collect());
        }
        let k = seen[&p].clone();
        Some((p, k))
    };
    let fresh = fresh.into_iter().map(&mut keys).collect::<Option<_>>()?;
    let at = levels.into_iter().map(|l| l.into_iter().map(|e| keys(e.1)).collect::<Option<_>>()).collect::<Option<_>>()?;
    Some(Levels { fresh, at })
}
fn all_keys(l: &BTreeMap<PathBuf, Keys>) -> Keys {
    l.values().flatten().cloned().collect()
}
/// what one compaction made of the tables: was it all needed?
fn moved(ctx: &mut Ctx, cfg: &Cfg, b: &Levels, a: &Levels) -> R {
    let none = BTreeMap::new();
    // keys that come into a level from above, as runs of keys adjacent in the level they come from
    let mut down = all_keys(&b.fresh);
    let mut runs: Vec<(u32, u32)> = Vec::new();
    let mut limit = cfg.initial as u64;
    for i in 0..a.at.len().max(b.at.len()) {
        let (bl, al) = (b.at.get(i).unwrap_or(&none), a.at.get(i).unwrap_or(&none));
        let (mut have, left) = (all_keys(bl), all_keys(al));
        have.extend(&down);
        let next: Keys = have.difference(&left).cloned().collect();
        for (p, t) in bl.iter().filter(|(p, _)| !al.contains_key(*p)) {
            let (lo, hi) = (*t.iter().next().unwrap(), *t.iter().next_back().unwrap());
            ctx.count("tables_replaced", 1);
            if i > 0 && t.iter().all(|k| !next.contains(k)) {
                ctx.count("tables_replaced_below_the_first_level", 1);
                ck!(
                    runs.iter().any(|r| r.0 <= hi && lo <= r.1),
                    "a compaction replaced the SSTable {:?} of level {}, keys {} to {}, although what came into that level was {:?}",
                    p.file_name(), i, lo, hi, runs
                );
            }
        }
        ctx.count("tables_kept_below_the_first_level", if i > 0 { bl.keys().filter(|p| al.contains_key(*p)).count() as u64 } else { 0 });
        let below = a.at.get(i + 1).map_or(0, |l| l.keys().filter(|p| !b.at.get(i + 1).map_or(false, |l| l.contains_key(*p))).count());
        if below > 0 {
            ctx.count("levels_that_gave_tables_away", 1);
            ckeq!(al.len() as u64, limit, "SSTables of level {} after it gave some to the next one, which is its limit", i);
        }
        limit = limit.saturating_mul(cfg.growth);
        // runs of keys that left, in the order of what the level held
        runs.clear();
        let mut open = false;
        for k in &have {
            if next.contains(k) {
                match runs.last_mut() {
                    Some(r) if open => r.1 = *k,
                    _ => runs.push((*k, *k)),
                }
                open = true;
            } else {
                open = false;
            }
        }
        down = next;
    }
    Ok(())
}
pub fn leveled_moves(ctx: &mut Ctx) -> R {
    let case = Case::new();
    let s = &shim::SLOT[case.slot];
    let r = &mut ctx.rng;
    let cfg = Cfg {
        leveled: true,
        mem: *r.pick(&[0u64, 0, 40, 120]),
        count: *r.pick(&[1usize, 1, 2, 3, 5]),
        size: *r.pick(&[1u64, 40, 80, 80, 150, 400]),
        low: 0.0,
        high: 0.0,
        initial: *r.pick(&[1usize, 1, 2, 3, 6]),
        growth: *r.pick(&[1u64, 2, 2, 2, 3, 3, 10]),
    };
    let range = *r.pick(&[8u32, 40, 200, 200, 1000]);
    let (style, run) = (r.below(5), r.range(1, 40));
    let removals = *r.pick(&[0u64, 5, 30]);
    ctx.note(format!("LsmMap<u32, Vec<u8>> {:?} range {} style {}", cfg, range, style));
    let strategy: LeveledStrategy<u32, Vec<u8>> = io!(LeveledStrategy::new(&case.dir, cfg.mem, cfg.count, cfg.size, cfg.initial, cfg.growth), "creating a map");
    let mut m = LsmMap::new(strategy);
    let mut model: BTreeMap<u32, Vec<u8>> = BTreeMap::new();
    let mut seen = BTreeMap::new();
    let (mut at, mut made) = (0u32, s.fg_mkdirs.load(SeqCst));
    for step in 0..ctx.rng.range(20, 120) {
        if step % run == 0 && style > 1 {
            at = ctx.rng.below(range as u64) as u32;
        }
        let k = match style {
            0 => ctx.rng.below(range as u64) as u32,
            1 | 2 => at % range,
            3 => (range - 1) - at % range,
            _ => (at + ctx.rng.below(range as u64 / 8 + 1) as u32) % range,
        };
        at += 1;
        let n = ctx.rng.below(24);
        let remove = ctx.rng.below(100) < removals;
        ctx.op(if remove { "remove" } else { "insert" }, k as i64, n as i64);
        // the compaction thread waits at its first file operation
        s.allowed.store(s.bg_ops.load(SeqCst), SeqCst);
        if remove {
            io!(m.remove(k), "remove({})", k);
            model.remove(&k);
        } else {
            let v: Vec<u8> = (0..n).map(|x| (x + step) as u8).collect();
            io!(m.insert(k, v.clone()), "insert({})", k);
            model.insert(k, v);
        }
        let wrote = s.fg_mkdirs.load(SeqCst) > made;
        made = s.fg_mkdirs.load(SeqCst);
        let before = if wrote { read_levels(&case.dir, &mut seen) } else { None };
        s.allowed.store(u64::MAX, SeqCst);
        if !wrote {
            continue;
        }
        io!(m.flush(), "flush");
        ckeq!(s.bg_panics.load(SeqCst), 0, "panics of compaction threads");
        made = s.fg_mkdirs.load(SeqCst);
        let (b, a) = match (before, read_levels(&case.dir, &mut seen)) {
            (Some(b), Some(a)) => (b, a),
            _ => {
                ctx.count("metadata_not_decoded", 1);
                continue;
            }
        };
        ctx.max("max_levels", a.at.len() as u64);
        ctx.max("max_tables", a.at.iter().map(|l| l.len() as u64).sum());
        if b.fresh.len() <= cfg.count {
            ctx.count("steps_without_compaction", 1);
            let same = b.fresh.keys().eq(a.fresh.keys()) && b.at.iter().flat_map(|l| l.keys()).eq(a.at.iter().flat_map(|l| l.keys()));
            ck!(same, "tables changed although there are only {} overlapping ones; max_sstable_count is {}", b.fresh.len(), cfg.count);
        } else {
            ctx.count("compactions_observed", 1);
            ck!(a.fresh.is_empty(), "{} overlapping SSTables are left after {} of them had to be merged; max_sstable_count is {}", a.fresh.len(), b.fresh.len(), cfg.count);
            moved(ctx, &cfg, &b, &a)?;
        }
    }
    let got: Vec<(u32, Vec<u8>)> = {
        let mut out = Vec::new();
        for x in io!(m.iter(), "iter") {
            out.push(io!(x, "iter().next()"));
        }
        out
    };
    ckeq!(got.len(), model.len(), "entries of iter");
    ck!(got.iter().map(|(a, b)| (a, b)).eq(model.iter()), "contents at the end differ from the model");
    ctx.count("full_state_comparisons", 1);
    Ok(())
}

// ---------------------------------------------------------------- C46
/// the files of a directory and their contents
fn tree(dir: &Path) -> BTreeMap<PathBuf, Vec<u8>> {
    fn walk(d: &Path, out: &mut BTreeMap<PathBuf, Vec<u8>>) {
        if let Ok(it) = std::fs::read_dir(d) {
            for e in it.flatten() {
                let p = e.path();
                if p.is_dir() {
                    out.insert(p.clone(), Vec::new());
                    walk(&p, out);
                } else {
                    let b = std::fs::read(&p).unwrap_or_default();
                    out.insert(p, b);
                }
            }
        }
    }
    let mut out = BTreeMap::new();
    shim::bypass(|| walk(dir, &mut out));
    out
}
/// making a map where one is already, opening one where none is, and maps side by side
pub fn creation<K: BK, V: BV, const LEVELED: bool>(ctx: &mut Ctx) -> R {
    let cfg = Cfg::random(ctx, LEVELED);
    let range = *ctx.rng.pick(&[5i64, 20, 100]);
    let (kp, vp) = (5 + ctx.rng.us(8), ctx.rng.us(24));
    let mix = Mix { write: 900, join: 20, clear: *ctx.rng.pick(&[0u64, 4]) };
    let mut h = H::<K, V>::new(ctx, cfg, range, kp, vp)?;
    // nothing to open, and nothing must come of trying
    let missing = h.case.dir.with_extension("none");
    ctx.op("open_missing", NOARG, NOARG);
    ck!(guard("open", || cfg.open::<K, V>(&missing).is_err())?, "opening a map that does not exist succeeded");
    ck!(!shim::bypass(|| missing.exists()), "opening a map that does not exist made its directory");
    for round in 0..ctx.rng.range(1, 4) {
        let n = ctx.rng.below(80) as usize;
        h.phase(ctx, n, &mix)?;
        h.flush(ctx)?;
        let before = tree(&h.case.dir);
        ctx.max("max_files", before.len() as u64);
        if ctx.rng.chance(1, 2) {
            h.lsm = None;
        }
        // a second map in the same place must be refused without harm, whatever its strategy
        for _ in 0..2 {
            let leveled = ctx.rng.chance(1, 2);
            let other = Cfg::random(ctx, leveled);
            ctx.op("create_again", other.leveled as i64, round as i64);
            let dir = h.case.dir.clone();
            ck!(guard("new", || other.make::<K, V>(&dir).is_err())?, "creating a map in the directory of another succeeded");
            ctx.count("maps_refused", 1);
        }
        let after = tree(&h.case.dir);
        ck!(before == after, "an attempt to create a map in the directory of another changed the files there");
        if h.lsm.is_none() || ctx.rng.chance(1, 2) {
            h.lsm = None;
            let dir = h.case.dir.clone();
            h.lsm = Some(io!(cfg.open(&dir), "opening the map"));
        }
        h.full(ctx)?;
    }
    // another map next to it
    let leveled = ctx.rng.chance(1, 2);
    let cfg2 = Cfg::random(ctx, leveled);
    let mut g = H::<K, V>::new(ctx, cfg2, range, kp, vp)?;
    for _ in 0..ctx.rng.range(1, 4) {
        shim::set_fg(Some(h.case.slot));
        let n = ctx.rng.below(60) as usize;
        h.phase(ctx, n, &mix)?;
        shim::set_fg(Some(g.case.slot));
        let n = ctx.rng.below(60) as usize;
        g.phase(ctx, n, &mix)?;
        if ctx.rng.chance(1, 3) {
            g.clear(ctx)?;
        }
        g.full(ctx)?;
        shim::set_fg(Some(h.case.slot));
        if ctx.rng.chance(1, 3) {
            h.clear(ctx)?;
        }
        h.full(ctx)?;
    }
    shim::set_fg(Some(g.case.slot));
    drop(g);
    shim::set_fg(Some(h.case.slot));
    h.flush(ctx)?;
    h.reopen(ctx)?;
    h.full(ctx)?;
    h.panicked()
}
