//! Structure of the tables on disk (C40) and the tables a lookup opens (C41).
use crate::h::*;
use crate::shim;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::Ordering::SeqCst;
use vh::bp::{BK, BV};
use vh::core::*;
use vh::{ck, ckeq};

type LvMeta<K> = (u64, usize, u64, usize, u64, Vec<PathBuf>, Vec<BTreeMap<K, PathBuf>>);

pub struct Table<K> {
    pub keys: Vec<K>,
    pub last_record: u64,
    pub max_record: u64,
    pub data_bytes: u64,
}
/// the records of data.dat: length, then key and value
pub fn table<K: BK>(dir: &Path) -> Option<Table<K>> {
    let b = shim::bypass(|| std::fs::read(dir.join("data.dat"))).ok()?;
    let (mut at, mut keys, mut last, mut most) = (0usize, Vec::new(), 0, 0);
    while at < b.len() {
        let n = u64::from_be_bytes(b.get(at..at + 8)?.try_into().ok()?) as usize;
        let rec = b.get(at + 8..(at + 8).checked_add(n)?)?;
        keys.push(bincode::deserialize::<K>(rec).ok()?);
        last = 8 + n as u64;
        most = most.max(last);
        at += 8 + n;
    }
    if keys.is_empty() {
        return None;
    }
    Some(Table { keys, last_record: last, max_record: most, data_bytes: b.len() as u64 })
}
pub fn levels<K: BK>(dir: &Path) -> Option<(Vec<PathBuf>, Vec<BTreeMap<K, PathBuf>>)> {
    let b = shim::bypass(|| std::fs::read(dir.join("metadata.dat"))).ok()?;
    let m: LvMeta<K> = bincode::deserialize(&b).ok()?;
    Some((m.5, m.6))
}
fn structure<K: BK, V: BV>(ctx: &mut Ctx, h: &H<K, V>) -> R {
    let (fresh, levels) = match levels::<K>(&h.case.dir) {
        Some(x) => x,
        None => {
            ctx.count("metadata_not_decoded", 1);
            return Ok(());
        }
    };
    ctx.count("structure_checks", 1);
    ctx.max("max_levels", levels.len() as u64);
    for p in fresh.iter().chain(levels.iter().flat_map(|l| l.values())) {
        if let Some(t) = table::<K>(p) {
            ck!(t.keys.windows(2).all(|w| w[0] < w[1]), "the keys of an SSTable are not strictly ascending");
        }
    }
    let mut cap = h.cfg.initial as u64;
    for (i, l) in levels.iter().enumerate() {
        ctx.max("max_tables_in_a_level", l.len() as u64);
        ck!(l.len() as u64 <= cap, "level {} holds {} SSTables after a flush, its limit is {}", i, l.len(), cap);
        cap = cap.saturating_mul(h.cfg.growth);
        let mut before: Option<K> = None;
        for (_, p) in l {
            let t = match table::<K>(p) {
                Some(t) => t,
                None => {
                    ctx.count("tables_not_decoded", 1);
                    before = None;
                    continue;
                }
            };
            ctx.count("tables_of_levels", 1);
            if let Some(b) = before {
                ck!(b < t.keys[0], "two SSTables of level {} overlap: one ends at {:?}, the next starts at {:?}", i, b, t.keys[0]);
            }
            ck!(
                t.data_bytes - t.last_record <= h.cfg.size,
                "an SSTable of level {} has {} bytes of data, {} without the last entry; the limit is {}",
                i, t.data_bytes, t.data_bytes - t.last_record, h.cfg.size
            );
            before = t.keys.last().cloned();
        }
    }
    Ok(())
}
/// C40
pub fn leveled_shape<K: BK, V: BV>(ctx: &mut Ctx) -> R {
    let mut cfg = Cfg::random(ctx, true);
    cfg.size = *ctx.rng.pick(&[1u64, 60, 120, 200, 500, 2000]);
    let range = *ctx.rng.pick(&[10i64, 40, 120, 400]);
    let (kp, vp) = (5 + ctx.rng.us(8), ctx.rng.us(24));
    let mut h = H::<K, V>::new(ctx, cfg, range, kp, vp)?;
    if ctx.rng.chance(1, 4) {
        h.gate = *ctx.rng.pick(&[10u64, 50, 100]);
    }
    let mix = Mix { write: 940, join: *ctx.rng.pick(&[0u64, 5, 30]), clear: *ctx.rng.pick(&[0u64, 0, 0, 4]) };
    for _ in 0..ctx.rng.range(3, 14) {
        let n = ctx.rng.range(1, 160) as usize;
        h.phase(ctx, n, &mix)?;
        if ctx.rng.chance(1, 6) {
            h.wave(ctx)?;
        }
        h.flush(ctx)?;
        structure(ctx, &h)?;
        if ctx.rng.chance(1, 8) {
            h.reopen(ctx)?;
            structure(ctx, &h)?;
        }
    }
    h.gate = 0;
    h.slot().allowed.store(u64::MAX, SeqCst);
    h.full(ctx)?;
    structure(ctx, &h)?;
    h.panicked()
}

/// directories of tables opened by one lookup
fn probes<K: BK, V: BV>(h: &mut H<K, V>, i: i64) -> Result<(BTreeSet<PathBuf>, u64), String> {
    let s = h.slot();
    let b = s.read_bytes.load(SeqCst);
    s.opened.lock().unwrap_or_else(|e| e.into_inner()).clear();
    s.track.store(true, SeqCst);
    let r = h.look(i);
    s.track.store(false, SeqCst);
    r?;
    let b = s.read_bytes.load(SeqCst) - b;
    let o = std::mem::take(&mut *s.opened.lock().unwrap_or_else(|e| e.into_inner()));
    let dir = &h.case.dir;
    Ok((o.into_iter().filter_map(|p| Path::new(&String::from_utf8_lossy(&p).into_owned()).parent().map(|p| p.to_path_buf())).filter(|p| p != dir).collect(), b))
}
/// C41
pub fn lookup_cost<K: BK, V: BV, const LEVELED: bool>(ctx: &mut Ctx) -> R {
    let mut cfg = Cfg::random(ctx, LEVELED);
    cfg.mem = *ctx.rng.pick(&[300u64, 600, 2000, 8000]);
    if LEVELED {
        cfg.size = cfg.mem / *ctx.rng.pick(&[1u64, 2, 5]);
    }
    let big = ctx.idx % 12 == 5;
    let range = if big { 60_000 } else { *ctx.rng.pick(&[60i64, 200, 600, 1500]) };
    if big {
        cfg.mem = *ctx.rng.pick(&[60_000u64, 1 << 20]);
        if LEVELED {
            cfg.size = cfg.mem / *ctx.rng.pick(&[1u64, 2, 5]);
        }
    }
    let vp = ctx.rng.us(12);
    let mut h = H::<K, V>::new(ctx, cfg, range, 8, vp)?;
    // only every third key may exist: the others are looked for in vain, within the range of the tables
    let mut writes = 0;
    let target = if big { 25_000 } else { ctx.rng.range(range as u64 / 2, 3 * range as u64) };
    let style = ctx.rng.below(3);
    while writes < target {
        let i = match style {
            0 => ctx.rng.us(h.range as usize) as i64,
            1 => writes as i64 % h.range,
            _ => (ctx.rng.us((h.range as usize / 5).max(1)) as i64 + writes as i64 / 40 * 17) % h.range,
        } / 3 * 3;
        if ctx.rng.chance(1, 12) {
            h.remove(ctx, i)?;
        } else {
            h.insert(ctx, i)?;
        }
        writes += 1;
    }
    h.flush(ctx)?;
    if ctx.rng.chance(1, 4) {
        h.reopen(ctx)?;
    }
    let dirs = tables(&h.case.dir);
    let mut all: BTreeMap<PathBuf, Table<K>> = BTreeMap::new();
    for d in &dirs {
        match table::<K>(d) {
            Some(t) => {
                all.insert(d.clone(), t);
            }
            None => {
                ctx.count("tables_not_decoded", 1);
                return Ok(());
            }
        }
    }
    let lv = if LEVELED { levels::<K>(&h.case.dir) } else { None };
    if LEVELED && lv.is_none() {
        ctx.count("metadata_not_decoded", 1);
        return Ok(());
    }
    let most_key = all.values().flat_map(|t| t.keys.iter()).map(|k| bincode::serialized_size(k).unwrap_or(0)).max().unwrap_or(0);
    let (mut in_range, mut wasted) = (0u64, 0u64);
    for n in 0..h.range.min(1500) {
        let i = n * h.range / h.range.min(1500);
        let k = h.k(i);
        let (got, bytes) = probes(&mut h, i)?;
        ctx.count("lookups_observed", 1);
        ctx.count("bytes_read", bytes);
        ctx.count("tables_opened", got.len() as u64);
        for d in &got {
            let t = match all.get(d) {
                Some(t) => t,
                None => return Err(format!("get({}) opened files of {:?}, which is no SSTable", i, d)),
            };
            ck!(
                t.keys[0] <= k && &k <= t.keys.last().unwrap(),
                "get({:?}) opened an SSTable that holds the keys from {:?} to {:?}",
                k, t.keys[0], t.keys.last().unwrap()
            );
        }
        // one block of the index of each table, and one record
        let block = (1.5 * (writes as f64 + 1.0).sqrt() + 1.0) as u64 * (most_key + 8) + 8 + 8 + 16_384; // allows for buffered reading of both files
        let most: u64 = got.iter().map(|d| block + all[d].max_record).sum();
        ctx.max("max_percent_of_bytes_allowed", if most > 0 { 100 * bytes / most } else { 0 });
        ck!(
            bytes <= most,
            "get({:?}) read {} bytes of {} SSTables; an index block of about the square root of the entries and a record each are {}",
            k, bytes, got.len(), most
        );
        if let Some((_, levels)) = &lv {
            for (n, l) in levels.iter().enumerate() {
                let c = l.values().filter(|p| got.contains(*p)).count();
                ck!(c <= 1, "get({:?}) opened {} SSTables of level {}", k, c, n);
            }
        }
        // the share of a tiny filter that is set varies too much
        for (d, t) in all.iter().filter(|x| x.1.keys.len() >= 32) {
            if t.keys[0] <= k && &k <= t.keys.last().unwrap() && t.keys.binary_search(&k).is_err() {
                in_range += 1;
                wasted += got.contains(d) as u64;
            }
        }
    }
    ctx.count("filter_queries", in_range);
    ctx.count("filter_false_positives", wasted);
    if in_range >= 200 {
        ctx.max("max_false_positive_percent", 100 * wasted / in_range);
        ck!(wasted * 3 <= in_range, "{} of {} SSTables not holding a key were opened to look for it", wasted, in_range);
    }
    // an iterator reads the records of each table once
    let most: u64 = all.values().map(|t| t.data_bytes + 8192).sum();
    for what in ["iter", "len", "max"] {
        let s = h.slot();
        let b = s.read_bytes.load(SeqCst);
        match what {
            "iter" => h.iter(ctx, usize::MAX)?,
            "len" => h.len(ctx)?,
            _ => h.min_max(ctx)?,
        }
        let b = s.read_bytes.load(SeqCst) - b;
        ctx.max("max_percent_of_an_iteration", if most > 0 { 100 * b / most } else { 0 });
        let most = if what == "iter" { most } else { 2 * most };
        ck!(b <= most, "{} read {} bytes of {} SSTables with {} bytes of data", what, b, all.len(), most);
        ctx.count("scans_observed", 1);
    }
    // a key in memory needs no table at all
    for _ in 0..10 {
        let i = ctx.rng.us(h.range as usize) as i64;
        let had = tables(&h.case.dir);
        if ctx.rng.chance(1, 2) {
            h.insert(ctx, i)?;
        } else {
            h.remove(ctx, i)?;
        }
        if tables(&h.case.dir) == had {
            let (got, _) = probes(&mut h, i)?;
            ckeq!(got.len(), 0, "SSTables opened by get({}), a key just written and held in memory", i);
            ctx.count("lookups_in_memory", 1);
        }
    }
    h.full(ctx)?;
    h.panicked()
}
