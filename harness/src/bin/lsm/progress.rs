//! What does not wait for a compaction (C49), and what cannot be serialized (C50).
use crate::h::*;
use crate::tiers::{judge, Unwritten};
use std::collections::BTreeMap;
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};
use vh::bp::{BK, BV};
use vh::core::*;
use vh::picky::Picky;
use vh::{ck, ckeq};

/// writes and lookups while the compaction thread stands still at some file-system call
pub fn progress<K: BK, V: BV, const LEVELED: bool>(ctx: &mut Ctx) -> R {
    let mut cfg = Cfg::random(ctx, LEVELED);
    cfg.mem = *ctx.rng.pick(&[0, 40, 100, 300, 1000]);
    cfg.count = *ctx.rng.pick(&[1, 1, 2, 4]);
    if !LEVELED {
        cfg.size = *ctx.rng.pick(&[0, 1 << 30]);
    }
    let range = *ctx.rng.pick(&[3i64, 20, 100, 400]);
    let mut h = H::<K, V>::new(ctx, cfg, range, 6, 12)?;
    let s = h.slot();
    s.patience.store(40_000, SeqCst);
    for _ in 0..ctx.rng.range(1, 5) {
        // some compactions may end before the one that stands still
        s.allowed.store(s.bg_ops.load(SeqCst) + *ctx.rng.pick(&[0, 0, 1, 3, 5, 8, 12, 20, 40, 80]), SeqCst);
        let mut left = ctx.rng.range(10, 80);
        while left > 0 {
            let i = ctx.rng.us(h.range as usize) as i64;
            let held = s.waiting.load(SeqCst);
            match ctx.rng.below(20) {
                0..=10 => h.insert(ctx, i)?,
                11 | 12 => h.remove(ctx, i)?,
                13 => h.len_hint(ctx)?,
                _ => h.get(ctx, i)?,
            }
            let what = ctx.ops.last().map_or("", |o| o.0);
            ck!(s.expired.load(SeqCst) == 0, "{} waited for the compaction", what);
            if held {
                left -= 1;
                ctx.count("operations_beside_a_compaction_that_stands_still", 1);
            } else if ctx.rng.chance(1, 60) {
                break;
            }
        }
        if s.waiting.load(SeqCst) && ctx.rng.chance(1, 3) {
            let step = (h.range / 100).max(1);
            let mut i = 0;
            while i < h.range {
                h.get(ctx, i)?;
                i += step;
            }
            ck!(s.expired.load(SeqCst) == 0, "get waited for the compaction");
        }
        s.allowed.store(u64::MAX, SeqCst);
        let end = Instant::now() + Duration::from_secs(5);
        while ctx.rng.chance(1, 2) && s.waiting.load(SeqCst) && Instant::now() < end {
            std::thread::yield_now();
        }
        if ctx.rng.chance(1, 2) {
            h.full(ctx)?;
        }
        ckeq!(s.expired.load(SeqCst), 0, "compactions that did not go on");
    }
    h.full(ctx)?;
    h.panicked()
}

// ---------------------------------------------------------------- C50
/// keys and values that refuse to be serialized change nothing
pub fn refused<const LEVELED: bool>(ctx: &mut Ctx) -> R {
    let mut cfg = Cfg::random(ctx, LEVELED);
    cfg.mem = match ctx.rng.below(3) {
        0 => ctx.rng.below(100),
        1 => ctx.rng.below(600),
        _ => ctx.rng.below(5000),
    };
    let range = *ctx.rng.pick(&[1i64, 3, 10, 60, 200]);
    let (kp, vp) = (5 + ctx.rng.us(20), *ctx.rng.pick(&[0usize, 8, 40]));
    let mut h = H::<Picky, Picky>::new(ctx, cfg, range, kp, vp)?;
    let mut u = Unwritten { bytes: BTreeMap::new(), made: h.slot().fg_mkdirs.load(SeqCst) };
    let often = *ctx.rng.pick(&[2u64, 5, 20]);
    for _ in 0..ctx.rng.range(20, 300) {
        let i = ctx.rng.us(h.range as usize) as i64;
        let what = ctx.rng.below(100);
        if what < 2 {
            h.flush(ctx)?;
            if ctx.rng.chance(1, 3) {
                h.reopen(ctx)?;
            }
            judge(ctx, &h, &mut u, "flush", false)?;
        } else if what < 3 {
            h.clear(ctx)?;
            judge(ctx, &h, &mut u, "clear", false)?;
            u.bytes.clear();
        } else if what < 12 {
            h.get(ctx, i)?;
        } else if ctx.rng.chance(1, often) {
            let mood = 1 + ctx.rng.below(2) as u8;
            let x = h.fresh(ctx);
            let (mut k, mut v) = (h.k(i), h.v(x));
            let m = h.m();
            let (name, returned) = match ctx.rng.below(3) {
                0 => {
                    k.mood = mood;
                    ("insert_bad_key", caught(|| on!(m, m => m.insert(k, v)).is_ok()))
                }
                1 => {
                    v.mood = mood;
                    ("insert_bad_value", caught(|| on!(m, m => m.insert(k, v)).is_ok()))
                }
                _ => {
                    k.mood = mood;
                    ("remove_bad_key", caught(|| on!(m, m => m.remove(k)).is_ok()))
                }
            };
            ctx.op(name, i, mood as i64);
            ctx.count("refused_records", 1);
            ck!(returned != Some(true), "{}({}) of a record that cannot be serialized returned Ok", name, i);
            ck!(mood == 2 || returned.is_some(), "{}({}) panicked, where serialization returns an error", name, i);
            ckeq!(h.slot().fg_mkdirs.load(SeqCst), u.made, "SSTables made so far, after {}({})", name, i);
            h.get(ctx, i)?;
        } else {
            let write = ctx.rng.below(100) < 70;
            let k = bincode::serialized_size(&h.k(i)).map_err(|e| e.to_string())?;
            let v = if write {
                h.insert(ctx, i)?;
                let v = *h.model.get(&i).ok_or("an inserted key is not in the model")?;
                bincode::serialized_size(&h.v(v)).map_err(|e| e.to_string())?
            } else {
                h.remove(ctx, i)?;
                0
            };
            u.bytes.insert(i, k + v);
            judge(ctx, &h, &mut u, &format!("{}({})", if write { "insert" } else { "remove" }, i), true)?;
        }
    }
    h.full(ctx)?;
    h.reopen(ctx)?;
    h.full(ctx)?;
    h.panicked()
}
