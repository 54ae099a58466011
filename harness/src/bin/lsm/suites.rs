//! The suites of C26-C34.
use crate::h::*;
use crate::shim::{self, SLOT};
use serde::de::DeserializeOwned;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use vh::bp::{BK, BV};
use vh::core::*;
use vh::{ck, ckeq};

const USUAL: Mix = Mix { write: 700, join: 25, clear: 2 };

fn dims(ctx: &mut Ctx) -> (i64, usize, usize) {
    (*ctx.rng.pick(&[4i64, 10, 24, 60, 60, 150, 400]), ctx.rng.range(5, 20) as usize, *ctx.rng.pick(&[0usize, 8, 30, 120]))
}

// ---------------------------------------------------------------- C26, C27
pub fn history<K: BK, V: BV, const LEVELED: bool>(ctx: &mut Ctx) -> R {
    let cfg = Cfg::random(ctx, LEVELED);
    let (range, kp, vp) = dims(ctx);
    let mut h = H::<K, V>::new(ctx, cfg, range, kp, vp)?;
    // how often the compaction thread is waited for
    let join = *ctx.rng.pick(&[3u64, 10, 40, 120, 250]);
    let mix = Mix { write: 700, join, clear: *ctx.rng.pick(&[0u64, 0, 3]) };
    for _ in 0..ctx.rng.range(2, 5) {
        let steps = ctx.rng.range(10, 220) as usize;
        h.phase(ctx, steps, &mix)?;
        match ctx.rng.below(6) {
            0 => h.wave(ctx)?,
            1 => h.full(ctx)?,
            2 => {
                h.wave(ctx)?;
                h.flush(ctx)?;
                h.full(ctx)?;
            }
            _ => {}
        }
    }
    h.full(ctx)?;
    h.panicked()?;
    ctx.count("operations", ctx.ops.len() as u64);
    ctx.count("background_file_operations", h.slot().bg_ops.load(SeqCst));
    Ok(())
}
/// few keys, small tables, a flush after every one or two writes: every version meets every other in
/// merges. The whole contents are compared after every step.
pub fn versions<K: BK, V: BV, const LEVELED: bool>(ctx: &mut Ctx) -> R {
    let mut cfg = Cfg::random(ctx, LEVELED);
    cfg.mem = 1 << 20;
    let range = ctx.rng.range(2, 9) as i64;
    let mut h = H::<K, V>::new(ctx, cfg, range, 6, 10)?;
    for _ in 0..ctx.rng.range(12, 70) {
        for _ in 0..ctx.rng.range(1, 4) {
            let i = ctx.rng.us(h.range as usize) as i64;
            if ctx.rng.chance(3, 5) {
                h.insert(ctx, i)?;
            } else {
                h.remove(ctx, i)?;
            }
        }
        h.flush(ctx)?;
        h.lookups()?;
        if ctx.rng.chance(1, 3) {
            h.iter(ctx, usize::MAX)?;
            h.min_max(ctx)?;
        }
        if ctx.rng.chance(1, 8) {
            h.len_hint(ctx)?;
        }
    }
    h.full(ctx)?;
    h.panicked()
}
/// many keys over many tables
pub fn large<K: BK, V: BV, const LEVELED: bool>(ctx: &mut Ctx) -> R {
    let mut cfg = Cfg::random(ctx, LEVELED);
    cfg.mem = *ctx.rng.pick(&[300, 1000, 4000]);
    if LEVELED {
        cfg.size = *ctx.rng.pick(&[100, 400, 2000]);
        cfg.initial = *ctx.rng.pick(&[1, 2, 4]);
        cfg.growth = *ctx.rng.pick(&[1, 2, 3]);
    }
    let range = ctx.rng.range(300, 1500) as i64;
    let mut h = H::<K, V>::new(ctx, cfg, range, 8, 12)?;
    let mix = Mix { write: 900, join: 4, clear: 0 };
    for _ in 0..4 {
        h.phase(ctx, 600, &mix)?;
        if ctx.rng.chance(1, 2) {
            h.wave(ctx)?;
        }
        h.flush(ctx)?;
        h.lookups()?;
        h.iter(ctx, usize::MAX)?;
    }
    h.full(ctx)?;
    ctx.max("max_tables", tables(&h.case.dir).len() as u64);
    h.panicked()
}

// ---------------------------------------------------------------- C28
pub fn sessions<K: BK, V: BV, const LEVELED: bool>(ctx: &mut Ctx) -> R {
    let cfg = Cfg::random(ctx, LEVELED);
    let (range, kp, vp) = dims(ctx);
    let mut h = H::<K, V>::new(ctx, cfg, range, kp, vp)?;
    if ctx.rng.chance(1, 3) {
        h.reopen(ctx)?;
        if ctx.rng.chance(1, 2) {
            h.full(ctx)?;
        }
    }
    let mix = Mix { write: 800, join: *ctx.rng.pick(&[0u64, 20, 100]), clear: *ctx.rng.pick(&[0u64, 0, 10]) };
    for _ in 0..ctx.rng.range(2, 9) {
        let steps = *ctx.rng.pick(&[0usize, 1, 2, 5, 20, 60, 150]);
        h.phase(ctx, steps, &mix)?;
        match ctx.rng.below(8) {
            0 => h.wave(ctx)?,
            1 => h.clear(ctx)?,
            _ => {}
        }
        h.flush(ctx)?;
        if ctx.rng.chance(1, 6) {
            h.flush(ctx)?;
        }
        h.reopen(ctx)?;
        if ctx.rng.chance(4, 5) {
            match ctx.rng.below(3) {
                0 => h.lookups()?,
                1 => h.iter(ctx, usize::MAX)?,
                _ => h.full(ctx)?,
            }
        }
    }
    h.full(ctx)?;
    h.panicked()
}

// ---------------------------------------------------------------- C29
type Snap = Vec<(PathBuf, Option<Vec<u8>>)>;
struct Image {
    files: Snap,
    flushed: u64,
    begun: u64,
    bg: bool,
}
struct Imager {
    dir: PathBuf,
    images: Vec<Image>,
    seen: HashSet<u64>,
    calls: u64,
}
static IMAGES: [Mutex<Option<Imager>>; shim::SLOTS] = {
    const N: Mutex<Option<Imager>> = Mutex::new(None);
    [N; shim::SLOTS]
};
static FLUSHED: [AtomicU64; shim::SLOTS] = {
    const N: AtomicU64 = AtomicU64::new(0);
    [N; shim::SLOTS]
};
static BEGUN: [AtomicU64; shim::SLOTS] = {
    const N: AtomicU64 = AtomicU64::new(0);
    [N; shim::SLOTS]
};
const MAX_IMAGES: usize = 1500;

fn read_tree(at: &Path, rel: &Path, out: &mut Snap) {
    if let Ok(d) = std::fs::read_dir(at) {
        for e in d.filter_map(|e| e.ok()) {
            let r = rel.join(e.file_name());
            if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                out.push((r.clone(), None));
                read_tree(&e.path(), &r, out);
            } else if let Ok(b) = std::fs::read(e.path()) {
                out.push((r, Some(b)));
            }
        }
    }
}
/// called after every mutating file-system call, with all others held
pub fn take_image(slot: usize) {
    let flushed = FLUSHED[slot].load(SeqCst);
    let mut g = IMAGES[slot].lock().unwrap_or_else(|e| e.into_inner());
    if let Some(im) = g.as_mut() {
        im.calls += 1;
        if im.images.len() >= MAX_IMAGES {
            return;
        }
        let mut files = Vec::new();
        read_tree(&im.dir, Path::new(""), &mut files);
        files.sort();
        let begun = BEGUN[slot].load(SeqCst);
        use std::hash::{Hash, Hasher};
        let mut hs = std::collections::hash_map::DefaultHasher::new();
        (&files, flushed, begun).hash(&mut hs);
        if im.seen.insert(hs.finish()) {
            im.images.push(Image { files, flushed, begun, bg: shim::on_background(slot) });
        }
    }
}
fn write_tree(dir: &Path, s: &Snap) {
    shim::bypass(|| {
        let _ = std::fs::remove_dir_all(dir);
        std::fs::create_dir(dir).expect("image directory");
        for (p, b) in s {
            match b {
                None => std::fs::create_dir(dir.join(p)).expect("image directory"),
                Some(b) => std::fs::write(dir.join(p), b).expect("image file"),
            }
        }
    })
}
fn contents<K: BK, V: BV>(m: &mut Lsm<K, V>) -> Result<Vec<(K, V)>, String> {
    let it = io!(on!(m, m => m.iter()), "iter");
    let mut out = Vec::new();
    for x in it {
        out.push(io!(x, "iter().next()"));
    }
    Ok(out)
}
/// every image taken: opens, equals an allowed state, goes on working
fn judge_images<K: BK, V: BV>(ctx: &mut Ctx, h: &mut H<K, V>, states: &[BTreeMap<i64, u64>], images: &[Image]) -> Result<Option<(usize, usize)>, String> {
    let mut last = None;
    for (n, im) in images.iter().enumerate() {
        write_tree(&h.case.dir, &im.files);
        ctx.count("crash_images_opened", 1);
        if im.bg {
            ctx.count("crash_images_in_background_work", 1);
        }
        let at = format!("killed at image {} of {} (last flush covered {} operations, {} begun{})", n, images.len(), im.flushed, im.begun, if im.bg { ", during compaction" } else { "" });
        let opened = catch_unwind(AssertUnwindSafe(|| h.cfg.open::<K, V>(&h.case.dir)));
        let lsm = match opened {
            Ok(Ok(m)) => m,
            Ok(Err(e)) => return Err(format!("{}: opening fails with {:?}", at, e)),
            Err(_) => return Err(format!("{}: opening panics: {}", at, last_panic())),
        };
        h.lsm = Some(lsm);
        let got = contents(h.m()).map_err(|e| format!("{}: {}", at, e))?;
        let (lo, hi) = (im.flushed as usize, (im.begun as usize).min(states.len() - 1));
        let mut found = None;
        for j in lo..=hi {
            let s = &states[j];
            if s.len() == got.len() && s.iter().zip(&got).all(|((i, v), (k, x))| *k == kmk::<K>(*i, h.kpad) && *x == V::mk(*v, h.vpad)) {
                found = Some(j);
                break;
            }
        }
        let j = match found {
            Some(j) => j,
            None => return Err(format!("{}: the reopened map holds {:?}, which is no state between operations {} and {}: {:?} ... {:?}", at, got, lo, hi, states[lo], states[hi])),
        };
        last = Some((n, j));
        if n % 5 == 0 {
            // and it goes on as a map
            h.model = states[j].clone();
            h.lookups().map_err(|e| format!("{}: {}", at, e))?;
            for _ in 0..ctx.rng.range(1, 6) {
                let i = ctx.rng.us(h.range as usize) as i64;
                let r = if ctx.rng.chance(1, 2) { h.insert(ctx, i) } else { h.remove(ctx, i) };
                r.map_err(|e| format!("{}: {}", at, e))?;
                ctx.ops.pop();
            }
            h.lookups().map_err(|e| format!("{}: {}", at, e))?;
            io!(on!(h.m(), m => m.flush()), "{}: flush", at);
            h.lsm = None;
            h.lsm = Some(io!(h.cfg.open(&h.case.dir), "{}: opening after going on", at));
            h.lookups().map_err(|e| format!("{}: after going on and reopening: {}", at, e))?;
            ctx.count("crash_images_continued", 1);
        }
        // ends compaction threads started meanwhile
        io!(on!(h.m(), m => m.flush()), "{}: flush", at);
        h.lsm = None;
    }
    Ok(last)
}
pub fn crash<K: BK, V: BV, const LEVELED: bool>(ctx: &mut Ctx) -> R {
    let mut cfg = Cfg::random(ctx, LEVELED);
    cfg.mem = *ctx.rng.pick(&[0, 40, 100, 200, 2000]);
    cfg.count = *ctx.rng.pick(&[1, 1, 2, 3]);
    let range = *ctx.rng.pick(&[3i64, 8, 20]);
    let mut h = H::<K, V>::new(ctx, cfg, range, 6, 12)?;
    let slot = h.case.slot;
    let mut base = BTreeMap::new();
    let generations = if ctx.rng.chance(1, 3) { 2 } else { 1 };
    for generation in 0..generations {
        if ctx.rng.chance(1, 3) {
            h.gate = *ctx.rng.pick(&[20, 60, 90]);
            SLOT[slot].allowed.store(0, SeqCst);
        }
        h.model = base.clone();
        h.states = Some(vec![base.clone()]);
        FLUSHED[slot].store(0, SeqCst);
        BEGUN[slot].store(0, SeqCst);
        *IMAGES[slot].lock().unwrap() = Some(Imager { dir: h.case.dir.clone(), images: Vec::new(), seen: HashSet::new(), calls: 0 });
        // a write may have got only some of its bytes into the file when the process dies
        SLOT[slot].trickle.store(if ctx.rng.chance(1, 3) { *ctx.rng.pick(&[3u64, 7, 40, 300]) } else { u64::MAX }, SeqCst);
        if SLOT[slot].trickle.load(SeqCst) != u64::MAX {
            ctx.op("short_transfers", SLOT[slot].trickle.load(SeqCst) as i64, NOARG);
            ctx.count("histories_with_partial_writes", 1);
        }
        SLOT[slot].image.store(true, SeqCst);
        let r = (|| -> R {
            for _ in 0..ctx.rng.range(5, if generation == 0 { 45 } else { 15 }) {
                BEGUN[slot].store(h.states.as_ref().unwrap().len() as u64, SeqCst);
                let i = ctx.rng.us(h.range as usize) as i64;
                let mut flushed = false;
                match ctx.rng.below(24) {
                    0..=11 => h.insert(ctx, i)?,
                    12..=16 => h.remove(ctx, i)?,
                    17 | 18 | 19 => {
                        h.flush(ctx)?;
                        flushed = true;
                    }
                    20 => {
                        if ctx.rng.chance(1, 3) {
                            h.clear(ctx)?
                        }
                    }
                    21 => h.min_max(ctx)?,
                    _ => h.get(ctx, i)?,
                }
                if flushed {
                    FLUSHED[slot].store(h.states.as_ref().unwrap().len() as u64 - 1, SeqCst);
                }
            }
            Ok(())
        })();
        SLOT[slot].allowed.store(u64::MAX, SeqCst);
        r?;
        BEGUN[slot].store(h.states.as_ref().unwrap().len() as u64, SeqCst);
        h.gate = 0;
        h.flush(ctx)?;
        h.full(ctx)?;
        SLOT[slot].image.store(false, SeqCst);
        SLOT[slot].trickle.store(u64::MAX, SeqCst);
        h.lsm = None;
        let im = IMAGES[slot].lock().unwrap().take().unwrap();
        let states = h.states.take().unwrap();
        ctx.count("crash_points", im.calls);
        let mut images = im.images;
        if images.len() > 400 && ctx.tier == Tier::Quick {
            ctx.rng.shuffle(&mut images);
            images.truncate(400);
        }
        judge_images(ctx, &mut h, &states, &images)?;
        if generation + 1 < generations {
            // go on from one of them, killed again
            let n = ctx.rng.us(images.len());
            let im = &images[n];
            judge_images(ctx, &mut h, &states, std::slice::from_ref(im))?;
            write_tree(&h.case.dir, &im.files);
            h.lsm = Some(io!(h.cfg.open(&h.case.dir), "opening"));
            let got = contents(h.m())?;
            base = (im.flushed as usize..states.len())
                .map(|j| &states[j])
                .find(|s| s.len() == got.len() && s.iter().zip(&got).all(|((i, v), (k, x))| *k == kmk::<K>(*i, h.kpad) && *x == V::mk(*v, h.vpad)))
                .cloned()
                .ok_or("the state of an image changed between two openings")?;
            h.next += 1000;
            ctx.op("killed_and_reopened", n as i64, NOARG);
        }
    }
    h.panicked()
}
/// the map is dropped without a flush at any operation, as a process that ends normally would
pub fn dropped<K: BK, V: BV, const LEVELED: bool>(ctx: &mut Ctx) -> R {
    let mut cfg = Cfg::random(ctx, LEVELED);
    cfg.mem = *ctx.rng.pick(&[0, 40, 100, 200]);
    let range = *ctx.rng.pick(&[3i64, 8, 20]);
    let mut h = H::<K, V>::new(ctx, cfg, range, 6, 12)?;
    for _ in 0..ctx.rng.range(2, 7) {
        let mut states = vec![h.model.clone()];
        let mut flushed = 0;
        for _ in 0..ctx.rng.range(0, 40) {
            let i = ctx.rng.us(h.range as usize) as i64;
            match ctx.rng.below(12) {
                0..=6 => h.insert(ctx, i)?,
                7..=9 => h.remove(ctx, i)?,
                10 => {
                    h.flush(ctx)?;
                    flushed = states.len();
                }
                _ => h.get(ctx, i)?,
            }
            states.push(h.model.clone());
        }
        h.reopen(ctx)?;
        let got = contents(h.m())?;
        let found = (flushed..states.len()).find(|j| {
            let s = &states[*j];
            s.len() == got.len() && s.iter().zip(&got).all(|((i, v), (k, x))| *k == kmk::<K>(*i, h.kpad) && *x == V::mk(*v, h.vpad))
        });
        match found {
            Some(j) => h.model = states[j].clone(),
            None => return Err(format!("after dropping and reopening the map holds {:?}, which is no state after the last flush (operation {})", got, flushed)),
        }
        h.next += 1000;
    }
    h.flush(ctx)?;
    h.full(ctx)
}

// ---------------------------------------------------------------- C30
type It<K, V> = Box<extended_collections::lsm_tree::compaction::CompactionIter<K, V>>;
struct Live<K, V> {
    it: It<K, V>,
    exp: Vec<(i64, u64)>,
    at: usize,
    done: bool,
}
impl<K: BK, V: BV> Live<K, V> {
    fn step(&mut self, kpad: usize, vpad: usize) -> R {
        match self.it.next() {
            None => {
                ckeq!(self.at, self.exp.len(), "entries yielded by an iterator that saw {} entries", self.exp.len());
                self.done = true;
            }
            Some(x) => {
                let (k, v) = io!(x, "next of an iterator");
                ck!(self.at < self.exp.len() && !self.done, "an iterator yields {:?} past the {} entries at its creation", k, self.exp.len());
                ckeq!(k, kmk::<K>(self.exp[self.at].0, kpad), "key {} of an iterator", self.at);
                ckeq!(v, V::mk(self.exp[self.at].1, vpad), "value {} of an iterator", self.at);
                self.at += 1;
            }
        }
        Ok(())
    }
}
pub fn snapshots<K: BK, V: BV, const LEVELED: bool>(ctx: &mut Ctx) -> R {
    let mut cfg = Cfg::random(ctx, LEVELED);
    if !LEVELED {
        // every table in one bucket: compaction has work as soon as there are enough tables
        cfg.size = 1 << 30;
    }
    let (range, kp, vp) = dims(ctx);
    let mut h = H::<K, V>::new(ctx, cfg, range.min(150), kp, vp)?;
    let slot = h.slot();
    let n = ctx.rng.range(5, 120) as usize;
    h.phase(ctx, n, &USUAL)?;
    for _ in 0..ctx.rng.range(1, 5) {
        let mut live: Vec<Live<K, V>> = Vec::new();
        let steps = ctx.rng.range(5, 150);
        let bg0 = slot.quiet_bg.load(SeqCst);
        let rm0 = slot.quiet_removes.load(SeqCst);
        for s in 0..steps {
            if live.len() < 3 && (s == 0 || ctx.rng.chance(1, 12)) {
                ctx.op("iter", live.len() as i64, NOARG);
                let exp = h.model.iter().map(|(a, b)| (*a, *b)).collect();
                let it: It<K, V> = io!(on!(h.m(), m => m.iter()), "iter");
                live.push(Live { it, exp, at: 0, done: false });
                slot.quiet.fetch_add(1, SeqCst);
                ctx.count("iterators", 1);
            }
            let i = ctx.rng.us(h.range as usize) as i64;
            match ctx.rng.below(20) {
                0..=6 => h.insert(ctx, i)?,
                7..=9 => h.remove(ctx, i)?,
                10 => h.get(ctx, i)?,
                11 => h.flush(ctx)?,
                12 => match ctx.rng.below(3) {
                    0 => h.len(ctx)?,
                    1 => h.min_max(ctx)?,
                    _ => h.iter(ctx, usize::MAX)?,
                },
                13..=17 if !live.is_empty() => {
                    let x = ctx.rng.us(live.len());
                    ctx.op("next", x as i64, NOARG);
                    for _ in 0..ctx.rng.range(1, 5) {
                        if !live[x].done {
                            live[x].step(h.kpad, h.vpad)?;
                            ctx.count("iterator_steps_between_operations", 1);
                        }
                    }
                }
                18 if live.len() > 1 => {
                    // dropped anywhere
                    let x = ctx.rng.us(live.len());
                    ctx.op("drop_iter", x as i64, NOARG);
                    slot.quiet.fetch_sub(1, SeqCst);
                    live.swap_remove(x);
                }
                _ => {}
            }
            ckeq!(slot.quiet_bg.load(SeqCst) - bg0, 0, "file operations of compaction threads while iterators are alive");
            ckeq!(slot.quiet_removes.load(SeqCst) - rm0, 0, "files removed while iterators are alive");
        }
        // the rest of some of them
        let finish = ctx.rng.below(3);
        for l in live.iter_mut() {
            while finish > 0 && !l.done {
                l.step(h.kpad, h.vpad)?;
            }
        }
        ckeq!(slot.quiet_bg.load(SeqCst) - bg0, 0, "file operations of compaction threads while iterators are alive");
        ckeq!(slot.quiet_removes.load(SeqCst) - rm0, 0, "files removed while iterators are alive");
        slot.quiet.store(0, SeqCst);
        if ctx.rng.chance(1, 4) && h.lsm.is_some() && finish == 0 {
            // an iterator outlives a partial consumption and is dropped in the middle
            let n = live.len();
            live.truncate(n / 2);
        }
        drop(live);
        // compaction goes on
        let before = slot.bg_ops.load(SeqCst);
        let rounds = h.cfg.count + 2;
        for r in 0..rounds {
            let i = (r as i64 * 7) % h.range;
            h.insert(ctx, i)?;
            h.flush(ctx)?;
        }
        ck!(slot.bg_ops.load(SeqCst) > before, "no compaction in {} flushes after the last iterator was dropped (max_sstable_count {})", rounds, h.cfg.count);
        h.lookups()?;
        let n = ctx.rng.range(0, 60) as usize;
        h.phase(ctx, n, &USUAL)?;
    }
    h.full(ctx)?;
    h.panicked()
}

// ---------------------------------------------------------------- C31
pub fn schedules<K: BK, V: BV, const LEVELED: bool>(ctx: &mut Ctx) -> R {
    let mut cfg = Cfg::random(ctx, LEVELED);
    cfg.mem = *ctx.rng.pick(&[0, 40, 80, 150, 300]);
    cfg.count = *ctx.rng.pick(&[1, 1, 2, 3]);
    let range = *ctx.rng.pick(&[4i64, 12, 30, 80]);
    let mut h = H::<K, V>::new(ctx, cfg, range, 8, 14)?;
    h.gate = *ctx.rng.pick(&[3u64, 10, 30, 60, 100]);
    h.slot().allowed.store(ctx.rng.range(0, 30), SeqCst);
    let mix = Mix { write: *ctx.rng.pick(&[500u64, 750, 900]), join: *ctx.rng.pick(&[4u64, 15, 40]), clear: *ctx.rng.pick(&[0u64, 0, 4]) };
    for _ in 0..ctx.rng.range(1, 5) {
        let n = ctx.rng.range(10, 90) as usize;
        h.phase(ctx, n, &mix)?;
        h.lookups()?;
        if ctx.rng.chance(1, 3) {
            h.wave(ctx)?;
            h.lookups()?;
        }
        if ctx.rng.chance(1, 4) {
            // dropped with the compaction under way, the rest reopened
            h.flush(ctx)?;
            h.reopen(ctx)?;
        }
    }
    h.slot().allowed.store(u64::MAX, SeqCst);
    h.gate = 0;
    h.full(ctx)?;
    ctx.count("background_file_operations", h.slot().bg_ops.load(SeqCst));
    h.panicked()
}
/// unheld threads: the foreground pauses at random instead
pub fn free_running<K: BK, V: BV, const LEVELED: bool>(ctx: &mut Ctx) -> R {
    let mut cfg = Cfg::random(ctx, LEVELED);
    cfg.mem = *ctx.rng.pick(&[0, 40, 150, 400]);
    cfg.count = *ctx.rng.pick(&[1, 2, 3]);
    let mut h = H::<K, V>::new(ctx, cfg, 40, 8, 14)?;
    let pause = *ctx.rng.pick(&[0u64, 20, 100, 400]);
    for _ in 0..ctx.rng.range(40, 300) {
        let i = ctx.rng.us(h.range as usize) as i64;
        match ctx.rng.below(10) {
            0..=5 => h.insert(ctx, i)?,
            6 | 7 => h.remove(ctx, i)?,
            _ => h.get(ctx, i)?,
        }
        if pause > 0 && ctx.rng.chance(1, 6) {
            std::thread::sleep(std::time::Duration::from_micros(ctx.rng.below(pause)));
        }
    }
    h.lookups()?;
    h.full(ctx)?;
    h.panicked()
}
/// both threads stand still between instructions now and then
pub fn stepped<K: BK, V: BV, const LEVELED: bool>(ctx: &mut Ctx) -> R {
    let mut cfg = Cfg::random(ctx, LEVELED);
    cfg.mem = *ctx.rng.pick(&[0, 0, 40, 150]);
    cfg.count = *ctx.rng.pick(&[1, 1, 2]);
    let range = *ctx.rng.pick(&[3i64, 8, 30]);
    let mut h = H::<K, V>::new(ctx, cfg, range, 8, 14)?;
    let s = h.slot();
    s.step_seed.store(ctx.rng.u(), SeqCst);
    let one_in = *ctx.rng.pick(&[0, 0, 0, 2, 16]);
    s.step_one_in.store(one_in, SeqCst);
    s.step_length.store(if one_in == 0 { 12_000 } else { *ctx.rng.pick(&[300, 1000, 3000, 10_000]) }, SeqCst);
    let (fg, bg) = *ctx.rng.pick(&[(0u64, 30u64), (0, 100), (0, 100), (10, 30), (30, 0), (10, 20)]);
    let join = *ctx.rng.pick(&[0u64, 5, 15]);
    s.step_fg.store(fg, SeqCst);
    s.step_bg.store(bg, SeqCst);
    let again = *ctx.rng.pick(&[0u64, 30, 80]);
    let mut recent = [0i64; 4];
    for n in 0..ctx.rng.us(100) + 20 {
        let i = ctx.rng.us(h.range as usize) as i64;
        recent[n % 4] = i;
        match ctx.rng.below(100) {
            x if x < join => match ctx.rng.below(8) {
                0 => h.clear(ctx)?,
                1 => h.iter(ctx, usize::MAX)?,
                2 => h.len(ctx)?,
                3 => h.min_max(ctx)?,
                _ => h.flush(ctx)?,
            },
            0..=64 => h.insert(ctx, i)?,
            65..=79 => h.remove(ctx, i)?,
            80..=84 => h.len_hint(ctx)?,
            _ => h.get(ctx, i)?,
        }
        if ctx.rng.below(100) < again {
            let i = *ctx.rng.pick(&recent);
            h.get(ctx, i)?;
        }
        crate::step::stop();
        s.fg_ops.fetch_add(1, SeqCst);
    }
    s.step_fg.store(0, SeqCst);
    h.lookups()?;
    s.step_bg.store(0, SeqCst);
    h.full(ctx)?;
    ctx.count("instructions_stepped", s.step_stats.steps.load(SeqCst));
    ctx.count("synchronizing_instructions_stepped", s.step_stats.syncs.load(SeqCst));
    ctx.count("delays_between_instructions", s.step_stats.pauses.load(SeqCst).min(300));
    h.panicked()
}

// ---------------------------------------------------------------- C32
type StMeta = (u64, usize, u64, f64, f64, Vec<PathBuf>);
type LvMeta<K> = (u64, usize, u64, usize, u64, Vec<PathBuf>, Vec<BTreeMap<K, PathBuf>>);
/// the SSTables that metadata.dat names
fn referenced<K: BK + DeserializeOwned>(dir: &Path, leveled: bool) -> Option<Vec<PathBuf>> {
    let b = shim::bypass(|| std::fs::read(dir.join("metadata.dat"))).ok()?;
    if leveled {
        let m: LvMeta<K> = bincode::deserialize(&b).ok()?;
        let mut v = m.5;
        for l in m.6 {
            v.extend(l.into_values());
        }
        Some(v)
    } else {
        let m: StMeta = bincode::deserialize(&b).ok()?;
        Some(m.5)
    }
}
fn accounted<K: BK, V: BV>(ctx: &mut Ctx, h: &H<K, V>) -> R {
    let have: BTreeSet<PathBuf> = tables(&h.case.dir).into_iter().collect();
    ctx.count("directory_comparisons", 1);
    ctx.max("max_tables", have.len() as u64);
    match referenced::<K>(&h.case.dir, h.cfg.leveled) {
        Some(v) => {
            let refs: BTreeSet<PathBuf> = v.iter().cloned().collect();
            ckeq!(refs.len(), v.len(), "SSTables named by the metadata, each once");
            let orphans: Vec<_> = have.difference(&refs).collect();
            ck!(orphans.is_empty(), "after a flush {} of {} SSTable directories are not named by the metadata: {:?}", orphans.len(), have.len(), orphans);
            let missing: Vec<_> = refs.difference(&have).collect();
            ck!(missing.is_empty(), "after a flush the metadata names missing SSTables {:?}", missing);
        }
        None => {
            // another format: at least every directory has to be named somewhere
            ctx.count("metadata_not_decoded", 1);
            let b = shim::bypass(|| std::fs::read(h.case.dir.join("metadata.dat"))).unwrap_or_default();
            for t in &have {
                let n = t.file_name().unwrap().to_string_lossy().into_owned().into_bytes();
                ck!(b.windows(n.len()).any(|w| w == &n[..]), "after a flush the directory {:?} is not named by the metadata", t);
            }
        }
    }
    Ok(())
}
pub fn space<K: BK, V: BV, const LEVELED: bool>(ctx: &mut Ctx) -> R {
    let cfg = Cfg::random(ctx, LEVELED);
    let (range, kp, vp) = dims(ctx);
    let mut h = H::<K, V>::new(ctx, cfg, range.min(150), kp, vp)?;
    if ctx.rng.chance(1, 3) {
        h.gate = *ctx.rng.pick(&[10u64, 50, 100]);
    }
    let mix = Mix { write: 850, join: *ctx.rng.pick(&[5u64, 40]), clear: *ctx.rng.pick(&[0u64, 0, 6]) };
    for _ in 0..ctx.rng.range(3, 12) {
        let n = ctx.rng.range(1, 60) as usize;
        h.phase(ctx, n, &mix)?;
        if ctx.rng.chance(1, 5) {
            h.wave(ctx)?;
        }
        h.flush(ctx)?;
        accounted(ctx, &h)?;
        if ctx.rng.chance(1, 6) {
            h.clear(ctx)?;
            ckeq!(tables(&h.case.dir).len(), 0, "SSTable directories after clear");
            accounted(ctx, &h)?;
        }
        if ctx.rng.chance(1, 6) {
            h.flush(ctx)?;
            h.reopen(ctx)?;
            accounted(ctx, &h)?;
        }
    }
    h.gate = 0;
    h.slot().allowed.store(u64::MAX, SeqCst);
    h.full(ctx)?;
    accounted(ctx, &h)?;
    h.clear(ctx)?;
    ckeq!(tables(&h.case.dir).len(), 0, "SSTable directories after clear");
    h.panicked()
}
/// the same keys overwritten or deleted again and again
pub fn churn<K: BK, V: BV, const LEVELED: bool>(ctx: &mut Ctx) -> R {
    let mut cfg = Cfg::random(ctx, LEVELED);
    cfg.mem = 1 << 20;
    // buckets that hold tables of about the same size, as the strategy means them
    cfg.low = *ctx.rng.pick(&[0.1, 0.3, 0.5]);
    cfg.high = *ctx.rng.pick(&[1.5, 2.0, 3.0]);
    let range = *ctx.rng.pick(&[3i64, 10, 30]);
    let mut h = H::<K, V>::new(ctx, cfg, range, 8, 16)?;
    let style = ctx.rng.below(5);
    let rounds = 160;
    let (mut t, mut b) = ([0usize; 2], [0u64; 2]);
    for r in 0..rounds {
        match style {
            // everything overwritten
            0 => {
                for i in 0..h.range {
                    h.insert(ctx, i)?;
                }
            }
            // some of it
            1 => {
                for _ in 0..ctx.rng.range(1, h.range as u64) {
                    let i = ctx.rng.us(h.range as usize) as i64;
                    h.insert(ctx, i)?;
                }
            }
            // written and deleted alternately
            2 => {
                for i in 0..h.range {
                    if r % 2 == 0 {
                        h.insert(ctx, i)?;
                    } else {
                        h.remove(ctx, i)?;
                    }
                }
            }
            // deleted again and again
            3 => {
                for i in 0..h.range {
                    if r == 0 {
                        h.insert(ctx, i)?;
                    } else {
                        h.remove(ctx, i)?;
                    }
                }
            }
            _ => {
                for _ in 0..ctx.rng.range(1, h.range as u64) {
                    let i = ctx.rng.us(h.range as usize) as i64;
                    if ctx.rng.chance(1, 2) {
                        h.insert(ctx, i)?;
                    } else {
                        h.remove(ctx, i)?;
                    }
                }
            }
        }
        h.flush(ctx)?;
        let half = (r * 2 / rounds) as usize;
        t[half] = t[half].max(tables(&h.case.dir).len());
        b[half] = b[half].max(bytes_in(&h.case.dir));
    }
    ctx.count("churn_rounds", rounds as u64);
    ctx.max("max_churn_tables", t[1] as u64);
    ck!(t[1] <= t[0] + t[0] / 2 + 3, "the number of SSTables keeps growing while the same {} keys are rewritten: at most {} in rounds 1-{}, {} in the next as many", range, t[0], rounds / 2, t[1]);
    ck!(b[1] <= b[0] + b[0] / 2 + 2000, "disk usage keeps growing while the same {} keys are rewritten: at most {} bytes in rounds 1-{}, {} in the next as many", range, b[0], rounds / 2, b[1]);
    h.full(ctx)?;
    h.panicked()
}

// ---------------------------------------------------------------- C33
pub fn one_table<K: BK, V: BV, const LEVELED: bool>(ctx: &mut Ctx) -> R {
    let n = match ctx.rng.below(12) {
        0 => ctx.rng.range(1, 3),
        1 | 2 | 3 => {
            // around perfect squares
            let q = ctx.rng.range(1, 22);
            (q * q + ctx.rng.below(3)).max(2) - 1
        }
        4 | 5 => ctx.rng.range(1, 40),
        6 | 7 | 8 => ctx.rng.range(1, 300),
        9 => ctx.rng.range(300, 1200),
        // around products used as hints by merging
        _ => ctx.rng.range(1, 25) * ctx.rng.range(1, 25),
    };
    table_of::<K, V, LEVELED>(ctx, n as i64, None)
}
pub fn big_table<K: BK, V: BV, const LEVELED: bool>(ctx: &mut Ctx) -> R {
    let n = ctx.rng.range(2000, 9000) as i64;
    table_of::<K, V, LEVELED>(ctx, n, None)
}
pub fn huge_table<K: BK, V: BV, const LEVELED: bool>(ctx: &mut Ctx) -> R {
    let n = ctx.rng.range(66_000, 80_000) as i64;
    table_of::<K, V, LEVELED>(ctx, n, None)
}
/// hundreds of tables, none of them merged
pub fn many_tables<K: BK, V: BV, const LEVELED: bool>(ctx: &mut Ctx) -> R {
    let mut cfg = Cfg::random(ctx, LEVELED);
    cfg.count = 1 << 20;
    cfg.mem = *ctx.rng.pick(&[0, 40, 100]);
    let range = *ctx.rng.pick(&[30i64, 200, 1000]);
    let mut h = H::<K, V>::new(ctx, cfg, range, 6, 12)?;
    for _ in 0..ctx.rng.range(300, 700) {
        let i = ctx.rng.us(range as usize) as i64;
        if ctx.rng.chance(1, 4) {
            h.remove(ctx, i)?;
        } else {
            h.insert(ctx, i)?;
        }
    }
    h.flush(ctx)?;
    ctx.max("max_tables", tables(&h.case.dir).len() as u64);
    h.lookups()?;
    h.iter(ctx, usize::MAX)?;
    h.reopen(ctx)?;
    h.lookups()?;
    h.full(ctx)?;
    h.panicked()
}
pub fn big_values<K: BK, V: BV, const LEVELED: bool>(ctx: &mut Ctx) -> R {
    let n = ctx.rng.range(1, 8) as i64;
    let len = *ctx.rng.pick(&[4095usize, 4096, 8192, 65535, 65536, 100_000, 400_000]);
    table_of::<K, V, LEVELED>(ctx, n, Some(len))
}
fn table_of<K: BK, V: BV, const LEVELED: bool>(ctx: &mut Ctx, n: i64, vlen: Option<usize>) -> R {
    let stride = *ctx.rng.pick(&[1i64, 2, 2, 3, 10]);
    let base = ctx.rng.range(0, 3) as i64;
    let stride = if (n + 1) * stride + base >= K::MAX { 1 } else { stride };
    let n = n.min(K::MAX - base - 1).max(1);
    let mut cfg = Cfg::random(ctx, LEVELED);
    cfg.mem = 1 << 40;
    cfg.count = 1 << 20;
    // one table directly, or the result of merging two
    let merged = ctx.rng.chance(1, 3);
    if merged {
        cfg.count = 1;
        cfg.size = if LEVELED { *ctx.rng.pick(&[1u64 << 40, 1 << 40, 400, 3000]) } else { 1 << 40 };
    }
    let range = (base + n * stride + 2).min(K::MAX);
    let vp = vlen.unwrap_or(*ctx.rng.pick(&[0usize, 1, 8, 40, 300]));
    let kp = *ctx.rng.pick(&[5usize, 9, 40]);
    let mut h = H::<K, V>::new(ctx, cfg, range, kp, vp)?;
    let mut keys: Vec<i64> = (0..n).map(|i| base + i * stride).filter(|k| *k < K::MAX).collect();
    let n = keys.len();
    ctx.op("table", n as i64, stride);
    if ctx.rng.chance(1, 2) {
        ctx.rng.shuffle(&mut keys);
    }
    let dead = *ctx.rng.pick(&[0u64, 0, 10, 50, 100]);
    let (cut, over) = if merged { (ctx.rng.us(n + 1), ctx.rng.us(4) * n / 8) } else { (n, 0) };
    let (a, z) = (keys[..cut].to_vec(), keys[cut.saturating_sub(over)..].to_vec());
    let halves: Vec<Vec<i64>> = if merged { vec![a, z] } else { vec![a] };
    for part in halves {
        for k in part {
            h.insert(ctx, k)?;
            ctx.ops.pop();
            if ctx.rng.below(100) < dead {
                h.remove(ctx, k)?;
                ctx.ops.pop();
            }
        }
        h.flush(ctx)?;
    }
    ctx.op("tombstones_percent", dead as i64, merged as i64);
    ctx.max("max_entries", n as u64);
    ctx.count("keys", n as u64);
    for round in 0..2 {
        // every key of the table, its neighbours, and keys outside of its range
        let many: Vec<i64> = if n <= 2000 { (0..range).collect() } else { (0..range).filter(|i| *i < 300 || *i + 300 > range || i % 7 == (ctx.idx % 7) as i64).collect() };
        for i in many {
            h.look(i)?;
            ctx.count("lookups", 1);
        }
        if vlen.is_none() || round == 0 {
            h.iter(ctx, usize::MAX)?;
            h.min_max(ctx)?;
            h.len(ctx)?;
        }
        if round == 0 {
            h.reopen(ctx)?;
        }
    }
    h.panicked()
}

// ---------------------------------------------------------------- C34
struct F<K: BK, V: BV> {
    h: H<K, V>,
    /// what a read of each key may return
    may: BTreeMap<i64, Vec<Option<u64>>>,
    /// what a read of each key may return once the directory is opened anew: what the last
    /// successful flush left, or anything written since
    dur: BTreeMap<i64, Vec<Option<u64>>>,
}
impl<K: BK, V: BV> F<K, V> {
    fn set(&mut self, i: i64, v: Option<u64>, ok: bool) {
        let e = self.may.entry(i).or_insert_with(|| vec![None]);
        if ok {
            *e = vec![v];
        } else if !e.contains(&v) {
            e.push(v);
        }
        let e = self.dur.entry(i).or_insert_with(|| vec![None]);
        if !e.contains(&v) {
            e.push(v);
        }
    }
    /// the map is dropped as it is and its directory opened again
    fn drop_and_open(&mut self, ctx: &mut Ctx, what: &str) -> R {
        ctx.count("reopened_without_further_writes", 1);
        self.h.reopen(ctx)?;
        self.may = self.dur.clone();
        self.settle(ctx, what)
    }
    fn of(&self, i: i64) -> Vec<Option<u64>> {
        self.may.get(&i).cloned().unwrap_or_else(|| vec![None])
    }
    /// one operation; Ok(true) if it succeeded
    fn op(&mut self, ctx: &mut Ctx, kind: u64, i: i64) -> Result<bool, String> {
        let (kpad, vpad) = (self.h.kpad, self.h.vpad);
        match kind {
            0 => {
                let v = self.h.fresh(ctx);
                ctx.op("insert", i, v as i64);
                let (k, x) = (self.h.k(i), self.h.v(v));
                let r = guard(&format!("insert({})", i), || on!(self.h.m(), m => m.insert(k, x)))?;
                self.set(i, Some(v), r.is_ok());
                Ok(r.is_ok())
            }
            1 => {
                ctx.op("remove", i, NOARG);
                let k = self.h.k(i);
                let r = guard(&format!("remove({})", i), || on!(self.h.m(), m => m.remove(k)))?;
                self.set(i, None, r.is_ok());
                Ok(r.is_ok())
            }
            2 => {
                ctx.op("get", i, NOARG);
                let k = self.h.k(i);
                let r = guard(&format!("get({})", i), || on!(self.h.m(), m => m.get(k.q())))?;
                if let Ok(got) = r {
                    let may = self.of(i);
                    ck!(may.iter().any(|o| o.map(|v| V::mk(v, vpad)) == got), "get({}) returns {:?}, acknowledged is {:?}", i, got, may);
                    return Ok(true);
                }
                Ok(false)
            }
            3 => {
                ctx.op("flush", NOARG, NOARG);
                let r = guard("flush", || on!(self.h.m(), m => m.flush()))?;
                if r.is_ok() {
                    self.dur = self.may.clone();
                }
                Ok(r.is_ok())
            }
            4 => {
                ctx.op("iter", NOARG, NOARG);
                // what is yielded up to the first error, and what an iterator that is asked again yields then
                let r = guard("iter", || -> Result<(Vec<(K, V)>, Vec<(K, V)>, bool), ()> {
                    let mut it = on!(self.h.m(), m => m.iter()).map_err(|_| ())?;
                    let (mut out, mut after, mut failed, mut again) = (Vec::new(), Vec::new(), false, 0);
                    while let Some(x) = it.next() {
                        match x {
                            Ok(x) if failed => after.push(x),
                            Ok(x) => out.push(x),
                            Err(_) => failed = true,
                        }
                        again += failed as u32;
                        if again > 100 {
                            break;
                        }
                    }
                    Ok((out, after, failed))
                })?;
                if let Ok((mut got, after, failed)) = r {
                    if !failed {
                        self.judge_contents(&got, kpad, vpad)?;
                        return Ok(true);
                    }
                    ctx.count("iterators_that_failed_on_the_way", 1);
                    ctx.count("entries_yielded_after_an_error", after.len() as u64);
                    got.extend(after);
                    ck!(got.windows(2).all(|w| w[0].0 < w[1].0), "an iterator that reported an error yields keys that are not ascending: {:?}", got);
                    for (k, x) in &got {
                        let may = self.may.iter().find(|(i, _)| kmk::<K>(**i, kpad) == *k).map(|(_, o)| o);
                        ck!(
                            may.map_or(false, |m| m.iter().any(|o| o.map(|v| V::mk(v, vpad)).as_ref() == Some(x))),
                            "an iterator that reported an error yields {:?} for key {:?}, acknowledged is {:?}",
                            x, k, may
                        );
                    }
                }
                Ok(false)
            }
            5 => {
                ctx.op("len", NOARG, NOARG);
                let r = guard("len", || on!(self.h.m(), m => m.len()))?;
                let lo = self.may.values().filter(|o| o.iter().all(|x| x.is_some())).count();
                let hi = self.may.values().filter(|o| o.iter().any(|x| x.is_some())).count();
                if let Ok(n) = r {
                    ck!(lo <= n && n <= hi, "len returns {}, acknowledged are between {} and {} entries", n, lo, hi);
                    return Ok(true);
                }
                Ok(false)
            }
            6 => {
                ctx.op("min_max", NOARG, NOARG);
                for max in [false, true] {
                    let r = guard("min/max", || on!(self.h.m(), m => if max { m.max() } else { m.min() }))?;
                    let got = match r {
                        Ok(x) => x,
                        Err(_) => return Ok(false),
                    };
                    let name = if max { "max" } else { "min" };
                    let sure = |o: &Vec<Option<u64>>| o.iter().all(|x| x.is_some());
                    let maybe = |o: &Vec<Option<u64>>| o.iter().any(|x| x.is_some());
                    match got {
                        None => ck!(!self.may.values().any(sure), "{} returns None although {:?} are acknowledged", name, self.may.iter().filter(|(_, o)| sure(o)).collect::<Vec<_>>()),
                        Some(k) => {
                            let at = self.may.iter().find(|(i, _)| kmk::<K>(**i, kpad) == k);
                            ck!(at.map_or(false, |(_, o)| maybe(o)), "{} returns {:?}, which is not in the map: {:?}", name, k, at);
                            let i = *at.unwrap().0;
                            let beyond = if max { self.may.range(i + 1..).find(|(_, o)| sure(o)) } else { self.may.range(..i).find(|(_, o)| sure(o)) };
                            ck!(beyond.is_none(), "{} returns {:?} although {:?} is acknowledged", name, k, beyond);
                        }
                    }
                }
                Ok(true)
            }
            7 => {
                ctx.op("len_hint", NOARG, NOARG);
                let r = guard("len_hint", || on!(self.h.m(), m => m.len_hint()))?;
                let lo = self.may.values().filter(|o| o.iter().all(|x| x.is_some())).count();
                if let Ok(n) = r {
                    ck!(lo <= n, "len_hint returns {} for at least {} entries", n, lo);
                    return Ok(true);
                }
                Ok(false)
            }
            _ => {
                ctx.op("clear", NOARG, NOARG);
                let r = guard("clear", || on!(self.h.m(), m => m.clear()))?;
                let keys: Vec<i64> = self.may.keys().cloned().collect();
                for i in keys {
                    self.set(i, None, r.is_ok());
                }
                if r.is_ok() {
                    self.dur = self.may.clone();
                }
                Ok(r.is_ok())
            }
        }
    }
    fn judge_contents(&self, got: &[(K, V)], kpad: usize, vpad: usize) -> R {
        let mut n = 0;
        for (i, may) in &self.may {
            let k = kmk::<K>(*i, kpad);
            let here = n < got.len() && got[n].0 == k;
            let val = if here { Some(&got[n].1) } else { None };
            ck!(may.iter().any(|o| o.map(|v| V::mk(v, vpad)).as_ref() == val), "iter has {:?} for key {:?}, acknowledged is {:?}", val, k, may);
            if here {
                n += 1;
            }
        }
        ck!(n == got.len(), "iter yields {:?}, which is out of order or was never inserted", got.get(n));
        Ok(())
    }
    fn settle(&mut self, ctx: &mut Ctx, what: &str) -> R {
        for i in 0..self.h.range {
            ck!(self.op(ctx, 2, i)?, "get({}) still fails {}", i, what);
            ctx.ops.pop();
        }
        for kind in [4, 5, 6, 7] {
            ck!(self.op(ctx, kind, 0)?, "a read still fails {}", what);
        }
        Ok(())
    }
}
/// from here on, reads and writes transfer at most a few bytes at a time
fn trickle(ctx: &mut Ctx, s: &shim::Slot) {
    let n = *ctx.rng.pick(&[1u64, 7, 100, 1000, 5000]);
    s.trickle.store(n, SeqCst);
    ctx.op("short_transfers", n as i64, NOARG);
    ctx.count("histories_with_short_transfers", 1);
}
pub fn arm(ctx: &mut Ctx, s: &shim::Slot) {
    let kinds = *ctx.rng.pick(&[shim::K_ALL, shim::K_ALL, shim::K_OPEN, shim::K_WRITE, shim::K_READ, shim::K_MKDIR, shim::K_REMOVE, shim::K_WRITE | shim::K_OPEN]);
    let who = *ctx.rng.pick(&[1u32, 2, 3, 3]);
    let from = match ctx.rng.below(4) {
        0 => 0,
        1 => ctx.rng.below(6),
        2 => ctx.rng.below(30),
        _ => ctx.rng.below(120),
    };
    let n = *ctx.rng.pick(&[1u64, 1, 1, 2, 3, 8, 1 << 40]);
    let e = *ctx.rng.pick(&[libc::ENOSPC, libc::EIO, libc::EIO, libc::EMFILE, libc::EINTR]);
    s.fail_errno.store(e, SeqCst);
    s.fail_who.store(who, SeqCst);
    s.fail_from.store(from, SeqCst);
    s.fail_n.store(if e == libc::EINTR { n.min(3) } else { n }, SeqCst);
    s.matched.store(0, SeqCst);
    s.failed.store(0, SeqCst);
    s.fail_short.store(ctx.rng.chance(1, 5) && e != libc::EINTR, SeqCst);
    s.fail_kinds.store(kinds, SeqCst);
    ctx.op("fault_kinds", kinds as i64, who as i64);
    ctx.op("fault_calls", from as i64, n as i64);
    ctx.op("fault_errno", e as i64, NOARG);
}
pub fn faults<K: BK, V: BV, const LEVELED: bool>(ctx: &mut Ctx) -> R {
    let mut cfg = Cfg::random(ctx, LEVELED);
    cfg.mem = *ctx.rng.pick(&[0, 40, 100, 200, 600]);
    cfg.count = *ctx.rng.pick(&[1, 1, 2, 3]);
    if !LEVELED && ctx.rng.chance(1, 2) {
        cfg.size = 1 << 30;
    }
    let range = *ctx.rng.pick(&[3i64, 8, 20, 50]);
    let vpad = *ctx.rng.pick(&[12, 12, 12, 12, 12, 700, 9000]);
    let h = H::<K, V>::new(ctx, cfg, range, 6, vpad)?;
    let s = h.slot();
    let mut f = F { h, may: BTreeMap::new(), dur: BTreeMap::new() };
    for i in 0..f.h.range {
        f.may.insert(i, vec![None]);
        f.dur.insert(i, vec![None]);
    }
    if ctx.rng.chance(1, 3) {
        trickle(ctx, s);
    }
    for _ in 0..ctx.rng.range(0, 60) {
        let i = ctx.rng.us(range as usize) as i64;
        let kind = *ctx.rng.pick(&[0u64, 0, 0, 0, 1, 1, 2, 3]);
        ck!(f.op(ctx, kind, i)?, "an operation fails without a fault");
    }
    for _ in 0..ctx.rng.range(1, 4) {
        arm(ctx, s);
        for _ in 0..ctx.rng.range(1, 40) {
            let i = ctx.rng.us(range as usize) as i64;
            let kind = *ctx.rng.pick(&[0u64, 0, 0, 0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 7, 8]);
            if kind == 8 && !ctx.rng.chance(1, 4) {
                continue;
            }
            let ok = f.op(ctx, kind, i)?;
            ctx.count(if ok { "operations_succeeding_with_faults_armed" } else { "operations_failing" }, 1);
        }
        s.fail_kinds.store(0, SeqCst);
        ctx.count("failed_file_system_calls", s.failed.load(SeqCst));
        ctx.op("fault_over", s.failed.load(SeqCst) as i64, NOARG);
        f.h.panicked()?;
        if ctx.rng.chance(1, 3) {
            if ctx.rng.chance(1, 2) {
                ck!(f.op(ctx, 3, 0)?, "flush still fails after the fault is gone");
            }
            f.drop_and_open(ctx, "after the fault is gone and the map is reopened as it was left")?;
        }
        // the compaction thread ends before the state is judged
        ck!(f.op(ctx, 3, 0)?, "flush still fails after the fault is gone");
        f.settle(ctx, "after the fault is gone")?;
        // writes work again, and are there after reopening
        for _ in 0..ctx.rng.range(1, 12) {
            let i = ctx.rng.us(range as usize) as i64;
            let kind = *ctx.rng.pick(&[0u64, 0, 1]);
            ck!(f.op(ctx, kind, i)?, "a write still fails after the fault is gone");
        }
        if LEVELED || f.h.cfg.size == 1 << 30 {
            // compaction goes on
            let before = s.bg_ops.load(SeqCst);
            let rounds = f.h.cfg.count + 3;
            for r in 0..rounds {
                ck!(f.op(ctx, 0, r as i64 % range)?, "an insert still fails after the fault is gone");
                ck!(f.op(ctx, 3, 0)?, "a flush still fails after the fault is gone");
            }
            ck!(s.bg_ops.load(SeqCst) > before, "no compaction in {} flushes after the fault is gone (max_sstable_count {})", rounds, f.h.cfg.count);
        }
        if ctx.rng.chance(1, 2) {
            ck!(f.op(ctx, 0, 0)?, "an insert still fails after the fault is gone");
            ck!(f.op(ctx, 3, 0)?, "a flush still fails after the fault is gone");
            f.h.reopen(ctx)?;
            f.settle(ctx, "after reopening")?;
        }
    }
    f.h.panicked()
}
/// opening with failing calls: an error or the contents, and the contents afterwards
pub fn open_faults<K: BK, V: BV, const LEVELED: bool>(ctx: &mut Ctx) -> R {
    let cfg = Cfg::random(ctx, LEVELED);
    let mut h = H::<K, V>::new(ctx, cfg, 20, 6, 12)?;
    let n = ctx.rng.range(0, 80) as usize;
    h.phase(ctx, n, &USUAL)?;
    h.flush(ctx)?;
    let s = h.slot();
    for _ in 0..6 {
        h.lsm = None;
        arm(ctx, s);
        s.fail_from.store(ctx.rng.below(12), SeqCst);
        let r = guard("open", || h.cfg.open::<K, V>(&h.case.dir))?;
        let got = match r {
            Ok(mut m) => guard("iter", || contents(&mut m))?.ok(),
            Err(_) => None,
        };
        s.fail_kinds.store(0, SeqCst);
        ctx.count("failed_file_system_calls", s.failed.load(SeqCst));
        if let Some(got) = got {
            ckeq!(got.len(), h.model.len(), "entries read after opening with failing calls");
        }
        h.lsm = Some(io!(h.cfg.open(&h.case.dir), "opening after the fault is gone"));
        h.full(ctx)?;
    }
    Ok(())
}
