//! Case runner: deterministic per-case seeds, worker pool, panic capture, crash attribution slots,
//! CPU-time watchdog, counting allocator and result file.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ckeq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if *a != *b {
            return Err(format!("{}: got {:?}, model says {:?}", format!($($m)*), a, b));
        }
    }};
}

// ---------------------------------------------------------------- allocator
pub struct Counting;
thread_local! {
    static LIVE_BYTES: Cell<i64> = const { Cell::new(0) };
    static LIVE_BLOCKS: Cell<i64> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static PEAK_BYTES: Cell<i64> = const { Cell::new(0) };
}
pub static MEM_CAP: AtomicU64 = AtomicU64::new(6 << 30);

fn note(bytes: i64, blocks: i64) {
    let v = LIVE_BYTES.with(|c| {
        c.set(c.get() + bytes);
        c.get()
    });
    LIVE_BLOCKS.with(|c| c.set(c.get() + blocks));
    if bytes > 0 {
        ALLOCS.with(|c| c.set(c.get() + 1));
        PEAK_BYTES.with(|c| {
            if v > c.get() {
                c.set(v)
            }
        });
        if v > MEM_CAP.load(Ordering::Relaxed) as i64 {
            unsafe { libc::_exit(EXIT_MEM) }
        }
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64, 1);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64), -1);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64, 1);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as i64 - l.size() as i64, 0);
        System.realloc(p, l, n)
    }
}
/// (live bytes, live blocks) allocated minus freed by this thread
pub fn mem() -> (i64, i64) {
    (LIVE_BYTES.with(|c| c.get()), LIVE_BLOCKS.with(|c| c.get()))
}
/// the largest number of live bytes of this thread since `peak_reset`
pub fn peak() -> i64 {
    PEAK_BYTES.with(|c| c.get())
}
pub fn peak_reset() {
    PEAK_BYTES.with(|c| c.set(mem().0))
}
pub fn allocs() -> u64 {
    ALLOCS.with(|c| c.get())
}

pub const EXIT_HANG: i32 = 97;
pub const EXIT_BLOCKED: i32 = 98;
pub const EXIT_MEM: i32 = 99;

// ---------------------------------------------------------------- rng
#[derive(Clone)]
pub struct Rng(u64, u64, u64, u64);
pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(mut s: u64) -> Self {
        Rng(splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s))
    }
    pub fn u(&mut self) -> u64 {
        let r = self.1.wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.1 << 17;
        self.2 ^= self.0;
        self.3 ^= self.1;
        self.1 ^= self.2;
        self.0 ^= self.3;
        self.2 ^= t;
        self.3 = self.3.rotate_left(45);
        r
    }
    /// uniform in [0, n)
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((self.u() as u128 * n as u128) >> 64) as u64
        }
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// uniform in [lo, hi]
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.us(s.len())]
    }
    pub fn shuffle<T>(&mut self, s: &mut [T]) {
        for i in (1..s.len()).rev() {
            let j = self.us(i + 1);
            s.swap(i, j);
        }
    }
}

// ---------------------------------------------------------------- case context
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
pub struct Ctx {
    pub rng: Rng,
    pub idx: u64,
    pub tier: Tier,
    pub ops: Vec<(&'static str, i64, i64)>,
    pub notes: Vec<String>,
    pub counters: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub verbose: bool,
    extra_sig: u64,
}
impl Ctx {
    pub fn op(&mut self, name: &'static str, a: i64, b: i64) {
        self.ops.push((name, a, b));
    }
    pub fn note(&mut self, s: String) {
        self.notes.push(s);
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.counters.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn sig(&mut self, x: u64) {
        let mut s = self.extra_sig ^ x.wrapping_mul(0x9E3779B97F4A7C15);
        self.extra_sig = splitmix(&mut s);
    }
    fn signature(&self, suite: u64) -> u64 {
        let mut h = self.extra_sig ^ suite.wrapping_mul(0xff51afd7ed558ccd);
        for (n, a, b) in &self.ops {
            let mut s = h
                ^ (n.as_ptr() as u64)
                ^ (*a as u64).wrapping_mul(0x9E3779B97F4A7C15)
                ^ (*b as u64).rotate_left(31).wrapping_mul(0xC2B2AE3D27D4EB4F);
            h = splitmix(&mut s);
        }
        h
    }
    pub fn describe(&self, limit: usize) -> String {
        let mut s = String::new();
        for n in &self.notes {
            let _ = write!(s, "[{}] ", n);
        }
        let n = self.ops.len();
        let from = n.saturating_sub(limit);
        if from > 0 {
            let _ = write!(s, "... {} earlier ops; ", from);
        }
        for (name, a, b) in &self.ops[from..] {
            if *b == NOARG && *a == NOARG {
                let _ = write!(s, "{}; ", name);
            } else if *b == NOARG {
                let _ = write!(s, "{}({}); ", name, a);
            } else {
                let _ = write!(s, "{}({},{}); ", name, a, b);
            }
        }
        s
    }
}
/// set when running under an interpreter: histories become short
pub static SMALL: AtomicBool = AtomicBool::new(false);
pub fn sz(n: u64) -> u64 {
    if SMALL.load(Ordering::Relaxed) {
        (n / 12).max(n.min(4))
    } else {
        n
    }
}
pub const NOARG: i64 = i64::MIN;

pub struct Suite {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Ctx) -> R,
    /// run one case at a time (for cases that use several threads themselves)
    pub serial: bool,
}
pub fn suite(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Ctx) -> R) -> Suite {
    Suite { name, quick, thorough, f, serial: false }
}
pub fn suite_serial(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Ctx) -> R) -> Suite {
    Suite { name, quick, thorough, f, serial: true }
}

// ---------------------------------------------------------------- panics
thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}
/// called on every panic, on the panicking thread
pub static ON_PANIC: std::sync::OnceLock<fn()> = std::sync::OnceLock::new();
pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        if let Some(f) = ON_PANIC.get() {
            f();
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC_MSG.try_with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}
pub fn last_panic() -> String {
    PANIC_MSG.with(|p| p.borrow().clone())
}
pub fn clear_last_panic() {
    PANIC_MSG.with(|p| *p.borrow_mut() = String::new());
}
/// true if f panicked
pub fn panics<F: FnOnce()>(f: F) -> bool {
    panic::catch_unwind(AssertUnwindSafe(f)).is_err()
}
/// None if f panicked
pub fn caught<T, F: FnOnce() -> T>(f: F) -> Option<T> {
    panic::catch_unwind(AssertUnwindSafe(f)).ok()
}
/// turns a panic into Err
pub fn guard<T, F: FnOnce() -> T>(what: &str, f: F) -> Result<T, String> {
    panic::catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("{} panicked: {}", what, last_panic()))
}

// ---------------------------------------------------------------- options
pub struct Opts {
    pub prop: String,
    pub seed: u64,
    pub tier: Tier,
    pub out: String,
    pub slots: String,
    pub only: Option<(String, u64)>,
    pub time_cap: u64,
    pub threads: usize,
    pub scale: f64,
}
pub static SCRATCH: Mutex<String> = Mutex::new(String::new());
pub fn scratch() -> String {
    SCRATCH.lock().unwrap().clone()
}

pub fn parse_opts() -> Opts {
    let args: Vec<String> = std::env::args().collect();
    let mut o = Opts {
        prop: args.get(1).cloned().unwrap_or_default(),
        seed: 1,
        tier: Tier::Quick,
        out: String::new(),
        slots: String::new(),
        only: None,
        time_cap: 300,
        threads: 8,
        scale: 1.0,
    };
    let mut i = 2;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--seed" => o.seed = v.parse().unwrap(),
            "--tier" => o.tier = if v == "thorough" { Tier::Thorough } else { Tier::Quick },
            "--out" => o.out = v,
            "--slots" => o.slots = v,
            "--case" => {
                let (s, n) = v.rsplit_once(':').unwrap();
                o.only = Some((s.to_string(), n.parse().unwrap()));
            }
            "--time" => o.time_cap = v.parse().unwrap(),
            "--threads" => o.threads = v.parse().unwrap(),
            "--scale" => o.scale = v.parse().unwrap(),
            "--scratch" => *SCRATCH.lock().unwrap() = v,
            x => panic!("unknown option {}", x),
        }
        i += 2;
    }
    o
}

// ---------------------------------------------------------------- runner
fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
pub fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Shared {
    evaluations: u64,
    distinct: HashSet<u64>,
    per_suite: BTreeMap<String, u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<String>,
    violation: Option<(String, u64, String, String)>,
}

struct Slot {
    // index of the case being run + 1, or 0
    cur: AtomicU64,
    started: AtomicU64, // ms since start, wall
    cpu_started: AtomicU64,
    tid: AtomicU64, // pthread_t
}

fn thread_cpu_ms(t: libc::pthread_t) -> Option<u64> {
    unsafe {
        let mut clk: libc::clockid_t = 0;
        if libc::pthread_getcpuclockid(t, &mut clk) != 0 {
            return None;
        }
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clk, &mut ts) != 0 {
            return None;
        }
        Some(ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000)
    }
}
fn process_cpu_ms() -> u64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts);
        ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
    }
}

pub const CASE_CPU_LIMIT_MS: u64 = 90_000;
pub const CASE_WALL_LIMIT_MS: u64 = 240_000;

fn write_result(o: &Opts, sh: &Shared, capped: bool) {
    let mut s = String::from("{");
    let _ = write!(s, "\"evaluations\":{},\"distinct_nontrivial\":{},\"capped\":{},", sh.evaluations, sh.distinct.len(), capped);
    let _ = write!(s, "\"per_suite\":{{{}}},", sh.per_suite.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(s, "\"counters\":{{{}}},", sh.counters.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(s, "\"samples\":[{}],", sh.samples.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(","));
    match &sh.violation {
        None => s.push_str("\"violation\":null}"),
        Some((su, i, m, t)) => {
            let _ = write!(s, "\"violation\":{{\"suite\":{},\"idx\":{},\"msg\":{},\"trace\":{}}}}}", json_str(su), i, json_str(m), json_str(t));
        }
    }
    if o.out.is_empty() {
        eprintln!("{}", s);
    } else {
        std::fs::write(&o.out, s).expect("write result");
    }
}

/// runs a few cases of every suite on this thread, without any of the runner's machinery
pub fn run_plain(seed: u64, part: u64, parts: u64, per_suite: u64, suites: Vec<Suite>) -> i32 {
    install_panic_hook();
    SMALL.store(true, Ordering::SeqCst);
    let mut total: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut n = 0;
    for (i, s) in suites.iter().enumerate() {
        if i as u64 % parts != part {
            continue;
        }
        for idx in 0..per_suite {
            let mut x = seed.wrapping_mul(0xD1342543DE82EF95) ^ hash_str(s.name) ^ idx.wrapping_mul(0xA24BAED4963EE407);
            let mut ctx = Ctx {
                rng: Rng::new(splitmix(&mut x)),
                idx,
                tier: Tier::Quick,
                ops: Vec::new(),
                notes: Vec::new(),
                counters: BTreeMap::new(),
                nontrivial: true,
                verbose: false,
                extra_sig: 0,
            };
            println!("case {}:{}", s.name, idx);
            let f = s.f;
            let r = panic::catch_unwind(AssertUnwindSafe(|| f(&mut ctx))).unwrap_or_else(|_| Err(format!("unexpected panic: {}", last_panic())));
            n += 1;
            *total.entry("operations").or_insert(0) += ctx.ops.len() as u64;
            if let Err(m) = r {
                println!("FAILED {}:{}: {}\n{}", s.name, idx, m, ctx.describe(400));
                return 1;
            }
        }
    }
    println!("DONE cases {} operations {}", n, total.get("operations").cloned().unwrap_or(0));
    0
}

pub fn run(o: &Opts, suites: Vec<Suite>) -> i32 {
    install_panic_hook();
    let start = Instant::now();
    let sh = Mutex::new(Shared {
        evaluations: 0,
        distinct: HashSet::new(),
        per_suite: BTreeMap::new(),
        counters: BTreeMap::new(),
        samples: Vec::new(),
        violation: None,
    });
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let slot_file = if o.slots.is_empty() {
        None
    } else {
        Some(std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(&o.slots).expect("slots"))
    };

    // a plan of (suite, first index, count) chunks, interleaved over the suites
    struct Item {
        suite: usize,
        from: u64,
        to: u64,
    }
    let mut plans: [Vec<Item>; 2] = [Vec::new(), Vec::new()];
    match &o.only {
        Some((name, idx)) => {
            for (i, s) in suites.iter().enumerate() {
                if s.name == name {
                    plans[s.serial as usize].push(Item { suite: i, from: *idx, to: *idx + 1 });
                }
            }
            assert!(!plans[0].is_empty() || !plans[1].is_empty(), "no such suite");
        }
        None => {
            let rounds = 32u64;
            for r in 0..rounds {
                for (i, s) in suites.iter().enumerate() {
                    let n = if o.tier == Tier::Quick { s.quick } else { s.thorough };
                    let n = ((n as f64) * o.scale).ceil() as u64;
                    let (a, b) = (n * r / rounds, n * (r + 1) / rounds);
                    let step = ((b - a) / 16).max(1);
                    let mut x = a;
                    while x < b {
                        let y = (x + step).min(b);
                        plans[s.serial as usize].push(Item { suite: i, from: x, to: y });
                        x = y;
                    }
                }
            }
        }
    }

    let nslots = o.threads + 1;
    let slots: Vec<Slot> = (0..nslots)
        .map(|_| Slot { cur: AtomicU64::new(0), started: AtomicU64::new(0), cpu_started: AtomicU64::new(0), tid: AtomicU64::new(0) })
        .collect();

    let worker = |w: usize, plan: &Vec<Item>, next: &AtomicUsize, cap_ms: u64| {
        slots[w].tid.store(unsafe { libc::pthread_self() } as u64, Ordering::SeqCst);
        loop {
            if stop.load(Ordering::SeqCst) {
                break;
            }
            if start.elapsed().as_millis() as u64 > cap_ms {
                capped.store(true, Ordering::SeqCst);
                break;
            }
            let n = next.fetch_add(1, Ordering::SeqCst);
            if n >= plan.len() {
                break;
            }
            let it = &plan[n];
            let s = &suites[it.suite];
            let sh_hash = hash_str(&o.prop) ^ hash_str(s.name).rotate_left(17);
            let mut local: Vec<(u64, bool)> = Vec::new();
            let mut lcount: BTreeMap<&'static str, u64> = BTreeMap::new();
            let mut sample: Option<String> = None;
            for idx in it.from..it.to {
                if stop.load(Ordering::SeqCst) || start.elapsed().as_millis() as u64 > cap_ms {
                    break;
                }
                if let Some(f) = &slot_file {
                    let line = format!("{:<47}\n{:<15}\n", s.name, idx);
                    let _ = f.write_all_at(line.as_bytes(), (w * 64) as u64);
                }
                let mut seed = o.seed.wrapping_mul(0xD1342543DE82EF95) ^ sh_hash ^ idx.wrapping_mul(0xA24BAED4963EE407);
                let seed = splitmix(&mut seed);
                let mut ctx = Ctx {
                    rng: Rng::new(seed),
                    idx,
                    tier: o.tier,
                    ops: Vec::new(),
                    notes: Vec::new(),
                    counters: BTreeMap::new(),
                    nontrivial: true,
                    verbose: o.only.is_some(),
                    extra_sig: 0,
                };
                slots[w].started.store(start.elapsed().as_millis() as u64, Ordering::SeqCst);
                slots[w].cpu_started.store(
                    if s.serial { process_cpu_ms() } else { thread_cpu_ms(unsafe { libc::pthread_self() }).unwrap_or(0) },
                    Ordering::SeqCst,
                );
                slots[w].cur.store(idx + 1, Ordering::SeqCst);
                let f = s.f;
                let res = panic::catch_unwind(AssertUnwindSafe(|| f(&mut ctx)));
                slots[w].cur.store(0, Ordering::SeqCst);
                let res = match res {
                    Ok(r) => r,
                    Err(_) => Err(format!("unexpected panic: {}", last_panic())),
                };
                local.push((ctx.signature(sh_hash), ctx.nontrivial && (ctx.ops.len() >= 3 || ctx.extra_sig != 0)));
                for (k, v) in &ctx.counters {
                    let e = lcount.entry(k).or_insert(0);
                    if k.starts_with("max_") {
                        *e = (*e).max(*v);
                    } else {
                        *e += v;
                    }
                }
                if idx < 2 && res.is_ok() {
                    let mut t = ctx.describe(40);
                    t.truncate(900);
                    sample = Some(format!("{}#{}: {}", s.name, idx, t));
                }
                if let Err(msg) = res {
                    stop.store(true, Ordering::SeqCst);
                    let mut g = sh.lock().unwrap();
                    if g.violation.is_none() {
                        g.violation = Some((s.name.to_string(), idx, msg, ctx.describe(4000)));
                    }
                    break;
                }
            }
            let mut g = sh.lock().unwrap();
            g.evaluations += local.len() as u64;
            *g.per_suite.entry(s.name.to_string()).or_insert(0) += local.len() as u64;
            for (sig, nt) in local {
                if nt && g.distinct.len() < 4_000_000 {
                    g.distinct.insert(sig);
                }
            }
            for (k, v) in lcount {
                let e = g.counters.entry(k.to_string()).or_insert(0);
                if k.starts_with("max_") {
                    *e = (*e).max(v);
                } else {
                    *e += v;
                }
            }
            if let Some(t) = sample {
                if g.samples.len() < 8 {
                    g.samples.push(t);
                }
            }
        }
        if let Some(f) = &slot_file {
            let _ = f.write_all_at(&[b' '; 64], (w * 64) as u64);
        }
    };

    let next0 = AtomicUsize::new(0);
    let next1 = AtomicUsize::new(0);
    let cap_ms = o.time_cap * 1000;
    // the serial suites get the last part of the time budget at the latest
    let cap0 = if plans[1].is_empty() { cap_ms } else { cap_ms * 6 / 10 };
    std::thread::scope(|sc| {
        let dog = std::thread::Builder::new()
            .spawn_scoped(sc, || {
                while !done.load(Ordering::SeqCst) {
                    std::thread::sleep(Duration::from_millis(100));
                    for (w, s) in slots.iter().enumerate() {
                        let cur = s.cur.load(Ordering::SeqCst);
                        if cur == 0 {
                            continue;
                        }
                        let wall = (start.elapsed().as_millis() as u64).saturating_sub(s.started.load(Ordering::SeqCst));
                        if wall < CASE_CPU_LIMIT_MS / 2 {
                            continue;
                        }
                        let cpu_now = if w == o.threads { process_cpu_ms() } else { thread_cpu_ms(s.tid.load(Ordering::SeqCst) as libc::pthread_t).unwrap_or(0) };
                        let cpu = cpu_now.saturating_sub(s.cpu_started.load(Ordering::SeqCst));
                        let limit = if w == o.threads { 6 * CASE_CPU_LIMIT_MS } else { CASE_CPU_LIMIT_MS };
                        if s.cur.load(Ordering::SeqCst) != cur {
                            continue;
                        }
                        let code = if cpu > limit {
                            EXIT_HANG
                        } else if wall > CASE_WALL_LIMIT_MS && cpu < 1000 {
                            EXIT_BLOCKED
                        } else {
                            continue;
                        };
                        // leave only this case in the slots file
                        if let Some(f) = &slot_file {
                            for x in 0..nslots {
                                if x != w {
                                    let _ = f.write_all_at(&[b' '; 64], (x * 64) as u64);
                                }
                            }
                        }
                        unsafe { libc::_exit(code) }
                    }
                }
            })
            .unwrap();
        if !plans[0].is_empty() {
            let hs: Vec<_> = (0..o.threads)
                .map(|w| {
                    let (worker, plan, next) = (&worker, &plans[0], &next0);
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, move || worker(w, plan, next, cap0))
                        .unwrap()
                })
                .collect();
            for h in hs {
                h.join().unwrap();
            }
        }
        if !plans[1].is_empty() {
            worker(o.threads, &plans[1], &next1, cap_ms);
        }
        done.store(true, Ordering::SeqCst);
        dog.join().unwrap();
    });
    let g = sh.lock().unwrap();
    write_result(o, &g, capped.load(Ordering::SeqCst));
    if let Some((su, i, m, t)) = &g.violation {
        eprintln!("violation in {}:{}: {}\n  {}", su, i, m, t);
        return 1;
    }
    0
}
