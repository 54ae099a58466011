//! sync::Stack: linearizability of short concurrent histories (C18), exactly-once delivery and reclamation (C19).
use crate::core::*;
use crate::step;
use extended_collections::sync::Stack;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;

fn spin_limit() -> u32 {
    if SMALL.load(SeqCst) {
        0
    } else {
        20_000
    }
}
// ------------------------------------------------------------------ the oracle
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Push(u32),
    Pop(Option<u32>),
    Len(usize),
    Empty(bool),
}
#[derive(Clone, Debug)]
pub struct Ev {
    pub t: usize,
    pub call: u64,
    pub ret: u64,
    pub op: Op,
}
/// Wing-Gong search with memoisation over (set of linearized operations, stack contents)
pub fn linearizable(init: &[u32], evs: &[Ev]) -> bool {
    let evs: Vec<&Ev> = evs.iter().filter(|e| matches!(e.op, Op::Push(_) | Op::Pop(_))).collect();
    let n = evs.len();
    assert!(n <= 60);
    fn go(done: u64, st: &mut Vec<u32>, evs: &[&Ev], seen: &mut HashSet<(u64, Vec<u32>)>) -> bool {
        let n = evs.len();
        if done == (1u64 << n) - 1 {
            return true;
        }
        if !seen.insert((done, st.clone())) {
            return false;
        }
        let minret = (0..n).filter(|i| done >> i & 1 == 0).map(|i| evs[i].ret).min().unwrap();
        for i in 0..n {
            if done >> i & 1 == 1 || evs[i].call > minret {
                continue;
            }
            match evs[i].op {
                Op::Push(v) => {
                    st.push(v);
                    if go(done | 1 << i, st, evs, seen) {
                        return true;
                    }
                    st.pop();
                }
                Op::Pop(None) => {
                    if st.is_empty() && go(done | 1 << i, st, evs, seen) {
                        return true;
                    }
                }
                Op::Pop(Some(v)) => {
                    if st.last() == Some(&v) {
                        st.pop();
                        if go(done | 1 << i, st, evs, seen) {
                            return true;
                        }
                        st.push(v);
                    }
                }
                _ => unreachable!(),
            }
        }
        false
    }
    go(0, &mut init.to_vec(), &evs, &mut HashSet::new())
}
/// every len()/is_empty() result must be explained by the operations around it
pub fn len_bounds(init: usize, evs: &[Ev]) -> R {
    for e in evs {
        let l = match e.op {
            Op::Len(_) | Op::Empty(_) => &e.op,
            _ => continue,
        };
        let (mut pb, mut pe, mut qb, mut qe) = (0i64, 0i64, 0i64, 0i64);
        for o in evs {
            match o.op {
                Op::Push(_) => {
                    if o.ret < e.call {
                        pb += 1; // completed before
                    }
                    if o.call < e.ret {
                        pe += 1; // begun before the end
                    }
                }
                Op::Pop(Some(_)) => {
                    if o.ret < e.call {
                        qb += 1;
                    }
                    if o.call < e.ret {
                        qe += 1;
                    }
                }
                _ => {}
            }
        }
        let lo = (init as i64 + pb - qe).max(0);
        let hi = init as i64 + pe - qb;
        match l {
            Op::Len(n) => ck!(*n as i64 >= lo && *n as i64 <= hi && *n < (1 << 40), "len() returned {} when between {} and {} elements could be in the stack", *n as isize, lo, hi),
            Op::Empty(true) => ck!(lo == 0, "is_empty() returned true when at least {} elements were in the stack", lo),
            Op::Empty(false) => ck!(hi > 0, "is_empty() returned false when no element could be in the stack"),
            _ => {}
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C18
#[derive(Clone, Copy)]
enum Plan {
    Push(u32),
    Pop,
    Len,
    Empty,
    Pause(u32),
}
struct Round {
    plans: Vec<Vec<Plan>>,
    stack: Arc<Stack<u32>>,
}
/// many short histories on persistent threads that start each round together
pub fn histories(ctx: &mut Ctx) -> R {
    let rounds = if SMALL.load(SeqCst) { 6 } else { 400 };
    run_histories(ctx, rounds, None)
}
/// the same with threads that stand still between instructions
pub fn stepped(ctx: &mut Ctx) -> R {
    STEPPED.reset();
    let plan = Stepping::random(ctx);
    run_histories(ctx, 60, Some(plan))?;
    plan.counted(ctx);
    Ok(())
}
static STEPPED: step::Stats = step::Stats::ZERO;
/// operations finished by any thread
static PROGRESS: AtomicU64 = AtomicU64::new(0);
fn pause() {
    let t = std::time::Instant::now();
    let upto = PROGRESS.load(SeqCst) + 1 + step::rnd(6);
    while PROGRESS.load(SeqCst) < upto && t.elapsed() < std::time::Duration::from_micros(300) {
        std::hint::spin_loop();
    }
}
#[derive(Clone, Copy)]
struct Stepping {
    plan: step::Plan,
    /// per cent of the operations
    share: u64,
    seed: u64,
}
impl Stepping {
    fn random(ctx: &mut Ctx) -> Stepping {
        let plan = step::Plan { length: *ctx.rng.pick(&[60, 200, 1000]), one_in: *ctx.rng.pick(&[2, 3, 6, 20]), other_in: *ctx.rng.pick(&[30, 100, 1000]), pause, stats: &STEPPED };
        Stepping { plan, share: *ctx.rng.pick(&[10, 40, 100]), seed: ctx.rng.u() }
    }
    fn begin(this: &Option<Stepping>, t: usize) {
        if let Some(s) = this {
            if !step::seeded() {
                step::seed(s.seed.wrapping_add((t as u64).wrapping_mul(0x9E3779B97F4A7C15)));
            }
            if step::rnd(100) < s.share {
                step::go(s.plan);
            }
        }
    }
    fn end(this: &Option<Stepping>) {
        if this.is_some() {
            step::stop();
            PROGRESS.fetch_add(1, SeqCst);
        }
    }
    fn counted(&self, ctx: &mut Ctx) {
        ctx.count("instructions_stepped", STEPPED.steps.load(SeqCst));
        ctx.count("synchronizing_instructions_stepped", STEPPED.syncs.load(SeqCst));
        ctx.count("delays_between_instructions", STEPPED.pauses.load(SeqCst));
    }
}
fn run_histories(ctx: &mut Ctx, rounds: usize, stepping: Option<Stepping>) -> R {
    let threads = ctx.rng.range(2, 4) as usize;
    let style = ctx.rng.below(6);
    ctx.note(format!("{} threads, {} rounds, style {}", threads, rounds, style));
    // prepare all rounds
    let mut rs: Vec<Round> = Vec::new();
    let mut inits: Vec<Vec<u32>> = Vec::new();
    for _ in 0..rounds {
        let mut next = 1u32;
        let init: Vec<u32> = (0..ctx.rng.below(4)).map(|_| { next += 1; next }).collect();
        let stack = Arc::new(Stack::new());
        for v in &init {
            stack.push(*v);
        }
        let per = ctx.rng.range(2, if threads == 2 { 8 } else { 5 }) as usize;
        let mut plans = Vec::new();
        for t in 0..threads {
            let mut p = Vec::new();
            for _ in 0..per {
                let x = ctx.rng.below(100);
                let (pu, po, le) = match style {
                    0 => (50, 50, 0),
                    1 => (35, 65, 0),
                    2 => (40, 30, 20),
                    3 => if t == 0 { (0, 0, 60) } else { (50, 50, 0) },
                    4 => if t % 2 == 0 { (100, 0, 0) } else { (0, 90, 10) },
                    _ => (45, 45, 5),
                };
                if ctx.rng.chance(1, 6) {
                    p.push(Plan::Pause(ctx.rng.below(60) as u32));
                }
                p.push(if x < pu {
                    next += 1;
                    Plan::Push(next)
                } else if x < pu + po {
                    Plan::Pop
                } else if x < pu + po + le {
                    Plan::Len
                } else {
                    Plan::Empty
                });
            }
            plans.push(p);
        }
        rs.push(Round { plans, stack });
        inits.push(init);
    }
    let rs = Arc::new(rs);
    let clock = Arc::new(AtomicU64::new(0));
    let gate = Arc::new(AtomicUsize::new(0));
    let arrived = Arc::new(AtomicUsize::new(0));
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let (rs, clock, gate, arrived) = (rs.clone(), clock.clone(), gate.clone(), arrived.clone());
            std::thread::spawn(move || {
                let mut out: Vec<Vec<Ev>> = Vec::with_capacity(rounds);
                for r in 0..rounds {
                    let mut evs = Vec::with_capacity(16);
                    arrived.fetch_add(1, SeqCst);
                    let mut spins = 0u32;
                    while gate.load(SeqCst) <= r {
                        spins += 1;
                        if spins > spin_limit() {
                            std::thread::yield_now();
                        } else {
                            std::hint::spin_loop();
                        }
                    }
                    let s = &rs[r].stack;
                    for p in &rs[r].plans[t] {
                        let call = clock.fetch_add(1, SeqCst);
                        Stepping::begin(&stepping, t);
                        let op = match *p {
                            Plan::Push(v) => {
                                s.push(v);
                                Op::Push(v)
                            }
                            Plan::Pop => Op::Pop(s.try_pop()),
                            Plan::Len => Op::Len(s.len()),
                            Plan::Empty => Op::Empty(s.is_empty()),
                            Plan::Pause(n) => {
                                for _ in 0..n {
                                    std::hint::spin_loop();
                                }
                                Stepping::end(&stepping);
                                continue;
                            }
                        };
                        Stepping::end(&stepping);
                        let ret = clock.fetch_add(1, SeqCst);
                        evs.push(Ev { t, call, ret, op });
                    }
                    out.push(evs);
                }
                out
            })
        })
        .collect();
    for r in 0..rounds {
        let mut spins = 0u32;
        while arrived.load(SeqCst) < (r + 1) * threads {
            spins += 1;
            if spins > spin_limit() {
                std::thread::yield_now();
            }
            std::hint::spin_loop();
        }
        gate.store(r + 1, SeqCst);
    }
    let mut per_thread: Vec<Vec<Vec<Ev>>> = Vec::new();
    for h in hs {
        per_thread.push(h.join().map_err(|_| "a thread using the stack panicked".to_string())?);
    }
    for r in 0..rounds {
        let mut evs: Vec<Ev> = Vec::new();
        for t in 0..threads {
            evs.extend(per_thread[t][r].iter().cloned());
        }
        evs.sort_by_key(|e| e.call);
        // what is left must be explained too: pop everything at the end
        let mut clk = clock.load(SeqCst) + 1;
        let s = &rs[r].stack;
        let left = {
            let mut n = 0;
            loop {
                let call = clk;
                let l = s.len();
                clk += 2;
                evs.push(Ev { t: 99, call, ret: call + 1, op: Op::Len(l) });
                let g = s.try_pop();
                evs.push(Ev { t: 99, call: clk, ret: clk + 1, op: Op::Pop(g) });
                clk += 2;
                if g.is_none() {
                    break;
                }
                n += 1;
                if n > 200 {
                    return Err("the stack never becomes empty".into());
                }
            }
            n
        };
        let _ = left;
        let mut overlaps = 0;
        for i in 0..evs.len() {
            for j in i + 1..evs.len() {
                if evs[i].t != evs[j].t && evs[j].call < evs[i].ret {
                    overlaps += 1;
                }
            }
        }
        ctx.count("histories_checked", 1);
        ctx.count("overlapping_operation_pairs", overlaps);
        if overlaps > 0 {
            ctx.count("concurrent_histories", 1);
        }
        // the order of the events identifies the history
        for e in &evs {
            ctx.sig((e.t as u64) << 40 ^ (e.call - evs[0].call) << 20 ^ (e.ret - evs[0].call) ^ match e.op { Op::Pop(v) => v.unwrap_or(0) as u64 * 7, Op::Len(n) => (n as u64).wrapping_mul(11), _ => 1 });
        }
        if let Err(m) = len_bounds(inits[r].len(), &evs) {
            return Err(format!("{}; initial {:?}, history {:?}", m, inits[r], evs));
        }
        if !linearizable(&inits[r], &evs) {
            return Err(format!("history is not linearizable; initial {:?}, history {:?}", inits[r], evs));
        }
    }
    Ok(())
}
/// sequential histories against a vector
pub fn sequential(ctx: &mut Ctx) -> R {
    let s: Stack<u64> = if ctx.rng.chance(1, 2) { Stack::new() } else { Stack::default() };
    let mut m: Vec<u64> = Vec::new();
    let bias = ctx.rng.range(30, 70);
    for i in 0..ctx.rng.range(5, 300) {
        if ctx.rng.below(100) < bias {
            ctx.op("push", i as i64, NOARG);
            s.push(i);
            m.push(i);
        } else {
            ctx.op("try_pop", NOARG, NOARG);
            ckeq!(s.try_pop(), m.pop(), "try_pop");
        }
        ckeq!(s.len(), m.len(), "len");
        ckeq!(s.is_empty(), m.is_empty(), "is_empty");
    }
    Ok(())
}

// ------------------------------------------------------------------ C19
/// a value whose destruction and identity are recorded across threads
pub struct Tok {
    id: u32,
    check: Box<u32>,
    drops: Arc<Vec<AtomicU32>>,
    bad: Arc<AtomicU64>,
}
impl Drop for Tok {
    fn drop(&mut self) {
        if *self.check != self.id ^ 0x5555 {
            self.bad.fetch_add(1, SeqCst);
        }
        *self.check = 0xDEAD;
        self.drops[self.id as usize].fetch_add(1, SeqCst);
    }
}
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static TOTAL: AtomicU64 = AtomicU64::new(0);
/// allocator that counts over all threads
pub struct Global;
unsafe impl std::alloc::GlobalAlloc for Global {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, std::sync::atomic::Ordering::Relaxed);
        TOTAL.fetch_add(l.size() as u64, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        LIVE.fetch_sub(l.size() as i64, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as i64 - l.size() as i64, std::sync::atomic::Ordering::Relaxed);
        if n > l.size() {
            TOTAL.fetch_add((n - l.size()) as u64, std::sync::atomic::Ordering::Relaxed);
        }
        std::alloc::System.realloc(p, l, n)
    }
}
pub fn exactly_once(ctx: &mut Ctx) -> R {
    run_exactly_once(ctx, None)
}
pub fn exactly_once_stepped(ctx: &mut Ctx) -> R {
    STEPPED.reset();
    let plan = Stepping::random(ctx);
    run_exactly_once(ctx, Some(plan))?;
    plan.counted(ctx);
    Ok(())
}
fn run_exactly_once(ctx: &mut Ctx, stepping: Option<Stepping>) -> R {
    let threads = ctx.rng.range(1, if SMALL.load(SeqCst) { 3 } else { 6 }) as usize;
    let per = if SMALL.load(SeqCst) { 12 } else if stepping.is_some() { *ctx.rng.pick(&[20u32, 60, 200]) } else { *ctx.rng.pick(&[50u32, 300, 2000, 6000]) };
    let style = ctx.rng.below(5);
    ctx.note(format!("{} threads x {} operations, style {}", threads, per, style));
    let total = threads * per as usize;
    let drops: Arc<Vec<AtomicU32>> = Arc::new((0..total).map(|_| AtomicU32::new(0)).collect());
    let popped: Arc<Vec<AtomicU32>> = Arc::new((0..total).map(|_| AtomicU32::new(0)).collect());
    let bad = Arc::new(AtomicU64::new(0));
    let pushed = Arc::new(AtomicU64::new(0));
    let s: Arc<Stack<Tok>> = Arc::new(Stack::new());
    let go = Arc::new(AtomicBool::new(false));
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let (s, drops, popped, bad, go, pushed) = (s.clone(), drops.clone(), popped.clone(), bad.clone(), go.clone(), pushed.clone());
            let mut rng = Rng::new(ctx.rng.u());
            std::thread::spawn(move || {
                while !go.load(SeqCst) {
                    std::thread::yield_now();
                }
                let mut id = t as u32 * per;
                let end = id + per;
                let mut held: Vec<Tok> = Vec::new();
                let mut pops = 0u64;
                let mut steps = 0;
                while id < end && steps < per * 3 {
                    steps += 1;
                    let push = match style {
                        0 => rng.chance(1, 2),
                        1 => t % 2 == 0 || rng.chance(1, 8),
                        2 => (steps / 16) % 2 == 0,
                        3 => rng.chance(2, 3),
                        _ => steps % 2 == 0,
                    };
                    Stepping::begin(&stepping, t);
                    if push {
                        s.push(Tok { id, check: Box::new(id ^ 0x5555), drops: drops.clone(), bad: bad.clone() });
                        pushed.fetch_add(1, SeqCst);
                        Stepping::end(&stepping);
                        id += 1;
                    } else if let Some(x) = s.try_pop() {
                        Stepping::end(&stepping);
                        pops += 1;
                        if (x.id as usize) < popped.len() {
                            popped[x.id as usize].fetch_add(1, SeqCst);
                        } else {
                            bad.fetch_add(1, SeqCst);
                        }
                        if *x.check != x.id ^ 0x5555 {
                            bad.fetch_add(1, SeqCst);
                        }
                        if rng.chance(1, 4) {
                            held.push(x);
                        }
                    }
                    Stepping::end(&stepping);
                }
                (id - t as u32 * per, held.len(), pops)
            })
        })
        .collect();
    go.store(true, SeqCst);
    let mut begun: Vec<u32> = Vec::new();
    let mut pops = 0;
    for h in hs {
        let (n, _, p) = h.join().map_err(|_| "a thread using the stack panicked".to_string())?;
        begun.push(n);
        pops += p;
    }
    ctx.count("pushes", begun.iter().map(|x| *x as u64).sum());
    ctx.count("pops", pops);
    ck!(bad.load(SeqCst) == 0, "{} popped or dropped values were corrupt", bad.load(SeqCst));
    let npushed: u64 = begun.iter().map(|x| *x as u64).sum();
    ckeq!(s.len() as u64, npushed.wrapping_sub(pops), "len() once all threads are done");
    // nothing still in the stack may have been dropped
    let mut inside = 0u64;
    for t in 0..threads {
        for i in 0..begun[t] {
            let id = (t as u32 * per + i) as usize;
            let (p, d) = (popped[id].load(SeqCst), drops[id].load(SeqCst));
            ck!(p <= 1, "value {} was popped {} times", id, p);
            ck!(d == p, "value {} was popped {} times but dropped {} times while the stack is alive", id, p, d);
            if p == 0 {
                inside += 1;
            }
        }
    }
    ck!(inside == npushed - pops, "{} values are unaccounted for", npushed - pops);
    // some more pops, then drop the stack
    let mut extra = ctx.rng.below(inside + 1).min(50);
    while extra > 0 {
        let x = s.try_pop();
        ck!(x.is_some(), "try_pop returned None with {} values inside", inside);
        let x = x.unwrap();
        ckeq!(popped[x.id as usize].fetch_add(1, SeqCst), 0, "earlier pops of value {}", x.id);
        extra -= 1;
    }
    let s = Arc::try_unwrap(s).map_err(|_| "stack still shared".to_string())?;
    drop(s);
    ck!(bad.load(SeqCst) == 0, "{} dropped values were corrupt", bad.load(SeqCst));
    for t in 0..threads {
        for i in 0..begun[t] {
            let id = (t as u32 * per + i) as usize;
            let d = drops[id].load(SeqCst);
            ck!(d == 1, "value {} was dropped {} times by the time the stack was gone (popped {} times)", id, d, popped[id].load(SeqCst));
        }
    }
    ctx.count("values_accounted", npushed);
    ctx.sig(pops);
    Ok(())
}
/// popped nodes are reclaimed while the stack is in use
pub fn reclaim(ctx: &mut Ctx) -> R {
    let n = 60_000u64;
    let threads = ctx.rng.range(1, 4) as usize;
    ctx.note(format!("{} threads", threads));
    let x = ctx.rng.u();
    ctx.sig(x);
    let s: Arc<Stack<[u64; 6]>> = Arc::new(Stack::new());
    let l0 = LIVE.load(SeqCst);
    let t0 = TOTAL.load(SeqCst);
    let hs: Vec<_> = (0..threads)
        .map(|_| {
            let s = s.clone();
            std::thread::spawn(move || {
                for i in 0..n {
                    s.push([i; 6]);
                    if let Some(x) = s.try_pop() {
                        if x.iter().any(|y| *y != x[0]) {
                            return Err("a popped value is torn".to_string());
                        }
                    }
                }
                Ok(())
            })
        })
        .collect();
    for h in hs {
        h.join().map_err(|_| "a thread using the stack panicked".to_string())??;
    }
    let grown = LIVE.load(SeqCst) - l0;
    let total = TOTAL.load(SeqCst) - t0;
    ctx.max("max_unreclaimed_percent", (100 * grown.max(0) as u64) / total.max(1));
    ctx.count("bytes_allocated", total);
    ck!(grown < total as i64 / 2, "{} of {} bytes allocated for stack nodes are still allocated after their values were popped", grown, total);
    Ok(())
}
/// a value that panics or is large, zero-sized and over-aligned values
pub fn kinds(ctx: &mut Ctx) -> R {
    #[derive(Clone, Copy, PartialEq, Debug)]
    #[repr(align(128))]
    struct Wide(u64);
    static Z: AtomicI64 = AtomicI64::new(0);
    struct Zst;
    impl Drop for Zst {
        fn drop(&mut self) {
            Z.fetch_add(1, SeqCst);
        }
    }
    let n = sz(ctx.rng.range(0, 100));
    let k = ctx.rng.below(n + 1);
    ctx.op("kinds", n as i64, k as i64);
    let s = Stack::new();
    for i in 0..n {
        s.push(Wide(i));
    }
    for i in 0..k {
        ckeq!(s.try_pop(), Some(Wide(n - 1 - i)), "pop of an over-aligned value");
    }
    drop(s);
    let z0 = Z.load(SeqCst);
    let s = Stack::new();
    for _ in 0..n {
        s.push(Zst);
    }
    ckeq!(Z.load(SeqCst), z0, "zero-sized values dropped by push");
    for i in 0..k {
        let x = s.try_pop();
        ck!(x.is_some(), "pop of a zero-sized value");
        ckeq!(Z.load(SeqCst), z0 + i as i64, "zero-sized values dropped by pop");
        drop(x);
    }
    drop(s);
    ckeq!(Z.load(SeqCst), z0 + n as i64, "zero-sized values dropped");
    let s = Stack::new();
    let mut m: HashMap<u64, String> = HashMap::new();
    for i in 0..n {
        let v = "x".repeat((i % 40) as usize) + &i.to_string();
        m.insert(i, v.clone());
        s.push((i, v));
    }
    for _ in 0..k {
        let (i, v) = s.try_pop().ok_or("pop of a string")?;
        ckeq!(Some(v), m.remove(&i), "popped string {}", i);
    }
    Ok(())
}
/// C18: length bounds under sustained load. Every worker pushes k values and then pops k, over a
/// floor of values nobody takes, so the number of elements always lies in [floor, floor + workers * k].
pub fn len_stress(ctx: &mut Ctx) -> R {
    let workers = *ctx.rng.pick(&[1usize, 2, 3, 4, 7, 12]);
    let readers = *ctx.rng.pick(&[1usize, 2, 3]);
    let k = *ctx.rng.pick(&[1usize, 1, 2, 8]);
    let floor = *ctx.rng.pick(&[0usize, 0, 1, 5]);
    let rounds = 60_000 / (workers * k);
    ctx.note(format!("{} workers, {} readers, {} pushes at a time over a floor of {}, {} rounds", workers, readers, k, floor, rounds));
    let s: Arc<Stack<u64>> = Arc::new(Stack::new());
    for i in 0..floor {
        s.push(i as u64);
    }
    let left = Arc::new(AtomicUsize::new(workers));
    let hi = floor + workers * k;
    let rh: Vec<_> = (0..readers)
        .map(|r| {
            let (s, left) = (s.clone(), left.clone());
            std::thread::spawn(move || -> Result<(u64, u64), String> {
                let (mut n, mut changes, mut last) = (0, 0, 0);
                while left.load(SeqCst) > 0 {
                    for _ in 0..50 {
                        let l = s.len();
                        ck!(l >= floor && l <= hi, "len() returned {} while the stack always holds between {} and {} elements", l as isize, floor, hi);
                        if floor > 0 || r == 0 {
                            let e = s.is_empty();
                            ck!(!(floor > 0 && e), "is_empty() returned true while the stack always holds at least {} elements", floor);
                        }
                        n += 1;
                        if l != last {
                            changes += 1;
                            last = l;
                        }
                    }
                }
                Ok((n, changes))
            })
        })
        .collect();
    let wh: Vec<_> = (0..workers)
        .map(|_| {
            let (s, left) = (s.clone(), left.clone());
            std::thread::spawn(move || -> R {
                let mut r = Ok(());
                'o: for i in 0..rounds {
                    for j in 0..k {
                        s.push((i * k + j) as u64);
                    }
                    for _ in 0..k {
                        if s.try_pop().is_none() {
                            r = Err("try_pop returned None although the stack cannot be empty".to_string());
                            break 'o;
                        }
                    }
                }
                left.fetch_sub(1, SeqCst);
                r
            })
        })
        .collect();
    for h in wh {
        h.join().map_err(|_| "a thread using the stack panicked".to_string())??;
    }
    let mut seen = 0;
    for h in rh {
        let (n, c) = h.join().map_err(|_| "a thread using the stack panicked".to_string())??;
        ctx.count("len_reads", n);
        ctx.count("len_changes_observed", c);
        seen += c;
    }
    ctx.sig(seen);
    ckeq!(s.len(), floor, "len() once all workers are done");
    Ok(())
}

/// some threads only push, others only pop, and the stack is nearly empty all the time
pub fn len_flow(ctx: &mut Ctx) -> R {
    let pushers = *ctx.rng.pick(&[1usize, 2, 3, 4]);
    let poppers = *ctx.rng.pick(&[1usize, 1, 2, 3, 5]);
    let readers = *ctx.rng.pick(&[1usize, 1, 2, 3]);
    let ahead = *ctx.rng.pick(&[1usize, 1, 2, 4, 30]);
    let each = 6_000 / pushers;
    let total = each * pushers;
    ctx.note(format!("{} pushers, {} poppers, {} readers, {} elements, at most about {} ahead", pushers, poppers, readers, total, ahead));
    let s: Arc<Stack<u64>> = Arc::new(Stack::new());
    let begun = Arc::new(AtomicUsize::new(0));
    let popped = Arc::new(AtomicUsize::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let rh: Vec<_> = (0..readers)
        .map(|_| {
            let (s, begun, popped, stop) = (s.clone(), begun.clone(), popped.clone(), stop.clone());
            std::thread::spawn(move || -> Result<(u64, u64), String> {
                let (mut n, mut changes, mut last) = (0, 0, 0);
                while popped.load(SeqCst) < total && !stop.load(SeqCst) {
                    for _ in 0..50 {
                        let gone = popped.load(SeqCst);
                        let l = s.len();
                        let most = begun.load(SeqCst) - gone;
                        ck!(l <= most, "len() returned {} while at most {} elements could be in the stack", l as isize, most);
                        n += 1;
                        if l != last {
                            changes += 1;
                            last = l;
                        }
                    }
                }
                Ok((n, changes))
            })
        })
        .collect();
    let mut wh: Vec<std::thread::JoinHandle<R>> = Vec::new();
    for p in 0..pushers {
        let (s, begun, popped, stop) = (s.clone(), begun.clone(), popped.clone(), stop.clone());
        wh.push(std::thread::spawn(move || {
            for i in 0..each {
                let mut spins = 0u32;
                while begun.load(SeqCst) >= popped.load(SeqCst) + ahead && !stop.load(SeqCst) {
                    spins += 1;
                    if spins % 64 == 0 {
                        std::thread::yield_now();
                    }
                }
                begun.fetch_add(1, SeqCst);
                s.push((p * each + i) as u64);
            }
            Ok(())
        }));
    }
    for _ in 0..poppers {
        let (s, popped, stop) = (s.clone(), popped.clone(), stop.clone());
        wh.push(std::thread::spawn(move || {
            let mut idle = 0u32;
            while popped.load(SeqCst) < total && !stop.load(SeqCst) {
                if s.try_pop().is_some() {
                    popped.fetch_add(1, SeqCst);
                    idle = 0;
                } else {
                    idle += 1;
                    if idle % 256 == 0 {
                        std::thread::yield_now();
                    }
                }
            }
            Ok(())
        }));
    }
    // a reader that has seen a wrong length ends; the others must not wait for it
    let mut seen = 0;
    let mut bad = Ok(());
    for h in rh {
        match h.join() {
            Ok(Ok((n, c))) => {
                ctx.count("len_reads", n);
                ctx.count("len_changes_observed", c);
                seen += c;
            }
            Ok(Err(e)) => {
                stop.store(true, SeqCst);
                bad = Err(e);
            }
            Err(_) => {
                stop.store(true, SeqCst);
                bad = Err("a thread using the stack panicked".to_string());
            }
        }
    }
    for h in wh {
        h.join().map_err(|_| "a thread using the stack panicked".to_string())??;
    }
    bad?;
    ctx.sig(seen);
    ckeq!(s.len(), 0, "len() once everything was popped");
    ck!(s.is_empty() && s.try_pop().is_none(), "the stack is not empty once everything was popped");
    Ok(())
}
