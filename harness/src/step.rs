//! Delays between any two instructions. A thread goes on one instruction at a time (the trap flag of the processor), and
//! stands still around some of the instructions that synchronize (a lock prefix or an exchange with memory), and now and then
//! elsewhere, as long as the pause it was given says.
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Once;

/// what was seen: instructions, the synchronizing ones among them, pauses
pub struct Stats {
    pub steps: AtomicU64,
    pub syncs: AtomicU64,
    pub pauses: AtomicU64,
}
impl Stats {
    pub const ZERO: Stats = Stats { steps: AtomicU64::new(0), syncs: AtomicU64::new(0), pauses: AtomicU64::new(0) };
    pub fn reset(&self) {
        for a in [&self.steps, &self.syncs, &self.pauses] {
            a.store(0, Relaxed);
        }
    }
}
#[derive(Clone, Copy)]
pub struct Plan {
    /// instructions to go on one at a time
    pub length: u32,
    /// one in so many synchronizing instructions is preceded, one followed by a pause; and one in so many others.
    /// 0: only one of the first few dozen is, and so is none of the others
    pub one_in: u64,
    pub other_in: u64,
    pub pause: fn(),
    pub stats: &'static Stats,
}
thread_local! {
    static LEFT: Cell<u32> = const { Cell::new(0) };
    static RNG: Cell<u64> = const { Cell::new(0) };
    static PLAN: Cell<Option<Plan>> = const { Cell::new(None) };
    static TARGET: Cell<u32> = const { Cell::new(0) };
    static JUST: Cell<bool> = const { Cell::new(false) };
}
/// the calling thread's own random numbers, safe to use in a signal handler
pub fn rnd(n: u64) -> u64 {
    RNG.with(|r| {
        let mut x = r.get();
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        r.set(x);
        (x.wrapping_mul(0x2545F4914F6CDD1D) >> 33) % n
    })
}
pub fn seeded() -> bool {
    RNG.with(|r| r.get()) != 0
}
pub fn seed(x: u64) {
    RNG.with(|r| r.set(x | 1));
    rnd(2);
}
fn pause(p: &Plan) {
    p.stats.pauses.fetch_add(1, Relaxed);
    (p.pause)();
}
/// does the instruction synchronize?
unsafe fn synchronizes(mut p: *const u8) -> bool {
    for _ in 0..4 {
        match *p {
            0xF0 => return true,
            0x66 | 0xF2 | 0xF3 | 0x40..=0x4F => p = p.add(1),
            0x86 | 0x87 => return *p.add(1) >> 6 != 3,
            _ => return false,
        }
    }
    false
}
#[cfg(all(target_arch = "x86_64", not(miri)))]
unsafe extern "C" fn trapped(_: libc::c_int, _: *mut libc::siginfo_t, c: *mut libc::c_void) {
    let c = &mut *(c as *mut libc::ucontext_t);
    let left = LEFT.with(|l| l.get());
    let ip = c.uc_mcontext.gregs[libc::REG_RIP as usize] as *const u8;
    // where signals are about to be blocked (a thread is created or ends), a trap would end the process
    let blocking = left > 0 && *ip == 0x0F && *ip.add(1) == 0x05 && c.uc_mcontext.gregs[libc::REG_RAX as usize] == libc::SYS_rt_sigprocmask as i64;
    let plan = match PLAN.with(|p| p.get()) {
        Some(p) if left > 0 && !blocking => p,
        _ => {
            LEFT.with(|l| l.set(0));
            c.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
            return;
        }
    };
    LEFT.with(|l| l.set(left - 1));
    let errno = *libc::__errno_location();
    plan.stats.steps.fetch_add(1, Relaxed);
    if JUST.with(|j| j.replace(false)) {
        pause(&plan);
    }
    if synchronizes(ip) {
        plan.stats.syncs.fetch_add(1, Relaxed);
        if plan.one_in == 0 {
            if TARGET.with(|t| t.replace(t.get().saturating_sub(1))) == 1 {
                match rnd(2) {
                    0 => pause(&plan),
                    _ => JUST.with(|j| j.set(true)),
                }
                // little more
                LEFT.with(|l| l.set(l.get().min(300)));
            }
        } else {
            if rnd(plan.one_in) == 0 {
                pause(&plan);
            }
            JUST.with(|j| j.set(rnd(plan.one_in) == 0));
        }
    } else if plan.one_in > 0 && rnd(plan.other_in) == 0 {
        pause(&plan);
    }
    *libc::__errno_location() = errno;
}
#[cfg(all(target_arch = "x86_64", not(miri)))]
pub fn go(p: Plan) {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = trapped as usize;
        a.sa_flags = libc::SA_SIGINFO | libc::SA_RESTART;
        libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut());
    });
    PLAN.with(|x| x.set(Some(p)));
    JUST.with(|j| j.set(false));
    if p.one_in == 0 {
        let among = [8, 32, 80, 80][rnd(4) as usize];
        TARGET.with(|t| t.set(1 + rnd(among) as u32));
    }
    LEFT.with(|l| l.set(p.length));
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
}
#[cfg(not(all(target_arch = "x86_64", not(miri))))]
pub fn go(_: Plan) {}
/// go on at full speed from the next instruction on
#[inline]
pub fn stop() {
    LEFT.with(|l| l.set(0));
}
