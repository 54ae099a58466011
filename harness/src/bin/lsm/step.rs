//! Which file-system calls the threads go on from one instruction at a time (vh::step), and how long they stand still then:
//! until the other thread has made progress or a few milliseconds have passed.
use crate::shim::SLOT;
use std::cell::Cell;
use std::sync::atomic::Ordering::{Relaxed, SeqCst};
use std::time::{Duration, Instant};
pub use vh::step::stop;
use vh::step::{go, rnd, seed, seeded, Plan};

thread_local! {
    static WHO: Cell<(usize, bool)> = const { Cell::new((0, false)) };
}
fn pause() {
    let (slot, fg) = WHO.with(|w| w.get());
    let s = &SLOT[slot - 1];
    // enough for one case
    if s.step_stats.pauses.load(Relaxed) > 300 {
        return;
    }
    let t = Instant::now();
    if fg {
        let upto = if rnd(2) == 0 { u64::MAX } else { s.bg_ops.load(SeqCst) + 1 + rnd(4) };
        while s.bg_threads.load(SeqCst) > 0 && s.bg_ops.load(SeqCst) < upto && t.elapsed() < Duration::from_millis(4) {
            std::thread::sleep(Duration::from_micros(10));
        }
    } else {
        // a single pause may be a long one
        let (ops, ms) = if s.step_one_in.load(Relaxed) == 0 { (12, 10) } else { (4, 3) };
        let upto = s.fg_ops.load(SeqCst) + 1 + rnd(ops);
        while s.fg_ops.load(SeqCst) < upto && t.elapsed() < Duration::from_millis(ms) {
            std::thread::sleep(Duration::from_micros(10));
        }
    }
}
/// after a call on the slot; share / 4 times as often as usual
#[inline]
pub fn perhaps(slot: usize, fg: bool, share: u64) {
    let s = &SLOT[slot - 1];
    let chance = if fg { &s.step_fg } else { &s.step_bg }.load(Relaxed);
    if chance == 0 {
        return;
    }
    if !seeded() {
        seed(s.step_seed.fetch_add(0x9E3779B97F4A7C15, SeqCst));
    }
    if rnd(1000) >= chance * share / 4 {
        return;
    }
    WHO.with(|w| w.set((slot, fg)));
    go(Plan { length: s.step_length.load(Relaxed) as u32, one_in: s.step_one_in.load(Relaxed), other_in: 2000, pause, stats: &s.step_stats });
}
