//! File-system calls of this binary, observed and steered. Every call below replaces the C library's
//! function of the same name for the Rust standard library linked into this executable. Calls on
//! paths outside a case directory (SCRATCH/Lnn-...) pass straight through.
use crate::step;
use libc::{c_char, c_int, c_uint, c_void, mode_t, off64_t, size_t, ssize_t};
use std::cell::Cell;
use std::ffi::CStr;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicI64, AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering::SeqCst};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

pub const SLOTS: usize = 64;
pub const K_OPEN: u32 = 1;
pub const K_WRITE: u32 = 2;
pub const K_READ: u32 = 4;
pub const K_MKDIR: u32 = 8;
pub const K_REMOVE: u32 = 16; // unlink, unlinkat, rmdir, opendir
pub const K_ALL: u32 = 31;

pub struct Slot {
    /// held around each call while crash images are taken
    pub lock: Mutex<()>,
    pub ops: AtomicU64,
    pub bg_ops: AtomicU64,
    pub removes: AtomicU64,
    // faults: the calls `fail_from .. fail_from + fail_n` (counted over the matching calls) fail
    pub fail_kinds: AtomicU32,
    pub fail_who: AtomicU32, // 1 foreground, 2 background, 3 both
    pub fail_from: AtomicU64,
    pub fail_n: AtomicU64,
    pub fail_errno: AtomicI32,
    pub fail_short: AtomicBool,
    /// largest number of bytes a read or write transfers
    pub trickle: AtomicU64,
    pub matched: AtomicU64,
    pub read_bytes: AtomicU64,
    /// files opened for reading are recorded while set
    pub track: AtomicBool,
    pub opened: Mutex<Vec<Vec<u8>>>,
    pub failed: AtomicU64,
    // compaction thread: allowed number of background calls
    pub allowed: AtomicU64,
    pub waiting: AtomicBool,
    /// how long it is held, in steps of 0.2 ms (0: 3 s), and how often it had to be let go
    pub patience: AtomicU64,
    pub expired: AtomicU64,
    // iterators alive: nothing may be removed, no background activity
    pub quiet: AtomicUsize,
    pub quiet_bg: AtomicU64,
    pub quiet_removes: AtomicU64,
    // crash images
    pub image: AtomicBool,
    pub bg_panics: AtomicU64,
    /// directories made by the case's own thread
    pub fg_mkdirs: AtomicU64,
    pub write_bytes: AtomicU64,
    pub write_calls: AtomicU64,
    /// descriptors of files (not directories) open now, and at most
    pub fds: AtomicI64,
    pub max_fds: AtomicI64,
    /// directories now, and at most
    pub dirs: AtomicI64,
    pub max_dirs: AtomicI64,
    // compaction threads: how many live, the one at work, how often two were at work at once, and their memory
    pub bg_threads: AtomicI64,
    pub bg_current: AtomicU64,
    pub bg_overlaps: AtomicU64,
    pub bg_live: AtomicI64,
    pub bg_peak: AtomicI64,
    // going on one instruction at a time: how often after a call of either thread (per mille), for how many instructions, how
    // many of the synchronizing ones are delayed (one in)
    pub step_fg: AtomicU64,
    pub step_bg: AtomicU64,
    pub step_length: AtomicU64,
    pub step_one_in: AtomicU64,
    pub step_seed: AtomicU64,
    /// operations the case has finished
    pub fg_ops: AtomicU64,
    pub step_stats: vh::step::Stats,
}
const Z: Slot = Slot {
    lock: Mutex::new(()),
    ops: AtomicU64::new(0),
    bg_ops: AtomicU64::new(0),
    removes: AtomicU64::new(0),
    fail_kinds: AtomicU32::new(0),
    fail_who: AtomicU32::new(3),
    fail_from: AtomicU64::new(0),
    fail_n: AtomicU64::new(0),
    fail_errno: AtomicI32::new(0),
    fail_short: AtomicBool::new(false),
    trickle: AtomicU64::new(u64::MAX),
    matched: AtomicU64::new(0),
    track: AtomicBool::new(false),
    opened: Mutex::new(Vec::new()),
    read_bytes: AtomicU64::new(0),
    failed: AtomicU64::new(0),
    allowed: AtomicU64::new(u64::MAX),
    waiting: AtomicBool::new(false),
    patience: AtomicU64::new(0),
    expired: AtomicU64::new(0),
    quiet: AtomicUsize::new(0),
    quiet_bg: AtomicU64::new(0),
    quiet_removes: AtomicU64::new(0),
    image: AtomicBool::new(false),
    bg_panics: AtomicU64::new(0),
    fg_mkdirs: AtomicU64::new(0),
    write_bytes: AtomicU64::new(0),
    write_calls: AtomicU64::new(0),
    fds: AtomicI64::new(0),
    max_fds: AtomicI64::new(0),
    dirs: AtomicI64::new(0),
    max_dirs: AtomicI64::new(0),
    bg_threads: AtomicI64::new(0),
    bg_current: AtomicU64::new(0),
    bg_overlaps: AtomicU64::new(0),
    bg_live: AtomicI64::new(0),
    bg_peak: AtomicI64::new(0),
    step_fg: AtomicU64::new(0),
    step_bg: AtomicU64::new(0),
    step_length: AtomicU64::new(0),
    step_one_in: AtomicU64::new(1),
    step_seed: AtomicU64::new(0),
    fg_ops: AtomicU64::new(0),
    step_stats: vh::step::Stats::ZERO,
};
pub static SLOT: [Slot; SLOTS] = [Z; SLOTS];
static FDS: [AtomicU8; 4096] = {
    const N: AtomicU8 = AtomicU8::new(0);
    [N; 4096]
};
static OPEN: [AtomicU8; 4096] = {
    const N: AtomicU8 = AtomicU8::new(0);
    [N; 4096]
};
/// the descriptor now belongs to a file of the slot, or to none
fn count_fd(fd: i64, slot: usize) {
    if fd >= 0 && (fd as usize) < OPEN.len() {
        let old = OPEN[fd as usize].swap(slot as u8, SeqCst) as usize;
        if old != 0 {
            SLOT[old - 1].fds.fetch_sub(1, SeqCst);
        }
        if slot != 0 {
            let n = SLOT[slot - 1].fds.fetch_add(1, SeqCst) + 1;
            SLOT[slot - 1].max_fds.fetch_max(n, SeqCst);
        }
    }
}
static THREADS: AtomicU64 = AtomicU64::new(1);
/// a compaction thread: its number, the slot it works for, and the live bytes already added to the slot's
#[derive(Clone, Copy)]
struct Worker {
    id: u64,
    slot: usize,
    counted: i64,
}
thread_local! {
    static WORKER: Cell<Worker> = const { Cell::new(Worker { id: 0, slot: 0, counted: 0 }) };
}
fn sync(mut w: Worker) {
    let (s, live) = (&SLOT[w.slot - 1], vh::core::mem().0);
    s.bg_live.fetch_add(live - w.counted, SeqCst);
    s.bg_peak.fetch_max(vh::core::peak(), SeqCst);
    w.counted = live;
    WORKER.with(|c| c.set(w));
}
/// runs when a thread has ended, after the destructors of its thread-local values
unsafe extern "C" fn ended(_: *mut c_void) {
    let w = WORKER.with(|c| c.get());
    sync(w);
    SLOT[w.slot - 1].bg_threads.fetch_sub(1, SeqCst);
}
fn on_worker(slot: usize) {
    static KEY: OnceLock<libc::pthread_key_t> = OnceLock::new();
    let s = &SLOT[slot - 1];
    let mut w = WORKER.with(|c| c.get());
    if w.slot == 0 {
        let key = *KEY.get_or_init(|| unsafe {
            let mut k = 0;
            libc::pthread_key_create(&mut k, Some(ended));
            k
        });
        unsafe { libc::pthread_setspecific(key, 1 as *const c_void) };
        w.id = THREADS.fetch_add(1, SeqCst);
        w.slot = slot;
        s.bg_threads.fetch_add(1, SeqCst);
        s.bg_current.store(w.id, SeqCst);
    } else if s.bg_current.load(SeqCst) != w.id {
        s.bg_overlaps.fetch_add(1, SeqCst);
    }
    sync(w);
}
pub static PREFIX: OnceLock<Vec<u8>> = OnceLock::new();
pub static IMAGER: OnceLock<fn(usize)> = OnceLock::new();

thread_local! {
    /// slot + 1 of the case this thread runs, 0 on compaction threads
    static FG: Cell<usize> = const { Cell::new(0) };
    static LAST: Cell<usize> = const { Cell::new(0) };
    static BYPASS: Cell<bool> = const { Cell::new(false) };
}
pub fn set_fg(slot: Option<usize>) {
    FG.with(|f| f.set(slot.map_or(0, |s| s + 1)));
}
/// is this thread another one than the case's own?
pub fn on_background(slot: usize) -> bool {
    FG.with(|f| f.get()) != slot + 1
}
/// the harness's own file accesses
pub fn bypass<T>(f: impl FnOnce() -> T) -> T {
    let old = BYPASS.with(|b| b.replace(true));
    let r = f();
    BYPASS.with(|b| b.set(old));
    r
}
/// called by the panic hook: attributes panics of compaction threads
pub fn note_panic() {
    let fg = FG.try_with(|f| f.get()).unwrap_or(1);
    let last = LAST.try_with(|f| f.get()).unwrap_or(0);
    if fg == 0 && last > 0 {
        SLOT[last - 1].bg_panics.fetch_add(1, SeqCst);
    }
}
impl Slot {
    pub fn reset(&self) {
        for a in [&self.ops, &self.bg_ops, &self.removes, &self.fail_from, &self.fail_n, &self.matched, &self.read_bytes, &self.failed, &self.quiet_bg, &self.quiet_removes, &self.bg_panics, &self.fg_mkdirs, &self.write_bytes, &self.write_calls] {
            a.store(0, SeqCst);
        }
        for a in [&self.bg_threads, &self.bg_live, &self.bg_peak, &self.dirs, &self.max_dirs] {
            a.store(0, SeqCst);
        }
        for a in [&self.bg_overlaps, &self.patience, &self.expired, &self.step_fg, &self.step_bg, &self.fg_ops] {
            a.store(0, SeqCst);
        }
        self.step_stats.reset();
        self.max_fds.store(self.fds.load(SeqCst), SeqCst);
        self.fail_kinds.store(0, SeqCst);
        self.allowed.store(u64::MAX, SeqCst);
        self.trickle.store(u64::MAX, SeqCst);
        self.quiet.store(0, SeqCst);
        self.image.store(false, SeqCst);
        self.track.store(false, SeqCst);
        self.fail_short.store(false, SeqCst);
    }
}

fn slot_of_path(p: *const c_char) -> usize {
    if BYPASS.with(|b| b.get()) {
        return 0;
    }
    let pre = match PREFIX.get() {
        Some(p) => p,
        None => return 0,
    };
    let b = unsafe { CStr::from_ptr(p) }.to_bytes();
    if b.len() > pre.len() + 2 && b.starts_with(pre) {
        let d = &b[pre.len()..pre.len() + 2];
        if d[0].is_ascii_digit() && d[1].is_ascii_digit() {
            return (d[0] - b'0') as usize * 10 + (d[1] - b'0') as usize + 1;
        }
    }
    0
}
fn slot_of_fd(fd: c_int) -> usize {
    if fd < 0 || fd as usize >= FDS.len() || BYPASS.with(|b| b.get()) {
        return 0;
    }
    FDS[fd as usize].load(SeqCst) as usize
}
fn mark(fd: i64, slot: usize) {
    if fd >= 0 && (fd as usize) < FDS.len() {
        FDS[fd as usize].store(slot as u8, SeqCst);
    }
}
/// before a call: Some(errno) if it has to fail
fn before(slot: usize, kind: u32) -> Option<c_int> {
    let s = &SLOT[slot - 1];
    let fg = FG.with(|f| f.get()) == slot;
    LAST.with(|l| l.set(slot));
    s.ops.fetch_add(1, SeqCst);
    if kind == K_REMOVE {
        s.removes.fetch_add(1, SeqCst);
    }
    if s.quiet.load(SeqCst) > 0 {
        if !fg {
            s.quiet_bg.fetch_add(1, SeqCst);
        }
        if kind == K_REMOVE {
            s.quiet_removes.fetch_add(1, SeqCst);
        }
    }
    if !fg {
        on_worker(slot);
        let n = s.bg_ops.fetch_add(1, SeqCst);
        if n >= s.allowed.load(SeqCst) {
            // held until the foreground lets it go on (or is itself waiting for this thread)
            let t = Instant::now();
            s.waiting.store(true, SeqCst);
            let patience = s.patience.load(SeqCst);
            let mut steps = 0;
            while n >= s.allowed.load(SeqCst) && (if patience == 0 { t.elapsed() < Duration::from_secs(3) } else { steps < patience }) {
                std::thread::sleep(Duration::from_micros(if patience == 0 { 20 } else { 200 }));
                steps += 1;
            }
            s.waiting.store(false, SeqCst);
            if n >= s.allowed.load(SeqCst) {
                s.expired.fetch_add(1, SeqCst);
            }
        }
    }
    let kinds = s.fail_kinds.load(SeqCst);
    if kinds & kind != 0 && s.fail_who.load(SeqCst) & (if fg { 1 } else { 2 }) != 0 {
        let m = s.matched.fetch_add(1, SeqCst);
        let from = s.fail_from.load(SeqCst);
        if m >= from && m - from < s.fail_n.load(SeqCst) {
            s.failed.fetch_add(1, SeqCst);
            return Some(s.fail_errno.load(SeqCst));
        }
    }
    None
}
fn after(slot: usize) {
    if SLOT[slot - 1].image.load(SeqCst) {
        if let Some(f) = IMAGER.get() {
            bypass(|| f(slot - 1));
        }
    }
}
unsafe fn fail(e: c_int) {
    *libc::__errno_location() = e;
}
unsafe fn sys(n: libc::c_long, a: usize, b: usize, c: usize, d: usize) -> i64 {
    libc::syscall(n, a, b, c, d) as i64
}
fn effect(slot: usize, kind: u32, f: impl FnOnce() -> i64) -> i64 {
    if slot == 0 {
        return f();
    }
    step::stop();
    let r = effect_inner(slot, kind, f);
    step::perhaps(slot, FG.with(|f| f.get()) == slot, if kind == K_READ || kind == K_WRITE { 1 } else { 4 });
    r
}
fn effect_inner(slot: usize, kind: u32, f: impl FnOnce() -> i64) -> i64 {
    if let Some(e) = before(slot, kind) {
        unsafe { fail(e) };
        return -1;
    }
    if SLOT[slot - 1].image.load(SeqCst) && kind != K_READ {
        let g = SLOT[slot - 1].lock.lock().unwrap_or_else(|e| e.into_inner());
        let r = f();
        let errno = unsafe { *libc::__errno_location() };
        after(slot);
        drop(g);
        unsafe { fail(errno) };
        r
    } else {
        f()
    }
}
fn at_most(slot: usize, n: usize) -> usize {
    if slot == 0 {
        return n;
    }
    n.min(SLOT[slot - 1].trickle.load(SeqCst) as usize)
}
const WRITING: c_int = libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC;

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let s = slot_of_path(p);
    let kind = if flags & WRITING != 0 { K_OPEN } else { K_READ };
    if s != 0 && SLOT[s - 1].track.load(SeqCst) && kind == K_READ {
        SLOT[s - 1].opened.lock().unwrap_or_else(|e| e.into_inner()).push(CStr::from_ptr(p).to_bytes().to_vec());
    }
    let r = effect(s, kind, || sys(libc::SYS_openat, libc::AT_FDCWD as usize, p as usize, flags as usize, mode as usize));
    mark(r, s);
    count_fd(r, if flags & libc::O_DIRECTORY != 0 { 0 } else { s });
    r as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let s = if *p == b'/' as c_char || d == libc::AT_FDCWD { slot_of_path(p) } else { slot_of_fd(d) };
    let kind = if flags & libc::O_DIRECTORY != 0 { K_REMOVE } else if flags & WRITING != 0 { K_OPEN } else { K_READ };
    let r = effect(s, kind, || sys(libc::SYS_openat, d as usize, p as usize, flags as usize, mode as usize));
    mark(r, s);
    count_fd(r, if flags & libc::O_DIRECTORY != 0 { 0 } else { s });
    r as c_int
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let s = slot_of_fd(fd);
    mark(fd as i64, 0);
    count_fd(fd as i64, 0);
    let r = sys(libc::SYS_close, fd as usize, 0, 0, 0) as c_int;
    if s != 0 {
        step::stop();
        step::perhaps(s, FG.with(|f| f.get()) == s, 12);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    let s = slot_of_fd(fd);
    let n = at_most(s, n);
    if s != 0 && n > 1 && SLOT[s - 1].fail_short.load(SeqCst) {
        // a full disk first takes a part
        if let Some(e) = before(s, K_WRITE) {
            if SLOT[s - 1].failed.load(SeqCst) == 1 {
                return sys(libc::SYS_write, fd as usize, b as usize, n / 2, 0) as ssize_t;
            }
            fail(e);
            return -1;
        }
        return sys(libc::SYS_write, fd as usize, b as usize, n, 0) as ssize_t;
    }
    put(s, effect(s, K_WRITE, || sys(libc::SYS_write, fd as usize, b as usize, n, 0)))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, o: off64_t) -> ssize_t {
    let s = slot_of_fd(fd);
    put(s, effect(s, K_WRITE, || sys(libc::SYS_pwrite64, fd as usize, b as usize, n, o as usize)))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    let s = slot_of_fd(fd);
    put(s, effect(s, K_WRITE, || sys(libc::SYS_writev, fd as usize, v as usize, n as usize, 0)))
}
fn put(slot: usize, r: i64) -> ssize_t {
    if slot != 0 && r > 0 {
        SLOT[slot - 1].write_bytes.fetch_add(r as u64, SeqCst);
        SLOT[slot - 1].write_calls.fetch_add(1, SeqCst);
    }
    r as ssize_t
}
fn got(slot: usize, r: i64) -> ssize_t {
    if slot != 0 && r > 0 {
        SLOT[slot - 1].read_bytes.fetch_add(r as u64, SeqCst);
    }
    r as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    let s = slot_of_fd(fd);
    let n = at_most(s, n);
    got(s, effect(s, K_READ, || sys(libc::SYS_read, fd as usize, b as usize, n, 0)))
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, o: off64_t) -> ssize_t {
    let s = slot_of_fd(fd);
    let n = at_most(s, n);
    got(s, effect(s, K_READ, || sys(libc::SYS_pread64, fd as usize, b as usize, n, o as usize)))
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off64_t) -> c_int {
    effect(slot_of_fd(fd), K_WRITE, || sys(libc::SYS_ftruncate, fd as usize, n as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    effect(slot_of_fd(fd), K_WRITE, || sys(libc::SYS_fsync, fd as usize, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    effect(slot_of_fd(fd), K_WRITE, || sys(libc::SYS_fdatasync, fd as usize, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: mode_t) -> c_int {
    let s = slot_of_path(p);
    if s != 0 && !on_background(s - 1) {
        SLOT[s - 1].fg_mkdirs.fetch_add(1, SeqCst);
    }
    let r = effect(s, K_MKDIR, || sys(libc::SYS_mkdir, p as usize, mode as usize, 0, 0));
    if s != 0 && r == 0 {
        let n = SLOT[s - 1].dirs.fetch_add(1, SeqCst) + 1;
        SLOT[s - 1].max_dirs.fetch_max(n, SeqCst);
    }
    r as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    effect(slot_of_path(a), K_WRITE, || sys(libc::SYS_rename, a as usize, b as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    effect(slot_of_path(p), K_REMOVE, || sys(libc::SYS_unlink, p as usize, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    let s = slot_of_path(p);
    let r = effect(s, K_REMOVE, || sys(libc::SYS_rmdir, p as usize, 0, 0, 0));
    if s != 0 && r == 0 {
        SLOT[s - 1].dirs.fetch_sub(1, SeqCst);
    }
    r as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, flags: c_int) -> c_int {
    let s = if *p == b'/' as c_char || d == libc::AT_FDCWD { slot_of_path(p) } else { slot_of_fd(d) };
    let r = effect(s, K_REMOVE, || sys(libc::SYS_unlinkat, d as usize, p as usize, flags as usize, 0));
    if s != 0 && r == 0 && flags & libc::AT_REMOVEDIR != 0 {
        SLOT[s - 1].dirs.fetch_sub(1, SeqCst);
    }
    r as c_int
}
