//! Instrumented key types: the order of a key is its `q`; the `tag` identifies the stored object.
use std::borrow::Borrow;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;

thread_local! {
    static REC: Cell<bool> = const { Cell::new(false) };
    static CMPS: Cell<u64> = const { Cell::new(0) };
    static LOG: RefCell<Vec<(i64, i64)>> = const { RefCell::new(Vec::new()) };
}
#[inline]
fn seen(a: i64, b: i64) {
    CMPS.with(|c| c.set(c.get() + 1));
    if REC.with(|r| r.get()) {
        LOG.with(|l| l.borrow_mut().push((a, b)));
    }
}
/// total number of key comparisons made by this thread
pub fn cmps() -> u64 {
    CMPS.with(|c| c.get())
}
/// runs f, returning the distinct stored keys compared with `sought`, in order of first comparison
pub fn record<T>(sought: i64, f: impl FnOnce() -> T) -> (T, Vec<i64>) {
    LOG.with(|l| l.borrow_mut().clear());
    REC.with(|r| r.set(true));
    let t = f();
    REC.with(|r| r.set(false));
    let mut path: Vec<i64> = Vec::new();
    LOG.with(|l| {
        for &(a, b) in l.borrow().iter() {
            let other = if a == sought { b } else { a };
            if path.last() != Some(&other) && !path.contains(&other) {
                path.push(other);
            }
        }
    });
    (t, path)
}
/// like record, but keys only counted (distinct)
pub fn record_all<T>(f: impl FnOnce() -> T) -> (T, Vec<(i64, i64)>) {
    LOG.with(|l| l.borrow_mut().clear());
    REC.with(|r| r.set(true));
    let t = f();
    REC.with(|r| r.set(false));
    (t, LOG.with(|l| l.borrow().clone()))
}

#[derive(Clone, Copy, Debug)]
pub struct Q(pub i64);
impl PartialEq for Q {
    fn eq(&self, o: &Q) -> bool {
        seen(self.0, o.0);
        self.0 == o.0
    }
}
impl Eq for Q {}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Q {
    fn cmp(&self, o: &Q) -> Ordering {
        seen(self.0, o.0);
        self.0.cmp(&o.0)
    }
}

pub trait KeyT: Ord + Borrow<Q> + 'static {
    fn mk(q: i64, tag: u32) -> Self;
    fn q(&self) -> i64;
    fn tag(&self) -> u32;
    /// a key used only as an argument of a lookup
    fn probe(q: i64) -> Self;
}
pub trait Val: 'static {
    const UNIT: bool = false;
    fn mk(v: u64) -> Self;
    fn val(&self) -> u64;
    fn set(&mut self, v: u64);
}
impl Val for u64 {
    fn mk(v: u64) -> Self {
        v
    }
    fn val(&self) -> u64 {
        *self
    }
    fn set(&mut self, v: u64) {
        *self = v
    }
}
impl Val for () {
    const UNIT: bool = true;
    fn mk(_: u64) {}
    fn val(&self) -> u64 {
        0
    }
    fn set(&mut self, _: u64) {}
}
impl Val for String {
    fn mk(v: u64) -> Self {
        format!("value-{}", v)
    }
    fn val(&self) -> u64 {
        self[6..].parse().unwrap_or(u64::MAX)
    }
    fn set(&mut self, v: u64) {
        *self = Self::mk(v)
    }
}

#[derive(Clone, Debug)]
pub struct K {
    pub q: Q,
    pub tag: u32,
}
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        self.q == o.q
    }
}
impl Eq for K {}
impl PartialOrd for K {
    fn partial_cmp(&self, o: &K) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for K {
    fn cmp(&self, o: &K) -> Ordering {
        self.q.cmp(&o.q)
    }
}
impl Borrow<Q> for K {
    fn borrow(&self) -> &Q {
        &self.q
    }
}
impl KeyT for K {
    fn mk(q: i64, tag: u32) -> Self {
        K { q: Q(q), tag }
    }
    fn q(&self) -> i64 {
        self.q.0
    }
    fn tag(&self) -> u32 {
        self.tag
    }
    fn probe(q: i64) -> Self {
        K { q: Q(q), tag: u32::MAX }
    }
}
