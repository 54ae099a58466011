//! Misbehaving elements (C21): comparisons and destructors that panic, orders that are not orders. The collections may
//! answer anything then, or panic, but must stay memory-safe: no element dropped twice, no dangling access.
use crate::core::*;
use crate::keys::*;
use crate::list::{Elem, SeqT};
use crate::omap::*;
use crate::radix::{Rad, RV};
use std::borrow::Borrow;
use std::cell::Cell;
use std::cmp::Ordering;

thread_local! {
    // comparisons / drops left until one panics (0 = never)
    static CMP_FUSE: Cell<u64> = const { Cell::new(0) };
    static DROP_FUSE: Cell<u64> = const { Cell::new(0) };
    // one in LIE comparisons gives a random answer (0 = never)
    static LIE: Cell<u64> = const { Cell::new(0) };
    static RND: Cell<u64> = const { Cell::new(1) };
    static BLOWN: Cell<u64> = const { Cell::new(0) };
    static LIES: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BAD: Cell<u64> = const { Cell::new(0) };
}
fn burn(f: &'static std::thread::LocalKey<Cell<u64>>) {
    let n = f.with(|c| c.get());
    if n > 0 && !std::thread::panicking() {
        f.with(|c| c.set(n - 1));
        if n == 1 {
            BLOWN.with(|b| b.set(b.get() + 1));
            panic!("fuse");
        }
    }
}
fn rnd() -> u64 {
    RND.with(|c| {
        let mut s = c.get();
        let r = splitmix(&mut s);
        c.set(s);
        r
    })
}
fn lies() -> bool {
    let n = LIE.with(|c| c.get());
    let l = n > 0 && rnd() % n == 0;
    if l {
        LIES.with(|c| c.set(c.get() + 1));
    }
    l
}
const MAGIC: u64 = 0x0DD5_EED5_0DD5_EED5;
/// owns heap memory, knows whether it is alive
struct Owned(Box<(u64, u64)>);
impl Owned {
    fn new(v: u64) -> Self {
        LIVE.with(|l| l.set(l.get() + 1));
        Owned(Box::new((v, MAGIC ^ v)))
    }
    fn get(&self) -> u64 {
        if self.0 .1 != MAGIC ^ self.0 .0 {
            BAD.with(|b| b.set(b.get() + 1));
        }
        self.0 .0
    }
}
impl Drop for Owned {
    fn drop(&mut self) {
        self.get();
        self.0 .1 = 0;
        LIVE.with(|l| l.set(l.get() - 1));
        burn(&DROP_FUSE);
    }
}
pub struct PK {
    q: Q,
    o: Owned,
}
fn misbehave(a: &PK, b: &PK) {
    a.o.get();
    b.o.get();
    burn(&CMP_FUSE);
}
impl PartialEq for PK {
    fn eq(&self, o: &PK) -> bool {
        misbehave(self, o);
        if lies() { rnd() % 2 == 0 } else { self.q.0 == o.q.0 }
    }
}
impl Eq for PK {}
impl PartialOrd for PK {
    fn partial_cmp(&self, o: &PK) -> Option<Ordering> { Some(self.cmp(o)) }
}
impl Ord for PK {
    fn cmp(&self, o: &PK) -> Ordering {
        misbehave(self, o);
        if lies() {
            [Ordering::Less, Ordering::Equal, Ordering::Greater][rnd() as usize % 3]
        } else {
            self.q.0.cmp(&o.q.0)
        }
    }
}
/// the borrowed form compares a different way: the answers of lookups contradict those of insertions
impl Borrow<Q> for PK {
    fn borrow(&self) -> &Q {
        self.o.get();
        burn(&CMP_FUSE);
        static OTHERS: [Q; 8] = [Q(-5), Q(0), Q(1), Q(7), Q(13), Q(21), Q(40), Q(900)];
        if lies() { &OTHERS[rnd() as usize % 8] } else { &self.q }
    }
}
impl KeyT for PK {
    fn mk(q: i64, tag: u32) -> Self { PK { q: Q(q), o: Owned::new(tag as u64) } }
    fn q(&self) -> i64 { self.q.0 }
    fn tag(&self) -> u32 { self.o.get() as u32 }
    fn probe(q: i64) -> Self { Self::mk(q, u32::MAX) }
}
pub struct PV(Owned);
macro_rules! pv {
    ($T:ident) => {
        impl $T for PV {
            fn mk(v: u64) -> Self { PV(Owned::new(v)) }
            fn val(&self) -> u64 { self.0.get() }
            fn set(&mut self, v: u64) { *self = PV(Owned::new(v)) }
        }
    };
}
pv!(Val);
pv!(Elem);
pv!(RV);

fn calm() {
    CMP_FUSE.with(|c| c.set(0));
    DROP_FUSE.with(|c| c.set(0));
    LIE.with(|c| c.set(0));
}
fn start(ctx: &mut Ctx) {
    calm();
    RND.with(|c| c.set(ctx.rng.u()));
    LIVE.with(|c| c.set(0));
    BAD.with(|c| c.set(0));
    BLOWN.with(|c| c.set(0));
    LIES.with(|c| c.set(0));
}
fn check(what: &str) -> R {
    ck!(BAD.with(|b| b.get()) == 0, "{}: an element was used or dropped after it had been dropped", what);
    ck!(LIVE.with(|l| l.get()) >= 0, "{}: more elements were dropped than were ever created", what);
    Ok(())
}
fn finish(ctx: &mut Ctx, what: &str) -> R {
    calm();
    check(what)?;
    ctx.count("panics_in_elements", BLOWN.with(|b| b.get()));
    ctx.count("false_comparisons", LIES.with(|b| b.get()));
    Ok(())
}
/// kinds of misbehaviour: 0 = comparisons panic, 1 = destructors panic, 2 = random order, 3 = any
fn arm(ctx: &mut Ctx, kind: u64) {
    let k = if kind == 3 { ctx.rng.below(3) } else { kind };
    match k {
        0 => {
            let n = 1 + ctx.rng.below(24);
            CMP_FUSE.with(|c| c.set(n))
        }
        1 => {
            let n = 1 + ctx.rng.below(12);
            DROP_FUSE.with(|c| c.set(n))
        }
        _ => {
            let n = *ctx.rng.pick(&[2u64, 3, 6, 20]);
            LIE.with(|c| c.set(n))
        }
    }
}
pub fn maps<VT: Val, M: OMap<PK, VT>>(ctx: &mut Ctx) -> R {
    one_map::<VT, M>(ctx, None)
}
pub fn maps_algebra<VT: Val, M: OMap<PK, VT> + Algebra>(ctx: &mut Ctx) -> R {
    one_map::<VT, M>(
        ctx,
        Some(|a, b, w| match w {
            0 => M::union(a, b, false),
            1 => M::intersection(a, b),
            2 => M::difference(a, b, false),
            _ => M::symmetric_difference(a, b),
        }),
    )
}
pub fn maps_split<VT: Val, M: OMap<PK, VT> + Algebra + SplitOff>(ctx: &mut Ctx) -> R {
    one_map::<VT, M>(
        ctx,
        Some(|mut a, b, w| match w {
            0 => M::union(a, b, false),
            1 => M::intersection(a, b),
            2 => M::difference(a, b, false),
            3 => M::symmetric_difference(a, b),
            w => {
                let o = a.split_off((w as i64 - 4) * 3, w % 2 == 0);
                drop(a);
                o
            }
        }),
    )
}
fn one_map<VT: Val, M: OMap<PK, VT>>(ctx: &mut Ctx, combine: Option<fn(M, M, u64) -> M>) -> R {
    start(ctx);
    let kind = ctx.rng.below(4);
    let range = *ctx.rng.pick(&[4i64, 12, 40]);
    ctx.note(format!("{} kind {} range {}", M::NAME, kind, range));
    let mut m = M::new();
    for _ in 0..sz(ctx.rng.range(8, 120)) {
        let q = ctx.rng.below(range as u64) as i64;
        if ctx.rng.chance(1, 4) {
            arm(ctx, kind);
        }
        let w = ctx.rng.below(24);
        ctx.op(["insert", "remove", "get", "search", "iterate", "consume", "combine", "clear"][match w { 0..=8 => 0, 9..=13 => 1, 14 | 15 => 2, 16 | 17 => 3, 18 | 19 => 4, 20 => 5, 21 | 22 => 6, _ => 7 }], q, NOARG);
        let mr = &mut m;
        let x = ctx.rng.u();
        match w {
            0..=8 => drop(panics(|| drop(mr.insert(PK::mk(q, x as u32 >> 8), VT::mk(x))))),
            9..=13 => {
                let _ = panics(|| drop(mr.remove(&Q(q))));
            }
            14 | 15 => {
                let _ = panics(|| {
                    mr.get(&Q(q)).map(|v| v.val());
                    mr.contains(&Q(q));
                    if let Some(v) = mr.get_mut(&Q(q)) {
                        v.set(x);
                    }
                });
            }
            16 | 17 => {
                let _ = panics(|| {
                    for k in [mr.floor(&Q(q)), mr.ceil(&Q(q)), mr.min(), mr.max()] {
                        k.map(|k| k.tag());
                    }
                });
            }
            18 | 19 => {
                let _ = panics(|| {
                    for (k, v) in mr.iter(x % 2 == 0).take(1000) {
                        k.tag();
                        v.val();
                    }
                    for (k, v) in mr.iter_mut(x % 3 == 0).take(1 + x as usize % 50) {
                        k.tag();
                        v.set(x);
                    }
                });
            }
            20 => {
                let old = std::mem::replace(&mut m, M::new());
                let stop = x as usize % 8;
                let _ = panics(move || {
                    let mut it = old.consume();
                    for _ in 0..stop {
                        if let Some((k, v)) = it.next() {
                            k.tag();
                            v.val();
                        }
                    }
                });
            }
            21 | 22 => {
                if let Some(f) = combine {
                    // the operands are built calmly
                    let (c, d, l) = (CMP_FUSE.with(|c| c.replace(0)), DROP_FUSE.with(|c| c.replace(0)), LIE.with(|c| c.replace(0)));
                    let mut o = M::new();
                    for i in 0..x % 24 {
                        o.insert(PK::mk(((x >> 8).wrapping_mul(i + 1) % range as u64) as i64, 1), VT::mk(i));
                    }
                    CMP_FUSE.with(|s| s.set(c));
                    DROP_FUSE.with(|s| s.set(d));
                    LIE.with(|s| s.set(l));
                    let old = std::mem::replace(&mut m, M::new());
                    let (a, b) = if x % 5 == 0 { (o, old) } else { (old, o) };
                    let slot = &mut m;
                    let _ = panics(move || *slot = f(a, b, (x >> 40) % 8));
                }
            }
            _ => {
                let _ = panics(|| mr.clear());
            }
        }
        if kind != 2 || ctx.rng.chance(1, 3) {
            calm();
        }
        check(M::NAME)?;
    }
    calm();
    // what is left is still usable
    let _ = panics(|| {
        for (k, v) in m.iter(false).take(1000) {
            k.tag();
            v.val();
        }
    });
    if kind == 1 && ctx.rng.chance(1, 2) {
        arm(ctx, 1);
    }
    let _ = panics(move || drop(m));
    finish(ctx, M::NAME)
}
pub fn lists<S: SeqT<PV>>(ctx: &mut Ctx) -> R {
    start(ctx);
    let mut s = S::new();
    for _ in 0..sz(ctx.rng.range(8, 120)) {
        let n = s.len() as u64;
        let x = ctx.rng.u();
        if ctx.rng.chance(1, 4) {
            arm(ctx, 1);
        }
        let w = ctx.rng.below(16);
        ctx.op(["insert", "remove", "get", "iterate", "consume", "concat", "clear"][match w { 0..=6 => 0, 7..=9 => 1, 10 => 2, 11 => 3, 12 => 4, 13 | 14 => 5, _ => 6 }], n as i64, NOARG);
        let sr = &mut s;
        let _ = match w {
            0..=6 => panics(|| sr.insert((x % (n + 1)) as usize, Elem::mk(x))),
            7..=9 => panics(|| {
                if n > 0 {
                    drop(sr.remove((x % n) as usize))
                }
            }),
            10 => panics(|| {
                if let Some(v) = sr.get_mut((x % (n + 1)) as usize) {
                    Elem::set(v, x)
                }
            }),
            11 => panics(|| {
                for v in sr.iter(true).take(1000) {
                    Elem::val(v);
                }
                for v in sr.iter_mut(true).take(20) {
                    Elem::set(v, x);
                }
            }),
            12 => {
                let old = std::mem::replace(&mut s, S::new());
                panics(move || {
                    let mut it = old.consume();
                    for _ in 0..x % 8 {
                        it.next().map(|v| Elem::val(&v));
                    }
                })
            }
            13 | 14 => {
                let d = DROP_FUSE.with(|c| c.replace(0));
                let mut o = S::new();
                for i in 0..x % 20 {
                    o.push_back(Elem::mk(i));
                }
                DROP_FUSE.with(|c| c.set(d));
                let old = std::mem::replace(&mut s, S::new());
                let slot = &mut s;
                panics(move || *slot = old.concat(o))
            }
            _ => panics(|| sr.clear()),
        };
        calm();
        check(S::NAME)?;
    }
    if ctx.rng.chance(1, 2) {
        arm(ctx, 1);
    }
    let _ = panics(move || drop(s));
    finish(ctx, S::NAME)
}
pub fn radixes<M: Rad<PV>>(ctx: &mut Ctx) -> R {
    start(ctx);
    let mut m = M::new();
    for _ in 0..sz(ctx.rng.range(8, 100)) {
        let x = ctx.rng.u();
        let len = ctx.rng.us(5);
        let key: Vec<u8> = (0..len).map(|i| (x >> (8 * i)) as u8 % 3).collect();
        if ctx.rng.chance(1, 4) {
            arm(ctx, 1);
        }
        let w = ctx.rng.below(12);
        ctx.op(["insert", "remove", "iterate", "clear"][match w { 0..=5 => 0, 6..=8 => 1, 9 | 10 => 2, _ => 3 }], x as i64, NOARG);
        let mr = &mut m;
        let _ = match w {
            0..=5 => panics(|| drop(mr.insert(&key, RV::mk(x)))),
            6..=8 => panics(|| drop(mr.remove(&key))),
            9 | 10 => panics(|| {
                mr.iter(true).take(1000).count();
                mr.iter_mut(true, &mut |i, _, v| if i < 20 { Some(v ^ x) } else { None });
            }),
            _ => panics(|| mr.clear()),
        };
        calm();
        check(M::NAME)?;
    }
    if ctx.rng.chance(1, 2) {
        arm(ctx, 1);
    }
    let _ = panics(move || drop(m));
    finish(ctx, M::NAME)
}
pub fn arenas(ctx: &mut Ctx) -> R {
    use extended_collections::arena::TypedArena;
    start(ctx);
    let mut a: TypedArena<PV> = TypedArena::new(1 + ctx.rng.us(6));
    let mut live = Vec::new();
    for _ in 0..sz(ctx.rng.range(8, 100)) {
        let x = ctx.rng.u();
        if ctx.rng.chance(1, 4) {
            arm(ctx, 1);
        }
        ctx.op("step", x as i64, NOARG);
        let (ar, lr) = (&mut a, &mut live);
        let _ = match x % 4 {
            0 | 1 => panics(|| lr.push(ar.allocate(Elem::mk(x)))),
            2 => panics(|| {
                if !lr.is_empty() {
                    let e = lr.swap_remove((x >> 8) as usize % lr.len());
                    drop(ar.free(&e));
                }
            }),
            _ => panics(|| {
                if !lr.is_empty() {
                    let e = &lr[(x >> 8) as usize % lr.len()];
                    Elem::set(&mut ar[*e], x);
                    Elem::val(&ar[*e]);
                }
            }),
        };
        calm();
        check("TypedArena")?;
    }
    if ctx.rng.chance(1, 2) {
        arm(ctx, 1);
    }
    let _ = panics(move || drop(a));
    finish(ctx, "TypedArena")
}
pub fn stacks(ctx: &mut Ctx) -> R {
    use extended_collections::sync::Stack;
    start(ctx);
    let s: Stack<PV> = Stack::new();
    for _ in 0..sz(ctx.rng.range(4, 60)) {
        let x = ctx.rng.u();
        if ctx.rng.chance(1, 4) {
            arm(ctx, 1);
        }
        ctx.op("step", x as i64, NOARG);
        let sr = &s;
        let _ = if x % 3 > 0 { panics(|| sr.push(Elem::mk(x))) } else { panics(|| drop(sr.try_pop())) };
        calm();
        check("Stack")?;
    }
    if ctx.rng.chance(1, 2) {
        arm(ctx, 1);
    }
    let _ = panics(move || drop(s));
    finish(ctx, "Stack")
}
