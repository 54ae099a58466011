//! Time of single operations on large collections (C39), from the CPU clock of the thread.
use crate::core::*;
use crate::cost::order;
use crate::keys::*;
use crate::list::*;
use crate::omap::*;
use crate::radix::*;
use extended_collections::arena::TypedArena;

/// nanoseconds one operation may take on average; a walk over the collections below takes over a millisecond
const LIMIT: u64 = 120_000;
const BATCH: u64 = 64;

fn now() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}
/// the cheapest of up to nine batches is within the limit: noise only ever adds time
fn quick(ctx: &mut Ctx, name: &str, what: &'static str, n: usize, mut f: impl FnMut(&mut Rng)) -> R {
    let mut best = u64::MAX;
    for _ in 0..9 {
        let mut rng = ctx.rng.clone();
        ctx.rng.u();
        let t = now();
        for _ in 0..BATCH {
            f(&mut rng);
        }
        best = best.min((now() - t) / BATCH);
        ctx.count("timed_operations", BATCH);
        if best < LIMIT / 3 {
            break;
        }
    }
    ctx.max("max_ns_per_operation", best);
    ctx.count("batches_judged", 1);
    ck!(best <= LIMIT, "{} of {} elements: {} takes {} microseconds", name, n, what, best / 1000);
    Ok(())
}
pub fn lists<S: SeqT<u64>>(ctx: &mut Ctx) -> R {
    let n = 200_000usize;
    let mode = ctx.idx % 6;
    ctx.note(format!("{} of {} elements, built in way {}", S::NAME, n, mode));
    ctx.sig(ctx.rng.clone().u());
    let mut s = S::new();
    let t = now();
    match mode {
        0 => (0..n as u64).for_each(|i| s.push_back(i)),
        1 => (0..n as u64).for_each(|i| s.push_front(i)),
        2 => {
            for i in 0..n {
                let at = ctx.rng.us(i + 1);
                s.insert(at, i as u64);
            }
        }
        3 => {
            // concatenation of many short lists, at either end
            while s.len() < n {
                let mut o = S::new();
                for j in 0..1 + ctx.rng.below(9) {
                    o.push_back(j);
                }
                s = if ctx.rng.chance(1, 2) { s.concat(o) } else { o.concat(s) };
            }
        }
        4 => {
            // concatenation of equals
            let mut q: std::collections::VecDeque<S> = (0..n as u64 / 3 + 1)
                .map(|i| {
                    let mut o = S::new();
                    (0..3).for_each(|j| o.push_back(i + j));
                    o
                })
                .collect();
            while q.len() > 1 {
                let (a, b) = (q.pop_front().unwrap(), q.pop_front().unwrap());
                q.push_back(a.concat(b));
            }
            s = q.pop_back().unwrap();
        }
        _ => {
            // insertions at one place, then removals of every other element
            for i in 0..2 * n {
                let at = s.len() / 3;
                s.insert(at, i as u64);
            }
            while s.len() > n {
                let at = ctx.rng.us(s.len());
                s.remove(at);
            }
        }
    }
    let built = now() - t;
    ctx.max("max_ns_per_building_step", built / n as u64);
    ck!(built / n as u64 <= LIMIT, "{}: building a list of {} elements in way {} took {} ms", S::NAME, n, mode, built / 1_000_000);
    let mut sum = 0u64;
    for pass in 0..2 {
        quick(ctx, S::NAME, "get", n, |r| sum = sum.wrapping_add(*s.get(r.us(n - 5000)).unwrap_or(&0)))?;
        quick(ctx, S::NAME, "get near the end", n, |r| {
            let l = s.len();
            sum = sum.wrapping_add(*s.get(l - 1 - r.us(3)).unwrap_or(&0))
        })?;
        quick(ctx, S::NAME, "get past the end", n, |r| sum += s.get(2 * n + r.us(9)).is_some() as u64)?;
        quick(ctx, S::NAME, "get_mut", n, |r| *s.get_mut(r.us(n - 5000)).unwrap() += 1)?;
        quick(ctx, S::NAME, "insert", n, |r| {
            let l = s.len();
            s.insert(r.us(l + 1), 7)
        })?;
        quick(ctx, S::NAME, "remove", n, |r| {
            let l = s.len();
            sum = sum.wrapping_add(s.remove(r.us(l)))
        })?;
        quick(ctx, S::NAME, "push_front", n, |_| s.push_front(1))?;
        quick(ctx, S::NAME, "push_back", n, |_| s.push_back(1))?;
        quick(ctx, S::NAME, "pop_front", n, |_| sum = sum.wrapping_add(s.pop_front()))?;
        quick(ctx, S::NAME, "pop_back", n, |_| sum = sum.wrapping_add(s.pop_back()))?;
        quick(ctx, S::NAME, "len", n, |_| sum = sum.wrapping_add(s.len() as u64))?;
        quick(ctx, S::NAME, "the first element of iter", n, |_| sum = sum.wrapping_add(*s.iter(true).next().unwrap()))?;
        let mut keep = Some(std::mem::replace(&mut s, S::new()));
        quick(ctx, S::NAME, "+ of one element", n, |r| {
            let mut o = S::new();
            o.push_back(3);
            let k = keep.take().unwrap();
            keep = Some(if r.chance(1, 2) { k.concat(o) } else { o.concat(k) });
        })?;
        s = keep.unwrap();
        if pass == 0 {
            // whole passes: linear altogether
            let t = now();
            ckeq!(s.iter(false).count(), s.len(), "{}: elements iterated", S::NAME);
            s.iter_mut(false).for_each(|x| *x ^= 1);
            ck!((now() - t) / n as u64 <= LIMIT / 20, "{}: iterating over {} elements took {} ms", S::NAME, n, (now() - t) / 1_000_000);
        }
    }
    ctx.count("checksum", sum & 1);
    let t = now();
    let c = s.consume().count() as u64;
    ck!(c > 0 && (now() - t) / c <= LIMIT / 20, "{}: consuming {} elements took {} ms", S::NAME, c, (now() - t) / 1_000_000);
    Ok(())
}
pub fn maps<KT: KeyT, VT: Val, M: OMap<KT, VT>>(ctx: &mut Ctx) -> R {
    let n = 150_000usize;
    let w = ctx.idx % 6;
    ctx.note(format!("{} of {} elements inserted in order {}", M::NAME, n, w));
    ctx.sig(ctx.rng.clone().u());
    let mut m = M::new();
    let t = now();
    for k in order(&mut ctx.rng, w, n) {
        m.insert(KT::mk(2 * k, 1), VT::mk(k as u64));
    }
    let built = now() - t;
    ctx.max("max_ns_per_building_step", built / n as u64);
    ck!(built / n as u64 <= LIMIT, "{}: inserting {} keys in order {} took {} ms", M::NAME, n, w, built / 1_000_000);
    let splay = M::NAME.starts_with("Splay");
    let mut sum = 0u64;
    for _ in 0..2 {
        if !splay || !M::SET {
            quick(ctx, M::NAME, "get_mut", n, |r| sum += m.get_mut(&Q(r.us(2 * n) as i64)).is_some() as u64)?;
        }
        quick(ctx, M::NAME, "insert", n, |r| sum += m.insert(KT::mk(r.us(2 * n) as i64, 2), VT::mk(1)).is_some() as u64)?;
        quick(ctx, M::NAME, "remove", n, |r| sum += m.remove(&Q(r.us(2 * n) as i64)).is_some() as u64)?;
        quick(ctx, M::NAME, "len", n, |_| sum = sum.wrapping_add(m.len() as u64))?;
        quick(ctx, M::NAME, "is_empty", n, |_| sum += m.is_empty() as u64)?;
        if !splay {
            quick(ctx, M::NAME, "get", n, |r| sum += m.get(&Q(r.us(2 * n) as i64)).is_some() as u64)?;
            quick(ctx, M::NAME, "contains", n, |r| sum += m.contains(&Q(r.us(2 * n) as i64)) as u64)?;
            quick(ctx, M::NAME, "floor", n, |r| sum += m.floor(&Q(r.us(2 * n) as i64)).is_some() as u64)?;
            quick(ctx, M::NAME, "ceil", n, |r| sum += m.ceil(&Q(r.us(2 * n) as i64)).is_some() as u64)?;
            quick(ctx, M::NAME, "min", n, |_| sum += m.min().is_some() as u64)?;
            quick(ctx, M::NAME, "max", n, |_| sum += m.max().is_some() as u64)?;
            quick(ctx, M::NAME, "the first element of iter", n, |_| sum += m.iter(true).next().is_some() as u64)?;
        }
    }
    ctx.count("checksum", sum & 1);
    let l = m.len();
    let t = now();
    ckeq!(m.iter(true).count(), l, "{}: elements iterated", M::NAME);
    ck!((now() - t) / l as u64 <= LIMIT / 20, "{}: iterating over {} elements took {} ms", M::NAME, l, (now() - t) / 1_000_000);
    let t = now();
    ckeq!(m.consume().count(), l, "{}: elements consumed", M::NAME);
    ck!((now() - t) / l as u64 <= LIMIT / 20, "{}: consuming {} elements took {} ms", M::NAME, l, (now() - t) / 1_000_000);
    Ok(())
}
/// the operands of one set operation hold n elements altogether: linear altogether
pub fn algebra<KT: KeyT, VT: Val, M: OMap<KT, VT> + Algebra>(ctx: &mut Ctx) -> R {
    let n = 60_000i64;
    ctx.sig(ctx.rng.clone().u());
    ctx.note(format!("{} set operations on {} elements", M::NAME, n));
    let w = ctx.idx % 4;
    let shape = ctx.idx / 4 % 4;
    let (mut a, mut b) = (M::new(), M::new());
    for i in 0..n {
        let left = match shape {
            0 => i % 2 == 0,
            1 => i < n / 2,
            2 => i >= 5,
            _ => ctx.rng.chance(1, 2),
        };
        if left { &mut a } else { &mut b }.insert(KT::mk(i, 1), VT::mk(1));
        if ctx.rng.chance(1, 9) {
            if left { &mut b } else { &mut a }.insert(KT::mk(i, 2), VT::mk(1));
        }
    }
    let t = now();
    let m = match w {
        0 => M::union(a, b, false),
        1 => M::intersection(a, b),
        2 => M::difference(a, b, false),
        _ => M::symmetric_difference(a, b),
    };
    let dt = now() - t;
    ctx.count("set_operations", 1);
    ctx.max("max_ns_per_element_of_set_operations", dt / n as u64);
    ck!(dt / n as u64 <= LIMIT / 8, "{}: set operation {} (operands of shape {}) on {} elements took {} ms", M::NAME, w, shape, n, dt / 1_000_000);
    drop(m);
    Ok(())
}
/// split_off costs a logarithm
pub fn split<KT: KeyT, VT: Val, M: OMap<KT, VT> + Algebra + SplitOff>(ctx: &mut Ctx) -> R {
    let n = 100_000i64;
    ctx.sig(ctx.rng.clone().u());
    ctx.note(format!("{} of {} elements split", M::NAME, n));
    let mut m = M::new();
    for i in order(&mut ctx.rng, ctx.idx % 6, n as usize) {
        m.insert(KT::mk(i, 1), VT::mk(1));
    }
    let mut parts = Vec::new();
    let mut top = n;
    let mut best = u64::MAX;
    for i in 0..60 {
        top -= 1 + ctx.rng.us(1500) as i64;
        let t = now();
        let r = m.split_off(top, i % 2 == 0);
        best = best.min(now() - t);
        ctx.count("splits", 1);
        parts.push(r);
    }
    ctx.max("max_ns_per_split", best);
    ck!(best <= LIMIT, "{}: the fastest of 60 split_off takes {} microseconds", M::NAME, best / 1000);
    let mut best = u64::MAX;
    for p in parts.into_iter().rev() {
        let t = now();
        m = M::union(m, p, false);
        best = best.min(now() - t);
    }
    ckeq!(m.len(), n as usize, "{}: elements after putting the parts together", M::NAME);
    ctx.max("max_ns_per_join", best);
    Ok(())
}
pub fn radixes<V: RV, M: Rad<V>>(ctx: &mut Ctx) -> R {
    let n = 150_000usize;
    let shape = ctx.idx % 4;
    ctx.note(format!("{} of {} keys of shape {}", M::NAME, n, shape));
    ctx.sig(ctx.rng.clone().u());
    let key = |x: usize| -> Vec<u8> {
        let h = splitmix(&mut (x as u64 * 77 + 5));
        match shape {
            0 => (x as u64).to_be_bytes().to_vec(),
            1 => h.to_be_bytes().to_vec(),
            2 => format!("k{}", x).into_bytes(),
            _ => format!("{:018b}", x).into_bytes(),
        }
    };
    let mut m = M::new();
    let t = now();
    for x in 0..n {
        m.insert(&key(x), V::mk(1));
    }
    let built = now() - t;
    ctx.max("max_ns_per_building_step", built / n as u64);
    ck!(built / n as u64 <= LIMIT, "{}: inserting {} keys took {} ms", M::NAME, n, built / 1_000_000);
    let mut sum = 0u64;
    for _ in 0..2 {
        quick(ctx, M::NAME, "get", n, |r| sum += m.get(&key(r.us(2 * n))).is_some() as u64)?;
        quick(ctx, M::NAME, "contains", n, |r| sum += m.contains(&key(r.us(2 * n))) as u64)?;
        quick(ctx, M::NAME, "insert", n, |r| sum += m.insert(&key(r.us(2 * n)), V::mk(1)).is_some() as u64)?;
        quick(ctx, M::NAME, "remove", n, |r| sum += m.remove(&key(r.us(n))).is_some() as u64)?;
        quick(ctx, M::NAME, "min", n, |_| sum += m.min().is_some() as u64)?;
        quick(ctx, M::NAME, "max", n, |_| sum += m.max().is_some() as u64)?;
        quick(ctx, M::NAME, "len", n, |_| sum = sum.wrapping_add(m.len() as u64))?;
        quick(ctx, M::NAME, "the first element of iter", n, |_| sum += m.iter(true).next().is_some() as u64)?;
    }
    ctx.count("checksum", sum & 1);
    let l = m.len();
    let t = now();
    ckeq!(m.iter(true).count(), l, "{}: elements iterated", M::NAME);
    ck!((now() - t) / l as u64 <= LIMIT / 8, "{}: iterating over {} keys took {} ms", M::NAME, l, (now() - t) / 1_000_000);
    Ok(())
}
pub fn arenas(ctx: &mut Ctx) -> R {
    let n = 300_000usize;
    let chunk = *ctx.rng.pick(&[1usize, 4, 64, 4096]);
    ctx.note(format!("arena of {} values, chunk size {}", n, chunk));
    ctx.sig(ctx.rng.clone().u());
    let mut a: TypedArena<u64> = TypedArena::new(chunk);
    let mut es: Vec<_> = (0..n as u64).map(|i| a.allocate(i)).collect();
    let mut sum = 0u64;
    for _ in 0..3 {
        quick(ctx, "TypedArena", "get", n, |r| sum = sum.wrapping_add(*a.get(&es[r.us(es.len())]).unwrap()))?;
        quick(ctx, "TypedArena", "get_mut", n, |r| *a.get_mut(&es[r.us(es.len())]).unwrap() += 1)?;
        quick(ctx, "TypedArena", "free", n, |r| {
            let e = es.swap_remove(r.us(es.len()));
            sum = sum.wrapping_add(a.free(&e))
        })?;
        quick(ctx, "TypedArena", "allocate", n, |_| es.push(a.allocate(1)))?;
    }
    ctx.count("checksum", sum & 1);
    Ok(())
}
