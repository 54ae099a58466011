//! TypedArena against a table of live entries (C17).
use crate::core::*;
use extended_collections::arena::{Entry, TypedArena};
use std::collections::HashMap;

pub trait AV: 'static {
    fn mk(v: u64) -> Self;
    fn val(&self) -> u64;
    fn set(&mut self, v: u64);
}
impl AV for u64 {
    fn mk(v: u64) -> Self { v }
    fn val(&self) -> u64 { *self }
    fn set(&mut self, v: u64) { *self = v }
}
impl AV for String {
    fn mk(v: u64) -> Self { v.to_string() }
    fn val(&self) -> u64 { self.parse().unwrap_or(u64::MAX) }
    fn set(&mut self, v: u64) { *self = v.to_string() }
}
pub fn history<V: AV>(ctx: &mut Ctx) -> R {
    let chunk = *ctx.rng.pick(&[0usize, 1, 1, 2, 2, 3, 4, 7, 16, 64]);
    ctx.note(format!("chunk size {}", chunk));
    let mut a: TypedArena<V> = TypedArena::new(chunk);
    // live: entry, value, address ; ids by position
    let mut live: Vec<(Entry, u64, usize)> = Vec::new();
    let mut freed: Vec<Entry> = Vec::new(); // vacant now
    let mut next = 1u64;
    let name = |e: &Entry| format!("{:?}", e);
    let mut at: HashMap<String, u64> = HashMap::new(); // live entries by debug name
    for _ in 0..ctx.rng.range(2, 6) {
        let pa = *ctx.rng.pick(&[25u64, 45, 50, 70]);
        for _ in 0..sz(ctx.rng.range(5, 120)) {
            let x = ctx.rng.below(100);
            if x < pa {
                let v = next;
                next += 1;
                ctx.op("allocate", v as i64, NOARG);
                let e = a.allocate(V::mk(v));
                ck!(live.iter().all(|l| l.0 != e), "allocate returned {} which is already live", name(&e));
                if !freed.is_empty() {
                    let p = freed.iter().position(|f| *f == e);
                    ck!(p.is_some(), "allocate returned the new slot {} although {} freed slots were available", name(&e), freed.len());
                    freed.remove(p.unwrap());
                    ctx.count("reused_slots", 1);
                }
                let addr = a.get(&e).map(|x| x as *const V as usize).unwrap_or(0);
                live.push((e, v, addr));
                at.insert(name(&e), v);
            } else if x < 85 {
                if live.is_empty() {
                    continue;
                }
                // newest, oldest, or any
                let i = match ctx.rng.below(4) {
                    0 => 0,
                    1 => live.len() - 1,
                    _ => ctx.rng.us(live.len()),
                };
                let (e, v, _) = live.swap_remove(i);
                ctx.op("free", v as i64, NOARG);
                ckeq!(guard("free of a live entry", || a.free(&e).val())?, v, "free({})", name(&e));
                freed.push(e);
                at.remove(&name(&e));
                ck!(a.get(&e).is_none(), "get of the freed entry {} is not None", name(&e));
                ck!(a.get_mut(&e).is_none(), "get_mut of the freed entry {} is not None", name(&e));
            } else if x < 93 {
                if live.is_empty() {
                    continue;
                }
                let i = ctx.rng.us(live.len());
                let v = next;
                next += 1;
                ctx.op("write", live[i].1 as i64, v as i64);
                let e = live[i].0;
                if ctx.rng.chance(1, 2) {
                    ckeq!(a[e].val(), live[i].1, "arena[{}]", name(&e));
                    a[e].set(v);
                } else {
                    let x = a.get_mut(&e);
                    ck!(x.is_some(), "get_mut of the live entry {} is None", name(&e));
                    x.unwrap().set(v);
                }
                live[i].1 = v;
                at.insert(name(&e), v);
            } else {
                // misuse: vacant entries panic on free and indexing and change nothing
                if let Some(e) = if freed.is_empty() { None } else { Some(freed[ctx.rng.us(freed.len())]) } {
                    ctx.op("free_vacant", NOARG, NOARG);
                    ck!(panics(|| { a.free(&e); }), "free of the vacant entry {} did not panic", name(&e));
                    ck!(panics(|| { let _ = a[e].val(); }), "indexing the vacant entry {} did not panic", name(&e));
                    ck!(panics(|| { a[e].set(1); }), "mutable indexing of the vacant entry {} did not panic", name(&e));
                    ck!(a.get(&e).is_none(), "get of the vacant entry {} is not None", name(&e));
                    ctx.count("vacant_misuses", 1);
                } else {
                    // an entry of another, larger arena is out of bounds here
                    let mut b: TypedArena<V> = TypedArena::new(chunk.max(1));
                    let n = live.len() + 2 * chunk.max(1) + 2;
                    let mut far = None;
                    for _ in 0..n {
                        far = Some(b.allocate(V::mk(0)));
                    }
                    let far = far.unwrap();
                    if !live.iter().any(|l| l.0 == far) && !freed.iter().any(|f| *f == far) {
                        ctx.op("foreign", NOARG, NOARG);
                        ck!(a.get(&far).is_none(), "get of the out-of-range entry {} is not None", name(&far));
                        ck!(panics(|| { a.free(&far); }), "free of the out-of-range entry {} did not panic", name(&far));
                        ctx.count("foreign_misuses", 1);
                    }
                }
            }
            ctx.count("operations", 1);
        }
        for (e, v, addr) in &live {
            let got = a.get(e);
            ck!(got.is_some(), "get of the live entry {} is None", name(e));
            ckeq!(got.unwrap().val(), *v, "get({})", name(e));
            if chunk > 0 && std::mem::size_of::<V>() > 0 {
                let now = got.unwrap() as *const V as usize;
                ck!(now == *addr, "the value of {} moved", name(e));
            }
        }
        for e in &freed {
            ck!(a.get(e).is_none(), "get of the freed entry {} is not None", name(e));
        }
        ctx.count("full_state_comparisons", 1);
        ctx.max("max_live", live.len() as u64);
    }
    Ok(())
}

/// more slots than fit 16 bits
pub fn huge<V: AV>(ctx: &mut Ctx) -> R {
    let chunk = *ctx.rng.pick(&[1usize, 3, 64, 1000, 70_000]);
    ctx.note(format!("chunk size {}", chunk));
    ctx.sig(ctx.rng.clone().u());
    let mut a: TypedArena<V> = TypedArena::new(chunk);
    let mut live: Vec<(Entry, u64, usize)> = Vec::new();
    let mut names: HashMap<String, u64> = HashMap::new();
    let mut vacant = 0usize;
    let mut next = 0u64;
    for round in 0..4 {
        let goal = live.len() + ctx.rng.range(10_000, 40_000) as usize + if round == 0 { 40_000 } else { 0 };
        while live.len() < goal {
            let e = a.allocate(V::mk(next));
            let old = names.insert(format!("{:?}", e), next);
            ck!(old.is_none(), "allocate returned {:?} which is already live with value {:?}", e, old);
            vacant = vacant.saturating_sub(1);
            let addr = a.get(&e).map(|x| x as *const V as usize).unwrap_or(0);
            live.push((e, next, addr));
            next += 1;
        }
        ctx.rng.shuffle(&mut live);
        let keep = ctx.rng.us(live.len());
        for (e, v, _) in live.drain(keep..) {
            ckeq!(guard("free of a live entry", || a.free(&e).val())?, v, "free({:?})", e);
            names.remove(&format!("{:?}", e));
            ck!(a.get(&e).is_none(), "get of the freed entry {:?} is not None", e);
            vacant += 1;
        }
        for (e, v, addr) in &live {
            let got = a.get(e);
            ckeq!(got.map(|x| x.val()), Some(*v), "get({:?})", e);
            if std::mem::size_of::<V>() > 0 {
                ckeq!(got.unwrap() as *const V as usize, *addr, "address of {:?}", e);
            }
        }
        ctx.max("max_live", goal as u64);
        ctx.max("max_vacant", vacant as u64);
    }
    Ok(())
}
