//! Iterator contracts (C35).
use crate::bst::*;
use crate::core::*;
use crate::keys::*;
use crate::list::*;
use crate::omap::*;
use crate::radix::{Gen, Rad, RH, RV};

/// several iterators over the same state, advanced in a random interleaving; each must yield exp and then None forever
fn interleave<'a, T: PartialEq + std::fmt::Debug>(ctx: &mut Ctx, name: &str, exp: &[T], mk: &dyn Fn(bool) -> Box<dyn Iterator<Item = T> + 'a>, mut between: impl FnMut(&mut Ctx) -> R) -> R {
    let k = ctx.rng.range(1, 4) as usize;
    let mut its: Vec<(Box<dyn Iterator<Item = T> + 'a>, usize, usize)> = Vec::new();
    for _ in 0..k {
        its.push((mk(ctx.rng.chance(1, 2)), 0, 0));
    }
    ctx.op("iterators", k as i64, exp.len() as i64);
    let mut late = ctx.rng.below(3);
    while !its.is_empty() {
        let i = ctx.rng.us(its.len());
        // runs of steps, so that one iterator may be far ahead of another
        for _ in 0..ctx.rng.range(1, 6) {
            let (it, at, nones) = &mut its[i];
            let g = it.next();
            ctx.count("iterator_steps", 1);
            if *at < exp.len() {
                ckeq!(g.as_ref(), Some(&exp[*at]), "{}: element {} of an iterator interleaved with {} others", name, at, k - 1);
                *at += 1;
            } else {
                ck!(g.is_none(), "{}: an iterator yields {:?} after its {} elements", name, g, exp.len());
                *nones += 1;
            }
        }
        if its[i].2 > 3 || ctx.rng.chance(1, 60) {
            drop(its.swap_remove(i)); // dropped early or finished
            if late > 0 {
                late -= 1;
                its.push((mk(ctx.rng.chance(1, 2)), 0, 0));
            }
        }
        if ctx.rng.chance(1, 10) {
            between(ctx)?;
        }
    }
    Ok(())
}
fn build<KT: KeyT, VT: Val, M: OMap<KT, VT>>(ctx: &mut Ctx) -> Result<Hist<KT, VT, M>, String> {
    if !SMALL.load(std::sync::atomic::Ordering::Relaxed) && ctx.rng.chance(1, 40) {
        return build_large(ctx);
    }
    let range = *ctx.rng.pick(&[1i64, 2, 4, 16, 64, 300]);
    let mut h = Hist::<KT, VT, M>::new(ctx.rng.chance(1, 4), range);
    ctx.note(format!("{} range {}", M::NAME, range));
    let n = ctx.rng.below(range as u64 * 3 + 1) as usize;
    h.phase(ctx, n, |_, _| Ok(()))?;
    Ok(h)
}
/// thousands of elements in the shape one insertion order leaves (for a splay tree: one long spine)
fn build_large<KT: KeyT, VT: Val, M: OMap<KT, VT>>(ctx: &mut Ctx) -> Result<Hist<KT, VT, M>, String> {
    let n = ctx.rng.range(400, 3000) as i64;
    let mode = ctx.rng.below(4);
    let mut h = Hist::<KT, VT, M>::new(false, n);
    ctx.note(format!("{} of {} keys, order {}", M::NAME, n, mode));
    ctx.count("large_collections", 1);
    let mut ks: Vec<i64> = (0..n).collect();
    match mode {
        0 => {}
        1 => ks.reverse(),
        2 => ks = (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
        _ => ctx.rng.shuffle(&mut ks),
    }
    for q in ks {
        let v = ctx.rng.below(1000);
        h.insert(ctx, q, v)?;
    }
    for _ in 0..*ctx.rng.pick(&[0usize, 0, 1, 5, 100]) {
        let q = ctx.rng.below(n as u64) as i64;
        if ctx.rng.chance(1, 2) {
            h.remove(ctx, q)?;
        } else {
            ckeq!(h.m().get(&Q(q)).is_some(), h.model.contains_key(&q), "{}: get({})", M::NAME, q);
        }
    }
    ctx.ops.truncate(20);
    Ok(h)
}
fn rows<KT: KeyT, VT: Val, M: OMap<KT, VT>>(h: &Hist<KT, VT, M>) -> Vec<(i64, u32, u64)> {
    h.model.iter().map(|(k, x)| (*k, x.0, x.1)).collect()
}
pub fn maps<KT: KeyT, VT: Val, M: OMap<KT, VT>>(ctx: &mut Ctx) -> R {
    let mut h = build::<KT, VT, M>(ctx)?;
    let exp = rows(&h);
    {
        let m = h.m.as_ref().unwrap();
        let model = &h.model;
        let range = h.range;
        interleave(ctx, M::NAME, &exp, &|by_ref| Box::new(m.iter(by_ref).map(|(k, v)| (k.q(), k.tag(), v.val()))), |ctx| {
            let q = ctx.rng.below(range as u64) as i64;
            ckeq!(m.get(&Q(q)).map(|v| v.val()), model.get(&q).map(|x| x.1), "{}: get({}) while iterating", M::NAME, q);
            ckeq!(m.len(), model.len(), "{}: len while iterating", M::NAME);
            Ok(())
        })?;
    }
    // all mutable references at once, written in a random order
    if !VT::UNIT {
        ctx.op("iter_mut_all", NOARG, NOARG);
        let by_ref = ctx.rng.chance(1, 2);
        let m = h.m.as_mut().unwrap();
        let mut it = m.iter_mut(by_ref);
        let take = if ctx.rng.chance(1, 2) { exp.len() } else { ctx.rng.us(exp.len() + 1) };
        let mut refs: Vec<(i64, &mut VT)> = Vec::new();
        for i in 0..take {
            match it.next() {
                Some((k, v)) => {
                    ckeq!((k.q(), k.tag(), v.val()), exp[i], "{}: iter_mut element {}", M::NAME, i);
                    refs.push((k.q(), v));
                }
                None => return Err(format!("{}: iter_mut ended after {} of {}", M::NAME, i, exp.len())),
            }
        }
        if take == exp.len() {
            for _ in 0..3 {
                ck!(it.next().is_none(), "{}: iter_mut yields more than {} elements", M::NAME, exp.len());
            }
        }
        drop(it);
        ctx.rng.shuffle(&mut refs);
        let base = ctx.rng.below(1 << 20);
        for (q, v) in refs {
            let n = base + (q & 0xffff) as u64;
            v.set(n);
            h.model.get_mut(&q).unwrap().1 = n;
        }
        h.deep(ctx)?;
    }
    // owning iteration
    let exp = rows(&h);
    let mut it = h.m.take().unwrap().consume();
    let stop = if ctx.rng.chance(1, 2) { exp.len() } else { ctx.rng.us(exp.len() + 1) };
    for (i, e) in exp.iter().take(stop).enumerate() {
        ckeq!(it.next().map(|(k, v)| (k.q(), k.tag(), v.val())), Some(*e), "{}: into_iter element {}", M::NAME, i);
    }
    if stop == exp.len() {
        for _ in 0..3 {
            ck!(it.next().is_none(), "{}: into_iter yields more than {} elements", M::NAME, exp.len());
        }
    }
    ctx.op("into_iter", stop as i64, NOARG);
    Ok(())
}
pub fn lists<T: Elem, S: SeqT<T>>(ctx: &mut Ctx) -> R {
    let mut l = L::<T, S>::new(ctx.rng.chance(1, 4));
    ctx.note(S::NAME.to_string());
    let grow = *ctx.rng.pick(&[40u64, 55, 70]);
    for _ in 0..sz(ctx.rng.below(150)) {
        l.step(ctx, grow)?;
    }
    if !SMALL.load(std::sync::atomic::Ordering::Relaxed) && ctx.rng.chance(1, 40) {
        ctx.count("large_collections", 1);
        let mode = ctx.rng.below(4);
        for _ in 0..ctx.rng.range(400, 3000) {
            let n = l.model.len();
            let i = match mode {
                0 => n,
                1 => 0,
                2 => n / 2,
                _ => ctx.rng.us(n + 1),
            };
            l.insert(ctx, i)?;
        }
        ctx.ops.truncate(20);
    }
    let exp = l.model.clone();
    {
        let s = l.s.as_ref().unwrap();
        interleave(ctx, S::NAME, &exp, &|by_ref| Box::new(s.iter(by_ref).map(|v| v.val())), |ctx| {
            let i = ctx.rng.us(exp.len() + 2);
            ckeq!(s.get(i).map(|v| v.val()), exp.get(i).cloned(), "{}: get({}) while iterating", S::NAME, i);
            Ok(())
        })?;
    }
    {
        ctx.op("iter_mut_all", NOARG, NOARG);
        let by_ref = ctx.rng.chance(1, 2);
        let s = l.s.as_mut().unwrap();
        let mut it = s.iter_mut(by_ref);
        let mut refs: Vec<(usize, &mut T)> = Vec::new();
        for i in 0..exp.len() {
            match it.next() {
                Some(v) => {
                    ckeq!(v.val(), exp[i], "{}: iter_mut element {}", S::NAME, i);
                    refs.push((i, v));
                }
                None => return Err(format!("{}: iter_mut ended after {} of {}", S::NAME, i, exp.len())),
            }
        }
        for _ in 0..3 {
            ck!(it.next().is_none(), "{}: iter_mut yields more than {} elements", S::NAME, exp.len());
        }
        drop(it);
        ctx.rng.shuffle(&mut refs);
        for (i, v) in refs {
            v.set(i as u64 + 7_000_000);
            l.model[i] = i as u64 + 7_000_000;
        }
        l.deep(ctx)?;
    }
    let exp = l.model.clone();
    let mut it = l.s.take().unwrap().consume();
    let stop = if ctx.rng.chance(1, 2) { exp.len() } else { ctx.rng.us(exp.len() + 1) };
    for (i, e) in exp.iter().take(stop).enumerate() {
        ckeq!(it.next().map(|v| v.val()), Some(*e), "{}: into_iter element {}", S::NAME, i);
    }
    if stop == exp.len() {
        for _ in 0..3 {
            ck!(it.next().is_none(), "{}: into_iter yields more than {} elements", S::NAME, exp.len());
        }
    }
    Ok(())
}
pub fn radixes<V: RV, M: Rad<V>>(ctx: &mut Ctx) -> R {
    let g = Gen::new(&mut ctx.rng);
    let mut h = RH::<V, M>::new(false);
    ctx.note(M::NAME.to_string());
    for _ in 0..sz(ctx.rng.below(120)) {
        h.step(ctx, &g, 55, 20)?;
    }
    if !SMALL.load(std::sync::atomic::Ordering::Relaxed) && ctx.rng.chance(1, 40) {
        // a chain of keys, each a prefix of the next one, with a fan of children on the way
        ctx.count("large_collections", 1);
        let chain: Vec<u8> = (0..ctx.rng.range(50, 400)).map(|_| ctx.rng.below(256) as u8).collect();
        let fan = ctx.rng.us(chain.len());
        let mut ks: Vec<Vec<u8>> = (0..=chain.len()).map(|n| chain[..n].to_vec()).collect();
        for b in 0..=255u8 {
            let mut k = chain[..fan].to_vec();
            k.push(b);
            ks.push(k);
        }
        ctx.rng.shuffle(&mut ks);
        for k in ks {
            let v = ctx.rng.below(1000);
            let got = h.m.as_mut().unwrap().insert(&k, V::mk(v)).map(|(k, v)| (k, v.val()));
            let v = h.v(v);
            let exp = h.model.insert(k.clone(), v).map(|v| (k.clone(), v));
            ckeq!(got, exp, "{}: insert", M::NAME);
        }
    }
    let exp: Vec<(Vec<u8>, u64)> = h.model.iter().map(|(k, v)| (k.clone(), *v)).collect();
    {
        let m = h.m.as_ref().unwrap();
        interleave(ctx, M::NAME, &exp, &|by_ref| m.iter(by_ref), |ctx| {
            if !exp.is_empty() {
                let e = &exp[ctx.rng.us(exp.len())];
                ckeq!(m.get(&e.0), Some(e.1), "{}: get while iterating", M::NAME);
            }
            Ok(())
        })?;
    }
    let mut n = 0;
    let mut bad = None;
    h.m.as_mut().unwrap().iter_mut(ctx.rng.chance(1, 2), &mut |i, k, v| {
        if exp.get(i) != Some(&(k, v)) {
            bad = Some(i);
            return None;
        }
        n += 1;
        Some(i as u64 + 5_000_000)
    });
    ck!(bad.is_none() && n == exp.len(), "{}: iter_mut yields {} of {} elements, first wrong one {:?}", M::NAME, n, exp.len(), bad);
    if !M::SET {
        for (i, v) in h.model.values_mut().enumerate() {
            *v = i as u64 + 5_000_000;
        }
    }
    h.full(ctx)?;
    let exp: Vec<(Vec<u8>, u64)> = h.model.iter().map(|(k, v)| (k.clone(), *v)).collect();
    let mut it = h.m.take().unwrap().consume();
    let stop = if ctx.rng.chance(1, 2) { exp.len() } else { ctx.rng.us(exp.len() + 1) };
    for (i, e) in exp.iter().take(stop).enumerate() {
        ckeq!(it.next().map(|(k, v)| (k, v.val())), Some(e.clone()), "{}: into_iter element {}", M::NAME, i);
    }
    if stop == exp.len() {
        for _ in 0..3 {
            ck!(it.next().is_none(), "{}: into_iter yields more than {} elements", M::NAME, exp.len());
        }
    }
    Ok(())
}
