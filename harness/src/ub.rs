//! Element types that stress layout and ownership (C21): heap-owning, over-aligned, zero-sized, one-byte.
use crate::core::*;
use crate::keys::*;
use crate::list::{Elem, SeqT};
use std::borrow::Borrow;
use std::cmp::Ordering;

macro_rules! keyt {
    ($N:ident, $mk:expr) => {
        impl PartialEq for $N {
            fn eq(&self, o: &$N) -> bool { self.q == o.q }
        }
        impl Eq for $N {}
        impl PartialOrd for $N {
            fn partial_cmp(&self, o: &$N) -> Option<Ordering> { Some(self.cmp(o)) }
        }
        impl Ord for $N {
            fn cmp(&self, o: &$N) -> Ordering { self.q.cmp(&o.q) }
        }
        impl Borrow<Q> for $N {
            fn borrow(&self) -> &Q { &self.q }
        }
        impl KeyT for $N {
            fn mk(q: i64, tag: u32) -> Self { $mk(q, tag) }
            fn q(&self) -> i64 { self.q.0 }
            fn tag(&self) -> u32 { self.tag() }
            fn probe(q: i64) -> Self { $mk(q, u32::MAX) }
        }
    };
}
/// key owning heap memory
pub struct KS {
    q: Q,
    s: Box<String>,
}
impl KS {
    fn tag(&self) -> u32 { self.s[1..].parse().unwrap_or(0xBAD) }
}
keyt!(KS, |q, tag: u32| KS { q: Q(q), s: Box::new(format!("t{}", tag)) });
/// over-aligned key
#[repr(align(64))]
pub struct KA {
    q: Q,
    t: u32,
}
impl KA {
    fn tag(&self) -> u32 {
        assert!(self as *const KA as usize % 64 == 0, "misaligned key at {:p}", self);
        self.t
    }
}
keyt!(KA, |q, t| KA { q: Q(q), t });
/// over-aligned value
#[repr(align(256))]
pub struct VA(u64);
impl VA {
    fn at(&self) -> u64 {
        assert!(self as *const VA as usize % 256 == 0, "misaligned value at {:p}", self);
        self.0
    }
}
impl Val for VA {
    fn mk(v: u64) -> Self { VA(v) }
    fn val(&self) -> u64 { self.at() }
    fn set(&mut self, v: u64) { self.0 = v }
}
impl Elem for VA {
    fn mk(v: u64) -> Self { VA(v) }
    fn val(&self) -> u64 { self.at() }
    fn set(&mut self, v: u64) { self.0 = v }
}
/// small elements with odd sizes
impl Elem for [u8; 9] {
    fn mk(v: u64) -> Self {
        let mut a = [0x5a; 9];
        a[..8].copy_from_slice(&v.to_le_bytes());
        a
    }
    fn val(&self) -> u64 {
        assert!(self[8] == 0x5a, "padding byte overwritten");
        u64::from_le_bytes([self[0], self[1], self[2], self[3], self[4], self[5], self[6], self[7]])
    }
    fn set(&mut self, v: u64) { *self = Elem::mk(v) }
}
impl Val for [u8; 9] {
    fn mk(v: u64) -> Self { Elem::mk(v) }
    fn val(&self) -> u64 { Elem::val(self) }
    fn set(&mut self, v: u64) { Elem::set(self, v) }
}
/// zero-sized elements: only counts can be compared
pub fn zst_list<S: SeqT<()>>(ctx: &mut Ctx) -> R {
    let mut s = S::new();
    let mut n = 0usize;
    for _ in 0..sz(ctx.rng.range(10, 200)) {
        match ctx.rng.below(6) {
            0..=2 => {
                let i = ctx.rng.us(n + 1);
                ctx.op("insert", i as i64, NOARG);
                s.insert(i, ());
                n += 1;
            }
            3 => {
                if n > 0 {
                    let i = ctx.rng.us(n);
                    ctx.op("remove", i as i64, NOARG);
                    s.remove(i);
                    n -= 1;
                }
            }
            4 => {
                ctx.op("iterate", NOARG, NOARG);
                ckeq!(s.iter(false).take(n + 2).count(), n, "{}: iter over zero-sized elements", S::NAME);
                ckeq!(s.iter_mut(true).take(n + 2).count(), n, "{}: iter_mut over zero-sized elements", S::NAME);
            }
            _ => {
                let i = ctx.rng.us(n + 2);
                ctx.op("get", i as i64, NOARG);
                ckeq!(s.get(i).is_some(), i < n, "{}: get({})", S::NAME, i);
            }
        }
        ckeq!(s.len(), n, "{}: len", S::NAME);
    }
    let mut o = S::new();
    for _ in 0..ctx.rng.below(5) {
        o.push_back(());
        n += 1;
    }
    let s = s.concat(o);
    let stop = ctx.rng.us(n + 1);
    let mut it = s.consume();
    for _ in 0..stop {
        ck!(it.next().is_some(), "{}: into_iter over zero-sized elements ended early", S::NAME);
    }
    Ok(())
}
/// a map from one-byte keys to zero-sized values through the plain public API
pub fn tiny_maps(ctx: &mut Ctx) -> R {
    use extended_collections::avl_tree::AvlMap;
    use extended_collections::red_black_tree::RedBlackMap;
    use extended_collections::skiplist::{SkipMap, SkipSet};
    use extended_collections::splay_tree::SplayMap;
    use extended_collections::treap::TreapMap;
    use std::collections::BTreeMap;
    macro_rules! drive {
        ($M:ident) => {{
            let mut m: $M<u8, ()> = $M::new();
            let mut model: BTreeMap<u8, ()> = BTreeMap::new();
            for _ in 0..sz(ctx.rng.range(5, 120)) {
                let k = ctx.rng.below(24) as u8;
                if ctx.rng.chance(3, 5) {
                    ckeq!(m.insert(k, ()), model.insert(k, ()).map(|_| (k, ())), "{}: insert({})", stringify!($M), k);
                } else {
                    ckeq!(m.remove(&k), model.remove(&k).map(|_| (k, ())), "{}: remove({})", stringify!($M), k);
                }
                ctx.op(stringify!($M), k as i64, NOARG);
            }
            for (_, v) in m.iter_mut().take(40) {
                *v = ();
            }
            let got: Vec<u8> = m.iter().take(40).map(|(k, _)| *k).collect();
            ckeq!(got, model.keys().cloned().collect::<Vec<_>>(), "{}: keys", stringify!($M));
            let half = got.len() / 2;
            let back: Vec<u8> = m.into_iter().take(half).map(|p| p.0).collect();
            ckeq!(back[..], got[..half], "{}: into_iter", stringify!($M));
        }};
    }
    drive!(AvlMap);
    drive!(RedBlackMap);
    drive!(SplayMap);
    drive!(TreapMap);
    drive!(SkipMap);
    // keys that are zero-sized: at most one element
    let mut m: SkipMap<(), String> = SkipMap::new();
    ck!(m.insert((), "a".into()).is_none(), "SkipMap<(), String>: first insert");
    ckeq!(m.insert((), "b".into()), Some(((), "a".to_string())), "SkipMap<(), String>: second insert");
    ckeq!(m.get(&()).cloned(), Some("b".to_string()), "SkipMap<(), String>: get");
    let mut n: SkipMap<(), String> = SkipMap::new();
    n.insert((), "c".into());
    let u = SkipMap::intersection(m, n);
    ckeq!(u.iter().map(|(_, v)| v.clone()).collect::<Vec<_>>(), vec!["b".to_string()], "SkipMap<(), String>: intersection");
    let mut a: SkipSet<()> = SkipSet::new();
    a.insert(());
    let b: SkipSet<()> = SkipSet::new();
    ckeq!(SkipSet::symmetric_difference(a, b).len(), 1, "SkipSet<()>: symmetric difference");
    // borrowed lookups of unsized keys
    let mut m: SkipMap<String, Vec<u8>> = SkipMap::new();
    for i in 0..sz(60) {
        m.insert(format!("k{:02}", i % 30), vec![i as u8; i as usize % 7]);
    }
    for i in 0..30 {
        let k = format!("k{:02}", i);
        let there = m.get(k.as_str()).is_some();
        ckeq!(m.remove(k.as_str()).is_some(), there, "SkipMap<String, _>: remove({})", k);
    }
    ck!(m.is_empty(), "SkipMap<String, _>: not empty after removing everything");
    Ok(())
}
