//! Uniform adapters over the five ordered map/set families.
use crate::keys::*;
use extended_collections::avl_tree::{AvlMap, AvlSet};
use extended_collections::red_black_tree::{RedBlackMap, RedBlackSet};
use extended_collections::skiplist::{SkipMap, SkipSet};
use extended_collections::splay_tree::{SplayMap, SplaySet};
use extended_collections::treap::{TreapMap, TreapSet};

pub trait OMap<KT: KeyT, VT: Val>: Sized + 'static {
    const NAME: &'static str;
    const SET: bool;
    fn new() -> Self;
    fn dflt() -> Self;
    fn insert(&mut self, k: KT, v: VT) -> Option<(KT, VT)>;
    fn remove(&mut self, q: &Q) -> Option<(KT, VT)>;
    fn get(&self, q: &Q) -> Option<&VT>;
    fn get_mut(&mut self, q: &Q) -> Option<&mut VT>;
    fn contains(&self, q: &Q) -> bool;
    fn index(&self, q: &Q) -> &VT;
    fn index_mut(&mut self, q: &Q) -> &mut VT;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn clear(&mut self);
    fn floor(&self, q: &Q) -> Option<&KT>;
    fn ceil(&self, q: &Q) -> Option<&KT>;
    fn min(&self) -> Option<&KT>;
    fn max(&self) -> Option<&KT>;
    fn iter<'a>(&'a self, by_ref: bool) -> Box<dyn Iterator<Item = (&'a KT, &'a VT)> + 'a>;
    fn iter_mut<'a>(&'a mut self, by_ref: bool) -> Box<dyn Iterator<Item = (&'a KT, &'a mut VT)> + 'a>;
    fn consume(self) -> Box<dyn Iterator<Item = (KT, VT)>>;
}
pub trait Algebra: Sized {
    fn union(a: Self, b: Self, op: bool) -> Self;
    fn intersection(a: Self, b: Self) -> Self;
    fn difference(a: Self, b: Self, op: bool) -> Self;
    fn symmetric_difference(a: Self, b: Self) -> Self;
}

macro_rules! map_impl {
    ($M:ident) => {
        impl<KT: KeyT, VT: Val> OMap<KT, VT> for $M<KT, VT> {
            const NAME: &'static str = stringify!($M);
            const SET: bool = false;
            fn new() -> Self { $M::new() }
            fn dflt() -> Self { Default::default() }
            fn insert(&mut self, k: KT, v: VT) -> Option<(KT, VT)> { $M::insert(self, k, v) }
            fn remove(&mut self, q: &Q) -> Option<(KT, VT)> { $M::remove(self, q) }
            fn get(&self, q: &Q) -> Option<&VT> { $M::get(self, q) }
            fn get_mut(&mut self, q: &Q) -> Option<&mut VT> { $M::get_mut(self, q) }
            fn contains(&self, q: &Q) -> bool { $M::contains_key(self, q) }
            fn index(&self, q: &Q) -> &VT { &self[q] }
            fn index_mut(&mut self, q: &Q) -> &mut VT { &mut self[q] }
            fn len(&self) -> usize { $M::len(self) }
            fn is_empty(&self) -> bool { $M::is_empty(self) }
            fn clear(&mut self) { $M::clear(self) }
            fn floor(&self, q: &Q) -> Option<&KT> { $M::floor(self, q) }
            fn ceil(&self, q: &Q) -> Option<&KT> { $M::ceil(self, q) }
            fn min(&self) -> Option<&KT> { $M::min(self) }
            fn max(&self) -> Option<&KT> { $M::max(self) }
            fn iter<'a>(&'a self, by_ref: bool) -> Box<dyn Iterator<Item = (&'a KT, &'a VT)> + 'a> {
                if by_ref { Box::new(IntoIterator::into_iter(self)) } else { Box::new($M::iter(self)) }
            }
            fn iter_mut<'a>(&'a mut self, by_ref: bool) -> Box<dyn Iterator<Item = (&'a KT, &'a mut VT)> + 'a> {
                if by_ref { Box::new(IntoIterator::into_iter(self)) } else { Box::new($M::iter_mut(self)) }
            }
            fn consume(self) -> Box<dyn Iterator<Item = (KT, VT)>> { Box::new(IntoIterator::into_iter(self)) }
        }
    };
}
map_impl!(AvlMap);
map_impl!(RedBlackMap);
map_impl!(SplayMap);
map_impl!(TreapMap);
map_impl!(SkipMap);

static UNIT: () = ();
fn unit_mut<'a>() -> &'a mut () {
    Box::leak(Box::new(()))
}
macro_rules! set_impl {
    ($S:ident, |$q:ident| $probe:expr) => {
        impl<KT: KeyT> OMap<KT, ()> for $S<KT> {
            const NAME: &'static str = stringify!($S);
            const SET: bool = true;
            fn new() -> Self { $S::new() }
            fn dflt() -> Self { Default::default() }
            fn insert(&mut self, k: KT, _: ()) -> Option<(KT, ())> { $S::insert(self, k).map(|k| (k, ())) }
            fn remove(&mut self, $q: &Q) -> Option<(KT, ())> { $S::remove(self, $probe).map(|k| (k, ())) }
            fn get(&self, q: &Q) -> Option<&()> { if $S::contains(self, q) { Some(&UNIT) } else { None } }
            fn get_mut(&mut self, q: &Q) -> Option<&mut ()> { if $S::contains(self, q) { Some(unit_mut()) } else { None } }
            fn contains(&self, q: &Q) -> bool { $S::contains(self, q) }
            fn index(&self, q: &Q) -> &() { assert!($S::contains(self, q)); &UNIT }
            fn index_mut(&mut self, q: &Q) -> &mut () { assert!($S::contains(self, q)); unit_mut() }
            fn len(&self) -> usize { $S::len(self) }
            fn is_empty(&self) -> bool { $S::is_empty(self) }
            fn clear(&mut self) { $S::clear(self) }
            fn floor(&self, q: &Q) -> Option<&KT> { $S::floor(self, q) }
            fn ceil(&self, q: &Q) -> Option<&KT> { $S::ceil(self, q) }
            fn min(&self) -> Option<&KT> { $S::min(self) }
            fn max(&self) -> Option<&KT> { $S::max(self) }
            fn iter<'a>(&'a self, by_ref: bool) -> Box<dyn Iterator<Item = (&'a KT, &'a ())> + 'a> {
                if by_ref { Box::new(IntoIterator::into_iter(self).map(|k| (k, &UNIT))) } else { Box::new($S::iter(self).map(|k| (k, &UNIT))) }
            }
            fn iter_mut<'a>(&'a mut self, _: bool) -> Box<dyn Iterator<Item = (&'a KT, &'a mut ())> + 'a> {
                Box::new($S::iter(self).map(|k| (k, unit_mut())))
            }
            fn consume(self) -> Box<dyn Iterator<Item = (KT, ())>> { Box::new(IntoIterator::into_iter(self).map(|k| (k, ()))) }
        }
    };
}
set_impl!(AvlSet, |q| &KT::probe(q.0));
set_impl!(RedBlackSet, |q| &KT::probe(q.0));
set_impl!(SplaySet, |q| &KT::probe(q.0));
set_impl!(TreapSet, |q| &KT::probe(q.0));
set_impl!(SkipSet, |q| q);

macro_rules! alg_impl {
    ($M:ident, $($p:ident),+) => {
        impl<$($p),+> Algebra for $M<$($p),+> where KT: KeyT {
            fn union(a: Self, b: Self, op: bool) -> Self { if op { a + b } else { $M::union(a, b) } }
            fn intersection(a: Self, b: Self) -> Self { $M::intersection(a, b) }
            fn difference(a: Self, b: Self, op: bool) -> Self { if op { a - b } else { $M::difference(a, b) } }
            fn symmetric_difference(a: Self, b: Self) -> Self { $M::symmetric_difference(a, b) }
        }
    };
}
alg_impl!(TreapMap, KT, VT);
alg_impl!(SkipMap, KT, VT);
alg_impl!(TreapSet, KT);
alg_impl!(SkipSet, KT);

pub trait SplitOff: Sized {
    fn split_off(&mut self, q: i64, inclusive: bool) -> Self;
}
impl<KT: KeyT, VT: Val> SplitOff for TreapMap<KT, VT> {
    fn split_off(&mut self, q: i64, inclusive: bool) -> Self {
        TreapMap::split_off(self, &Q(q), inclusive)
    }
}
impl<KT: KeyT> SplitOff for TreapSet<KT> {
    fn split_off(&mut self, q: i64, inclusive: bool) -> Self {
        TreapSet::split_off(self, &KT::probe(q), inclusive)
    }
}
