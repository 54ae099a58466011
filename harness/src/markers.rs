//! Which collections the compiler lets cross threads: a collection, iterator or handle of elements that must not be sent (or
//! shared) must not be sendable (or shareable) itself, or safe code could race on the elements (C21). The answer of the
//! compiler is read out by method resolution, so no program that must not compile is needed.
use crate::core::*;
use extended_collections::arena::TypedArena;
use extended_collections::avl_tree::{AvlMap, AvlSet};
use extended_collections::radix::RadixMap;
use extended_collections::red_black_tree::{RedBlackMap, RedBlackSet};
use extended_collections::skiplist::{SkipList, SkipMap, SkipSet};
use extended_collections::splay_tree::{SplayMap, SplaySet};
use extended_collections::sync::Stack;
use extended_collections::treap::{TreapList, TreapMap, TreapSet};
use std::cell::Cell;
use std::rc::Rc;

struct Probe<'a, T>(&'a T);
trait MaySend {
    fn send(&self) -> bool {
        true
    }
}
trait MayNotSend {
    fn send(&self) -> bool {
        false
    }
}
trait MayShare {
    fn share(&self) -> bool {
        true
    }
}
trait MayNotShare {
    fn share(&self) -> bool {
        false
    }
}
impl<T: Send> MaySend for Probe<'_, T> {}
impl<T> MayNotSend for &Probe<'_, T> {}
impl<T: Sync> MayShare for Probe<'_, T> {}
impl<T> MayNotShare for &Probe<'_, T> {}

#[derive(PartialEq, Clone, Copy)]
enum Kind {
    Owned,
    Shared,
    Mutable,
}
/// collection, kind of handle, may be sent, may be shared
type Row = (&'static str, Kind, bool, bool);
macro_rules! row {
    ($M:ident, $kind:ident, $x:expr) => {
        (stringify!($M), Kind::$kind, (&Probe(&$x)).send(), (&Probe(&$x)).share())
    };
}
/// collections and iterators of one kind of element
macro_rules! rows {
    ($k:ty, $v:ty) => {{
        let mut out: Vec<Row> = Vec::new();
        macro_rules! shared {
            ($M:ident, $T:ty) => {{
                let m = <$T>::new();
                out.push(row!($M, Owned, m));
                out.push(row!($M, Shared, (&m).into_iter()));
                let it = m.into_iter();
                out.push(row!($M, Owned, it));
            }};
        }
        macro_rules! mutable {
            ($M:ident, $T:ty) => {{
                shared!($M, $T);
                let mut m = <$T>::new();
                out.push(row!($M, Mutable, (&mut m).into_iter()));
            }};
        }
        mutable!(AvlMap, AvlMap<$k, $v>);
        mutable!(RedBlackMap, RedBlackMap<$k, $v>);
        mutable!(SplayMap, SplayMap<$k, $v>);
        mutable!(TreapMap, TreapMap<$k, $v>);
        mutable!(SkipMap, SkipMap<$k, $v>);
        shared!(AvlSet, AvlSet<$k>);
        shared!(RedBlackSet, RedBlackSet<$k>);
        shared!(SplaySet, SplaySet<$k>);
        shared!(TreapSet, TreapSet<$k>);
        shared!(SkipSet, SkipSet<$k>);
        mutable!(TreapList, TreapList<$v>);
        mutable!(SkipList, SkipList<$v>);
        mutable!(RadixMap, RadixMap<$v>);
        out.push(row!(TypedArena, Owned, TypedArena::<$v>::new(4)));
        out.push(row!(Stack, Owned, Stack::<$v>::new()));
        out
    }};
}
pub fn auto_traits(ctx: &mut Ctx) -> R {
    // nothing here depends on the interpreter, and it objects to crossbeam's own initialization
    if cfg!(miri) {
        return Ok(());
    }
    // (elements, whether these may be sent, shared)
    let (name, rows): (&str, Vec<Row>) = match ctx.idx % 3 {
        0 => ("Rc", rows!(Rc<u32>, Rc<u32>)),
        1 => ("MutexGuard", rows!(u32, std::sync::MutexGuard<'static, u32>)),
        _ => ("Cell", rows!(Cell<u32>, Cell<u32>)),
    };
    ctx.note(format!("elements of type {}", name));
    ctx.sig(ctx.idx);
    for (what, kind, send, share) in rows {
        ctx.count("auto_traits_read", 2);
        let stack = what == "Stack";
        let handle = match kind {
            Kind::Owned => "",
            Kind::Shared => " (its iterator)",
            Kind::Mutable => " (its mutable iterator)",
        };
        match name {
            "Rc" => ck!(!send && !share, "a {}{} of Rc may be {}", what, handle, if send { "sent" } else { "shared" }),
            // may be shared but not sent; in maps and sets the keys are others
            "MutexGuard" if !what.ends_with("Set") => {
                ck!(!send || kind == Kind::Shared, "a {}{} of MutexGuard may be sent", what, handle);
                ck!(!stack || !share, "a {} of MutexGuard may be shared, and popping sends them", what);
            }
            // may be sent but not shared
            "Cell" => {
                ck!(!share || stack, "a {}{} of Cell may be shared", what, handle);
                ck!(!send || kind != Kind::Shared, "a {}{} of Cell may be sent, and shares them", what, handle);
            }
            _ => {}
        }
    }
    Ok(())
}
