//! Ordered maps and sets: C01-C08, C10-C12, C14.
use extended_collections::avl_tree::{AvlMap, AvlSet};
use extended_collections::red_black_tree::{RedBlackMap, RedBlackSet};
use extended_collections::skiplist::{SkipMap, SkipSet};
use extended_collections::splay_tree::{SplayMap, SplaySet};
use extended_collections::treap::{TreapMap, TreapSet};
use vh::bst::*;
use vh::core::*;
use vh::cost::*;
use vh::keys::K;

#[global_allocator]
static A: Counting = Counting;

fn model(prop: &str) -> Vec<Suite> {
    macro_rules! s {
        ($M:ident, $S:ident) => {
            vec![
                suite("history_map", 30000, 600000, history::<K, u64, $M<K, u64>>),
                suite("history_map_string", 4000, 100000, history::<K, String, $M<K, String>>),
                suite("history_set", 10000, 200000, history::<K, (), $S<K>>),
                suite("small_map", 46233, 409113, small::<K, u64, $M<K, u64>>),
                suite("small_set", 5913, 46233, small::<K, (), $S<K>>),
                suite("large_map", 240, 6000, large::<K, u64, $M<K, u64>>),
                suite("huge_map", 8, 64, huge::<K, u64, $M<K, u64>>),
            ]
        };
    }
    match prop {
        "C01" => s!(AvlMap, AvlSet),
        "C03" => s!(RedBlackMap, RedBlackSet),
        "C05" => s!(SplayMap, SplaySet),
        "C07" => s!(TreapMap, TreapSet),
        "C11" => s!(SkipMap, SkipSet),
        _ => unreachable!(),
    }
}

fn main() {
    let o = parse_opts();
    let mut suites = match o.prop.as_str() {
        p @ ("C01" | "C03" | "C05" | "C07" | "C11") => model(p),
        "C02" => vec![
            suite("avl_history", 20000, 400000, avl_history::<K, u64, AvlMap<K, u64>>),
            suite("avl_small", 46233, 409113, avl_small::<K, u64, AvlMap<K, u64>>),
            suite("avl_large", 400, 8000, avl_large::<K, u64, AvlMap<K, u64>>),
            suite("avl_set_history", 3000, 50000, avl_history::<K, (), AvlSet<K>>),
        ],
        "C04" => vec![
            suite("rb_history", 20000, 400000, rb_history::<K, u64, RedBlackMap<K, u64>>),
            suite("rb_small", 46233, 409113, rb_small::<K, u64, RedBlackMap<K, u64>>),
            suite("rb_large", 400, 8000, rb_large::<K, u64, RedBlackMap<K, u64>>),
            suite("rb_set_history", 3000, 50000, rb_history::<K, (), RedBlackSet<K>>),
        ],
        "C06" => vec![
            suite("splay_cost_map", 4000, 100000, splay_cost::<K, u64, SplayMap<K, u64>>),
            suite("splay_cost_set", 2000, 40000, splay_cost::<K, (), SplaySet<K>>),
            suite("splay_mix", 6000, 100000, splay_mix::<K, u64, SplayMap<K, u64>>),
            suite("splay_deep_map", 18, 36, splay_deep::<K, u64, SplayMap<K, u64>>),
            suite("splay_deep_set", 18, 36, splay_deep::<K, (), SplaySet<K>>),
        ],
        "C08" => vec![
            suite("algebra_map", 60000, 2000000, algebra::<K, u64, TreapMap<K, u64>>),
            suite("algebra_set", 15000, 500000, algebra::<K, (), TreapSet<K>>),
            suite("algebra_large", 160, 6000, algebra_large::<K, u64, TreapMap<K, u64>>),
            suite("split_map", 30000, 1000000, split::<K, u64, TreapMap<K, u64>>),
            suite("split_large", 80, 3000, split_large::<K, u64, TreapMap<K, u64>>),
            suite("split_set", 8000, 200000, split::<K, (), TreapSet<K>>),
        ],
        "C10" => vec![
            suite("orders_map", 1200, 30000, treap_orders::<K, u64, TreapMap<K, u64>>),
            suite("orders_set", 400, 10000, treap_orders::<K, (), TreapSet<K>>),
            suite("merges_map", 3000, 60000, treap_merges::<K, u64, TreapMap<K, u64>>),
            suite("merges_set", 600, 20000, treap_merges::<K, (), TreapSet<K>>),
            suite("list_deep", 12, 100, vh::list::treap_list_deep),
        ],
        "C12" => vec![
            suite("algebra_map", 60000, 2000000, algebra::<K, u64, SkipMap<K, u64>>),
            suite("algebra_set", 15000, 500000, algebra::<K, (), SkipSet<K>>),
            suite("algebra_large", 160, 6000, algebra_large::<K, u64, SkipMap<K, u64>>),
        ],
        "C14" => vec![
            suite("orders_map", 1500, 30000, skip_orders::<K, u64, SkipMap<K, u64>>),
            suite("orders_set", 400, 10000, skip_orders::<K, (), SkipSet<K>>),
            suite("algebra_map", 1500, 40000, skip_algebra::<K, u64, SkipMap<K, u64>>),
            suite("algebra_set", 400, 10000, skip_algebra::<K, (), SkipSet<K>>),
            suite("merges_map", 300, 10000, skip_merges::<K, u64, SkipMap<K, u64>>),
            suite("merges_set", 100, 3000, skip_merges::<K, (), SkipSet<K>>),
        ],
        x => panic!("unknown property {}", x),
    };
    for s in &mut suites {
        s.quick = (s.quick * 3).min(s.thorough);
    }
    std::process::exit(run(&o, suites));
}
