//! Lists, radix trees, arena, destruction, iterators: C09, C13, C15-C17, C20.
use extended_collections::avl_tree::{AvlMap, AvlSet};
use extended_collections::radix::{RadixMap, RadixSet};
use extended_collections::red_black_tree::{RedBlackMap, RedBlackSet};
use extended_collections::skiplist::{SkipList, SkipMap, SkipSet};
use extended_collections::splay_tree::{SplayMap, SplaySet};
use extended_collections::treap::{TreapList, TreapMap, TreapSet};
use vh::core::*;
use vh::drops::*;
use vh::keys::K;
use vh::{arena, iters, list, radix, space, speed};

#[global_allocator]
static A: Counting = Counting;

fn main() {
    let o = parse_opts();
    macro_rules! lists {
        ($L:ident) => {
            vec![
                suite("history", 30000, 800000, list::history::<u64, $L<u64>>),
                suite("history_string", 8000, 200000, list::history::<String, $L<String>>),
                suite("concat", 20000, 500000, list::concat::<u64, $L<u64>>),
                suite("large", 150, 3000, list::large::<u64, $L<u64>>),
                suite("huge", 4, 60, list::huge::<u64, $L<u64>>),
                suite("concat_large", 100, 3000, list::concat_large::<u64, $L<u64>>),
            ]
        };
    }
    let mut suites = match o.prop.as_str() {
        "C09" => lists!(TreapList),
        "C13" => lists!(SkipList),
        "C15" => vec![
            suite("history_map", 15000, 400000, radix::history::<u64, RadixMap<u64>>),
            suite("history_map_string", 3000, 80000, radix::history::<String, RadixMap<String>>),
            suite("history_set", 5000, 100000, radix::history::<(), RadixSet>),
            suite("small_map", 16384, 100000, radix::small::<u64, RadixMap<u64>>),
            suite("huge_map", 4, 60, radix::huge::<u64, RadixMap<u64>>),
            suite("wide_map", 300, 8000, radix::wide::<u64, RadixMap<u64>>),
            suite("long_map", 400, 12000, radix::long::<u64, RadixMap<u64>, false>),
            suite("long_set", 100, 3000, radix::long::<(), RadixSet, false>),
            suite("deep_map", 32, 600, radix::deep::<u64, RadixMap<u64>, false>),
            suite("deep_set", 8, 200, radix::deep::<(), RadixSet, false>),
        ],
        "C16" => vec![
            suite("glp_map", 20000, 600000, radix::glp::<u64, RadixMap<u64>>),
            suite("glp_set", 5000, 100000, radix::glp::<(), RadixSet>),
            suite("glp_small", 2048, 20480, radix::glp_small::<u64, RadixMap<u64>>),
            suite("glp_long", 400, 12000, radix::long::<u64, RadixMap<u64>, true>),
            suite("glp_deep", 24, 600, radix::deep::<u64, RadixMap<u64>, true>),
        ],
        "C17" => vec![
            suite("history", 20000, 1000000, arena::history::<u64>),
            suite("history_string", 5000, 200000, arena::history::<String>),
            suite("drops", 4000, 100000, arena_history),
            suite("huge", 8, 200, arena::huge::<u64>),
        ],
        "C20" => vec![
            suite("avl_map", 4000, 100000, map_history::<DV, AvlMap<DK, DV>>),
            suite("avl_set", 1000, 30000, map_history::<(), AvlSet<DK>>),
            suite("red_black_map", 4000, 100000, map_history::<DV, RedBlackMap<DK, DV>>),
            suite("red_black_set", 1000, 30000, map_history::<(), RedBlackSet<DK>>),
            suite("splay_map", 4000, 100000, map_history::<DV, SplayMap<DK, DV>>),
            suite("splay_set", 1000, 30000, map_history::<(), SplaySet<DK>>),
            suite("treap_map", 4000, 100000, map_history::<DV, TreapMap<DK, DV>>),
            suite("treap_set", 1000, 30000, map_history::<(), TreapSet<DK>>),
            suite("skip_map", 4000, 100000, map_history::<DV, SkipMap<DK, DV>>),
            suite("skip_set", 1000, 30000, map_history::<(), SkipSet<DK>>),
            suite("treap_algebra", 3000, 100000, map_algebra::<DV, TreapMap<DK, DV>>),
            suite("treap_set_algebra", 1000, 30000, map_algebra::<(), TreapSet<DK>>),
            suite("treap_split", 3000, 100000, map_split::<DV, TreapMap<DK, DV>>),
            suite("skip_algebra", 3000, 100000, map_algebra::<DV, SkipMap<DK, DV>>),
            suite("skip_set_algebra", 1000, 30000, map_algebra::<(), SkipSet<DK>>),
            suite("treap_list", 4000, 100000, list_history::<TreapList<DV>>),
            suite("treap_list_concat", 2000, 50000, list_concat::<TreapList<DV>>),
            suite("skip_list", 4000, 100000, list_history::<SkipList<DV>>),
            suite("skip_list_concat", 2000, 50000, list_concat::<SkipList<DV>>),
            suite("radix_map", 4000, 100000, radix_history::<RadixMap<DV>>),
            suite("arena", 4000, 100000, arena_history),
        ],
        "C35" => vec![
            suite("avl_map", 6000, 200000, iters::maps::<K, u64, AvlMap<K, u64>>),
            suite("avl_map_string", 2000, 50000, iters::maps::<K, String, AvlMap<K, String>>),
            suite("avl_set", 3000, 60000, iters::maps::<K, (), AvlSet<K>>),
            suite("redblack_map", 6000, 200000, iters::maps::<K, u64, RedBlackMap<K, u64>>),
            suite("redblack_map_string", 2000, 50000, iters::maps::<K, String, RedBlackMap<K, String>>),
            suite("redblack_set", 3000, 60000, iters::maps::<K, (), RedBlackSet<K>>),
            suite("splay_map", 6000, 200000, iters::maps::<K, u64, SplayMap<K, u64>>),
            suite("splay_map_string", 2000, 50000, iters::maps::<K, String, SplayMap<K, String>>),
            suite("splay_set", 3000, 60000, iters::maps::<K, (), SplaySet<K>>),
            suite("treap_map", 6000, 200000, iters::maps::<K, u64, TreapMap<K, u64>>),
            suite("treap_map_string", 2000, 50000, iters::maps::<K, String, TreapMap<K, String>>),
            suite("treap_set", 3000, 60000, iters::maps::<K, (), TreapSet<K>>),
            suite("skip_map", 6000, 200000, iters::maps::<K, u64, SkipMap<K, u64>>),
            suite("skip_map_string", 2000, 50000, iters::maps::<K, String, SkipMap<K, String>>),
            suite("skip_set", 3000, 60000, iters::maps::<K, (), SkipSet<K>>),
            suite("treap_list", 6000, 200000, iters::lists::<u64, TreapList<u64>>),
            suite("treap_list_string", 2000, 60000, iters::lists::<String, TreapList<String>>),
            suite("skip_list", 6000, 200000, iters::lists::<u64, SkipList<u64>>),
            suite("skip_list_string", 2000, 60000, iters::lists::<String, SkipList<String>>),
            suite("radix_map", 6000, 200000, iters::radixes::<u64, RadixMap<u64>>),
            suite("radix_set", 3000, 60000, iters::radixes::<(), RadixSet>),
        ],
        "C38" => vec![
            suite("avl_map", 900, 60000, space::maps::<K, u64, AvlMap<K, u64>>),
            suite("avl_set", 300, 20000, space::maps::<K, (), AvlSet<K>>),
            suite("redblack_map", 900, 60000, space::maps::<K, u64, RedBlackMap<K, u64>>),
            suite("redblack_set", 300, 20000, space::maps::<K, (), RedBlackSet<K>>),
            suite("splay_map", 900, 60000, space::maps::<K, u64, SplayMap<K, u64>>),
            suite("splay_set", 300, 20000, space::maps::<K, (), SplaySet<K>>),
            suite("treap_map", 900, 60000, space::maps::<K, u64, TreapMap<K, u64>>),
            suite("treap_set", 300, 20000, space::maps::<K, (), TreapSet<K>>),
            suite("skip_map", 900, 60000, space::maps::<K, u64, SkipMap<K, u64>>),
            suite("skip_set", 300, 20000, space::maps::<K, (), SkipSet<K>>),
            suite("treap_algebra", 600, 40000, space::algebra::<K, u64, TreapMap<K, u64>>),
            suite("treap_set_algebra", 200, 10000, space::algebra::<K, (), TreapSet<K>>),
            suite("skip_algebra", 600, 40000, space::algebra::<K, u64, SkipMap<K, u64>>),
            suite("skip_set_algebra", 200, 10000, space::algebra::<K, (), SkipSet<K>>),
            suite("treap_split", 600, 40000, space::split::<K, u64, TreapMap<K, u64>>),
            suite("treap_set_split", 200, 10000, space::split::<K, (), TreapSet<K>>),
            suite("treap_list", 900, 60000, space::lists::<TreapList<u64>>),
            suite("skip_list", 900, 60000, space::lists::<SkipList<u64>>),
            suite("radix_map", 3000, 200000, space::radixes::<u64, RadixMap<u64>>),
            suite("radix_map_string", 600, 40000, space::radixes::<String, RadixMap<String>>),
            suite("radix_set", 1000, 60000, space::radixes::<(), RadixSet>),
            suite("arena", 900, 60000, space::arenas),
        ],
        "C39" => vec![
            suite("avl_map", 2, 60, speed::maps::<K, u64, AvlMap<K, u64>>),
            suite("avl_set", 1, 30, speed::maps::<K, (), AvlSet<K>>),
            suite("redblack_map", 2, 60, speed::maps::<K, u64, RedBlackMap<K, u64>>),
            suite("redblack_set", 1, 30, speed::maps::<K, (), RedBlackSet<K>>),
            suite("splay_map", 2, 60, speed::maps::<K, u64, SplayMap<K, u64>>),
            suite("splay_set", 1, 30, speed::maps::<K, (), SplaySet<K>>),
            suite("treap_map", 2, 60, speed::maps::<K, u64, TreapMap<K, u64>>),
            suite("treap_set", 1, 30, speed::maps::<K, (), TreapSet<K>>),
            suite("skip_map", 2, 60, speed::maps::<K, u64, SkipMap<K, u64>>),
            suite("skip_set", 1, 30, speed::maps::<K, (), SkipSet<K>>),
            suite("treap_algebra", 6, 320, speed::algebra::<K, u64, TreapMap<K, u64>>),
            suite("skip_algebra", 6, 320, speed::algebra::<K, u64, SkipMap<K, u64>>),
            suite("treap_split", 2, 120, speed::split::<K, u64, TreapMap<K, u64>>),
            suite("treap_list", 4, 120, speed::lists::<TreapList<u64>>),
            suite("skip_list", 4, 120, speed::lists::<SkipList<u64>>),
            suite("radix_map", 2, 80, speed::radixes::<u64, RadixMap<u64>>),
            suite("radix_set", 2, 40, speed::radixes::<(), RadixSet>),
            suite("arena", 2, 80, speed::arenas),
        ],
        x => panic!("unknown property {}", x),
    };
    for s in &mut suites {
        s.quick = (s.quick * 3).min(s.thorough);
    }
    std::process::exit(run(&o, suites));
}
