//! C21: workloads for the sanitizers and the interpreter. With --parts N the given part runs on one
//! thread with short histories; otherwise the usual runner is used.
use extended_collections::avl_tree::AvlMap;
use extended_collections::radix::RadixMap;
use extended_collections::red_black_tree::RedBlackMap;
use extended_collections::skiplist::{SkipList, SkipMap, SkipSet};
use extended_collections::splay_tree::{SplayMap, SplaySet};
use extended_collections::treap::{TreapList, TreapMap, TreapSet};
use vh::bst::*;
use vh::core::*;
use vh::keys::K;
use vh::list::{concat, history as lhist};
use vh::ub::*;
use vh::{markers, arena, drops, iters, radix, stack, unwind};

fn suites(stack_too: bool) -> Vec<Suite> {
    let mut v = vec![
        suite("skip_map_heap", 1500, 40000, history::<KS, String, SkipMap<KS, String>>),
        suite("skip_map_aligned", 1500, 40000, history::<KA, VA, SkipMap<KA, VA>>),
        suite("skip_map_odd", 1500, 40000, history::<K, [u8; 9], SkipMap<K, [u8; 9]>>),
        suite("skip_set_heap", 1000, 20000, history::<KS, (), SkipSet<KS>>),
        suite("skip_set_aligned", 1000, 20000, history::<KA, (), SkipSet<KA>>),
        suite("skip_algebra_heap", 1500, 40000, algebra::<KS, String, SkipMap<KS, String>>),
        suite("skip_algebra_aligned", 1500, 40000, algebra::<KA, VA, SkipMap<KA, VA>>),
        suite("skip_algebra_set", 1000, 20000, algebra::<KS, (), SkipSet<KS>>),
        suite("skip_map_iters", 1500, 40000, iters::maps::<KS, String, SkipMap<KS, String>>),
        suite("skip_map_iters_aligned", 800, 20000, iters::maps::<KA, VA, SkipMap<KA, VA>>),
        suite("skip_list_heap", 2000, 50000, lhist::<String, SkipList<String>>),
        suite("skip_list_aligned", 2000, 50000, lhist::<VA, SkipList<VA>>),
        suite("skip_list_odd", 1500, 40000, lhist::<[u8; 9], SkipList<[u8; 9]>>),
        suite("skip_list_zst", 1500, 40000, zst_list::<SkipList<()>>),
        suite("skip_list_concat", 1500, 40000, concat::<String, SkipList<String>>),
        suite("skip_list_concat_aligned", 800, 20000, concat::<VA, SkipList<VA>>),
        suite("skip_list_iters", 1500, 40000, iters::lists::<String, SkipList<String>>),
        suite("tiny_maps", 1000, 20000, tiny_maps),
        suite("skip_drops", 1000, 20000, drops::map_history::<drops::DV, SkipMap<drops::DK, drops::DV>>),
        suite("skip_algebra_drops", 1000, 20000, drops::map_algebra::<drops::DV, SkipMap<drops::DK, drops::DV>>),
        suite("skip_list_drops", 1000, 20000, drops::list_history::<SkipList<drops::DV>>),
        suite("arena_heap", 1000, 20000, arena::history::<String>),
        suite("arena_drops", 500, 10000, drops::arena_history),
        suite("avl_heap", 600, 10000, history::<KS, String, AvlMap<KS, String>>),
        suite("avl_iters", 600, 10000, iters::maps::<KA, VA, AvlMap<KA, VA>>),
        suite("red_black_heap", 600, 10000, history::<KS, String, RedBlackMap<KS, String>>),
        suite("red_black_iters", 600, 10000, iters::maps::<KA, VA, RedBlackMap<KA, VA>>),
        suite("splay_heap", 600, 10000, history::<KS, String, SplayMap<KS, String>>),
        suite("splay_iters", 600, 10000, iters::maps::<KA, VA, SplayMap<KA, VA>>),
        suite("splay_set", 600, 10000, history::<KS, (), SplaySet<KS>>),
        suite("treap_heap", 600, 10000, history::<KS, String, TreapMap<KS, String>>),
        suite("treap_iters", 600, 10000, iters::maps::<KA, VA, TreapMap<KA, VA>>),
        suite("treap_algebra", 600, 10000, algebra::<KS, String, TreapMap<KS, String>>),
        suite("treap_split", 600, 10000, split::<KS, (), TreapSet<KS>>),
        suite("treap_list_heap", 600, 10000, lhist::<String, TreapList<String>>),
        suite("treap_list_zst", 600, 10000, zst_list::<TreapList<()>>),
        suite("treap_list_concat", 600, 10000, concat::<VA, TreapList<VA>>),
        suite("radix_heap", 1000, 20000, radix::history::<String, RadixMap<String>>),
        suite("radix_iters", 600, 10000, iters::radixes::<String, RadixMap<String>>),
        suite("bad_skip_map", 3000, 60000, unwind::maps_algebra::<unwind::PV, SkipMap<unwind::PK, unwind::PV>>),
        suite("bad_skip_set", 1500, 30000, unwind::maps_algebra::<(), SkipSet<unwind::PK>>),
        suite("bad_skip_list", 2000, 40000, unwind::lists::<SkipList<unwind::PV>>),
        suite("bad_treap", 600, 10000, unwind::maps_split::<unwind::PV, TreapMap<unwind::PK, unwind::PV>>),
        suite("bad_treap_list", 400, 8000, unwind::lists::<TreapList<unwind::PV>>),
        suite("bad_avl", 400, 8000, unwind::maps::<unwind::PV, AvlMap<unwind::PK, unwind::PV>>),
        suite("bad_red_black", 400, 8000, unwind::maps::<unwind::PV, RedBlackMap<unwind::PK, unwind::PV>>),
        suite("bad_splay", 400, 8000, unwind::maps::<unwind::PV, SplayMap<unwind::PK, unwind::PV>>),
        suite("bad_radix", 400, 8000, unwind::radixes::<RadixMap<unwind::PV>>),
        suite("auto_traits", 3, 3, markers::auto_traits),
        suite("bad_arena", 400, 8000, unwind::arenas),
        suite("radix_prefix", 600, 10000, radix::glp::<u64, RadixMap<u64>>),
    ];
    if stack_too {
        v.push(suite_serial("stack_exactly_once", 60, 2000, stack::exactly_once));
        v.push(suite_serial("stack_histories", 40, 1000, stack::histories));
        v.push(suite_serial("stack_kinds", 200, 4000, stack::kinds));
        v.push(suite("stack_bad", 200, 4000, unwind::stacks));
        v.push(suite("stack_sequential", 200, 4000, stack::sequential));
    }
    v
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("--parts") {
        let n = |i: usize| args[i].parse::<u64>().unwrap();
        // --parts N part seed per_suite [stack]
        if args.get(6).map(|s| s.as_str()) == Some("stack") {
            let v = suites(true).into_iter().filter(|s| s.name.starts_with("stack")).collect();
            std::process::exit(run_plain(n(4), n(3), n(2), n(5), v));
        }
        std::process::exit(run_plain(n(4), n(3), n(2), n(5), suites(false)));
    }
    let o = parse_opts();
    let s = if o.prop == "stack" {
        suites(true).into_iter().filter(|s| s.name.starts_with("stack")).collect()
    } else {
        suites(true)
    };
    std::process::exit(run(&o, s));
}
