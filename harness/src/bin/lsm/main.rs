//! LsmMap: C26-C34, C40-C43.
mod h;
mod progress;
mod resources;
mod shape;
mod shim;
mod step;
mod suites;
mod tiers;
use std::num::NonZeroU32;
use progress::*;
use resources::*;
use shape::*;
use suites::*;
use tiers::*;
use vh::bp::{Pair, Rec};
use vh::core::*;

#[global_allocator]
static A: Counting = Counting;

fn main() {
    let o = parse_opts();
    let _ = shim::PREFIX.set(format!("{}/L", scratch()).into_bytes());
    let _ = shim::IMAGER.set(take_image);
    let _ = ON_PANIC.set(shim::note_panic);
    const S: bool = false;
    const L: bool = true;
    macro_rules! both {
        ($f:ident, $name:expr, $q:expr, $t:expr) => {
            vec![
                suite(concat!($name, "_tiered_u32"), $q / 2, $t / 2, $f::<u32, u64, S>),
                suite(concat!($name, "_tiered_string"), $q / 4, $t / 4, $f::<String, String, S>),
                suite(concat!($name, "_tiered_struct"), $q / 4, $t / 4, $f::<Pair, Rec, S>),
                suite(concat!($name, "_leveled_u32"), $q / 2, $t / 2, $f::<u32, u64, L>),
                suite(concat!($name, "_leveled_string"), $q / 4, $t / 4, $f::<String, String, L>),
                suite(concat!($name, "_leveled_struct"), $q / 4, $t / 4, $f::<Pair, Rec, L>),
            ]
        };
    }
    let suites = match o.prop.as_str() {
        "C26" => vec![
            suite("history_u32", 1200, 40000, history::<u32, u64, S>),
            suite("history_string", 600, 20000, history::<String, String, S>),
            suite("history_struct", 400, 12000, history::<Pair, Rec, S>),
            suite("history_u8", 300, 9000, history::<u8, Vec<u8>, S>),
            suite("history_unit", 200, 6000, history::<i64, (), S>),
            suite("versions_u32", 1500, 50000, versions::<u32, u64, S>),
            suite("versions_string", 500, 15000, versions::<String, String, S>),
            suite("large_u64", 24, 600, large::<u64, u64, S>),
        ],
        "C27" => vec![
            suite("history_u32", 1200, 40000, history::<u32, u64, L>),
            suite("history_string", 600, 20000, history::<String, String, L>),
            suite("history_struct", 400, 12000, history::<Pair, Rec, L>),
            suite("history_u8", 300, 9000, history::<u8, Vec<u8>, L>),
            suite("history_unit", 200, 6000, history::<i64, (), L>),
            suite("versions_u32", 1500, 50000, versions::<u32, u64, L>),
            suite("versions_string", 500, 15000, versions::<String, String, L>),
            suite("large_u64", 24, 600, large::<u64, u64, L>),
        ],
        "C28" => both!(sessions, "sessions", 2000, 60000),
        "C29" => {
            let mut v = both!(crash, "crash", 400, 12000);
            v.extend(both!(dropped, "dropped", 800, 24000));
            v
        }
        "C30" => both!(snapshots, "snapshots", 1600, 40000),
        "C31" => {
            let mut v = both!(schedules, "schedules", 1200, 40000);
            v.extend(both!(free_running, "free", 400, 12000));
            v.extend(both!(stepped, "stepped", 600, 12000));
            v
        }
        "C32" => {
            let mut v = both!(space, "space", 1600, 40000);
            v.extend(both!(churn, "churn", 160, 4000));
            v
        }
        "C33" => {
            let mut v = both!(one_table, "table", 1200, 40000);
            v.push(suite("table_u8", 300, 8000, one_table::<u8, Vec<u8>, S>));
            v.push(suite("table_niche", 300, 8000, one_table::<NonZeroU32, bool, S>));
            v.push(suite("table_unit", 300, 8000, one_table::<i64, (), L>));
            v.push(suite("big_table", 16, 400, big_table::<u64, u64, S>));
            v.push(suite("big_table_string", 8, 200, big_table::<String, String, L>));
            v.push(suite("huge_table", 2, 40, huge_table::<u64, u64, S>));
            v.push(suite("huge_table_leveled", 2, 40, huge_table::<u64, u64, L>));
            v.push(suite("many_tables", 8, 400, many_tables::<u32, u64, S>));
            v.push(suite("many_tables_leveled", 8, 400, many_tables::<String, String, L>));
            v.push(suite("big_values", 60, 1500, big_values::<u32, Vec<u8>, S>));
            v.push(suite("big_values_string", 40, 1000, big_values::<String, String, L>));
            v
        }
        "C34" => {
            let mut v = both!(faults, "faults", 3000, 90000);
            v.extend(both!(open_faults, "open", 400, 8000));
            v
        }
        "C40" => vec![
            suite("shape_u32", 500, 40000, leveled_shape::<u32, u64>),
            suite("shape_string", 300, 24000, leveled_shape::<String, String>),
            suite("shape_struct", 200, 16000, leveled_shape::<Pair, Rec>),
        ],
        "C41" => both!(lookup_cost, "lookups", 800, 24000),
        "C42" => both!(budget, "budget", 4000, 120000),
        "C43" => vec![suite("buckets", 2400, 80000, buckets)],
        "C46" => both!(creation, "creation", 600, 20000),
        "C45" => vec![suite("moves", 2000, 60000, leveled_moves)],
        "C47" => vec![
            suite("memory_tiered_u32", 60, 1500, memory::<u32, S>),
            suite("memory_tiered_string", 30, 700, memory::<String, S>),
            suite("memory_leveled_u32", 60, 1500, memory::<u32, L>),
            suite("memory_leveled_string", 30, 700, memory::<String, L>),
        ],
        "C49" => both!(progress, "progress", 1500, 50000),
        "C50" => vec![
            suite("refused_tiered", 1200, 40000, refused::<S>),
            suite("refused_leveled", 1200, 40000, refused::<L>),
        ],
        "C48" => both!(handles, "handles", 1200, 40000),
        x => panic!("unknown property {}", x),
    };
    std::process::exit(run(&o, suites));
}
