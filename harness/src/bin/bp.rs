//! BpMap: C22-C25.
use std::num::NonZeroU32;
use vh::bp::*;
use vh::core::*;

#[global_allocator]
static A: Counting = Counting;

fn main() {
    let o = parse_opts();
    let mut suites = match o.prop.as_str() {
        "C22" => vec![
            suite("history_u32", 3000, 80000, history::<u32, u64>),
            suite("history_string", 1200, 40000, history::<String, String>),
            suite("history_struct", 800, 20000, history::<Pair, Rec>),
            suite("history_u8", 600, 20000, history::<u8, Vec<u8>>),
            suite("history_unit", 400, 10000, history::<i64, ()>),
            suite("history_niche", 400, 10000, history::<NonZeroU32, bool>),
            suite("small_u32", 2640, 66000, small::<u32, u64>),
            suite("small_string", 660, 6600, small::<String, Vec<u8>>),
            suite("huge_u64", 2, 16, huge::<u64, u64>),
            suite("large_u64", 48, 1200, large::<u64, u64>),
            suite("large_string", 16, 400, large::<String, String>),
        ],
        "C23" => vec![
            suite("sessions_u32", 2000, 60000, sessions::<u32, u64>),
            suite("sessions_string", 1000, 30000, sessions::<String, String>),
            suite("sessions_struct", 800, 20000, sessions::<Pair, Rec>),
            suite("sessions_unit", 400, 10000, sessions::<u8, ()>),
            suite("sessions_niche", 400, 10000, sessions::<NonZeroU32, Vec<u8>>),
            suite("tight_u32", 600, 20000, sessions_tight::<u32, u64>),
            suite("tight_string", 300, 10000, sessions_tight::<String, Vec<u8>>),
        ],
        "C24" => vec![
            suite("full_u32_u64", 200, 4000, full_pages::<u32, u64>),
            suite("full_u64_string", 300, 6000, full_pages::<u64, String>),
            suite("full_string_string", 400, 8000, full_pages::<String, String>),
            suite("full_string_unit", 200, 4000, full_pages::<String, ()>),
            suite("full_string_u64", 200, 4000, full_pages::<String, u64>),
            suite("full_niche_bool", 200, 4000, full_pages::<NonZeroU32, bool>),
            suite("full_u8_vec", 200, 4000, full_pages::<u8, Vec<u8>>),
            suite("full_struct_record", 300, 6000, full_pages::<Pair, Rec>),
            suite("full_string_record", 300, 6000, full_pages::<String, Rec>),
            suite("full_i64_vec", 300, 6000, full_pages::<i64, Vec<u8>>),
        ],
        "C25" => vec![
            suite("file_size_u32", 250, 6000, file_size::<u32, u64>),
            suite("file_size_string", 60, 2000, file_size::<String, Vec<u8>>),
        ],
        "C46" => vec![
            suite("creation_u32", 400, 12000, creation::<u32, u64>),
            suite("creation_string", 200, 6000, creation::<String, String>),
            suite("creation_struct", 100, 3000, creation::<Pair, Rec>),
        ],
        x => panic!("unknown property {}", x),
    };
    for s in &mut suites {
        s.quick = (s.quick * 2).min(s.thorough);
    }
    std::process::exit(run(&o, suites));
}
