//! sync::Stack: C18, C19.
use vh::core::*;
use vh::stack::*;

#[global_allocator]
static A: Global = Global;

fn main() {
    let o = parse_opts();
    let suites = match o.prop.as_str() {
        "C18" => vec![
            suite_serial("histories", 600, 12000, histories),
            suite_serial("stepped", 150, 4000, stepped),
            suite_serial("len_stress", 100, 3000, len_stress),
            suite_serial("len_flow", 100, 3000, len_flow),
            suite("sequential", 500, 10000, sequential),
        ],
        "C19" => vec![
            suite_serial("exactly_once", 150, 4000, exactly_once),
            suite_serial("stepped", 150, 4000, exactly_once_stepped),
            suite_serial("reclaim", 6, 60, reclaim),
            suite_serial("kinds", 500, 10000, kinds),
        ],
        x => panic!("unknown property {}", x),
    };
    std::process::exit(run(&o, suites));
}
