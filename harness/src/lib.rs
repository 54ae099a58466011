#[macro_use]
pub mod core;
pub mod arena;
pub mod bst;
pub mod cost;
pub mod drops;
pub mod iters;
pub mod keys;
pub mod list;
pub mod markers;
pub mod omap;
pub mod radix;
pub mod space;
pub mod speed;
pub mod stack;
pub mod step;
pub mod ub;
pub mod unwind;
pub mod bp;
pub mod picky;
