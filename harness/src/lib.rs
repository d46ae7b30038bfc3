#![allow(dead_code)]
/// declares harness entry points: external symbols for the executor, a table for the replayer
macro_rules! entries {
    ($($name:ident),* $(,)?) => {
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}
pub mod vs;
pub mod model;
pub mod k;
pub mod a;
pub mod b;
pub mod c;
pub mod e;
pub fn table() -> Vec<(&'static str, fn())> { [a::TABLE, b::TABLE, c::TABLE, e::TABLE].concat() }
#[cfg(not(vse))]
pub mod replay_main;
