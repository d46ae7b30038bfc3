#![allow(dead_code, unused_mut, unused_variables, unused_imports, unreachable_patterns)]
/// declares harness entry points: external symbols for the executor, a table for the replayer
macro_rules! entries {
    ($($name:ident),* $(,)?) => {
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}
#[path = "../../harness/src/vs.rs"] pub mod vs;
#[path = "../../harness/src/model.rs"] pub mod model;
#[path = "../../harness/src/k.rs"] pub mod k;
#[macro_use] pub mod m;
#[cfg(feature = "c19")] pub mod d19;
#[cfg(feature = "c20")] pub mod d20;
#[cfg(feature = "c21")] pub mod d21;
pub fn table() -> Vec<(&'static str, fn())> {
    let mut t: Vec<(&'static str, fn())> = Vec::new();
    #[cfg(feature = "c19")] t.extend_from_slice(d19::TABLE);
    #[cfg(feature = "c20")] t.extend_from_slice(d20::TABLE);
    #[cfg(feature = "c21")] t.extend_from_slice(d21::TABLE);
    t
}
#[cfg(not(vse))]
#[path = "../../harness/src/replay_main.rs"] pub mod replay_main;
