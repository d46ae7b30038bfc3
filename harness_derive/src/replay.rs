fn main() { #[cfg(not(vse))] harness_derive::replay_main::main() }
