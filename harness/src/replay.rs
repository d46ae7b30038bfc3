fn main() { #[cfg(not(vse))] harness::replay_main::main() }
