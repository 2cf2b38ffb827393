#[cfg(not(kani))]
fn main() { comp::sym::replay_main(comp::lookup) }
#[cfg(kani)]
fn main() {}
