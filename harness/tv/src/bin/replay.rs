#[cfg(not(kani))]
fn main() { tv::sym::replay_main(tv::lookup) }
#[cfg(kani)]
fn main() {}
