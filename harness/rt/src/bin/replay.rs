#[cfg(not(kani))]
fn main() { rt::sym::replay_main(rt::lookup) }
#[cfg(kani)]
fn main() {}
