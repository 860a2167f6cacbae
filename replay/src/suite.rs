//! Random cases for the parts around the cache, one mode per property.
#[macro_use]
mod on;
mod rng;
mod suites;
mod util;
#[cfg(feature = "s13")]
mod c13;
#[cfg(feature = "s14")]
mod c14;
#[cfg(feature = "s15")]
mod c15;
#[cfg(feature = "s16")]
mod c16;
#[cfg(feature = "s17")]
mod c17;

use util::Args;

fn main() {
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_default();
    let mut a = std::collections::BTreeMap::new();
    while let Some(k) = it.next() {
        a.insert(k.trim_start_matches('-').to_string(), it.next().unwrap_or_default());
    }
    let a = Args(a);
    if a.get("loud", "") != "1" {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let c = match cmd.as_str() {
        #[cfg(feature = "s13")]
        "c13" => suites::run("C13", c13::case, &a),
        #[cfg(feature = "s14")]
        "c14" => suites::run("C14", c14::case, &a),
        #[cfg(feature = "s15")]
        "c15" => suites::run("C15", c15::case, &a),
        #[cfg(feature = "s16")]
        "c16" => suites::run("C16", c16::case, &a),
        #[cfg(feature = "s17")]
        "c17" => suites::run("C17", c17::case, &a),
        _ => panic!("unknown command"),
    };
    std::process::exit(c);
}
