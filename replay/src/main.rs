//! Native replay of one counterexample: `replay HARNESS v1 v2 ...`.
//! Exit 0: the property held on this input, 3: an assertion failed, 101: the code panicked.
#![allow(clippy::all)]
#[macro_use]
#[path = "../../harness/src/sx.rs"]
pub mod sx;
include!("../../harness/src/mods.rs");

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let name = a.get(1).cloned().unwrap_or_default();
    let vals: Vec<u64> = a[2..].iter().filter_map(|s| s.parse().ok()).collect();
    sx::IN.with(|c| *c.borrow_mut() = (vals, 0));
    for t in tables() {
        for (n, f) in t.iter() {
            if *n == name {
                f();
                println!("HELD");
                return;
            }
        }
    }
    eprintln!("no harness {name}");
    std::process::exit(2);
}
