//! Deterministic simulation of canisters that hold certified collections.
//!
//! `certsim check PROP TIER` explores, minimises and reports; `certsim replay FILE` repeats a reported run;
//! `certsim selftest` compares repeated runs of the same seeds. The rest is used by the program itself.

mod coll;
mod content;
mod driver;
mod engine;
mod foreign;
mod held;
mod known;
mod layouts;
mod local;
mod minimise;
mod rng;
mod runs;
mod seams;
mod spec;
mod subjects;
mod tamper;
mod types;
mod world;

#[global_allocator]
static ALLOC: seams::SimAlloc = seams::SimAlloc;

fn main() {
    engine::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or(0);
    let code = match arg(1) {
        "check" => driver::check(arg(2), arg(3)),
        "work" => driver::work(arg(2), num(3), num(4), num(5), num(6), num(7), arg(8) == "long"),
        "exec" => driver::exec(arg(2)),
        "replay" => driver::replay(arg(2)),
        "plan" => driver::plan(arg(2), num(3), num(4), arg(5) == "long"),
        "selftest" => driver::selftest(num(2).max(1), num(3).max(20)),
        _ => {
            eprintln!("usage: certsim check PROP quick|thorough | replay FILE | selftest SEED RUNS");
            2
        }
    };
    std::process::exit(code);
}
