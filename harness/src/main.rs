//! fsim: deterministic simulation of fitsrs under injected faults.
//!   fsim check <ID>            run the check of a property
//!   fsim replay <file>         re-execute a recorded failure
//!   fsim one <ID> <index>      one run of the seed, verbosely
mod alloc;
mod aprops;
mod asim;
#[cfg(feature = "cli")]
mod cli;
mod gen;
mod obs;
mod props;
mod rice;
mod run;
mod sim;
mod supervise;
mod sysim;
mod tape;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match s(1) {
        "check" => supervise::check(s(2)),
        "worker" => supervise::worker(&a[2..]),
        "exec" => supervise::exec(s(2)),
        "replay" => supervise::replay(s(2)),
        "one" => supervise::one(s(2), s(3).parse().unwrap_or(0)),
        _ => {
            eprintln!("usage: fsim check <ID> | replay <file> | one <ID> <index>");
            2
        }
    };
    std::process::exit(code);
}
