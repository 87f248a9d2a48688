//! dynsim: deterministic simulation of the dynparser library and its generator program.
//!   dynsim check <property>      explore (VERIF_SEED, VERIF_TIER)
//!   dynsim replay <file>         run a replay file; exit 1 when it shows its violation
//!   dynsim selftest              is the simulator itself sound?
//!   dynsim show <property> <n>   print the plan of a run

mod arena;
mod check;
mod coord;
mod exec;
mod gen;
mod genprog;
mod gread;
mod model;
mod plan;
mod plans;
mod rng;
mod sched;
mod selftest;
mod ser;
mod shrink;
mod sys;
mod worker;

#[global_allocator]
static ALLOC: arena::Alloc = arena::Alloc;

pub fn harness_error(m: &str) -> ! {
    eprintln!("HARNESS ERROR: {}", m);
    unsafe { sys::_exit(2) }
}

fn main() {
    exec::install_panic_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let code = match s.as_slice() {
        ["check", prop] => coord::check(prop),
        ["worker", rest @ ..] => worker::main(rest),
        ["replay", file] => coord::replay(file),
        ["selftest"] => selftest::main(),
        ["digest", prop, from, n] => selftest::digest(prop, from, n),
        ["show", prop, n] => worker::show(prop, n),
        _ => {
            eprintln!("usage: dynsim check <property> | replay <file> | selftest | show <property> <n>");
            2
        }
    };
    std::process::exit(code)
}
