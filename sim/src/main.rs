//! Deterministic simulation of the orderbook. See /verif/DESIGN.md.
mod bank;
mod chain;
mod check;
mod exec;
mod gas;
mod gen;
mod math;
mod model;
mod rng;
mod shrink;
mod store;
mod trace;

fn main() {
    chain::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    // Deep recursion in the code under test must not end the process.
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || check::main(args)).unwrap();
    let code = match h.join() {
        Ok(c) => c,
        Err(_) => 2,
    };
    std::process::exit(code);
}
