//! Runs one harness natively, on the real crates, with the inputs of a solver counterexample:
//! `vreplay HARNESS VALUE...` (decimal).  Panic (exit 101) = the violation reproduces.
fn main() {
    let mut a = std::env::args().skip(1);
    let name = a.next().expect("harness");
    vh::nd::tape::set(a.map(|s| s.parse::<u128>().expect("value")).collect());
    if !vh::dispatch(&name) {
        eprintln!("no such harness");
        std::process::exit(4);
    }
    println!("REPLAY: property held");
}
