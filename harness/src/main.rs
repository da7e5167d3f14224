//! Replays a counterexample: the scenario, compiled against the real crate and
//! the real standard library, with the inputs the solver chose. Iteration
//! orders of hash maps are not inputs, so the run is repeated.
#[cfg(kani)]
fn main() {}
#[cfg(not(kani))]
fn main() {
    use harness::rt::*;
    let a: Vec<String> = std::env::args().collect();
    let (name, inputs, prop, iters) = (&a[1], &a[2], &a[3], a[4].parse::<u64>().unwrap());
    let f = harness::scenario(name).expect("no such scenario");
    let v: Vec<u8> = inputs.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    std::panic::set_hook(Box::new(|_| {}));
    let mut skipped = 0;
    for n in 0..iters {
        harness::world::reset();
        harness::sworld::reset();
        INPUTS.with(|i| *i.borrow_mut() = v.clone());
        FAILS.with(|x| x.borrow_mut().clear());
        let r = std::panic::catch_unwind(f);
        let mut hit: Vec<String> = Vec::new();
        let mut skip = false;
        if let Err(e) = r {
            if e.is::<Assumption>() { skip = true; skipped += 1; }
            else {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                hit.push(format!("panic: {m}"));
            }
        }
        if !skip { FAILS.with(|x| for (p, m) in x.borrow().iter() { if p == prop { hit.push(m.to_string()); } }); }
        if !hit.is_empty() {
            println!("REPRODUCED run {n}: {}", hit.join(" | "));
            std::process::exit(1);
        }
    }
    println!("not reproduced in {iters} runs ({skipped} outside the assumptions)");
}
