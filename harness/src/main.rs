//! Replay and bounded-exploration harness: drives the compiled crate against independent oracles.
mod rep;
mod tm;
mod snap;
mod ops;
mod gen;
mod c01;
mod c02;
mod poly;
mod c07;
mod c08;
mod c09;
mod c10;
mod c12;
mod c13;
mod c14;
mod c15;
mod c11;
mod c16;
mod c17;

use rep::Rep;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a.get(1).cloned().unwrap_or_default();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let tier = get("--tier").unwrap_or("quick".into());
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let out = get("--out").unwrap_or("/dev/stdout".into());
    let budget: u64 = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(match tier.as_str() {
        "quick" => 20,
        "search" => 60,
        _ => 300,
    });
    rep::quiet_panics();
    let mut r = Rep::new(&prop, &tier, seed, budget);
    // deep recursion in the code under test must not look like a crash of the harness
    let r = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let done = rep::guard(|| match r.prop.clone().as_str() {
                "C01" => c01::run(&mut r),
                "C02" | "C03" | "C04" | "C05" | "C06" => c02::run(&mut r),
                "C07" => c07::run(&mut r),
                "C09" => c09::run(&mut r),
                "C12" => c12::run(&mut r),
                "C10" => c10::run(&mut r),
                "C08" => c08::run(&mut r),
                "C13" => c13::run(&mut r),
                "C14" => c14::run(&mut r),
                "C15" => c15::run(&mut r),
                "C11" => c11::run(&mut r),
                "C16" => c16::run(&mut r),
                "C17" => c17::run(&mut r),
                p => {
                    eprintln!("unknown property {p}");
                    std::process::exit(2)
                }
            });
            if let Err(e) = done {
                r.fail("panic", e, "panic outside of a guarded call; replay with the same seed");
            }
            r
        })
        .unwrap()
        .join()
        .unwrap();
    std::fs::write(&out, r.json()).unwrap();
}
