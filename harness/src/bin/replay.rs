//! Run harness bodies natively against the real crate.
//!
//! `replay list`
//! `replay tape NAME FILE`: one input, recorded as lines of space-separated bytes
//! `replay search NAME SEED MILLIS`: look for a failing input
//!
//! Exits 1, printing the failing input, when a harness body fails.

#[cfg(kani)]
fn main() {}

#[cfg(not(kani))]
use vbh::nd;

#[cfg(not(kani))]
fn run(f: fn()) -> Result<(), String> {
    match std::panic::catch_unwind(f) {
        Ok(()) => Ok(()),
        Err(e) if e.is::<nd::Skip>() => Ok(()),
        Err(e) => Err(e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default()),
    }
}

#[cfg(not(kani))]
fn report(name: &str, msg: &str) -> ! {
    println!("FAILED {name}: {msg}");
    for e in nd::log() {
        println!("TAPE {}", e.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(" "));
    }
    std::process::exit(1)
}

#[cfg(not(kani))]
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let table = vbh::table();
    if args[1] == "list" {
        for (n, _) in &table {
            println!("{n}");
        }
        return;
    }
    let name = args[2].as_str();
    let f = match table.iter().find(|(n, _)| *n == name || n.strip_prefix("vbh::") == Some(name)) {
        Some((_, f)) => *f,
        None => {
            println!("no harness {name}");
            std::process::exit(3)
        }
    };
    std::panic::set_hook(Box::new(|_| ()));
    match args[1].as_str() {
        "tape" => {
            let text = std::fs::read_to_string(&args[3]).unwrap();
            let tape = text
                .lines()
                .map(|l| l.split_whitespace().map(|b| b.parse().unwrap()).collect())
                .collect();
            nd::set(nd::Source::Tape(tape, 0));
            if let Err(m) = run(f) {
                report(name, &m);
            }
        }
        "search" => {
            let seed: u64 = args[3].parse().unwrap();
            let ms: u128 = args[4].parse().unwrap();
            let t = std::time::Instant::now();
            let mut i = 0u64;
            while t.elapsed().as_millis() < ms {
                nd::set(nd::Source::Random(seed.wrapping_mul(0x1_0000_0001).wrapping_add(i << 20)));
                if let Err(m) = run(f) {
                    report(name, &m);
                }
                i += 1;
            }
            println!("{i} inputs, none failed");
        }
        _ => std::process::exit(3),
    }
}
