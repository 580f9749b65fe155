//! Native replay: `replay list`, `replay run HARNESS HEX,HEX,...`, `replay find HARNESS SECONDS`
//! (values with which the harness fails, for one the solver says fails), `replay fuzz N SEED`.
//!
//! Exit status of `run`: 0 the harness passed, 1 it failed (the violation reproduces),
//! 3 an assumption does not hold on these values, 4 the values do not fit the harness.
#[cfg(kani)]
fn main() {}

#[cfg(not(kani))]
fn main() {
    use om_harness::nd;
    let args: Vec<String> = std::env::args().collect();
    let find = |name: &str| {
        om_harness::ALL
            .iter()
            .flat_map(|l| l.iter().flat_map(|l| l.iter()))
            .find(|(n, _, _)| n.strip_prefix("om_harness::") == Some(name))
            .map(|(_, f, _)| *f)
    };
    let classify = |r: std::thread::Result<()>| match r {
        Ok(()) => 0,
        Err(p) if p.is::<nd::AssumeFailed>() => 3,
        Err(p) if p.is::<nd::BadTrace>() => 4,
        Err(_) => 1,
    };
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<nd::AssumeFailed>() || info.payload().is::<nd::BadTrace>() {
            return;
        }
        eprintln!("{info}");
    }));
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for l in om_harness::ALL.iter().flat_map(|l| l.iter()) {
                for (n, _, u) in l.iter() {
                    println!("{} {}", n.strip_prefix("om_harness::").unwrap(), u);
                }
            }
        }
        Some("run") => {
            let Some(f) = find(&args[2]) else {
                eprintln!("no harness {}", args[2]);
                std::process::exit(5);
            };
            let hex = args.get(3).map(|s| s.as_str()).unwrap_or("");
            nd::QUEUE.with(|q| {
                let mut q = q.borrow_mut();
                for v in hex.split(',').filter(|v| !v.is_empty()) {
                    q.push_back(
                        (0..v.len() / 2)
                            .map(|i| u8::from_str_radix(&v[2 * i..2 * i + 2], 16).unwrap())
                            .collect(),
                    );
                }
            });
            let r = std::panic::catch_unwind(f);
            std::process::exit(classify(r));
        }
        Some("find") => {
            let Some(f) = find(&args[2]) else {
                std::process::exit(5);
            };
            std::panic::set_hook(Box::new(|_| {}));
            let end = std::time::Instant::now() + std::time::Duration::from_secs(args[3].parse().unwrap());
            let mut i = 0;
            while std::time::Instant::now() < end {
                i += 1;
                nd::RNG.with(|r| *r.borrow_mut() = Some((i as u64).wrapping_mul(0x9E3779B97F4A7C15)));
                nd::MADE.with(|m| m.borrow_mut().clear());
                if classify(std::panic::catch_unwind(f)) == 1 {
                    let hex = |v: &Vec<u8>| v.iter().map(|b| format!("{b:02x}")).collect::<String>();
                    nd::MADE.with(|m| println!("FOUND {}", m.borrow().iter().map(hex).collect::<Vec<_>>().join(",")));
                    std::process::exit(1);
                }
            }
        }
        Some("fuzz") => {
            // A development aid (does the harness itself hold on random inputs?), not a check.
            let n: u64 = args[2].parse().unwrap();
            let seed: u64 = args[3].parse().unwrap();
            let only = args.get(4).cloned().unwrap_or_default();
            let mut bad = 0;
            for l in om_harness::ALL.iter().flat_map(|l| l.iter()) {
                for (name, f, _) in l.iter() {
                    if !name.contains(&only) {
                        continue;
                    }
                    let (mut ok, mut skipped, mut failed) = (0, 0, 0);
                    for i in 0..n {
                        nd::RNG.with(|r| {
                            *r.borrow_mut() = Some(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (i * 2 + 1))
                        });
                        match classify(std::panic::catch_unwind(f)) {
                            0 => ok += 1,
                            3 => skipped += 1,
                            _ => failed += 1,
                        }
                    }
                    if failed > 0 {
                        bad += 1;
                    }
                    println!("{name}: ok {ok} assume {skipped} FAILED {failed}");
                }
            }
            std::process::exit((bad > 0) as i32);
        }
        _ => std::process::exit(2),
    }
}
