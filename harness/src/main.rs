//! hx: looks for an input on which the real code breaks a property.
//!
//! hx find --property P --seed S --seconds T --threads K --replay FILE   (exit 1 when one is found)
//! hx replay FILE
mod gen;
mod hist;
mod scale;
mod units;
mod world;

use hist::Stats;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match args.get(1).map(|s| s.as_str()) {
        Some("find") => find(&args),
        Some("replay") => replay(&args[2]),
        _ => {
            eprintln!("usage: hx find|replay");
            std::process::exit(2);
        }
    }
}

fn mix(seed: u64, i: u64) -> u64 {
    let mut r = hist::Rng(seed.wrapping_mul(0x2545_f491_4f6c_dd1d) ^ i.wrapping_mul(0x9e37_79b9_7f4a_7c15));
    r.next()
}

struct Found {
    text: String,
}

fn one(prop: &str, s: u64, st: &mut Stats) -> Option<Found> {
    let unit = matches!(prop, "C18" | "C21") || (prop == "C19" && s % 4 != 0);
    if unit {
        if let Err(m) = units::case(prop, s, st) {
            return Some(Found { text: format!("property {prop}\nwhat {m}\nunit {s}\n") });
        }
        return None;
    }
    let h = gen::gen(prop, s);
    if let Err(f) = hist::run(&h, prop, st) {
        let h = gen::shrink(h, prop, Duration::from_secs(10));
        let msg = hist::run(&h, prop, &mut Stats::default()).err().map_or(f.msg.clone(), |f| format!("{} (at operation {})", f.msg, f.step));
        return Some(Found { text: format!("property {prop}\nwhat {msg}\n{}", gen::write(&h)) });
    }
    None
}

fn find(args: &[String]) {
    let prop = arg(args, "--property").unwrap();
    let seed: u64 = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: u64 = arg(args, "--seconds").and_then(|s| s.parse().ok()).unwrap_or(20);
    let threads: u64 = arg(args, "--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let file = arg(args, "--replay").unwrap_or_else(|| "replay.txt".into());
    let stop = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
    let total: Arc<Mutex<Stats>> = Arc::new(Mutex::new(Stats::default()));
    let end = Instant::now() + Duration::from_secs(secs);
    // what each thread is working on, for the watchdog
    let current: Arc<Vec<(AtomicU64, AtomicU64)>> = Arc::new((0..threads + 1).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect());
    let t0 = Instant::now();
    let mut hs = vec![];
    for t in 0..threads {
        let (stop, found, total, prop, current) = (stop.clone(), found.clone(), total.clone(), prop.clone(), current.clone());
        let f = move || {
            let mut st = Stats::default();
            let mut i = t;
            while !stop.load(Ordering::Relaxed) && Instant::now() < end {
                let s = mix(seed, i);
                current[t as usize].0.store(s, Ordering::Relaxed);
                current[t as usize].1.store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                if let Some(f) = one(&prop, s, &mut st) {
                    let mut g = found.lock().unwrap();
                    if g.is_none() {
                        *g = Some(f.text);
                    }
                    stop.store(true, Ordering::Relaxed);
                }
                i += threads;
            }
            current[t as usize].1.store(0, Ordering::Relaxed);
            let mut g = total.lock().unwrap();
            g.evaluations += st.evaluations;
            g.nontrivial += st.nontrivial;
            g.ops += st.ops;
            g.checks += st.checks;
        };
        hs.push(std::thread::Builder::new().stack_size(256 << 20).spawn(f).unwrap());
    }
    {
        let (stop, found, prop, current, total) = (stop.clone(), found.clone(), prop.clone(), current.clone(), total.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    current[threads as usize].1.store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                    let mut st = Stats::default();
                    let r = scale::run(&prop, seed, end, &mut st);
                    current[threads as usize].1.store(0, Ordering::Relaxed);
                    let mut g = total.lock().unwrap();
                    g.evaluations += st.evaluations;
                    g.nontrivial += st.nontrivial;
                    g.ops += st.ops;
                    g.checks += st.checks;
                    drop(g);
                    if let Err(m) = r {
                        *found.lock().unwrap() = Some(format!("property {prop}\nwhat {m}\nscale {seed}\n"));
                        stop.store(true, Ordering::Relaxed);
                    }
                })
                .unwrap(),
        );
    }
    // watchdog: a case that takes much too long does not terminate
    loop {
        std::thread::sleep(Duration::from_millis(100));
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        let now = t0.elapsed().as_millis() as u64;
        for (k, c) in current.iter().enumerate() {
            let since = c.1.load(Ordering::Relaxed);
            let limit = if k as u64 == threads { 180_000 } else { 60_000 };
            if since > 0 && now > since + limit {
                if prop == "C10" {
                    let s = c.0.load(Ordering::Relaxed);
                    let text = format!("property {prop}\nwhat an operation does not terminate\n{}", gen::write(&gen::gen(&prop, s)));
                    std::fs::write(&file, text).unwrap();
                    println!("FOUND an operation does not terminate");
                    std::process::exit(1);
                }
                // not this property's business
                print_stats(&total.lock().unwrap());
                println!("STUCK");
                std::process::exit(0);
            }
        }
    }
    for h in hs {
        let _ = h.join();
    }
    print_samples(&prop, seed);
    print_stats(&total.lock().unwrap());
    let g = found.lock().unwrap();
    if let Some(t) = g.as_ref() {
        std::fs::write(&file, t).unwrap();
        println!("FOUND {}", t.lines().nth(1).unwrap_or(""));
        std::process::exit(1);
    }
}

/// two of the cases of this run, written out
fn print_samples(prop: &str, seed: u64) {
    for i in 0..2 {
        let s = mix(seed, i);
        let t = if matches!(prop, "C18" | "C21") || (prop == "C19" && s % 4 != 0) { format!("unit {s}") } else { gen::write(&gen::gen(prop, s)) };
        println!("SAMPLE {}", t.lines().filter(|l| !l.starts_with("key ")).collect::<Vec<_>>().join(" | ").chars().take(600).collect::<String>());
    }
}

fn print_stats(g: &Stats) {
    println!("STATS evaluations={} nontrivial={} operations={} checks={}", g.evaluations, g.nontrivial, g.ops, g.checks);
}

fn replay(file: &str) {
    let text = std::fs::read_to_string(file).unwrap();
    let prop = text.lines().find_map(|l| l.strip_prefix("property ")).unwrap().to_string();
    let line = |p: &str| text.lines().find_map(|l| l.strip_prefix(p)).and_then(|s| s.trim().parse::<u64>().ok());
    let res = if let Some(s) = line("unit ") {
        units::case(&prop, s, &mut Stats::default())
    } else if let Some(s) = line("scale ") {
        scale::run(&prop, s, Instant::now() + Duration::from_secs(600), &mut Stats::default())
    } else if let Some(h) = gen::read(&text) {
        hist::run(&h, &prop, &mut Stats::default()).map_err(|f| format!("{} (at operation {})", f.msg, f.step))
    } else {
        eprintln!("nothing to replay in {file}");
        std::process::exit(2);
    };
    match res {
        Ok(()) => println!("holds"),
        Err(m) => {
            println!("FAILS: {m}");
            std::process::exit(1);
        }
    }
}
