//! Runs the contract harnesses natively against the real crate: replay of a counterexample, or random inputs.
#[macro_use]
pub mod src;
pub mod support;
include!(concat!(env!("OUT_DIR"), "/contracts.rs"));

use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::panic;
use std::time::{Duration, Instant};

thread_local! {
    static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// run once: failed labels, was the run cut, contract checks made, covers
fn once(f: fn(&mut Src), s: &mut Src) -> (Vec<String>, bool, usize, BTreeMap<String, usize>) {
    src::REC.with(|r| *r.borrow_mut() = Default::default());
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| f(s)));
    let mut rec = src::REC.with(|r| std::mem::take(&mut *r.borrow_mut()));
    if r.is_err() && !rec.cut {
        let m = PANIC.with(|p| p.borrow().clone());
        rec.fails.push(format!("panic: {}", m));
    }
    (rec.fails, rec.cut, rec.ensures, rec.covers)
}

fn main() {
    panic::set_hook(Box::new(|i| {
        let s = format!("{}", i).replace('\n', " ");
        PANIC.with(|p| *p.borrow_mut() = s);
    }));
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned().unwrap_or_else(|| d.to_string());
    match args.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let name = v["harness"].as_str().unwrap();
            let Some(h) = TABLE.iter().find(|h| h.0 == name) else {
                println!("unknown harness {}", name);
                std::process::exit(3)
            };
            let ins: Vec<(String, f64)> = v["inputs"].as_array().unwrap().iter().map(|i| {
                let x = &i["value"];
                (i["name"].as_str().unwrap().to_string(), if let Some(b) = x.as_bool() { b as i64 as f64 } else { x.as_f64().unwrap_or(0.0) })
            }).collect();
            let n: usize = get("--times", "1").parse().unwrap();
            for _ in 0..n {
                let mut s = Src::replaying(ins.clone());
                let (fails, _, _, _) = once(h.2, &mut s);
                if !fails.is_empty() {
                    println!("REPRODUCED {}", json!(fails));
                    std::process::exit(1);
                }
            }
            println!("not reproduced");
        }
        Some("explore") => {
            let names: HashSet<String> = get("--harness", "").split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
            let prop = get("--prop", "");
            let secs: f64 = get("--secs", "5").parse().unwrap();
            let seed: u64 = get("--seed", "1").parse().unwrap();
            let out = get("--out", "/dev/stdout");
            let hs: Vec<_> = TABLE.iter().filter(|h| if names.is_empty() { h.1.split(',').any(|p| p == prop) } else { names.contains(h.0) }).collect();
            let mut res = vec![];
            for h in &hs {
                let t0 = Instant::now();
                let (mut runs, mut effective, mut checks) = (0u64, 0u64, 0usize);
                let mut failures: Vec<Value> = vec![];
                let mut seen: HashSet<String> = HashSet::new();
                let mut distinct: HashSet<u64> = HashSet::new();
                let mut covers: BTreeMap<String, usize> = BTreeMap::new();
                let mut samples = vec![];
                while t0.elapsed() < Duration::from_secs_f64(secs / hs.len() as f64) || runs < 20 {
                    if t0.elapsed() > Duration::from_secs_f64(secs * 3.0 + 60.0) {
                        break;
                    }
                    let mut s = Src::random(seed.wrapping_mul(1_000_003).wrapping_add(runs));
                    let (fails, cut, n, cv) = once(h.2, &mut s);
                    runs += 1;
                    checks += n;
                    for (k, v) in cv {
                        *covers.entry(k).or_insert(0) += v;
                    }
                    if !cut && n > 0 {
                        effective += 1;
                        use std::hash::{Hash, Hasher};
                        let mut hh = std::collections::hash_map::DefaultHasher::new();
                        for (a, b) in &s.log {
                            a.hash(&mut hh);
                            b.to_bits().hash(&mut hh);
                        }
                        distinct.insert(hh.finish());
                        if samples.len() < 2 {
                            samples.push(s.log.iter().map(|(a, b)| format!("{}={}", a, b)).collect::<Vec<_>>().join(" "));
                        }
                    }
                    for f in fails {
                        let key = f.split(" at ").next().unwrap_or("").to_string();
                        if seen.insert(key) && failures.len() < 5 {
                            let ins: Vec<Value> = s.log.iter().map(|(a, b)| json!({"name": a, "value": b})).collect();
                            failures.push(json!({"label": f, "inputs": ins, "seed": seed, "run": runs}));
                        }
                    }
                    if !failures.is_empty() && runs > 2000 {
                        break;
                    }
                }
                res.push(json!({"name": h.0, "runs": runs, "effective": effective, "distinct": distinct.len(), "checks": checks, "failures": failures, "covers": covers, "samples": samples}));
            }
            std::fs::write(out, serde_json::to_string_pretty(&json!({"harnesses": res})).unwrap() + "\n").unwrap();
        }
        _ => {
            for h in TABLE {
                println!("{} {}", h.0, h.1)
            }
        }
    }
}
