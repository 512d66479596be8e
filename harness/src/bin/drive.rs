//! drive run PROP SEED SCALE MAXMS OUTDIR   - search for failing inputs, prints one JSON line per check
//! drive case PROP CHECK SEED IDX OUTDIR    - rerun one generated case (used after an abort)
//! drive replay FILE                        - rerun the recorded input of a replay file
use harness::native::*;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

struct Lim;
static LIMIT: usize = 3 << 30;
unsafe impl std::alloc::GlobalAlloc for Lim {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > LIMIT {
            return std::ptr::null_mut();
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if n > LIMIT {
            return std::ptr::null_mut();
        }
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Lim = Lim;

fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
fn case_seed(seed: u64, name: &str, i: u64) -> u64 {
    let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ hash(name) ^ i.wrapping_mul(0xD1B54A32D192ED03));
    r.next()
}
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}
fn draws_json(d: &[(char, u64)]) -> String {
    d.iter().map(|x| x.1.to_string()).collect::<Vec<_>>().join(",")
}
fn human_json(d: &[(char, u64)]) -> String {
    let mut n = Nat::replay(vec![]);
    n.draws = d.to_vec();
    n.human().iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",")
}
fn write_replay(out: &str, prop: &str, check: &str, what: &str, d: &[(char, u64)]) -> String {
    let p = format!("{}/{}_{}.json", out, prop, check);
    let body = format!(
        "{{\"property\":\"{}\",\"check\":\"{}\",\"what\":\"{}\",\"draws\":[{}],\"values\":[{}],\"rerun\":\"drive replay {}\"}}\n",
        prop, check, esc(what), draws_json(d), human_json(d), esc(&p)
    );
    std::fs::write(&p, body).unwrap();
    p
}
fn main() {
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "run" => {
            let (prop, seed, scale, maxms, out) =
                (a[2].clone(), a[3].parse::<u64>().unwrap(), a[4].parse::<f64>().unwrap(), a[5].parse::<u128>().unwrap(), a[6].clone());
            let only = a.get(7).cloned();
            let checks: Vec<Check> = harness::checks(&prop).into_iter().filter(|c| only.as_deref().map_or(true, |o| o == c.name)).collect();
            let next = AtomicUsize::new(0);
            let print = Mutex::new(());
            std::thread::scope(|sc| {
                for _ in 0..8 {
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, || loop {
                            let k = next.fetch_add(1, Ordering::SeqCst);
                            if k >= checks.len() {
                                return;
                            }
                            let c = &checks[k];
                            let line = run_check(&prop, c, seed, scale, maxms, &out);
                            let _g = print.lock().unwrap();
                            println!("{}", line);
                            let _ = std::io::stdout().flush();
                        })
                        .unwrap();
                }
            });
        }
        "case" => {
            let (prop, check, seed, idx, out) = (&a[2], &a[3], a[4].parse::<u64>().unwrap(), a[5].parse::<u64>().unwrap(), &a[6]);
            let c = harness::checks(prop).into_iter().find(|c| c.name == check.as_str()).expect("check");
            let mut n = Nat::new(case_seed(seed, c.name, idx));
            match run_one(c.f, &mut n) {
                Outcome::Fail(w) => {
                    write_replay(out, prop, c.name, &w, &n.draws);
                    println!("FAIL {}", w);
                    std::process::exit(1)
                }
                _ => println!("ok"),
            }
        }
        "replay" => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let get = |k: &str| -> String {
                let p = t.find(&format!("\"{}\":\"", k)).unwrap() + k.len() + 4;
                t[p..].split('"').next().unwrap().to_string()
            };
            let c = harness::checks(&get("property")).into_iter().find(|c| c.name == get("check")).expect("check");
            let mut n = if let Some(p) = t.find("\"draws\":[") {
                let p = p + 9;
                let l = &t[p..p + t[p..].find(']').unwrap()];
                Nat::replay(l.split(',').filter(|s| !s.is_empty()).map(|s| s.trim().parse().unwrap()).collect())
            } else {
                let num = |k: &str| -> u64 {
                    let p = t.find(&format!("\"{}\":", k)).unwrap() + k.len() + 3;
                    t[p..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap()
                };
                Nat::new(case_seed(num("seed"), c.name, num("case")))
            };
            match run_one(c.f, &mut n) {
                Outcome::Fail(w) => {
                    println!("FAIL {}: {}", c.name, w);
                    println!("values: {}", n.human().join(", "));
                    std::process::exit(1)
                }
                Outcome::Ok => println!("ok"),
                Outcome::Discarded => println!("discarded"),
            }
        }
        "list" => {
            for c in harness::checks(&a[2]) {
                println!("{}", c.name)
            }
        }
        _ => std::process::exit(2),
    }
}
fn run_check(prop: &str, c: &Check, seed: u64, scale: f64, maxms: u128, out: &str) -> String {
    let t0 = Instant::now();
    let total = ((c.n as f64) * scale).ceil() as u64;
    let cur = std::fs::File::create(format!("{}/{}_{}.cur", out, prop, c.name)).unwrap();
    let (mut evals, mut disc, mut cks, mut dedup) = (0u64, 0u64, 0u64, std::collections::HashSet::new());
    let mut fails: Vec<(String, String)> = vec![];
    let mut sample = String::new();
    for i in 0..total {
        if t0.elapsed().as_millis() > maxms {
            break;
        }
        let _ = cur.write_at(&i.to_le_bytes(), 0);
        let mut n = Nat::new(case_seed(seed, c.name, i));
        let r = run_one(c.f, &mut n);
        cks += n.cks;
        match r {
            Outcome::Ok => {
                evals += 1;
                if n.cks > 0 {
                    let mut h = 0u64;
                    for (_, d) in &n.draws {
                        h = (h ^ *d).wrapping_mul(0x100000001b3).rotate_left(17)
                    }
                    dedup.insert(h);
                    if sample.is_empty() || (sample.len() > 200 && i < 50) {
                        sample = human_json(&n.draws[..n.draws.len().min(12)]);
                    }
                }
            }
            Outcome::Discarded => disc += 1,
            Outcome::Fail(w) => {
                evals += 1;
                let key: String = if w.starts_with("panic at") { w.splitn(3, ": ").next().unwrap().to_string() } else { w.clone() };
                if !fails.iter().any(|f| f.0 == key) {
                    let d = shrink(c.f, &n.draws, &w, 1500);
                    let name = if fails.is_empty() { c.name.to_string() } else { format!("{}~{}", c.name, fails.len()) };
                    let p = write_replay(out, prop, &name, &w, &d);
                    let t = std::fs::read_to_string(&p).unwrap().replacen(&format!("\"check\":\"{}\"", name), &format!("\"check\":\"{}\"", c.name), 1);
                    std::fs::write(&p, t).unwrap();
                    fails.push((key, format!("{{\"what\":\"{}\",\"replay\":\"{}\",\"values\":[{}]}}", esc(&w), esc(&p), human_json(&d))));
                }
                if fails.len() >= 4 {
                    break;
                }
            }
        }
    }
    let _ = std::fs::remove_file(format!("{}/{}_{}.cur", out, prop, c.name));
    format!(
        "{{\"check\":\"{}\",\"evaluations\":{},\"discarded\":{},\"distinct\":{},\"assertions\":{},\"ms\":{},\"sample\":[{}],\"fails\":[{}]}}",
        c.name, evals, disc, dedup.len(), cks, t0.elapsed().as_millis(), sample,
        fails.into_iter().map(|f| f.1).collect::<Vec<_>>().join(",")
    )
}
