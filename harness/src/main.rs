//! vh: concrete exploration of the compiled contracts (replays and bounded stand-ins)
//!   vh run PROP SEED SECONDS MAXTRACES OUT.json   explore; OUT gets statistics and, if found, the failing history
//!   vh replay OUT.json                            run a recorded history again
mod air;
mod core;
mod per;
mod pool;
mod util;
mod world;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use util::Ctx;

type Trace = fn(&mut Ctx);
fn explorers(prop: &str) -> Vec<(&'static str, Trace)> {
    let mut v: Vec<(&'static str, Trace)> = vec![];
    let p = prop.chars().next().unwrap_or('?');
    let all = prop == "ALL";
    if all || p == 'C' || prop == "L01" || prop == "T01" {
        v.push(("core histories", core::trace));
    }
    if all || p == 'A' {
        v.push(("airdrop histories", air::trace));
    }
    if all || prop == "L01" || prop == "A06" {
        v.push(("airdrop listings", air::trace_lists));
    }
    if all || prop == "L01" {
        v.push(("trade route listings", core::trace_lists));
    }
    if all || prop == "M01" {
        v.push(("powers", pool::trace_math));
    }
    if all || prop == "W01" {
        v.push(("weighted pools", pool::trace_weighted));
    }
    if all || prop == "S01" || prop == "S02" || prop == "T01" {
        v.push(("route simulations", pool::trace_sim));
    }
    if all || prop == "T01" {
        v.push(("route conversions", pool::trace_routes));
    }
    if all || (p == 'P') {
        v.push(("periphery operations", per::trace));
    }
    if all || prop == "U01" {
        v.push(("migrations", per::trace_migrate));
    }
    v
}
fn seed_of(seed: u64, which: usize, idx: u64) -> u64 {
    seed.wrapping_mul(0x1000_0000_01b3) ^ ((which as u64) << 56) ^ idx.wrapping_mul(0x9E37_79B9_7F4A_7C15)
}
fn one(prop: &str, t: Trace, seed: u64) -> (Ctx, Option<String>) {
    let mut cx = Ctx::new(prop, seed);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t(&mut cx)));
    let aborted = r.err().map(|p| p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default());
    (cx, aborted)
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("replay") {
        let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&a[2]).unwrap()).unwrap();
        let f = &v["found"];
        let prop = f["property"].as_str().unwrap();
        let which = f["which"].as_u64().unwrap() as usize;
        let (cx, _) = one(prop, explorers(prop)[which].1, f["seed"].as_u64().unwrap());
        for l in &cx.log {
            println!("{l}");
        }
        match cx.found {
            Some(d) => { println!("VIOLATED {}: {}", prop, d.what); std::process::exit(1) }
            None => { println!("not reproduced"); std::process::exit(0) }
        }
    }
    let prop = a[2].clone();
    let seed: u64 = a[3].parse().unwrap();
    let secs: f64 = a[4].parse().unwrap();
    let maxt: u64 = a[5].parse().unwrap();
    let ex = explorers(&prop);
    let t0 = Instant::now();
    let stop = Arc::new(AtomicBool::new(false));
    let res: Arc<Mutex<(std::collections::BTreeMap<String, u64>, u64, u64, Option<serde_json::Value>, Vec<String>, Option<String>)>> = Arc::new(Mutex::new(Default::default()));
    let nt = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    let mut hs = vec![];
    let next = Arc::new(AtomicU64::new(0));
    for _ in 0..nt {
        let (ex, prop, stop, res, next) = (ex.clone(), prop.clone(), stop.clone(), res.clone(), next.clone());
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let n = ex.len() as u64;
            if n == 0 { return; }
            while !stop.load(Ordering::Relaxed) && t0.elapsed() < Duration::from_secs_f64(secs) {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= maxt { break; }
                let which = (i % n) as usize;
                let sd = seed_of(seed, which, i / n);
                let (cx, aborted) = one(&prop, ex[which].1, sd);
                let mut g = res.lock().unwrap();
                for (k, c) in &cx.kinds { *g.0.entry(k.clone()).or_insert(0) += c; }
                g.1 += cx.evals;
                if let Some(e) = aborted { g.2 += 1; if g.5.is_none() { g.5 = Some(format!("{}: {e}", ex[which].0)); } }
                if g.4.len() < 3 && cx.log.len() > 2 { g.4.push(cx.log.join(" ; ").chars().take(1500).collect()); }
                if let Some(d) = cx.found {
                    if g.3.is_none() {
                        g.3 = Some(serde_json::json!({"property": prop, "explorer": ex[which].0, "which": which, "seed": sd, "what": d.what, "tags": d.tags, "history": cx.log}));
                    }
                    stop.store(true, Ordering::Relaxed);
                }
            }
        }).unwrap());
    }
    // a trace that is still computing after the time is up is abandoned (the series in `pow` can be long)
    while !hs.iter().all(|h| h.is_finished()) && t0.elapsed() < Duration::from_secs_f64(secs + 4.0) {
        std::thread::sleep(Duration::from_millis(20));
    }
    let unfinished = hs.iter().filter(|h| !h.is_finished()).count();
    let g = res.lock().unwrap();
    let out = serde_json::json!({
        "property": prop, "seed": seed, "traces": next.load(Ordering::Relaxed).min(maxt), "evaluations": g.1, "kinds": g.0, "aborted": g.2, "aborted_why": g.5,
        "unfinished": unfinished, "samples": g.4, "found": g.3, "wall_s": t0.elapsed().as_secs_f64(),
        "explorers": ex.iter().map(|e| e.0).collect::<Vec<_>>(),
    });
    std::fs::write(&a[6], serde_json::to_vec_pretty(&out).unwrap()).unwrap();
    if let Some(f) = &g.3 { println!("FOUND {}", f["what"].as_str().unwrap_or("")); std::process::exit(1); }
    std::process::exit(0)
}
