//! replay PID [--seed N] [--secs S] [--case K] [--ints a,b] [--floats x,y]
//! Runs generated cases of one property on the real crate; prints one JSON line.
mod any;
mod ctx;
mod props;
use ctx::Ctx;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::new();
    for ch in s.chars() { match ch { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } }
    o
}
thread_local! { static MSG: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }
fn run_case(pid: &str, seed: u64, k: u64, ints: &Arc<Vec<usize>>, floats: &Arc<Vec<f64>>, trace: bool) -> (Result<(), String>, u64, String) {
    let f = props::cases(pid).unwrap()[(k % 13 == 0) as usize | ((k / 6) % 2) as usize];
    let mut c = Ctx::new(seed, k, ints.clone(), floats.clone(), trace);
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
    let r = match r { Ok(r) => r, Err(_) => Err(format!("panic: {}", MSG.with(|m| m.borrow().clone()))) };
    (r, c.evals, c.trace.take().unwrap_or_default())
}
fn report(pid: &str, seed: u64, v: Option<(u64, String, String)>, cases: u64, evals: u64) {
    match v {
        None => println!("{{\"property\":\"{}\",\"seed\":{},\"cases\":{},\"evals\":{},\"violation\":null}}", pid, seed, cases, evals),
        Some((k, m, t)) => println!("{{\"property\":\"{}\",\"seed\":{},\"cases\":{},\"evals\":{},\"violation\":{{\"case\":{},\"message\":\"{}\",\"trace\":\"{}\"}}}}", pid, seed, cases, evals, k, esc(&m), esc(&t)),
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1).cloned());
    let pid = a.get(1).cloned().unwrap_or_default();
    if props::cases(&pid).is_none() { eprintln!("unknown property {}", pid); std::process::exit(2); }
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(3.0);
    let ints: Arc<Vec<usize>> = Arc::new(get("--ints").unwrap_or_default().split(',').filter_map(|x| x.parse().ok()).filter(|x| *x <= 100_000).collect());
    let floats: Arc<Vec<f64>> = Arc::new(get("--floats").unwrap_or_default().split(',').filter_map(|x| x.parse().ok()).collect());
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        MSG.with(|x| *x.borrow_mut() = m + &l);
    }));
    if let Some(k) = get("--case") {
        let k = k.parse().unwrap();
        let (r, e, t) = run_case(&pid, seed, k, &ints, &floats, true);
        report(&pid, seed, r.err().map(|m| (k, m, t)), 1, e);
        return;
    }
    let stop = Arc::new(AtomicBool::new(false));
    let next = Arc::new(AtomicU64::new(0));
    let evals = Arc::new(AtomicU64::new(0));
    let found: Arc<Mutex<Option<(u64, String)>>> = Arc::new(Mutex::new(None));
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    let start = Instant::now();
    let busy: Arc<Vec<Mutex<(u64, Option<Instant>)>>> = Arc::new((0..n).map(|_| Mutex::new((0, None))).collect());
    let done = Arc::new(AtomicU64::new(0));
    for t in 0..n {
        let (stop, next, evals, found, busy, done) = (stop.clone(), next.clone(), evals.clone(), found.clone(), busy.clone(), done.clone());
        let (pid, ints, floats) = (pid.clone(), ints.clone(), floats.clone());
        std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
            while !stop.load(Relaxed) {
                let k = next.fetch_add(1, Relaxed);
                *busy[t].lock().unwrap() = (k, Some(Instant::now()));
                let (r, e, _) = run_case(&pid, seed, k, &ints, &floats, false);
                *busy[t].lock().unwrap() = (k, None);
                evals.fetch_add(e, Relaxed);
                if let Err(m) = r {
                    let mut f = found.lock().unwrap();
                    if f.as_ref().map_or(true, |x| x.0 > k) { *f = Some((k, m)); }
                    stop.store(true, Relaxed);
                }
            }
            done.fetch_add(1, Relaxed);
        }).unwrap();
    }
    let mut hang = None;
    while done.load(Relaxed) < n as u64 && hang.is_none() {
        std::thread::sleep(Duration::from_millis(20));
        if start.elapsed().as_secs_f64() > secs { stop.store(true, Relaxed); }
        for b in busy.iter() { let (k, t) = *b.lock().unwrap(); if let Some(t) = t { if t.elapsed() > Duration::from_secs(30) { hang = Some(k); } } }
    }
    let v = found.lock().unwrap().clone();
    let cases = next.load(Relaxed);
    match (v, hang) {
        (Some((k, m)), _) => { let (_, _, t) = run_case(&pid, seed, k, &ints, &floats, true); report(&pid, seed, Some((k, m, t)), cases, evals.load(Relaxed)); }
        (None, Some(k)) => report(&pid, seed, Some((k, "a call did not return within 30 s".into(), String::new())), cases, evals.load(Relaxed)),
        _ => report(&pid, seed, None, cases, evals.load(Relaxed)),
    }
    std::process::exit(0);
}
