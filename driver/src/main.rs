//! Conformance driver: runs the real pywr code on cases described in JSON and records traces.
//!
//! usage: driver CASES.ndjson TRACES.ndjson
//!
//! Every observed number is written as an integer in 1/1000 of the unit (see `q`).
mod probe;
mod run;

use serde_json::{Value, json};
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

pub const INF: i64 = 2_000_000_001;
pub const NAN: i64 = 2_000_000_002;

/// Scale a floating point value to an integer number of thousandths.
pub fn q(v: f64) -> i64 {
    if v.is_nan() {
        NAN
    } else if v * 1000.0 >= 2_000_000_000.0 {
        INF
    } else if v * 1000.0 <= -2_000_000_000.0 {
        -INF
    } else {
        (v * 1000.0).round() as i64
    }
}

fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let input = BufReader::new(File::open(&args[1]).expect("open cases"));
    let cases: Vec<Value> = input
        .lines()
        .map(|l| l.expect("read"))
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(&l).expect("case json"))
        .collect();
    // Results are written as they come: a case that does not finish costs no other case its result.
    let out = Mutex::new(BufWriter::new(File::create(&args[2]).expect("create traces")));
    let write = |v: &Value| {
        let mut w = out.lock().unwrap();
        writeln!(w, "{}", v).unwrap();
        w.flush().unwrap();
    };
    let number = |k: &str, d: u64| std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d);
    let next = AtomicUsize::new(0);
    let finished = AtomicUsize::new(0);
    let nthreads = number("DRIVER_THREADS", 6) as usize;
    let limit = Duration::from_secs(number("DRIVER_LIMIT", 60));
    let memory = number("DRIVER_MEMORY_MB", 8000);
    let current: Vec<Mutex<Option<(usize, Instant)>>> = (0..nthreads).map(|_| Mutex::new(None)).collect();
    std::thread::scope(|s| {
        for own in &current {
            let (cases, next, finished, write) = (&cases, &next, &finished, &write);
            s.spawn(move || {
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= cases.len() {
                        break;
                    }
                    *own.lock().unwrap() = Some((i, Instant::now()));
                    let case = &cases[i];
                    let r = catch_unwind(AssertUnwindSafe(|| run::run_case(case)));
                    let v = match r {
                        Ok(v) => v,
                        Err(p) => json!({"id": case["id"], "status": "panic", "error": panic_text(p), "runs": []}),
                    };
                    let mut own = own.lock().unwrap();
                    write(&v);
                    *own = None;
                    finished.fetch_add(1, Ordering::SeqCst);
                }
            });
        }
        // Watch for cases that do not come to an end, or that use up the memory. Threads can not be stopped: such a
        // case is reported and the process ends; whoever started it starts another for the cases without a result.
        let mut wait = 1;
        while finished.load(Ordering::SeqCst) < cases.len() {
            std::thread::sleep(Duration::from_millis(wait));
            wait = (wait * 2).min(100);
            let rss = std::fs::read_to_string("/proc/self/statm")
                .ok()
                .and_then(|t| t.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()))
                .map(|pages| pages * 4 / 1000)
                .unwrap_or(0);
            let mut held: Vec<_> = current.iter().map(|c| c.lock().unwrap()).collect();
            let longest = held.iter().filter_map(|c| c.map(|(_, t)| t.elapsed())).max().unwrap_or_default();
            if longest > limit || (rss > memory && longest > Duration::from_secs(2)) {
                let share = if longest > limit { limit } else { longest / 2 };
                for c in held.iter_mut() {
                    if let Some((i, t)) = c.take().filter(|(_, t)| t.elapsed() >= share) {
                        let why = format!("it did not come to an end: {} s, {} MB", t.elapsed().as_secs(), rss);
                        write(&json!({"id": cases[i]["id"], "status": "crash", "error": why, "runs": []}));
                    }
                }
                std::process::exit(3);
            }
        }
    });
}
