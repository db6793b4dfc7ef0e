mod calls;
mod env;
mod hooks;
mod wire;
use env::*;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::sync::atomic::Ordering;
use std::sync::Arc;
use std::time::{Duration, Instant};

/// an address of 127/8 of our own: other runs may be active at the same time
fn ip(k: u32) -> String {
    format!("127.{}.{}.{}", 2 + (k / 64009) % 250, 1 + (k / 253) % 253, 1 + k % 253)
}

fn run_one(sc: &Value, next: &mut u32, scratch: String) -> Value {
    let sh = Arc::new(Shared::default());
    std::fs::create_dir_all(&scratch).ok();
    let mut r = Env::new(sc, ip(*next), scratch.clone(), sh.clone());
    for _ in 0..200 {
        *next += 1;
        if r.is_ok() { break; }
        r = Env::new(sc, ip(*next), scratch.clone(), sh.clone());
    }
    let env = match r {
        Ok(e) => e,
        Err(x) => { eprintln!("fharness: cannot set up environment: {}", x); std::process::exit(2) }
    };
    let envp = Box::into_raw(Box::new(env)) as usize;
    let sh2 = sh.clone();
    let h = std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
        let ep = envp as *mut Env;
        hooks::install(ep);
        calls::client_thread(ep);
        hooks::install(std::ptr::null_mut());
        unsafe { drop(Box::from_raw(ep)); }
        *sh2.done.lock().unwrap() = true;
        sh2.cv.notify_all();
    }).unwrap();
    let mut g = sh.done.lock().unwrap();
    let mut beat = sh.beat.load(Ordering::Relaxed);
    let mut t = Instant::now();
    while !*g {
        let (g2, _) = sh.cv.wait_timeout(g, Duration::from_millis(500)).unwrap();
        g = g2;
        let b = sh.beat.load(Ordering::Relaxed);
        if b != beat { beat = b; t = Instant::now(); }
        if t.elapsed() > Duration::from_secs(8) {
            sh.events.lock().unwrap().push(json!({"e":"blocked","on":"none","why":"watchdog"}));
            break;
        }
    }
    drop(g);
    let ev = sh.events.lock().unwrap().clone();
    let parked = ev.last().map(|e| e["e"] == "blocked").unwrap_or(false);
    if !parked { h.join().ok(); }
    std::fs::remove_dir_all(&scratch).ok();
    let rt = json!({"kernel": sc["rt"]["kernel"].as_bool().unwrap_or(false), "priomax": sc["rt"]["priomax"].as_i64().unwrap_or(99),
        "setsched": sc["rt"]["setsched"].as_i64().unwrap_or(0), "mlockall": sc["rt"]["mlockall"].as_i64().unwrap_or(0)});
    json!({"rt": rt, "id": sc["id"], "dev": sc["dev"].as_str().unwrap_or("robot"), "fam": sc["fam"].as_str().unwrap_or(""), "closed": sc["closed"].as_bool().unwrap_or(false), "ev": ev})
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if std::env::var("FH_PANIC").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    unsafe {
        let r = libc::rlimit { rlim_cur: 65536, rlim_max: 65536 };
        if libc::setrlimit(libc::RLIMIT_NOFILE, &r) != 0 {
            let mut q: libc::rlimit = std::mem::zeroed();
            libc::getrlimit(libc::RLIMIT_NOFILE, &mut q);
            q.rlim_cur = q.rlim_max;
            libc::setrlimit(libc::RLIMIT_NOFILE, &q);
        }
    }
    // fharness run SCENARIOS OUT SHARD SCRATCH
    if args.len() < 6 || args[1] != "run" { eprintln!("usage: fharness run SCENARIOS OUT SHARD SCRATCH"); std::process::exit(2); }
    let shard: u32 = args[4].parse().unwrap();
    let f = std::io::BufReader::new(std::fs::File::open(&args[2]).unwrap());
    let mut out = std::io::BufWriter::new(std::fs::File::create(&args[3]).unwrap());
    let mut hung = 0;
    let mut next: u32 = std::process::id().wrapping_mul(7919) % 16000000;
    for (n, line) in f.lines().enumerate() {
        let line = line.unwrap();
        if line.trim().is_empty() { continue; }
        let sc: Value = serde_json::from_str(&line).expect("scenario json");
        let r = run_one(&sc, &mut next, format!("{}/s{}_{}", args[5], shard, n));
        writeln!(out, "{}", r).unwrap();
        out.flush().unwrap();
        if r["ev"].as_array().and_then(|v| v.last()).map(|e| e["why"] == "watchdog").unwrap_or(false) { hung += 1; }
        if hung >= 3 { std::process::exit(3); } // enough: the caller judges what has been seen
    }
    out.flush().unwrap();
}
