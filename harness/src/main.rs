#![allow(dead_code)]
mod apps;
mod ctx;
mod frame;
mod gen;
mod io;
mod mon;
mod props;
mod rng;
mod schema;
mod sys;
mod trace;
mod view;

use ctx::{Cx, Tier};
use serde_json::{json, Value};
use std::time::{Duration, Instant};

#[cfg(not(feature = "plain-alloc"))]
#[global_allocator]
static ALLOC: mon::Counting = mon::Counting;

fn main() {
    mon::install_panic_hook();
    trace::install();
    trace::set(std::env::var_os("BSPMON_TRACE").is_some());
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(String::as_str) {
        Some("stdio") => child(&a[2], &serde_json::from_str(&a[3]).unwrap_or(Value::Null)),
        Some("listen" | "connect") => socket_child(&a[1], &a[2], &a[3], &serde_json::from_str(&a[4]).unwrap_or(Value::Null)),
        Some("run") => run(&a[2..]),
        _ => {
            eprintln!("usage: bspmon run --prop ID … | stdio APP ARG");
            std::process::exit(2);
        }
    }
}

/// A process of its own, so that it can be stopped while the peer comes and goes.
fn socket_child(how: &str, addr: &str, name: &str, arg: &Value) {
    use std::io::Write;
    let Some(app) = apps::app(name) else { std::process::exit(2) };
    let _ = std::io::stderr().write_all(b"READY\n");
    let hoard = arg["free"].as_u64().map(|n| sys::hoard(n as usize));
    let c = std::panic::catch_unwind(|| if how == "listen" { bsp_server::Connection::listen(addr) } else { bsp_server::Connection::connect(addr) });
    let mut v = match c {
        Ok(Ok((c, t))) => {
            drop(hoard);
            io::run_app(app, c, Some(t), arg)
        }
        Ok(Err(e)) => {
            let free = hoard.as_ref().map(|_| sys::free_fds());
            drop(hoard);
            let end = Instant::now() + Duration::from_secs(5);
            while mon::thread_count() > 1 && Instant::now() < end {
                std::thread::sleep(Duration::from_millis(1));
            }
            json!({ "refused": format!("{:?}", e.kind()), "join": "ok", "free": free, "threads": mon::thread_count() })
        }
        Err(_) => json!({ "join": "ok" }),
    };
    let p: Vec<Value> = mon::take_panics().iter().map(|p| json!([p.file, p.line, p.msg])).collect();
    v["panics"] = json!(p);
    let s = format!("OBS {v}\n");
    let _ = std::io::stderr().write_all(s.as_bytes());
    std::process::exit(0)
}

fn child(name: &str, arg: &Value) {
    use std::io::Write;
    let Some(app) = apps::app(name) else { std::process::exit(2) };
    if let Some(us) = arg["storm_us"].as_u64() {
        std::mem::forget(sys::storm(Duration::from_micros(us)));
    }
    mon::reset_max_request();
    let (c, t) = bsp_server::Connection::stdio();
    let mut v = io::run_app(app, c, Some(t), arg);
    let p: Vec<Value> = mon::take_panics().iter().map(|p| json!([p.file, p.line, p.msg])).collect();
    v["panics"] = json!(p);
    v["max_request"] = json!(mon::max_request());
    let s = format!("OBS {v}\n");
    let _ = std::io::stderr().write_all(s.as_bytes());
    std::process::exit(0)
}

fn run(a: &[String]) {
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let num = |k: &str, d: u64| get(k).and_then(|s| s.parse().ok()).unwrap_or(d);
    let prop = get("--prop").unwrap_or_default();
    let tier = if get("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let mut cx = Cx::new(&prop, num("--seed", 1), tier);
    cx.verbose = get("--verbose").is_some();
    let Some(f) = props::prop(&prop) else {
        eprintln!("unknown property {prop}");
        std::process::exit(2)
    };
    let (from, step, count) = (num("--from", 0), num("--step", 1).max(1), num("--count", 1));
    let end = Instant::now() + Duration::from_secs(num("--secs", 600));
    let mut done = 0;
    let mut case = from;
    while done < count && Instant::now() < end && cx.violations < 20 {
        cx.start(case);
        trace::set((case / 8 + case) % 8 == 6);
        // (Miri and the sanitizers are slow, and have the driver's limits)
        let slow = std::env::var("BSPMON_TOOL").is_ok();
        let limit = if tier == Tier::Quick { 120_000 } else { 240_000 } + 2 * cx.long_ms();
        let guard = (!slow).then(|| ctx::guard(case, Duration::from_millis(limit), "the case".into()));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut cx)));
        drop(guard);
        let panics = mon::take_panics();
        for p in &panics {
            let d = json!({ "file": p.file, "line": p.line, "message": p.msg });
            if p.file.starts_with("src/") {
                cx.harness_error(format!("panic in the harness at {}:{}: {}", p.file, p.line, p.msg));
            } else {
                cx.violation(format!("panic at {}:{}: {}", p.file, p.line, p.msg), d);
            }
        }
        if r.is_err() && panics.is_empty() {
            cx.harness_error("case panicked");
        }
        done += 1;
        case += step;
    }
    ctx::emit("N", &json!({ "next": case, "done": done }));
    cx.count("traced spans and events", trace::seen());
    cx.report();
    let _ = std::fs::remove_dir_all(std::env::temp_dir().join(format!("bspmon.{}", std::process::id())));
    // Miri looks for leaks when main returns
    if !cfg!(miri) {
        std::process::exit(0)
    }
}
