//! Applications: small servers on top of the library, run in this process or as a child.
use crate::gen;
use crate::io::App;
use crate::rng::{mix, Rng};
use crate::schema::{self, norm};
use crate::view::{self, custom_notification, custom_request, view, view_req, Gen, Kind, View};
use bsp_server::types::{BuildServer, InitializeBuild, InitializeBuildResult, ServerCapabilities};
use bsp_server::{Connection, Message, Request, RequestId, Response};
use crossbeam_channel::RecvTimeoutError;
use serde_json::{json, Value};
use std::time::{Duration, Instant};

pub fn app(name: &str) -> Option<App> {
    Some(match name {
        "init" => init,
        "shutdown" => shutdown,
        "server" => server,
        "collect" => collect,
        "echo" => echo,
        "send" => send,
        "hold" => hold,
        "lockstep" => lockstep,
        "duplex" => duplex,
        "memory" => memory,
        "cost" => cost,
        "defaults" => defaults,
        _ => return None,
    })
}

/// A server that implements initialization only.
pub struct Only;
impl BuildServer for Only {
    fn initialize(&self, p: InitializeBuild) -> anyhow::Result<InitializeBuildResult> {
        Ok(InitializeBuildResult::new_simple(p.display_name(), p.version(), p.bsp_version(), ServerCapabilities::default()))
    }
}

/// It, dispatching what it receives.
fn defaults(c: Connection, _: &Value) -> Value {
    let s = Only;
    let mut n = 0;
    if c.initialize(|p| s.initialize(p.clone()).ok()).is_ok() {
        s.on_initializtion();
        while let Ok(m) = c.receiver.recv() {
            n += 1;
            let q = match m {
                Message::Request(q) => q,
                Message::Notification(bsp_server::Notification::Exit) => {
                    s.on_build_exit();
                    break;
                }
                _ => continue,
            };
            if !matches!(c.handle_shutdown(&q), Ok(false)) {
                break;
            }
            fn answer<T: serde::Serialize>(id: &RequestId, r: anyhow::Result<T>) -> Response {
                match r {
                    Ok(v) => Response::ok(id.clone(), v),
                    Err(e) => Response::method_not_found(id.clone(), e.to_string()),
                }
            }
            let id = q.id().clone();
            let a = match q {
                Request::WorkspaceBuildTargets(_) => answer(&id, s.workspace_bts()),
                Request::WorkspaceReload(_) => answer(&id, s.workspace_reload()),
                Request::BuildTargetDependencyModules(_, p) => answer(&id, s.bt_dependency_modules(p)),
                Request::DebugSessionStart(_, p) => answer(&id, s.debug_session_start(p)),
                Request::BuildTargetSources(_, p) => answer(&id, s.bt_sources(p)),
                Request::TextDocumentInverseSources(_, p) => answer(&id, s.bt_inverse_sources(p)),
                Request::BuildTargetDependencySources(_, p) => answer(&id, s.bt_dependency_sources(p)),
                Request::BuildTargetResources(_, p) => answer(&id, s.bt_resources(p)),
                Request::BuildTargetRun(_, p) => answer(&id, s.bt_run(p)),
                Request::BuildTargetCompile(_, p) => answer(&id, s.bt_compile(p)),
                Request::BuildTargetTest(_, p) => answer(&id, s.bt_test(p)),
                Request::BuildTargetCleanCache(_, p) => answer(&id, s.bt_clean_cache(p)),
                _ => Response::method_not_found(id, "?".into()),
            };
            if c.send(a).is_err() {
                break;
            }
        }
    }
    json!({ "received": n })
}

fn views(c: &Connection, out: &mut Vec<Value>) {
    while let Ok(m) = c.receiver.recv() {
        out.push(view(&m).json());
    }
}

fn norm_init<T: serde::Serialize>(p: &T) -> Value {
    norm(&schema::INITIALIZE, &serde_json::to_value(p).unwrap_or(Value::Null))
}

/// Initialize, then receive what is left.
fn init(c: Connection, arg: &Value) -> Value {
    let mut handler = vec![];
    let r = c.initialize(|p| {
        handler.push(norm_init(p));
        arg["result"].clone()
    });
    let r = match r {
        Ok(p) => json!({ "ok": norm_init(&p) }),
        Err(e) => json!({ "err": e.to_string() }),
    };
    let mut rest = vec![];
    views(&c, &mut rest);
    json!({ "init": r, "handler": handler, "rest": rest })
}

/// Offer every received request to handle_shutdown until it is shut down or fails.
fn shutdown(c: Connection, arg: &Value) -> Value {
    let mut log = vec![];
    while let Ok(m) = c.receiver.recv() {
        log.push(json!({ "got": view(&m).json() }));
        if let Message::Request(q) = &m {
            let t0 = Instant::now();
            let r = c.handle_shutdown(q);
            let ms = t0.elapsed().as_millis() as u64;
            if let Some(f) = arg["go"].as_str() {
                let _ = std::fs::write(f, vec![b'.'; log.len()]);
            }
            match r {
                Ok(b) => {
                    log.push(json!({ "reported": b, "ms": ms }));
                    if b {
                        break;
                    }
                }
                Err(e) => {
                    log.push(json!({ "reported": "error", "text": e.to_string(), "ms": ms }));
                    break;
                }
            }
        }
    }
    let mut rest = vec![];
    views(&c, &mut rest);
    json!({ "log": log, "rest": rest })
}

/// What `server` answers to a request (None: shutdown).
pub fn answer(v: &View) -> Vec<Gen> {
    let mut out = vec![];
    if v.kind == Kind::Notification {
        out.push(custom_notification("server/saw", json!([v.method, v.params])));
        return out;
    }
    if v.kind == Kind::Response {
        out.push(custom_notification("server/response", json!([v.id, v.result.clone().unwrap_or(json!("none")), v.error.clone().unwrap_or(json!("none"))])));
        return out;
    }
    if v.method.len() % 3 == 2 {
        out.push(custom_notification("server/progress", json!({ "for": v.id })));
    }
    let view = if v.variant == "Custom" {
        View::response(v.id.clone(), None, Some(json!({ "code": -32601, "message": format!("no {}", v.method) })))
    } else {
        View::response(v.id.clone(), Some(json!([v.method, v.params])), None)
    };
    out.push(Gen { json: Default::default(), view });
    out
}

/// A complete server: initialization, main loop, shutdown.
fn server(c: Connection, arg: &Value) -> Value {
    let mut log = vec![];
    let mut handler = vec![];
    let r = c.initialize(|p| {
        handler.push(norm_init(p));
        arg["result"].clone()
    });
    let ok = r.is_ok();
    log.push(match r {
        Ok(p) => json!({ "initialized": norm_init(&p), "handler": handler }),
        Err(_) => json!({ "init": "error", "handler": handler }),
    });
    if ok {
        loop {
            let m = match c.receiver.recv() {
                Ok(m) => m,
                Err(_) => {
                    log.push(json!("end"));
                    break;
                }
            };
            let v = view(&m);
            log.push(json!({ "got": v.json() }));
            if let Message::Request(q) = &m {
                match c.handle_shutdown(q) {
                    Ok(true) => {
                        log.push(json!("shutdown"));
                        break;
                    }
                    Ok(false) => {}
                    Err(_) => {
                        log.push(json!("shutdown error"));
                        break;
                    }
                }
            }
            if v.variant == "Exit" {
                break;
            }
            for a in answer(&v) {
                if let Ok(m) = a.view.build() {
                    if c.send(m).is_err() {
                        log.push(json!("send failed"));
                    }
                }
            }
        }
    }
    let mut rest = vec![];
    views(&c, &mut rest);
    json!({ "log": log, "rest": rest })
}

/// Receive everything, pausing `pause_us` after each message, after a first pause of `first_ms`.
fn collect(c: Connection, arg: &Value) -> Value {
    let p = arg["pause_us"].as_u64().unwrap_or(0);
    std::thread::sleep(Duration::from_millis(arg["first_ms"].as_u64().unwrap_or(0)));
    if let Some(go) = arg["go"].as_str() {
        let end = Instant::now() + Duration::from_secs(180);
        while allowed(go) < 1 && Instant::now() < end {
            std::thread::sleep(Duration::from_millis(1));
        }
    }
    let stop = arg["stop_after"].as_u64().unwrap_or(u64::MAX);
    let mut out = vec![];
    while (out.len() as u64) < stop {
        if Some(out.len() as u64) == arg["stall"][0].as_u64() {
            std::thread::sleep(Duration::from_millis(arg["stall"][1].as_u64().unwrap_or(0)));
        }
        match c.receiver.recv() {
            Ok(m) => out.push(view(&m).json()),
            Err(_) => break,
        }
        if p > 0 {
            std::thread::sleep(Duration::from_micros(p));
        }
    }
    // the session may have ended, but the peer still reads
    let mut r = thread_rng(arg["seed"].as_u64().unwrap_or(0), 0);
    let sent: Vec<bool> = (0..arg["after"].as_u64().unwrap_or(0) as usize)
        .map(|i| tagged(&mut r, 0, i, 0).view.build().map_or(false, |m| c.send(m).is_ok()))
        .collect();
    json!({ "got": out, "sent": sent })
}

/// How far the peer wants us to go, told outside the connection.
fn allowed(path: &str) -> usize {
    std::fs::metadata(path).map_or(0, |m| m.len() as usize)
}

/// Send `n` messages, each only after the peer has confirmed the previous one in the file `go`,
/// without receiving; then receive everything.
fn lockstep(c: Connection, arg: &Value) -> Value {
    let go = arg["go"].as_str().unwrap_or("");
    let n = arg["n"].as_u64().unwrap_or(0) as usize;
    let mut r = thread_rng(arg["seed"].as_u64().unwrap_or(0), 0);
    let mut sent = vec![];
    for i in 0..n {
        let g = tagged(&mut r, 0, i, 0);
        sent.push(g.view.build().map_or(false, |m| c.send(m).is_ok()));
        let end = Instant::now() + crate::ctx::wait() + Duration::from_secs(160);
        while allowed(go) < i + 1 && Instant::now() < end {
            std::thread::sleep(Duration::from_micros(300));
        }
    }
    let mut got = vec![];
    views(&c, &mut got);
    json!({ "sent": sent, "got": got })
}

/// One thread sends `n` big messages, this one receives until the end.
fn duplex(c: Connection, arg: &Value) -> Value {
    let n = arg["n"].as_u64().unwrap_or(0) as usize;
    let big = arg["big"].as_u64().unwrap_or(0) as usize;
    let seed = arg["seed"].as_u64().unwrap_or(0);
    let go = arg["go"].as_str().unwrap_or("");
    let mut got = vec![];
    let sender = c.sender.clone();
    let sent = std::thread::scope(|s| {
        let h = s.spawn(move || {
            let mut r = thread_rng(seed, 0);
            (0..n).map(|i| tagged(&mut r, 0, i, big).view.build().map_or(false, |m| sender.send(m).is_ok())).collect::<Vec<bool>>()
        });
        while let Ok(m) = c.receiver.recv() {
            got.push(view(&m).json());
            // tell how far we are outside the connection
            let _ = std::fs::write(go, vec![b'.'; got.len()]);
        }
        h.join().unwrap_or_default()
    });
    json!({ "sent": sent, "got": got })
}

/// Send every message back; note the live memory whenever asked to.
fn memory(c: Connection, _: &Value) -> Value {
    let mut live = vec![];
    while let Ok(m) = c.receiver.recv() {
        let measure = matches!(&m, Message::Notification(n) if n.method() == "mem/measure");
        if c.sender.send(m).is_err() {
            break;
        }
        if measure {
            live.push(crate::mon::live_bytes());
        }
    }
    json!({ "live": live })
}

/// Drops what it receives, but answers some requests and sends when told to.
fn cost(c: Connection, _: &Value) -> Value {
    let mut built: Option<Message> = None;
    while let Ok(m) = c.receiver.recv() {
        match m {
            Message::Request(q) => {
                if c.handle_shutdown(&q).unwrap_or(true) {
                    break;
                }
                if q.method() == "cost/answer" && c.send(Response::ok(q.id().clone(), q.params().unwrap_or_default())).is_err() {
                    break;
                }
            }
            Message::Notification(bsp_server::Notification::Custom("cost/build", p)) => {
                let bytes = crate::props::cost::of_size(p["kind"].as_str().unwrap_or(""), p["size"].as_u64().unwrap_or(0) as usize, 1);
                let body = bytes.windows(4).position(|w| w == b"\r\n\r\n").map_or(0, |i| i + 4);
                built = serde_json::from_slice(&bytes[body..]).ok();
            }
            Message::Notification(bsp_server::Notification::Custom("cost/send", p)) => {
                let n = p["n"].as_u64().unwrap_or(0) as usize;
                let kind = p["kind"].as_str().unwrap_or("");
                if let Some(m) = built.take() {
                    for _ in 0..n {
                        let _ = c.send(m.clone());
                    }
                    continue;
                }
                let from = p["from"].as_u64().unwrap_or(0) as usize;
                for i in from..from + n {
                    let id = RequestId::from(i as i32);
                    let m: Message = match if kind == "sent" { i % 5 } else { usize::MAX } {
                        0 => bsp_server::Notification::Custom(gen::leak(&format!("cost/m{i}")), json!(i)).into(),
                        1 => Response::ok(id, i).into(),
                        2 => Response::method_not_found(RequestId::from(format!("id-{i}")), format!("no {i}")).into(),
                        _ => Request::Custom(id, "cost/q", json!([i])).into(),
                    };
                    let _ = c.send(m);
                }
            }
            _ => {}
        }
    }
    json!({})
}

/// Send every message back.
fn echo(c: Connection, _: &Value) -> Value {
    let mut n = 0;
    let mut failed = 0;
    while let Ok(m) = c.receiver.recv() {
        n += 1;
        if c.sender.send(m).is_err() {
            failed += 1;
        }
    }
    json!({ "echoed": n, "failed": failed })
}

/// Do nothing for `ms`, then drop the connection.
fn hold(c: Connection, arg: &Value) -> Value {
    std::thread::sleep(Duration::from_millis(arg["ms"].as_u64().unwrap_or(0)));
    drop(c);
    json!({})
}

/// Message `i` of thread `t`; `tag` finds (t, i) again.
pub fn tagged(r: &mut Rng, t: usize, i: usize, big: usize) -> Gen {
    let tag = format!("{t}/{i}");
    if big % 2 == 1 {
        // heavy: every message has between big/2 and big bytes
        let s = "h".repeat(big / 2 + r.below(big / 2));
        return custom_notification("t/heavy", json!({ "tag": tag, "s": s }));
    }
    if big > 0 && r.one_in(6) {
        let n = gen::size(r, big);
        let s = r.pick(&["x", "é", "日", "😀", "\\", "\n"]).repeat(n / 2 + 1);
        return match r.below(3) {
            0 => custom_request(json!(tag), "t/big", json!([s])),
            1 => custom_notification("t/big", json!({ "tag": tag, "s": s })),
            _ => Gen { json: Default::default(), view: View::response(json!(tag), Some(json!({ "s": s })), None) },
        };
    }
    match r.below(8) {
        0 | 1 => {
            let i = r.below(schema::REQUESTS.len());
            view::typed_request(r, i, json!(tag))
        }
        2 => {
            let m = gen::string(r);
            let m = if schema::request(&m).is_some() { format!("{m}/") } else { m };
            custom_request(json!(tag), &m, gen::payload(r))
        }
        3 => custom_notification("t/custom", json!({ "tag": tag, "p": gen::payload(r) })),
        4 => {
            let mut p = schema::gen_obj(r, &schema::TASK_PROGRESS, 0);
            p["taskId"] = json!({ "id": tag });
            Gen { json: Default::default(), view: View::notification("TaskProgress", "build/taskProgress", p) }
        }
        5 => {
            let mut p = schema::gen_obj(r, &schema::MESSAGE, 0);
            p["originId"] = json!(tag);
            Gen { json: Default::default(), view: View::notification("LogMessage", "build/logMessage", p) }
        }
        6 => Gen { json: Default::default(), view: View::response(json!(tag), Some(gen::payload(r)), None) },
        _ => Gen { json: Default::default(), view: View::response(json!(tag), None, Some(view::gen_error(r))) },
    }
}

pub fn tag(v: &Value) -> Option<(usize, usize)> {
    let p = &v["params"];
    for x in [&v["id"], &p["tag"], &p["taskId"]["id"], &p["originId"]] {
        if let Some((a, b)) = x.as_str().and_then(|s| s.split_once('/')) {
            if let (Ok(a), Ok(b)) = (a.parse(), b.parse()) {
                return Some((a, b));
            }
        }
    }
    None
}

pub fn thread_rng(seed: u64, t: usize) -> Rng {
    Rng::new(mix(seed ^ mix(t as u64 + 1)))
}

/// `threads` threads send `n` tagged messages each.
fn send(c: Connection, arg: &Value) -> Value {
    let (seed, threads, n) = (arg["seed"].as_u64().unwrap_or(0), arg["threads"].as_u64().unwrap_or(1) as usize, arg["n"].as_u64().unwrap_or(1) as usize);
    let big = arg["big"].as_u64().unwrap_or(0) as usize;
    let mixed = arg["mixed"].as_bool().unwrap_or(false);
    let jitter = arg["jitter"].as_bool().unwrap_or(false);
    let c = &c;
    // what the peer sends is received before or while we send
    let receive = arg["receive"].as_str().unwrap_or("");
    let mut got = 0;
    if receive == "first" {
        got = c.receiver.iter().count();
    }
    let got = &mut got;
    let sent: Vec<Vec<bool>> = std::thread::scope(|s| {
        if receive == "while" {
            s.spawn(move || *got = c.receiver.iter().count());
        }
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                s.spawn(move || {
                    let mut r = thread_rng(seed, t);
                    let mut j = Rng::new(seed ^ 77 ^ t as u64);
                    (0..n)
                        .map(|i| {
                            let g = tagged(&mut r, t, i, big);
                            let Ok(m) = g.view.build() else { return false };
                            if jitter && j.one_in(8) {
                                std::thread::sleep(Duration::from_micros(j.below(300) as u64));
                            }
                            if !mixed {
                                return c.send(m).is_ok();
                            }
                            match j.below(4) {
                                0 => c.sender.send(m).is_ok(),
                                1 => {
                                    let mut m = m;
                                    let end = Instant::now() + Duration::from_secs(60);
                                    loop {
                                        match c.try_send(m) {
                                            Ok(()) => return true,
                                            Err(e) if e.is_full() && Instant::now() < end => m = e.into_inner(),
                                            Err(_) => return false,
                                        }
                                        std::thread::yield_now();
                                    }
                                }
                                2 => c.send_timeout(m, Duration::from_millis(j.below(5) as u64)).is_ok(),
                                _ => c.send_deadline(m, Instant::now() + Duration::from_millis(j.below(5) as u64)).is_ok(),
                            }
                        })
                        .collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    json!({ "sent": sent })
}

/// Used by other modules: one answer through the public API.
#[allow(dead_code)]
pub fn respond(c: &Connection, q: &Request) -> bool {
    c.send(Response::ok(q.id().clone(), view_req(q).params)).is_ok()
}

/// Everything received within `d` of silence.
#[allow(dead_code)]
pub fn recv_timeout_all(c: &Connection, d: Duration) -> Vec<View> {
    let mut v = vec![];
    loop {
        match c.receiver.recv_timeout(d) {
            Ok(m) => v.push(view(&m)),
            Err(RecvTimeoutError::Timeout | RecvTimeoutError::Disconnected) => return v,
        }
    }
}
