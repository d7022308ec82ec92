//! What the library costs: nothing while it waits, and in proportion to what it carries.

use crate::ctx::{wait, Cx};
use crate::frame::frame;
use crate::io::{self, join_now};
use crate::rng::Rng;
use crate::schema;
use crate::sys;
use crate::view;
use bsp_server::{Connection, Message};
use crossbeam_channel::{bounded, Receiver, Sender};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub fn prop(id: &str) -> Option<fn(&mut Cx)> {
    Some(match id {
        "C29" => c29,
        "C30" => c30,
        _ => return None,
    })
}

// ---------------------------------------------------------------- C29: waiting

/// A state in which everything waits, and how to leave it.
struct Idle {
    what: String,
    ctl: Option<Sender<()>>,
    socket: Option<TcpStream>,
    ended: Receiver<()>,
    listen: Option<std::net::SocketAddr>,
    child: Option<Child>,
}

fn run(ctl: Receiver<()>, f: impl FnOnce(&Receiver<()>) + Send + 'static) -> Receiver<()> {
    let (tx, rx) = bounded(1);
    std::thread::spawn(move || {
        f(&ctl);
        let _ = tx.send(());
    });
    rx
}

fn park(ctl: &Receiver<()>) {
    let _ = ctl.recv();
}

fn initialize_request(r: &mut Rng) -> Vec<u8> {
    let p = schema::gen_obj(r, &schema::INITIALIZE, 0);
    frame(&json!({ "jsonrpc": "2.0", "id": 1, "method": "build/initialize", "params": p }).to_string())
}

const STATES: [&str; 13] =
    ["recv", "partial", "unreceived", "unread", "both blocked", "initialize", "initialized", "shutdown", "exited", "gone", "join", "clone", "listen"];

fn receive(c: &Connection, how: usize) {
    match how {
        0 => while c.receiver.recv().is_ok() {},
        1 => c.receiver.iter().for_each(drop),
        2 => while c.receiver.recv_timeout(Duration::from_secs(3600)).is_ok() {},
        _ => while c.receiver.recv_deadline(Instant::now() + Duration::from_secs(3600)).is_ok() {},
    }
}

fn heavy(c: &Connection, how: usize, n: usize) {
    for i in 0..n {
        let m = view::custom_notification("t/heavy", json!({ "i": i, "s": "h".repeat(200_000) }));
        let Ok(m) = m.view.build() else { return };
        let d = Duration::from_secs(3600);
        let ok = match how {
            0 => c.send(m).is_ok(),
            1 => c.send_timeout(m, d).is_ok(),
            2 => c.send_deadline(m, Instant::now() + d).is_ok(),
            _ => c.sender.send(m).is_ok(),
        };
        if !ok {
            return;
        }
    }
}

fn in_process(r: &mut Rng, state: &str, memory: bool) -> Result<Idle, String> {
    let (ctl, wait_for) = bounded::<()>(0);
    let mut idle = Idle { what: state.into(), ctl: Some(ctl), socket: None, ended: bounded(0).1, listen: None, child: None };
    let how = r.below(4);
    if memory {
        let (a, b) = Connection::memory();
        idle.what = format!("{state} in memory");
        let n = r.below(3);
        if state == "shutdown" {
            let _ = b.send(view::shutdown(json!(1)).view.build()?);
        }
        let state = state.to_string();
        idle.ended = run(wait_for, move |ctl| {
            let h = std::thread::spawn(move || match state.as_str() {
                "initialize" => drop(a.initialize(|_| Value::Null)),
                "shutdown" => {
                    if let Ok(Message::Request(q)) = a.receiver.recv() {
                        drop(a.handle_shutdown(&q));
                    }
                }
                _ => {
                    for i in 0..n {
                        let _ = a.send(bsp_server::Response::ok(bsp_server::RequestId::from(i as i32), i));
                    }
                    receive(&a, how);
                }
            });
            park(ctl);
            drop(b);
            let _ = h.join();
        });
        return Ok(idle);
    }
    if state == "listen" {
        let a = TcpListener::bind((sys::own_ip().as_str(), 0)).and_then(|l| l.local_addr()).map_err(|e| format!("bind: {e}"))?;
        idle.listen = Some(a);
        idle.ended = run(wait_for, move |_| {
            if let Ok((c, t)) = Connection::listen(a) {
                drop(c);
                join_now(t);
            }
        });
        return Ok(idle);
    }
    let listen = r.coin();
    let (c, t, mut s) = io::tcp(listen)?;
    idle.what = format!("{state} ({}, variant {how})", if listen { "listen" } else { "connect" });
    let put = |s: &mut TcpStream, b: &[u8]| s.write_all(b).map_err(|e| format!("peer: {e}"));
    let (how2, threads) = (r.below(4), r.range(1, 3));
    let note = |i: usize, n: usize| frame(&view::custom_notification("c29/n", json!({ "i": i, "s": "p".repeat(n) })).text());
    match state {
        "recv" => {
            for i in 0..r.below(4) {
                put(&mut s, &note(i, 10))?;
            }
        }
        "partial" => {
            let b = note(0, 3000);
            let body = b.len() - 3000;
            let n = match r.below(4) {
                0 => r.below(30),
                1 => b.windows(4).position(|w| w == b"\r\n\r\n").unwrap_or(0) + r.below(5),
                2 => body,
                _ => r.range(body, b.len() - 1),
            };
            put(&mut s, &b[..n])?;
            idle.what += &format!(", {n} of {} bytes", b.len());
        }
        "unreceived" => {
            let n = *r.pick(&[10, 10, 9000, 300_000]);
            for i in 0..r.range(1, 4) {
                put(&mut s, &note(i, if i == 0 { n } else { 10 }))?;
            }
        }
        "unread" => sys::small_rcvbuf(&s, 4096),
        "both blocked" => {
            sys::small_rcvbuf(&s, 4096);
            put(&mut s, &note(0, 10))?;
            put(&mut s, &note(1, 10))?;
        }
        "initialize" => {
            for i in 0..r.below(4) {
                put(&mut s, &frame(&view::custom_request(json!(i), "c29/early", Value::Null).text()))?;
            }
        }
        "initialized" => put(&mut s, &initialize_request(r))?,
        "shutdown" => put(&mut s, &frame(&view::shutdown(json!(9)).text()))?,
        "exited" => put(&mut s, &frame(&view::exit().text()))?,
        "gone" => {
            if r.coin() {
                put(&mut s, &note(0, 100)[..r.below(60)])?;
            }
            match how {
                0 => drop(s.shutdown(Shutdown::Write)),
                1 => drop(s.shutdown(Shutdown::Both)),
                2 => sys::linger0(&s),
                _ => {}
            }
        }
        _ => {}
    }
    let gone = state == "gone" && how >= 2;
    let st = state.to_string();
    idle.ended = run(wait_for, move |ctl| {
        match st.as_str() {
            "recv" | "partial" => receive(&c, how),
            "unread" | "both blocked" => {
                std::thread::scope(|s| {
                    for _ in 0..threads {
                        s.spawn(|| heavy(&c, how, 100));
                    }
                    if how2 == 0 {
                        s.spawn(|| heavy(&c, how2, 100));
                    }
                });
                park(ctl);
            }
            "initialize" | "initialized" => drop(c.initialize(|_| Value::Null)),
            "shutdown" => {
                if let Ok(Message::Request(q)) = c.receiver.recv() {
                    drop(c.handle_shutdown(&q));
                }
            }
            "join" => {
                let keep = match how {
                    0 => (Some(c.sender.clone()), None),
                    1 => (None, Some(c.receiver.clone())),
                    _ => (None, None),
                };
                drop(c);
                let h = std::thread::spawn(move || join_now(t));
                park(ctl);
                drop(keep);
                let _ = h.join();
                return;
            }
            "clone" => {
                let k = c.sender.clone();
                drop(c);
                park(ctl);
                drop(k);
                join_now(t);
                return;
            }
            _ => park(ctl),
        }
        drop(c);
        join_now(t);
    });
    idle.socket = if gone { None } else { Some(s) };
    Ok(idle)
}

const CHILD_STATES: [(&str, &str); 7] = [
    ("echo", "recv"),
    ("hold", "unreceived"),
    ("hold", "gone"),
    ("hold", "exited"),
    ("send", "unread"),
    ("init", "initialize"),
    ("shutdown", "shutdown"),
];

/// A process of its own on stdio.
fn in_child(r: &mut Rng) -> Result<Idle, String> {
    let &(app, state) = r.pick(&CHILD_STATES);
    let arg = json!({ "ms": 600_000, "seed": 1, "threads": 2, "n": 40, "big": 200_001, "result": {} });
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut child = Command::new(exe)
        .args(["stdio", app, &arg.to_string()])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| format!("spawn: {e}"))?;
    let note = frame(&view::custom_notification("c29/n", json!({ "s": "p".repeat(r.below(3000)) })).text());
    let bytes = match state {
        "recv" | "initialize" => match r.below(3) {
            0 => note[..r.below(note.len())].to_vec(),
            1 => note,
            _ => vec![],
        },
        "unreceived" => [note.clone(), note].concat(),
        "shutdown" => frame(&view::shutdown(json!(9)).text()),
        "exited" => frame(&view::exit().text()),
        _ => vec![],
    };
    if let Some(i) = &mut child.stdin {
        i.write_all(&bytes).map_err(|e| format!("peer: {e}"))?;
    }
    if state == "gone" {
        child.stdin = None;
    }
    Ok(Idle { what: format!("{state} on stdio"), ctl: None, socket: None, ended: bounded(0).1, listen: None, child: Some(child) })
}

/// Processor time (ns) and voluntary context switches of every thread.
fn threads(pid: Option<u32>) -> HashMap<(u32, u64), (u64, u64)> {
    let dir = pid.map_or("/proc/self/task".to_string(), |p| format!("/proc/{p}/task"));
    let own = if pid.is_none() { sys::tid() } else { 0 };
    let mut out = HashMap::new();
    for e in std::fs::read_dir(&dir).into_iter().flatten().flatten() {
        let Some(t) = e.file_name().to_str().and_then(|s| s.parse::<u64>().ok()) else { continue };
        if t == own {
            continue;
        }
        let first = |f: &str| std::fs::read_to_string(format!("{dir}/{t}/{f}")).unwrap_or_default();
        let ns = first("schedstat").split_whitespace().next().and_then(|s| s.parse().ok()).unwrap_or(0);
        let sw = first("status").lines().find_map(|l| l.strip_prefix("voluntary_ctxt_switches:")?.trim().parse().ok()).unwrap_or(0);
        out.insert((pid.unwrap_or(0), t), (ns, sw));
    }
    out
}

fn c29(cx: &mut Cx) {
    cx.eval();
    let n = cx.r.range(6, if cx.quick() { 24 } else { 60 });
    // all in one state, or each in another
    let one = if cx.r.coin() { Some(*cx.r.pick(&STATES)) } else { None };
    let mut idle = vec![];
    for _ in 0..n {
        let k = cx.r.below(20);
        let i = if k == 0 || k == 1 && one.is_none() {
            in_child(&mut cx.r)
        } else {
            let memory = one.is_none() && k < 4;
            let st = if memory { *cx.r.pick(&["recv", "initialize", "shutdown"]) } else { one.unwrap_or_else(|| *cx.r.pick(&STATES)) };
            in_process(&mut cx.r, st, memory)
        };
        match i {
            Ok(i) => idle.push(i),
            Err(e) => return cx.harness_error(e),
        }
    }
    let all = |idle: &Vec<Idle>| {
        let mut m = threads(None);
        for c in idle.iter().filter_map(|i| i.child.as_ref()) {
            m.extend(threads(Some(c.id())));
        }
        m
    };
    std::thread::sleep(Duration::from_millis(150));
    let mut busy = vec![];
    let mut seen = 0;
    let start = Instant::now();
    for ms in [400, 400, 500, 1000, 2000, 3000, 3000] {
        let before = all(&idle);
        let t0 = Instant::now();
        std::thread::sleep(Duration::from_millis(ms));
        let secs = t0.elapsed().as_secs_f64();
        let after = all(&idle);
        seen = after.len();
        cx.evt(seen);
                busy.clear();
        let (mut total_ns, mut total_sw) = (0, 0);
        for (k, &(ns, sw)) in &after {
            let &(n0, s0) = before.get(k).unwrap_or(&(0, 0));
            let (ns, sw) = (ns.saturating_sub(n0), sw.saturating_sub(s0));
            total_ns += ns;
            total_sw += sw;
            if ns as f64 > secs * 1e6 || sw as f64 > secs * 20.0 {
                busy.push(json!({ "process": k.0, "thread": k.1, "ms": ns as f64 / 1e6, "wakeups": sw, "seconds": secs }));
            }
        }
        // threads that come and go
        let fresh = after.keys().filter(|k| !before.contains_key(k)).count();
        if fresh as f64 > secs * 20.0 {
            busy.push(json!({ "new threads": fresh, "seconds": secs }));
        }
        cx.count("waiting threads measured", seen as u64);
        if busy.is_empty() {
            cx.count("quiet windows", 1);
            cx.count("microseconds used in quiet windows", total_ns / 1000);
            cx.count("wakeups in quiet windows", total_sw);
            break;
        }
        cx.count("windows not quiet yet", 1);
    }
    let mut kinds: Vec<&str> = idle.iter().map(|i| i.what.as_str()).collect();
    kinds.sort();
    for k in &kinds {
        cx.count(&format!("state: {}", k.split([' ', '(']).next().unwrap_or("")), 1);
    }
    cx.sig(&kinds.join(";"));
    cx.sample(|| json!({ "states": kinds, "threads": seen, "measured for": start.elapsed().as_secs_f64() }));
    let left = std::mem::take(&mut busy);
    if !left.is_empty() {
        let m = format!("{} of {seen} threads of sessions in which everything waits are still busy after {:?}", left.len(), start.elapsed());
        cx.violation(m, json!({ "busy": left, "states": kinds }));
        // what spins does not end either
        cx.report();
        std::process::exit(70);
    }
    leave(cx, idle);
}

fn leave(cx: &mut Cx, idle: Vec<Idle>) {
    for mut i in idle {
        i.ctl = None;
        if let Some(a) = i.listen {
            let _ = TcpStream::connect(a);
        }
        i.socket = None;
        if let Some(mut c) = i.child {
            let _ = c.kill();
            let _ = c.wait();
            continue;
        }
        if i.ended.recv_timeout(wait()).is_err() {
            cx.stall(format!("{}: does not end when the peer has gone", i.what));
        }
    }
}

// ---------------------------------------------------------------- C30: proportion

/// Processor time of a process in seconds, its ended threads included.
fn used(pid: u32) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let f: Vec<f64> = s.rsplit(')').next().unwrap_or("").split_whitespace().filter_map(|x| x.parse().ok()).collect();
    // the state letter is left out: utime and stime are the 11th and 12th number
    (f.get(10).unwrap_or(&0.0) + f.get(11).unwrap_or(&0.0)) / 100.0
}

/// Application `cost` in a process of its own, and the peer's side of its session.
struct Session {
    child: Child,
    from: Box<dyn Read + Send>,
    to: Option<Box<dyn Write + Send>>,
    tcp: Option<TcpStream>,
    marks: usize,
}

fn session(r: &mut Rng, app: &str) -> Result<(Session, &'static str), String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut cmd = Command::new(exe);
    cmd.stderr(Stdio::null());
    if r.coin() {
        let mut child = cmd.args(["stdio", app, "{}"]).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().map_err(|e| format!("spawn: {e}"))?;
        let (i, o) = (child.stdin.take().ok_or("stdin")?, child.stdout.take().ok_or("stdout")?);
        return Ok((Session { child, from: Box::new(o), to: Some(Box::new(i)), tcp: None, marks: 0 }, "stdio"));
    }
    let l = TcpListener::bind((sys::own_ip().as_str(), 0)).map_err(|e| format!("bind: {e}"))?;
    let a = l.local_addr().map_err(|e| e.to_string())?;
    let child = cmd.args(["connect", &a.to_string(), app, "{}"]).stdin(Stdio::null()).stdout(Stdio::null()).spawn().map_err(|e| format!("spawn: {e}"))?;
    let (s, _) = l.accept().map_err(|e| format!("accept: {e}"))?;
    let _ = s.set_read_timeout(Some(Duration::from_secs(100)));
    let (f, t) = (s.try_clone().map_err(|e| e.to_string())?, s.try_clone().map_err(|e| e.to_string())?);
    Ok((Session { child, from: Box::new(f), to: Some(Box::new(t)), tcp: Some(s), marks: 0 }, "tcp"))
}

impl Session {
    /// Writes these bytes and then a request, reads until its answer comes back: processor time the process needed.
    fn phase(&mut self, bytes: &[u8]) -> Result<f64, String> {
        self.marks += 1;
        let k = format!("cost/done-{}-", self.marks);
        let mark = frame(&view::custom_request(json!(k), "cost/answer", Value::Null).text());
        let before = used(self.child.id());
        let mut to = self.to.take().ok_or("closed")?;
        let from = &mut self.from;
        let (to, found) = std::thread::scope(|s| {
            let h = s.spawn(move || {
                let r = to.write_all(bytes).and_then(|()| to.write_all(&mark)).and_then(|()| to.flush());
                r.map(|()| to)
            });
            let mut tail: Vec<u8> = vec![];
            let mut b = vec![0; 1 << 18];
            let found = loop {
                match from.read(&mut b) {
                    Ok(0) => break Err("the session ended".to_string()),
                    Ok(n) => {
                        tail.extend_from_slice(&b[..n]);
                        if tail.windows(k.len()).any(|w| w == k.as_bytes()) {
                            break Ok(());
                        }
                        let cut = tail.len().saturating_sub(k.len());
                        tail.drain(..cut);
                    }
                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                    Err(e) => break Err(e.to_string()),
                }
            };
            (h.join(), found)
        });
        found?;
        self.to = Some(to.map_err(|_| "writer")?.map_err(|e| e.to_string())?);
        Ok(used(self.child.id()) - before)
    }
}
impl Drop for Session {
    fn drop(&mut self) {
        self.tcp = None;
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// One message of about `n` bytes.
pub fn of_size(kind: &str, n: usize, tag: usize) -> Vec<u8> {
    let rep = |unit: &str| unit.repeat(n / unit.len() + 1);
    let list = |unit: &str| {
        let mut s = rep(&format!("{unit},"));
        s.pop();
        s
    };
    let numbered = |f: &dyn Fn(usize) -> String| {
        let mut s = String::new();
        let mut i = 0;
        while s.len() < n {
            if i > 0 {
                s.push(',');
            }
            s += &f(i);
            i += 1;
        }
        s
    };
    let note = |p: String| format!(r#"{{"jsonrpc":"2.0","method":"cost/n","params":{p}}}"#);
    let typed = |m: &str, p: String| format!(r#"{{"jsonrpc":"2.0","id":{tag},"method":"{m}","params":{p}}}"#);
    let body = match kind {
        "text" => note(format!("{{\"s\":\"{}\"}}", rep("some text "))),
        "non-ASCII text" => note(format!("{{\"s\":\"{}\"}}", rep("日é😀"))),
        "escapes" => note(format!("{{\"s\":\"{}\"}}", rep("\\u00e9\\n\\\""))),
        "numbers" => note(format!("[{}]", list("1234"))),
        "texts" => note(format!("[{}]", list("\"word\""))),
        "members" => note(format!("{{{}}}", numbered(&|i| format!("\"k{i}\":{i}")))),
        "objects" => note(format!("[{}]", list("{\"a\":{\"b\":null}}"))),
        "result" => format!(r#"{{"jsonrpc":"2.0","id":{tag},"result":[{}]}}"#, list("{\"uri\":\"a:b\"}")),
        "error data" => format!(r#"{{"jsonrpc":"2.0","id":{tag},"error":{{"code":1,"message":"m","data":[{}]}}}}"#, list("\"d\"")),
        "space" => note(format!("[{}1]", rep(" "))),
        "unknown member" => format!(r#"{{"jsonrpc":"2.0","method":"cost/n","extra":[{}],"params":1}}"#, list("7")),
        "targets" => typed("buildTarget/compile", format!("{{\"targets\":[{}]}}", list("{\"uri\":\"file:///a/b\"}"))),
        "sources" => typed("buildTarget/sources", format!("{{\"targets\":[{}]}}", numbered(&|i| format!("{{\"uri\":\"target:{i}\"}}")))),
        "arguments" => typed("buildTarget/run", format!("{{\"target\":{{\"uri\":\"t:1\"}},\"arguments\":[{}]}}", list("\"-x\""))),
        "log text" => format!(r#"{{"jsonrpc":"2.0","method":"build/logMessage","params":{{"type":4,"message":"{}"}}}}"#, rep("line ")),
        "diagnostics" => format!(
            r#"{{"jsonrpc":"2.0","method":"build/publishDiagnostics","params":{{"textDocument":{{"uri":"file:///a"}},"buildTarget":{{"uri":"t:1"}},"reset":true,"diagnostics":[{}]}}}}"#,
            list(r#"{"range":{"start":{"line":1,"character":2},"end":{"line":1,"character":4}},"message":"m"}"#)
        ),
        "task data" => format!(r#"{{"jsonrpc":"2.0","method":"build/taskProgress","params":{{"taskId":{{"id":"a","parents":[{}]}}}}}}"#, list("\"parent\"")),
        "method" => format!(r#"{{"jsonrpc":"2.0","method":"cost/{}","params":null}}"#, rep("m")),
        "id" => format!(r#"{{"jsonrpc":"2.0","id":"{}","method":"cost/q","params":null}}"#, rep("i")),
        _ => note("1".into()),
    };
    if kind == "header lines" {
        return format!("{}Content-Length: {}\r\n\r\n{body}", rep("X-Header: value\r\n"), body.len()).into_bytes();
    }
    if kind == "header text" {
        return format!("X-Header: {}\r\nContent-Length: {}\r\n\r\n{body}", rep("value "), body.len()).into_bytes();
    }
    frame(&body)
}

const KINDS: [&str; 21] = [
    "text", "non-ASCII text", "escapes", "numbers", "texts", "members", "objects", "result", "error data", "space", "unknown member", "targets", "sources", "arguments",
    "log text", "diagnostics", "task data", "method", "id", "header lines", "header text",
];

fn c30(cx: &mut Cx) {
    cx.eval();
    let (round, k) = ((cx.case / 8 + cx.seed) as usize, (cx.case % 8) as usize);
    match k {
        0 | 1 => in_size(cx, KINDS[(2 * round + k) % KINDS.len()]),
        2 | 3 => out_size(cx, SENT[(2 * round + k) % SENT.len()]),
        4 => backlog(cx),
        _ => history(cx, HISTORIES[(3 * round + k) % HISTORIES.len()]),
    }
}

/// How many bytes of a kind are compared at most.
fn most(kind: &str) -> usize {
    match kind {
        "text" | "non-ASCII text" | "escapes" | "space" | "log text" => 48 << 20,
        "objects" => 2 << 20,
        "members" | "diagnostics" => 4 << 20,
        _ => 8 << 20,
    }
}

/// The same number of bytes as many small messages and as one large one.
fn in_size(cx: &mut Cx, kind: &str) {
    let (mut s, tr) = match session(&mut cx.r, "cost") {
        Ok(s) => s,
        Err(e) => return cx.harness_error(e),
    };
    let mut bytes = (0, vec![]);
    compare(cx, &format!("received: {kind}, {tr}"), most(kind), |total, n| {
        if bytes.0 != n {
            bytes = (n, (0..n).flat_map(|i| of_size(kind, total / n, i)).collect());
        }
        s.phase(&bytes.1)
    });
}

const SENT: [&str; 8] = ["text", "numbers", "members", "objects", "targets", "result", "error data", "log text"];

/// The same, sent by the application.
fn out_size(cx: &mut Cx, kind: &str) {
    let (mut s, tr) = match session(&mut cx.r, "cost") {
        Ok(s) => s,
        Err(e) => return cx.harness_error(e),
    };
    compare(cx, &format!("sent: {kind}, {tr}"), most(kind), |total, n| {
        let order = |m: &str| frame(&view::custom_notification(m, json!({ "kind": kind, "n": n, "size": total / n })).text());
        s.phase(&order("cost/build"))?;
        s.phase(&order("cost/send"))
    });
}

/// `n` messages cost as much on an in-memory pair if they all wait before the first is received.
fn backlog(cx: &mut Cx) {
    let (a, b) = Connection::memory();
    let typed = cx.r.coin();
    let message = |i: usize| -> Message {
        if typed {
            return bsp_server::Response::ok(bsp_server::RequestId::from(i as i32), i).into();
        }
        bsp_server::Request::Custom(bsp_server::RequestId::from(i.to_string()), "cost/q", json!(i)).into()
    };
    // (100 bytes a message)
    compare(cx, "on a memory pair: backlog", 20 << 20, |total, parts| {
        let t0 = sys::thread_time();
        let round = (total / 100 / parts).max(1);
        for k in 0..parts {
            for i in 0..round {
                a.send(message(k * round + i)).map_err(|e| e.to_string())?;
            }
            for _ in 0..round {
                b.receiver.recv().map_err(|e| e.to_string())?;
            }
        }
        Ok(sys::thread_time() - t0)
    });
}

/// `cost(total, n)`: a total in `n` parts. First little, then more: what is out of proportion shows
/// before it takes minutes.
fn compare(cx: &mut Cx, what: &str, most: usize, mut cost: impl FnMut(usize, usize) -> Result<f64, String>) {
    let mut all = vec![];
    if let Err(e) = cost(1, 1) {
        return cx.harness_error(format!("{what}: {e}"));
    }
    for total in [most / 64, most / 16, most / 4, most] {
        let n = total / 4096;
        let mut seen = vec![];
        for _ in 0..4 {
            let (a, b) = match cost(total, n).and_then(|a| Ok((a, cost(total, 1)?))) {
                Ok(x) => x,
                Err(e) => return cx.harness_error(format!("{what}: {e}")),
            };
            cx.evt(n + 1);
            cx.count("comparisons", 1);
            cx.count("milliseconds as small", (a * 1e3) as u64);
            cx.count("milliseconds as large", (b * 1e3) as u64);
            seen.push((a, b));
            if b <= 3.0 * a + 0.1 {
                break;
            }
        }
        let bad = seen.len() == 4;
        all.push(json!({ "bytes": total, "seconds as small and as one large": seen }));
        if bad {
            let m = format!("{what}: {total} bytes cost {:.2} s of processor time as one, {:.2} s in {n} parts", seen[3].1, seen[3].0);
            cx.violation(m, json!({ "what": what, "seconds": all }));
            break;
        }
    }
    cx.sig(what);
    cx.sample(|| json!({ "what": what, "compared": all }));
}

const HISTORIES: [&str; 12] =
    ["requests", "text ids", "methods", "responses", "notifications", "typed", "errors", "answers", "all", "early", "sent requests", "sent"];

/// The last messages of a long session cost no more than the first.
fn history(cx: &mut Cx, kind: &str) {
    let (mut s, tr) = match session(&mut cx.r, if kind == "early" { "init" } else { "cost" }) {
        Ok(s) => s,
        Err(e) => return cx.harness_error(e),
    };
    let what = format!("{kind}, {tr}");
    let base = cx.r.below(1 << 20);
    let per = 5000;
    let block = |b: usize| -> Vec<u8> {
        let from = b * per + base;
        if kind.starts_with("sent") {
            return frame(&view::custom_notification("cost/send", json!({ "kind": kind, "n": per, "from": from })).text());
        }
        (from..from + per)
            .flat_map(|i| {
                let kind = if kind == "all" { HISTORIES[i % 8] } else { kind };
                frame(&match kind {
                    "requests" | "early" => format!(r#"{{"jsonrpc":"2.0","id":{i},"method":"cost/q","params":[{i}]}}"#),
                    "answers" => format!(r#"{{"jsonrpc":"2.0","id":{i},"method":"cost/answer","params":[{i}]}}"#),
                    "text ids" => format!(r#"{{"jsonrpc":"2.0","id":"id-{i}","method":"cost/q"}}"#),
                    "methods" => format!(r#"{{"jsonrpc":"2.0","method":"cost/m{i}","params":{{"k{i}":1}}}}"#),
                    "responses" => format!(r#"{{"jsonrpc":"2.0","id":{i},"result":{{"v":{i}}}}}"#),
                    "errors" => format!(r#"{{"jsonrpc":"2.0","id":{i},"error":{{"code":{i},"message":"m{i}"}}}}"#),
                    "typed" => format!(r#"{{"jsonrpc":"2.0","id":{i},"method":"buildTarget/sources","params":{{"targets":[{{"uri":"t:{i}"}}]}}}}"#),
                    _ => format!(r#"{{"jsonrpc":"2.0","method":"build/taskProgress","params":{{"taskId":{{"id":"{i}"}}}}}}"#),
                })
            })
            .collect()
    };
    let blocks = if cx.quick() { 24 } else { 80 };
    let mut t = vec![];
    let start = Instant::now();
    // (the first block holds what is done once)
    for b in 0..=blocks {
        match s.phase(&block(b)) {
            Ok(x) => t.push(x),
            Err(e) => return cx.harness_error(format!("{what}: {e}")),
        }
        cx.evt(per);
        // (do not wait for the end of what gets slower and slower)
        if b >= 12 && start.elapsed() > Duration::from_secs(40) {
            break;
        }
    }
    t.remove(0);
    let min = |v: &[f64]| v.iter().copied().fold(f64::MAX, f64::min);
    let max = |v: &[f64]| v.iter().copied().fold(0.0, f64::max);
    let (first, last) = (max(&t[..4]), min(&t[t.len() - 4..]));
    cx.count("histories", 1);
    cx.count("milliseconds of first blocks", (first * 1e3) as u64);
    cx.count("milliseconds of last blocks", (last * 1e3) as u64);
    cx.sig(&what);
    cx.sample(|| json!({ "what": what, "seconds per block": t.iter().map(|x| (x * 100.0).round() / 100.0).collect::<Vec<_>>() }));
    if last > 2.0 * first + 0.05 {
        let m = format!("{what}: {per} messages cost {first:.2} s of processor time at first, {last:.2} s after {} messages", t.len() * per);
        cx.violation(m, json!({ "what": what, "seconds per block": t }));
    }
}
