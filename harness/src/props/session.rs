//! Properties of whole sessions: handshakes, disconnection, exit, resources, transports.

use crate::ctx::{wait, Cx};
use crate::frame::frame;
use crate::gen;
use crate::io::{join_within, start, tcp, Got, Joined, Peer, ReadStyle, Transport, ALL, STREAMS};
use crate::mon;
use crate::props::data::out_same;
use crate::props::stream::{app_report, check_sent, compare_received, finish, style, Go};
use crate::rng::Rng;
use crate::schema;
use crate::view::{self, short, Gen, Kind, View};
use serde_json::{json, Value};
use std::time::{Duration, Instant};

pub fn prop(id: &str) -> Option<fn(&mut Cx)> {
    Some(match id {
        "C11" => c11,
        "C12" => c12,
        "C13" => c13,
        "C14" => c14,
        "C15" => c15,
        "C17" => c17,
        _ => return None,
    })
}

/// A request other than build/initialize in any form.
pub fn other_request(r: &mut Rng) -> Gen {
    loop {
        let g = view::gen_request(r);
        if g.view.method != "build/initialize" {
            return g;
        }
    }
}

pub fn initialize(r: &mut Rng) -> Gen {
    let id = gen::id(r);
    let mut g = view::typed_request(r, 0, id);
    if r.one_in(8) {
        let mut p = g.view.params.clone();
        p["data"] = json!({ "s": "d".repeat(gen::size(r, 40_000)) });
        g.json.insert("params".into(), p.clone());
        g.view = View::request("InitializeBuild", g.view.id.clone(), "build/initialize", p);
    }
    g
}

/// What a client does: the messages, then the end of the stream or nothing.
struct Script {
    msgs: Vec<Gen>,
    /// pause in ms before message i
    pauses: Vec<u64>,
}

impl Script {
    /// Bytes the library never reads make its kernel reset a TCP connection, which may destroy
    /// answers under way; so read the `answers` before anything is written after build/exit.
    fn play_exit(&self, cx: &mut Cx, p: &mut Peer, answers: usize) -> Vec<Value> {
        let n = self.msgs.iter().position(|g| g.is_exit()).map_or(self.msgs.len(), |i| i + 1);
        let tcp = matches!(p.transport, Transport::Connect | Transport::Listen);
        if !tcp || n == self.msgs.len() {
            self.play(cx, p);
            return vec![];
        }
        let head = Script { msgs: self.msgs[..n].to_vec(), pauses: self.pauses[..n].to_vec() };
        let tail = Script { msgs: self.msgs[n..].to_vec(), pauses: self.pauses[n..].to_vec() };
        let mut got = vec![];
        if head.play(cx, p) {
            while got.len() < answers {
                match p.recv() {
                    Got::Msg(v) => got.push(v),
                    _ => break,
                }
            }
            tail.play(cx, p);
        }
        got
    }
    /// The end of the output of a session that went on after build/exit.
    fn fine_end(&self, p: &Peer, end: Got) -> Got {
        let n = self.msgs.iter().position(|g| g.is_exit()).map_or(self.msgs.len(), |i| i + 1);
        match end {
            Got::Broken(_) if n < self.msgs.len() && p.transport != Transport::Stdio => Got::Eof,
            e => e,
        }
    }
    fn play(&self, cx: &mut Cx, p: &mut Peer) -> bool {
        for (g, ms) in self.msgs.iter().zip(&self.pauses) {
            if *ms > 0 {
                std::thread::sleep(Duration::from_millis(*ms));
            }
            if let Err(e) = p.send(g) {
                // on streams the library may have stopped reading after build/exit only
                if p.transport == Transport::Memory {
                    // the application is gone: it is judged by its observations
                    return false;
                }
                cx.count("late writes refused", 1);
                let _ = e;
                return false;
            }
        }
        true
    }
    fn texts(&self) -> Vec<String> {
        self.msgs.iter().map(|g| short(&g.text(), 400)).collect()
    }
}

fn pauses(r: &mut Rng, n: usize) -> Vec<u64> {
    let some = r.one_in(4);
    (0..n).map(|_| if some && r.one_in(3) { r.below(25) as u64 } else { 0 }).collect()
}

/// On streams nothing after build/exit arrives.
fn until_exit(msgs: &[Gen], tr: Transport) -> Vec<View> {
    let mut v = vec![];
    for g in msgs {
        v.push(g.view.clone());
        if tr != Transport::Memory && g.is_exit() {
            break;
        }
    }
    v
}

fn error_answer(g: &Value, id: &Value, code: i64) -> bool {
    g["id"] == *id && g["error"]["code"] == json!(code) && g["error"]["message"].is_string() && g.get("result").is_none() && g.get("method").is_none()
}

// ---------------------------------------------------------------- C11

fn c11(cx: &mut Cx) {
    cx.eval();
    // one worker idles for long
    let idle = if cx.case < 8 { [2_000, 11_000, 6_000, 4_000, 31_500, 21_000, 46_000, 16_000][cx.case as usize] } else { 0 };
    let r = &mut cx.r;
    let tr = if idle > 0 { ALL[(cx.seed as usize + cx.case as usize) % 4] } else { *r.pick(&ALL) };
    let mut msgs: Vec<Gen> = vec![];
    let k = match r.below(5) {
        0 => 0,
        1 => r.range(20, 150),
        _ => r.range(1, 8),
    };
    for _ in 0..k {
        let g = if r.coin() {
            other_request(r)
        } else if r.one_in(4) {
            view::initialized()
        } else {
            view::gen_notification(r)
        };
        msgs.push(g);
    }
    // then
    match r.below(10) {
        0 => msgs.push(view::exit()),
        1 => msgs.push(view::gen_response(r)),
        2 => {}
        _ => {
            msgs.push(initialize(r));
            match r.below(8) {
                0 => msgs.push(other_request(r)),
                1 => msgs.push(loop {
                    let g = view::gen_notification(r);
                    if g.view.variant != "Initialized" {
                        break g;
                    }
                }),
                2 => msgs.push(match r.below(4) {
                    0 => view::gen_response(r),
                    1 => view::exit(),
                    2 => initialize(r),
                    _ => view::shutdown(json!(5)),
                }),
                3 => {}
                _ => msgs.push(view::initialized()),
            }
        }
    }
    if r.coin() {
        for _ in 0..r.below(6) {
            msgs.push(match r.below(6) {
                0 => initialize(r),
                1 => view::initialized(),
                2 => view::exit(),
                _ => view::gen_msg(r),
            });
        }
    }
    let result = match r.below(4) {
        0 => schema::gen_obj(r, &schema::INITIALIZE_RESULT, 0),
        1 => gen::payload(r),
        2 => json!({ "s": "r".repeat(gen::size(r, 60_000)) }),
        _ => json!({ "displayName": "s", "version": "1", "bspVersion": "2", "capabilities": {} }),
    };
    let mut ps = pauses(r, msgs.len());
    if idle > 0 {
        // the client takes its time before its last messages
        for x in ps.iter_mut() {
            *x = 0;
        }
        let i = if cx.case % 2 == 0 { 0 } else { msgs.iter().position(|g| g.view.variant == "InitializeBuild").map_or(0, |i| (i + 1).min(msgs.len() - 1)) };
        if let Some(x) = ps.get_mut(i) {
            *x = idle;
        }
    }
    let sc = Script { msgs, pauses: ps };
    // the model
    let arriving = until_exit(&sc.msgs, tr);
    let mut want_answers: Vec<(Value, Option<Value>)> = vec![];
    let mut handler: Vec<Value> = vec![];
    let mut ok = None;
    let mut at = 0;
    let mut fate = "no build/initialize";
    while at < arriving.len() {
        let v = &arriving[at];
        at += 1;
        if v.variant == "InitializeBuild" {
            handler.push(v.params.clone());
            want_answers.push((v.id.clone(), Some(result.clone())));
            fate = "no build/initialized";
            if at < arriving.len() {
                fate = if arriving[at].variant == "Initialized" { "initialized" } else { "something else" };
                if fate == "initialized" {
                    ok = Some(v.params.clone());
                }
                at += 1;
            }
            break;
        }
        match v.kind {
            Kind::Request => want_answers.push((v.id.clone(), None)),
            Kind::Notification if v.variant != "Exit" => {}
            _ => {
                fate = "exit or response";
                break;
            }
        }
    }
    let rest = &arriving[at..];
    let desc = json!({ "transport": format!("{tr:?}"), "script": sc.texts(), "fate": fate, "pauses": sc.pauses, "idle_ms": idle });
    cx.sig(&format!("{tr:?} {fate} {:?}", sc.msgs.iter().map(|g| g.view.json().to_string()).collect::<Vec<_>>()));
    cx.count(&format!("{tr:?} {fate}"), 1);
    cx.sample(|| desc.clone());
    let mut p = match start(tr, "init", &json!({ "result": result }), ReadStyle::default()) {
        Ok(p) => p,
        Err(e) => return cx.harness_error(e),
    };
    // the client may wait for each answer
    let lock = cx.r.one_in(3) && idle == 0 && !sc.msgs.iter().any(|g| g.is_exit());
    let mut got = vec![];
    if lock {
        let mut answered = 0;
        for (i, g) in sc.msgs.iter().enumerate() {
            if p.send(g).is_err() {
                break;
            }
            let before = arriving.iter().take(i + 1).take(at).filter(|v| v.kind == Kind::Request).count().min(want_answers.len());
            while answered < before {
                match p.recv() {
                    Got::Msg(v) => got.push(v),
                    Got::Timeout => cx.stall(format!("no answer to request {answered} before the client goes on: {desc}")),
                    e => {
                        cx.violation(format!("{e:?} instead of an answer"), desc.clone());
                        return;
                    }
                }
                answered += 1;
            }
        }
    } else {
        got = sc.play_exit(cx, &mut p, want_answers.len());
    }
    p.close_write();
    let (more, end) = p.recv_all();
    got.extend(more);
    match sc.fine_end(&p, end) {
        Got::Eof => {}
        Got::Timeout => cx.stall(format!("initialization does not end: {desc}")),
        e => cx.violation(format!("output ends with {e:?}"), desc.clone()),
    }
    let o = finish(cx, &mut p, "initialize");
    let ob = &o["obs"];
    cx.evt(got.len() + sc.msgs.len());
    if got.len() != want_answers.len() {
        cx.violation(format!("{} answers, expected {} ({fate})", got.len(), want_answers.len()), json!({ "session": desc, "got": short(&json!(got).to_string(), 3000) }));
        return;
    }
    for (g, (id, res)) in got.iter().zip(&want_answers) {
        let fine = match res {
            None => error_answer(g, id, -32002),
            Some(r) => g["id"] == *id && g.get("result") == Some(r) && g.get("error").is_none() && g.get("method").is_none(),
        };
        if !fine {
            cx.violation(format!("wrong answer: expected {} for id {id}", if res.is_some() { "the handler's result" } else { "error -32002" }), json!({ "answer": short(&g.to_string(), 1500), "session": desc }));
            return;
        }
    }
    if ob["handler"] != json!(handler) {
        cx.violation(format!("the handler got {} instead of {}", short(&ob["handler"].to_string(), 500), short(&json!(handler).to_string(), 500)), desc.clone());
    }
    match &ok {
        Some(p) if ob["init"]["ok"] != *p => cx.violation(format!("initialization returned {} instead of the params", short(&ob["init"].to_string(), 500)), desc.clone()),
        None if ob["init"].get("err").is_none() => cx.violation(format!("initialization succeeded although: {fate}"), desc.clone()),
        _ => {}
    }
    compare_received(cx, &format!("after initialization ({fate})"), rest, ob["rest"].as_array().unwrap_or(&vec![]), &|_| desc.to_string());
    if Joined::from_json(&o["join"]) != Joined::Ok {
        cx.violation(format!("join gave {}", o["join"]), desc);
    }
}

// ---------------------------------------------------------------- C12

fn c12(cx: &mut Cx) {
    cx.eval();
    // the first cases test patience
    let (silent, idle) = match cx.case {
        0 => (true, 0),
        1..=4 => (false, [0, 12_000, 5_000, 2_000, 20_000][cx.case as usize]),
        _ => (false, 0),
    };
    let r = &mut cx.r;
    let tr = if silent || idle > 0 { ALL[(cx.seed as usize + cx.case as usize) % 4] } else { *r.pick(&ALL) };
    let mut msgs: Vec<Gen> = vec![];
    for _ in 0..r.below(6) {
        msgs.push(loop {
            let g = if r.coin() { view::gen_request(r) } else { view::gen_msg(r) };
            if g.view.variant != "Shutdown" {
                break g;
            }
        });
    }
    let mut after = "no shutdown";
    if silent || idle > 0 || !r.one_in(10) {
        let id = gen::id(r);
        let g = if r.coin() { view::shutdown(id) } else { view::typed_request(r, 1, id) };
        msgs.push(g);
        let k = if silent { 9 } else if idle > 0 { 0 } else { r.below(9) };
        after = match k {
            0..=4 => {
                let mut e = view::exit();
                if r.coin() {
                    e.json.insert("params".into(), gen::value(r, 1));
                }
                msgs.push(e);
                "exit"
            }
            5 | 6 => {
                msgs.push(match r.below(4) {
                    0 => view::shutdown(json!(1)),
                    1 => view::initialized(),
                    2 => view::custom_request(json!(9), "build/exit", Value::Null),
                    _ => view::gen_msg(r),
                });
                "something else"
            }
            9 => "silence",
            _ => "end of the stream",
        };
        if after != "silence" && after != "end of the stream" && r.coin() {
            for _ in 0..r.below(4) {
                msgs.push(view::gen_msg(r));
            }
        }
    }
    let mut ps = pauses(r, msgs.len());
    if idle > 0 {
        ps.iter_mut().for_each(|x| *x = 0);
        let i = msgs.iter().position(|g| g.view.variant == "Shutdown").unwrap_or(0);
        ps[i + 1] = idle;
    }
    let sc = Script { msgs, pauses: ps };
    let arriving = until_exit(&sc.msgs, tr);
    // the model
    let mut log = vec![];
    let mut answers = vec![];
    let mut at = 0;
    while at < arriving.len() {
        let v = &arriving[at];
        at += 1;
        log.push(json!({ "got": v.json() }));
        if v.kind == Kind::Request {
            if v.variant == "Shutdown" {
                answers.push(v.id.clone());
                let next = arriving.get(at).map(|v| v.variant == "Exit");
                log.push(json!({ "reported": if next == Some(true) { json!(true) } else { json!("error") } }));
                at = (at + 1).min(arriving.len());
                break;
            }
            log.push(json!({ "reported": false }));
        }
    }
    let rest = &arriving[at.min(arriving.len())..];
    let desc = json!({ "transport": format!("{tr:?}"), "script": sc.texts(), "after": after, "pauses": sc.pauses });
    let go = silent.then(|| Go::new(&mut cx.r));
    let arg = json!({ "go": go.as_ref().map(|g| g.0.clone()) });
    cx.sig(&format!("{tr:?} {after} {:?}", sc.msgs.iter().map(|g| g.view.json().to_string()).collect::<Vec<_>>()));
    cx.count(&format!("{tr:?} {after}"), 1);
    cx.sample(|| desc.clone());
    let mut p = match start(tr, "shutdown", &arg, ReadStyle::default()) {
        Ok(p) => p,
        Err(e) => return cx.harness_error(e),
    };
    let mut got = sc.play_exit(cx, &mut p, answers.len());
    if silent {
        // the answer comes at once; then nothing is sent and the connection stays open
        match p.recv() {
            Got::Msg(v) => got.push(v),
            Got::Timeout => cx.stall("no answer to build/shutdown"),
            e => return cx.violation(format!("{e:?} instead of the answer"), desc),
        }
        // until the call for build/shutdown has returned
        let end = Instant::now() + Duration::from_secs(75);
        let calls = log.len() - 1;
        while go.as_ref().map_or(0, |g| g.get()) < calls && Instant::now() < end {
            std::thread::sleep(Duration::from_millis(20));
        }
    }
    p.close_write();
    let (more, end) = p.recv_all();
    got.extend(more);
    match sc.fine_end(&p, end) {
        Got::Eof => {}
        Got::Timeout => cx.stall(format!("shutdown does not end: {desc}")),
        e => cx.violation(format!("output ends with {e:?}"), desc.clone()),
    }
    let o = finish(cx, &mut p, "shutdown");
    cx.evt(got.len() + sc.msgs.len());
    let fine = got.len() == answers.len()
        && got.iter().zip(&answers).all(|(g, id)| g["id"] == *id && g.get("result") == Some(&Value::Null) && g.get("error").is_none() && g.get("method").is_none());
    if !fine {
        cx.violation(format!("expected {} answer(s) with a null result ({after})", answers.len()), json!({ "got": got, "session": desc }));
    }
    let mut seen = o["obs"]["log"].as_array().cloned().unwrap_or_default();
    for x in seen.iter_mut() {
        if let Some(m) = x.as_object_mut() {
            let ms = m.remove("ms").and_then(|v| v.as_u64()).unwrap_or(0);
            m.remove("text");
            if m.contains_key("reported") {
                cx.count("calls", 1);
                if silent && m["reported"] != json!(false) {
                    cx.count("waited in vain, ms", ms);
                    if ms > 60_000 {
                        cx.violation(format!("shutdown handling waited {ms} ms for a silent client"), desc.clone());
                    }
                }
            }
        }
    }
    if seen != log {
        cx.violation(format!("shutdown handling ({after}): expected and observed calls differ"), json!({ "expected": short(&json!(log).to_string(), 3000), "got": short(&json!(seen).to_string(), 3000), "session": desc }));
    }
    compare_received(cx, &format!("after shutdown ({after})"), rest, o["obs"]["rest"].as_array().unwrap_or(&vec![]), &|_| desc.to_string());
    if Joined::from_json(&o["join"]) != Joined::Ok {
        cx.violation(format!("join gave {}", o["join"]), desc);
    }
}

// ---------------------------------------------------------------- C13

fn session(r: &mut Rng) -> Vec<Gen> {
    let mut m = vec![];
    for _ in 0..r.below(4) {
        m.push(if r.coin() { other_request(r) } else { view::gen_notification(r) });
    }
    m.push(initialize(r));
    m.push(view::initialized());
    for _ in 0..r.below(12) {
        m.push(loop {
            let g = view::gen_msg(r);
            if g.view.variant != "Shutdown" {
                break g;
            }
        });
    }
    m.push(view::shutdown(gen::id(r)));
    m.push(view::exit());
    m
}

/// The peer comes and goes while the application's process is stopped.
fn frozen(cx: &mut Cx) {
    let r = &mut cx.r;
    let how = *r.pick(&["listen", "listen", "connect"]);
    let app = *r.pick(&["server", "init", "shutdown", "echo", "collect"]);
    let msgs = session(r);
    let bytes: Vec<u8> = msgs.iter().flat_map(|g| frame(&g.text())).collect();
    let (early, n) = (r.coin(), *r.pick(&[0, 0, 5, 40, bytes.len() / 2, bytes.len()]));
    let (reset, wait_ms) = (r.coin() || n == 0, *r.pick(&[0u64, 1, 5, 20, 60]));
    let desc = format!("{how} {app}: stopped {} when the peer sends {n} bytes and {} after {wait_ms} ms", if early { "before it is connected" } else { "while it runs" }, if reset { "resets" } else { "closes" });
    cx.sig(&format!("{desc} {}", msgs.len()));
    cx.count(&format!("stopped {how}"), 1);
    cx.sample(|| json!(desc));
    let l = match std::net::TcpListener::bind((crate::sys::own_ip().as_str(), 0)) {
        Ok(l) => l,
        Err(e) => return cx.harness_error(format!("bind: {e}")),
    };
    let Ok(addr) = l.local_addr() else { return cx.harness_error("no address") };
    let l = (how == "connect").then_some(l);
    let exe = std::env::current_exe().unwrap_or_default();
    let child = std::process::Command::new(exe)
        .envs(crate::trace::env())
        .args([how, &addr.to_string(), app, "{}"])
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::piped())
        .spawn();
    let mut child = match child {
        Ok(c) => c,
        Err(e) => return cx.harness_error(format!("spawn: {e}")),
    };
    let pid = child.id();
    let (tx, lines) = crossbeam_channel::unbounded();
    let err = child.stderr.take();
    std::thread::spawn(move || {
        use std::io::BufRead;
        for line in err.into_iter().flat_map(|e| std::io::BufReader::new(e).lines().map_while(Result::ok)) {
            let _ = tx.send(line);
        }
    });
    let _ = lines.recv_timeout(wait());
    let connect = |l: &Option<std::net::TcpListener>| match l {
        Some(l) => l.accept().ok().map(|s| s.0),
        None => std::net::TcpStream::connect(addr).ok(),
    };
    let mut peer = None;
    let mut stopped = None;
    if early {
        std::thread::sleep(Duration::from_micros(cx.r.below(4000) as u64 * if cx.r.coin() { 1 } else { 10 }));
        stopped = Some(crate::sys::freeze(pid));
        if let Some(l) = &l {
            let _ = l.set_nonblocking(true);
        }
        peer = connect(&l);
        if peer.is_none() {
            // it was stopped too early
            stopped = None;
            if let Some(l) = &l {
                let _ = l.set_nonblocking(false);
            }
        }
    }
    let end = Instant::now() + wait();
    while peer.is_none() && Instant::now() < end {
        peer = connect(&l);
        std::thread::sleep(Duration::from_millis(1));
    }
    let Some(mut s) = peer else {
        let _ = child.kill();
        cx.stall(format!("{desc}: no connection"))
    };
    let _ = s.set_nonblocking(false);
    if stopped.is_none() {
        std::thread::sleep(Duration::from_micros(cx.r.below(3000) as u64));
        stopped = Some(crate::sys::freeze(pid));
    }
    {
        use std::io::Write;
        let _ = s.write_all(&bytes[..n]);
    }
    std::thread::sleep(Duration::from_millis(wait_ms));
    if reset {
        crate::sys::linger0(&s);
    }
    drop(s);
    std::thread::sleep(Duration::from_millis(wait_ms));
    drop(stopped);
    let end = Instant::now() + wait();
    let (mut obs, mut log) = (Value::Null, String::new());
    loop {
        match lines.recv_deadline(end) {
            Ok(l) => match l.strip_prefix("OBS ") {
                Some(o) => obs = serde_json::from_str(o).unwrap_or(Value::Null),
                None => log = log + &l + "\n",
            },
            Err(crossbeam_channel::RecvTimeoutError::Disconnected) => break,
            Err(_) => {
                let _ = child.kill();
                cx.stall(format!("{desc}: the process does not end"))
            }
        }
    }
    let status = child.wait().map(|s| s.code()).unwrap_or(None);
    cx.evt(2);
    if obs["refused"].is_string() {
        cx.count("refused", 1);
    }
    if status != Some(0) || obs.is_null() {
        return cx.violation(format!("{desc}: process ended with {status:?}"), json!({ "stderr": short(&log, 3000) }));
    }
    app_report(cx, &obs, &desc);
    if let Joined::Panic = Joined::from_json(&obs["join"]) {
        cx.violation(format!("{desc}: join panicked"), obs.clone());
    }
}

fn c13(cx: &mut Cx) {
    cx.eval();
    if cx.case % 9 == 4 {
        return frozen(cx);
    }
    let r = &mut cx.r;
    let tr = *r.pick(&ALL);
    let app = *r.pick(&["server", "server", "init", "shutdown", "echo", "send", "collect", "mixed"]);
    let seed = r.next();
    let arg = match app {
        "send" => json!({ "seed": seed, "threads": r.range(1, 4), "n": r.range(50, 400), "mixed": r.coin(), "big": *r.pick(&[0, 0, 100_000]) }),
        "server" | "init" => json!({ "result": gen::payload(r) }),
        _ => json!({}),
    };
    let app = if app == "mixed" { "echo" } else { app };
    let msgs = session(r);
    let bytes: Vec<u8> = msgs.iter().flat_map(|g| frame(&g.text())).collect();
    let how = *r.pick(&["close", "close", "half", "reset"]);
    let cut = match r.below(4) {
        0 => 0,
        // a boundary
        1 => msgs.iter().take(r.below(msgs.len())).map(|g| frame(&g.text()).len()).sum(),
        _ => r.below(bytes.len()),
    };
    let wait_ms = *r.pick(&[0, 0, 0, 1, 5, 20]);
    let gated = r.one_in(3);
    let st = ReadStyle { gated, ..style(r) };
    let desc = format!("{tr:?} {app}: peer vanishes ({how}) after {cut} of {} bytes, {wait_ms} ms, reading {}", bytes.len(), !gated);
    cx.sig(&format!("{desc} {seed}"));
    cx.count(&format!("{tr:?} {how}"), 1);
    cx.sample(|| json!(desc));
    let mut p = match start(tr, app, &arg, st) {
        Ok(p) => p,
        Err(e) => return cx.harness_error(e),
    };
    if tr == Transport::Memory {
        let mut n = 0;
        for g in &msgs {
            n += frame(&g.text()).len();
            if n > cut || p.send(g).is_err() {
                break;
            }
        }
    } else if let Some(mut w) = p.split_writer() {
        // the application may not be receiving, so do not insist on writing everything
        let b = bytes[..cut].to_vec();
        let h = std::thread::spawn(move || {
            let _ = w.write(&b);
        });
        let end = Instant::now() + Duration::from_millis(300);
        while !h.is_finished() && Instant::now() < end {
            std::thread::sleep(Duration::from_micros(200));
        }
    }
    std::thread::sleep(Duration::from_millis(wait_ms));
    let (mut out, mut end) = (vec![], None);
    match how {
        "half" => {
            p.close_write();
            p.open_gate();
            let (o, e) = p.recv_all();
            out = o;
            end = Some(e);
        }
        _ => p.close(how == "reset"),
    }
    match &end {
        Some(Got::Timeout) => cx.stall(format!("{desc}: the output does not end")),
        _ => {}
    }
    let o = match p.finish(wait()) {
        Some(o) => o,
        None => cx.stall(format!("{desc}: the application or joining its threads does not end")),
    };
    if let Some(Got::Bad(e)) = &end {
        // once join has reported a failure of the input, a process may end with its output cut
        let cut_output = tr == Transport::Stdio && matches!(Joined::from_json(&o["join"]), Joined::Err(_)) && e.starts_with("stream ends with");
        if !cut_output {
            cx.violation(format!("{desc}: {e}"), o.clone());
        }
    }
    app_report(cx, &o, &desc);
    cx.evt(1 + out.len());
    match Joined::from_json(&o["join"]) {
        Joined::Panic => cx.violation(format!("{desc}: join panicked"), o.clone()),
        Joined::Stuck => cx.stall(format!("{desc}: join blocks")),
        _ => {}
    }
    if tr == Transport::Stdio {
        match p.child_end(wait()) {
            Some((Some(0), _)) => {}
            Some((st, log)) => cx.violation(format!("{desc}: process ended with {st:?}"), json!({ "stderr": short(&log, 3000) })),
            None => cx.stall(format!("{desc}: process does not end")),
        }
    }
    // what it saw is a prefix of what was sent
    let obs = &o["obs"];
    match app {
        "collect" => {
            let mut n = 0;
            let whole: Vec<View> = msgs.iter().take_while(|g| {
                n += frame(&g.text()).len();
                n <= cut
            }).map(|g| g.view.clone()).collect();
            let got = obs["got"].as_array().cloned().unwrap_or_default();
            if how == "reset" {
                // a reset may overtake data
                if got.len() > whole.len() {
                    cx.violation(format!("{desc}: more messages than were sent"), json!(got.len()));
                }
                compare_received(cx, &desc, &whole[..got.len().min(whole.len())], &got, &|_| String::new());
            } else {
                compare_received(cx, &desc, &whole, &got, &|_| String::new());
            }
        }
        "init" => {
            let mut n = 0;
            let whole = msgs.iter().take_while(|g| {
                n += frame(&g.text()).len();
                n <= cut
            });
            let done = whole.filter(|g| g.view.variant == "Initialized").count() > 0;
            if !done && obs["init"].get("err").is_none() {
                cx.violation(format!("{desc}: initialization succeeded without build/initialized"), obs.clone());
            }
        }
        _ => {}
    }
}

// ---------------------------------------------------------------- C14

fn lookalike(r: &mut Rng) -> Gen {
    let names = ["build/Exit", "build/exit ", "build/exi", "build/exits", "exit", "Build/exit", " build/exit", "build/exit\u{0}", "build//exit", "build/exıt", "workspace/exit", "$/exit", "build/shutdown", "buildTarget/exit", "build/exit/"];
    match r.below(5) {
        0 => {
            let id = gen::id(r);
            view::custom_request(id, "build/exit", gen::value(r, 1))
        }
        1 => {
            let id = gen::id(r);
            view::shutdown(id)
        }
        2 => {
            let m = *r.pick(&["build/exit-now", "x"]);
            view::custom_notification(m, json!({ "method": "build/exit", "jsonrpc": "2.0" }))
        }
        3 => {
            let id = gen::id(r);
            let v = json!({ "method": "build/exit" });
            let mut j = serde_json::Map::new();
            j.insert("id".into(), id.clone());
            j.insert("result".into(), v.clone());
            Gen { json: j, view: View::response(id, Some(v), None) }
        }
        _ => {
            let m = *r.pick(&names);
            view::custom_notification(m, gen::value(r, 1))
        }
    }
}

fn c14(cx: &mut Cx) {
    cx.eval();
    let r = &mut cx.r;
    let tr = *r.pick(&STREAMS);
    let mut msgs = vec![];
    for _ in 0..r.below(10) {
        msgs.push(if r.one_in(3) { lookalike(r) } else { view::gen_msg(r) });
    }
    let mut bytes: Vec<u8> = msgs.iter().flat_map(|g: &Gen| frame(&g.text())).collect();
    let mut e = view::exit();
    if r.coin() {
        e.json.insert("params".into(), gen::payload(r));
    }
    if r.one_in(3) {
        e.json.insert("id".into(), Value::Null);
    }
    let text = if r.coin() { e.text() } else { crate::frame::render(r, &e.with_rpc()) };
    let f = if r.coin() { frame(&text) } else { crate::frame::frame_variant(r, &text) };
    bytes.extend(f);
    let exit_end = bytes.len();
    let what = match r.below(6) {
        0 => "nothing",
        1 => {
            for _ in 0..r.range(1, 30) {
                bytes.extend(frame(&view::gen_msg(r).text()));
            }
            "valid"
        }
        2 => {
            bytes.extend(b"garbage\r\n\r\nContent-Length: x\r\n\r\n");
            "garbage"
        }
        3 => {
            bytes.extend(frame(&view::exit().text()));
            bytes.extend(frame(&view::gen_msg(r).text()));
            "exit again"
        }
        4 => {
            let f = frame(&view::gen_msg(r).text());
            let k = r.below(f.len());
            bytes.extend(&f[..k]);
            "part of a frame"
        }
        _ => {
            bytes.extend(frame(&view::gen_sized(r, 200_000).text()));
            "much"
        }
    };
    let split = r.below(3);
    let keep_sending = r.coin();
    let pause = if r.one_in(3) { 300 } else { 0 };
    let after = r.below(5);
    let seed = r.next();
    let desc = format!("{tr:?}: {} messages, build/exit, then {what}; the peer stays{}", msgs.len(), if keep_sending { " and keeps sending" } else { "" });
    cx.sig(&format!("{desc} {seed} {text}"));
    cx.count(&format!("{tr:?} then {what}"), 1);
    cx.sample(|| json!(desc));
    let mut p = match start(tr, "collect", &json!({ "pause_us": pause, "after": after, "seed": seed }), ReadStyle::default()) {
        Ok(p) => p,
        Err(e) => return cx.harness_error(e),
    };
    let writer = p.split_writer();
    let Some(mut w) = writer else { return cx.harness_error("no writer") };
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let s2 = stop.clone();
    let h = std::thread::spawn(move || {
        if split == 0 {
            let _ = w.write(&bytes);
        } else {
            // the rest separately
            let _ = w.write(&bytes[..exit_end]);
            if split == 2 {
                std::thread::sleep(Duration::from_millis(3));
            }
            let _ = w.write(&bytes[exit_end..]);
        }
        while keep_sending && !s2.load(std::sync::atomic::Ordering::Relaxed) {
            if w.write(&frame("{\"method\":\"late\"}")).is_err() {
                break;
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    });
    let o = finish(cx, &mut p, &desc);
    stop.store(true, std::sync::atomic::Ordering::Relaxed);
    let mut want: Vec<View> = msgs.iter().map(|g| g.view.clone()).collect();
    want.push(view::exit().view);
    let got = o["obs"]["got"].as_array().cloned().unwrap_or_default();
    cx.evt(got.len());
    compare_received(cx, &desc, &want, &got, &|_| short(&text, 500));
    if Joined::from_json(&o["join"]) != Joined::Ok {
        cx.violation(format!("{desc}: join gave {}", o["join"]), json!(text));
    }
    // what was sent after the exit
    let mut out = vec![];
    for _ in 0..after {
        match p.recv() {
            Got::Msg(v) => out.push(v),
            _ => break,
        }
    }
    // bytes of ours the library never read make its kernel reset the connection, so this
    // is judged only if there were none
    if what == "nothing" && !keep_sending {
        check_sent(cx, &desc, seed, 0, &json!([o["obs"]["sent"]]), &out);
    }
    p.close(false);
    let _ = h.join();
}

// ---------------------------------------------------------------- C15

fn settle(threads: usize, fds: usize) -> (usize, usize) {
    let end = Instant::now() + wait();
    loop {
        let now = (mon::thread_count(), mon::open_fds());
        if (now.0 <= threads && now.1 <= fds) || Instant::now() > end {
            return now;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

/// One short session, ended in some way; nothing of the harness may stay behind.
fn short_session(r: &mut Rng, how: usize) -> Result<&'static str, String> {
    use bsp_server::Connection;
    use std::io::{Read, Write};
    let msgs: Vec<Gen> = (0..r.below(6)).map(|_| bounded_msg(r)).collect();
    if how == 0 {
        let (a, b) = Connection::memory();
        for g in &msgs {
            a.send(g.view.build()?).map_err(|_| "memory send")?;
        }
        drop(a);
        while b.receiver.try_recv().is_ok() {}
        return Ok("memory");
    }
    let (c, t, mut s) = tcp(how % 2 == 0)?;
    let _ = s.set_read_timeout(Some(wait()));
    let mut bytes: Vec<u8> = msgs.iter().flat_map(|g| frame(&g.text())).collect();
    let name = match how {
        1 => "end of the stream",
        2 => {
            bytes.extend(b"Content-Length: 3\r\n\r\nnop");
            "malformed body"
        }
        3 => {
            bytes.extend(b"nonsense\r\n\r\n");
            "malformed header"
        }
        4 => {
            bytes.extend(frame(&view::exit().text()));
            "exit"
        }
        5 => {
            bytes.extend(b"Content-Length: 300\r\n\r\n{\"x");
            "cut"
        }
        6 => "reset",
        7 => "dropped without receiving",
        _ => "messages out",
    };
    let _ = s.write_all(&bytes);
    if how != 4 && how != 6 && how != 7 {
        let _ = s.shutdown(std::net::Shutdown::Write);
    }
    if how == 8 {
        let k = r.range(1, 20);
        for _ in 0..k {
            c.send_timeout(bounded_msg(r).view.build()?, wait()).map_err(|_| "send")?;
        }
    }
    if how == 6 {
        crate::sys::linger0(&s);
        drop(s);
        while c.receiver.recv_timeout(wait()).is_ok() {}
        drop(c);
    } else if how == 7 {
        drop(c);
        drop(s);
    } else {
        while c.receiver.recv_timeout(wait()).is_ok() {}
        drop(c);
        if how == 8 {
            let mut v = vec![];
            let j = join_within(t, wait());
            let _ = s.read_to_end(&mut v);
            return if j == Joined::Stuck { Err("STALL join".into()) } else { Ok(name) };
        }
        let j = join_within(t, wait());
        drop(s);
        return if j == Joined::Stuck { Err("STALL join".into()) } else { Ok(name) };
    }
    if join_within(t, wait()) == Joined::Stuck {
        return Err("STALL join".into());
    }
    Ok(name)
}

/// Messages with a bounded set of method names, but ever new ids and contents.
fn bounded_msg(r: &mut Rng) -> Gen {
    loop {
        let mut g = view::gen_msg(r);
        if g.view.variant == "Custom" {
            let m = format!("m/{}", r.below(12));
            if g.view.kind == Kind::Request {
                let id = json!(format!("{:x}", r.next()));
                g = view::custom_request(id, &m, g.view.params);
            } else {
                g = view::custom_notification(&m, g.view.params);
            }
        }
        return g;
    }
}

fn c15(cx: &mut Cx) {
    cx.eval();
    match cx.case % 3 {
        0 => c15_sessions(cx),
        1 => c15_messages(cx, Transport::Memory),
        _ => {
            let tr = *cx.r.pick(&STREAMS);
            c15_messages(cx, tr)
        }
    }
}

fn c15_sessions(cx: &mut Cx) {
    let quick = cx.quick();
    let how = (cx.case / 3 % 9) as usize;
    let rounds = if quick { 20 } else { 150 };
    let mut name = "";
    // warm up, then measure
    for _ in 0..20 {
        match short_session(&mut cx.r, how) {
            Ok(n) => name = n,
            Err(e) if e.starts_with("STALL") => cx.stall(format!("session: {e}")),
            Err(e) => return cx.harness_error(e),
        }
    }
    // the least seen while nothing happens
    let (mut t0, mut f0) = (usize::MAX, usize::MAX);
    for _ in 0..40 {
        t0 = t0.min(mon::thread_count());
        f0 = f0.min(mon::open_fds());
        std::thread::sleep(Duration::from_millis(2));
    }
    let mut low = vec![];
    let mut all = 0;
    for n in [rounds, rounds, 2 * rounds, 4 * rounds] {
        let mut bad = None;
        all += n;
        for _ in 0..n {
            match short_session(&mut cx.r, how) {
                Ok(_) => {}
                Err(e) => {
                    bad = Some(e);
                    break;
                }
            }
        }
        if let Some(e) = bad {
            if e.starts_with("STALL") {
                cx.stall(format!("session ({name}): {e}"));
            }
            return cx.harness_error(e);
        }
        let (t, f) = settle(t0, f0);
        low.push(mon::live_bytes());
        cx.evt(n);
        if t > t0 || f > f0 {
            cx.violation(format!("after {} sessions ({name}): {} threads and {} descriptors more than before", all, t as i64 - t0 as i64, f as i64 - f0 as i64), json!({ "threads": [t0, t], "fds": [f0, f] }));
            return;
        }
    }
    cx.count(&format!("sessions ended by: {name}"), all as u64);
    cx.sig(&format!("{name} {}", cx.case));
    cx.sample(|| json!({ "ended by": name, "sessions": all, "live bytes after each phase": low }));
    // a leak grows in proportion, in a container that doubles, too; one-time allocations do not
    if low[2] - low[1] >= 3 * 2 * rounds as i64 && low[3] - low[2] >= 3 * 4 * rounds as i64 {
        cx.violation(format!("{} sessions ({name}) left {} bytes behind", 6 * rounds, low[3] - low[1]), json!({ "live bytes after each phase": low }));
    }
}

fn c15_messages(cx: &mut Cx, tr: Transport) {
    let quick = cx.quick();
    let per = if quick { 200 } else { 2000 };
    let desc = format!("{tr:?}");
    let mut p = match start(tr, "memory", &json!({}), ReadStyle::default()) {
        Ok(p) => p,
        Err(e) => return cx.harness_error(e),
    };
    // the same kind of traffic in each phase, so that a plateau is reached
    let kind = cx.r.below(5);
    let phases = [per, per, 2 * per, 4 * per];
    let mut batch = vec![];
    for (ph, per) in phases.into_iter().enumerate() {
        for i in 0..per {
            let r = &mut cx.r;
            let g = match kind {
                // buffers may be kept; let them reach their size at once
                _ if ph == 0 && i == 0 => view::gen_sized(r, 150_000),
                0 => view::custom_request(json!(format!("{ph}-{i}")), "m/one", gen::payload(r)),
                1 => view::custom_notification("m/two", gen::payload(r)),
                2 => {
                    let i = r.below(schema::REQUESTS.len());
                    let id = json!(gen::id_int(r));
                    view::typed_request(r, i, id)
                }
                3 => {
                    let id = gen::id(r);
                    let v = gen::payload(r);
                    let mut j = serde_json::Map::new();
                    j.insert("id".into(), id.clone());
                    j.insert("result".into(), v.clone());
                    Gen { json: j, view: View::response(id, Some(v), None) }
                }
                _ => bounded_msg(r),
            };
            // in batches: the library's small writes meet delayed acknowledgements otherwise
            if let Err(e) = p.send(&g) {
                return cx.violation(format!("{desc}: cannot send: {e}"), json!(g.value()));
            }
            batch.push(g);
            if batch.len() < 50 && i + 1 < per {
                continue;
            }
            for g in batch.drain(..) {
                match p.recv() {
                    Got::Msg(v) => {
                        if let Err(e) = out_same(&g.view, &v) {
                            cx.violation(format!("echo differs:{e}"), v);
                        }
                    }
                    Got::Timeout => cx.stall(format!("{desc}: no echo")),
                    e => return cx.violation(format!("{desc}: {e:?} instead of an echo"), json!(g.value())),
                }
            }
        }
        cx.evt(per);
        let _ = p.send(&view::custom_notification("mem/measure", Value::Null));
        let _ = p.recv();
    }
    p.close_write();
    let o = finish(cx, &mut p, &desc);
    let live: Vec<i64> = o["obs"]["live"].as_array().into_iter().flatten().filter_map(|v| v.as_i64()).collect();
    if live.len() != phases.len() {
        return cx.harness_error(format!("{} measurements", live.len()));
    }
    let n: usize = phases.iter().sum();
    cx.count(&format!("messages {desc}"), n as u64);
    cx.sig(&format!("{desc} {kind} {}", cx.case));
    cx.sample(|| json!({ "transport": desc, "kind": kind, "messages": n, "live bytes after each phase": live }));
    if live[2] - live[1] >= 3 * 2 * per as i64 && live[3] - live[2] >= 3 * 4 * per as i64 {
        cx.violation(format!("{desc}: live memory grew by {} bytes over {} messages (kind {kind})", live[3] - live[1], 6 * per), json!({ "live bytes after each phase": live }));
    }
}

// ---------------------------------------------------------------- C17

/// What a client sends, from before initialization to the end.
pub fn script(r: &mut Rng) -> Vec<Gen> {
    let mut msgs = vec![];
    for _ in 0..r.below(5) {
        msgs.push(if r.coin() { other_request(r) } else { view::gen_notification(r) });
    }
    if !r.one_in(8) {
        msgs.push(initialize(r));
        if !r.one_in(8) {
            msgs.push(view::initialized());
        }
    }
    for _ in 0..r.below(20) {
        msgs.push(match r.below(12) {
            0 => initialize(r),
            1 => lookalike(r),
            2 => {
                let s = gen::size(r, 70_000);
                view::gen_sized(r, s)
            }
            _ => view::gen_msg(r),
        });
    }
    match r.below(5) {
        0 => {}
        1 => msgs.push(view::exit()),
        2 => {
            let id = gen::id(r);
            msgs.push(view::shutdown(id));
        }
        _ => {
            let id = gen::id(r);
            msgs.push(view::shutdown(id));
            msgs.push(view::exit());
        }
    }
    msgs
}

fn c17(cx: &mut Cx) {
    cx.eval();
    let r = &mut cx.r;
    let msgs = script(r);
    let result = gen::payload(r);
    let ps = pauses(r, msgs.len());
    let sc = Script { msgs, pauses: ps };
    cx.sig(&format!("{:?}", sc.msgs.iter().map(|g| g.view.json().to_string()).collect::<Vec<_>>()));
    cx.sample(|| json!(sc.texts().iter().map(|t| short(t, 80)).collect::<Vec<_>>()));
    let mut all: Vec<(Transport, Value, Vec<Value>)> = vec![];
    for tr in ALL {
        let st = ReadStyle { chunk: *cx.r.pick(&[7, 1000, 65536]), ..Default::default() };
        let mut p = match start(tr, "server", &json!({ "result": result }), st) {
            Ok(p) => p,
            Err(e) => return cx.harness_error(e),
        };
        sc.play(cx, &mut p);
        p.close_write();
        let (got, end) = p.recv_all();
        match end {
            Got::Eof => {}
            Got::Timeout => cx.stall(format!("{tr:?}: session does not end: {:?}", sc.texts())),
            e => cx.violation(format!("{tr:?}: output ends with {e:?}"), json!(sc.texts())),
        }
        let o = finish(cx, &mut p, "server");
        if Joined::from_json(&o["join"]) != Joined::Ok {
            cx.violation(format!("{tr:?}: join gave {}", o["join"]), json!(sc.texts()));
        }
        cx.evt(got.len() + sc.msgs.len());
        all.push((tr, o["obs"].clone(), got));
    }
    // error texts of refused requests are the library's own; they are the same on all transports, too
    let (t0, o0, g0) = &all[0];
    cx.count("messages", sc.msgs.len() as u64);
    cx.count("answers", g0.len() as u64);
    for (t, o, g) in &all[1..] {
        if o != o0 {
            let (a, b) = (o0["log"].as_array().cloned().unwrap_or_default(), o["log"].as_array().cloned().unwrap_or_default());
            let i = (0..a.len().max(b.len())).find(|&i| a.get(i) != b.get(i));
            cx.violation(
                format!("observations on {t:?} differ from those on {t0:?} (entry {i:?})"),
                json!({ "first": i.and_then(|i| a.get(i)), "second": i.and_then(|i| b.get(i)), "rest": [o0["rest"], o["rest"]], "script": sc.texts() }),
            );
            return;
        }
        let same = g.len() == g0.len() && g.iter().zip(g0).all(|(a, b)| norm_answer(a) == norm_answer(b));
        if !same {
            let i = (0..g.len().max(g0.len())).find(|&i| g.get(i).map(norm_answer) != g0.get(i).map(norm_answer)).unwrap_or(0);
            cx.violation(format!("answers on {t:?} differ from those on {t0:?} (answer {i})"), json!({ "first": g0.get(i), "second": g.get(i), "script": sc.texts() }));
            return;
        }
    }
}

/// Error texts are not compared: they may describe the connection.
fn norm_answer(v: &Value) -> Value {
    let mut v = v.clone();
    if v["error"]["code"] == json!(-32002) {
        v["error"]["message"] = json!("");
    }
    v
}

