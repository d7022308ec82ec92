//! Opening connections: what succeeds, what is reported as an error, and what is left behind.

use crate::ctx::{wait, Cx};
use crate::frame::{frame, OutParser};
use crate::gen;
use crate::io::{join_within, Joined};
use crate::mon;
use crate::props::stream::app_report;
use crate::rng::Rng;
use crate::sys;
use crate::view::{self, short};
use bsp_server::{Connection, IoThreads};
use crossbeam_channel::{bounded, Receiver};
use serde_json::{json, Value};
use std::io::{self, ErrorKind, Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::time::{Duration, Instant};

pub fn prop(id: &str) -> Option<fn(&mut Cx)> {
    (id == "C28").then_some(c28 as fn(&mut Cx))
}

fn c28(cx: &mut Cx) {
    cx.eval();
    if cx.long_ms() > 0 {
        return listen(cx);
    }
    match cx.r.below(10) {
        0..=2 => connect(cx),
        3..=6 => listen(cx),
        7 => texts(cx),
        _ => scarce(cx),
    }
}

type Opened = Receiver<io::Result<(Connection, IoThreads)>>;

/// Opens in a thread of its own, with the addresses in some form `ToSocketAddrs` takes.
fn open(how: &'static str, addrs: Vec<SocketAddr>, form: usize) -> Opened {
    let (tx, rx) = bounded(1);
    std::thread::spawn(move || {
        let a = addrs.first().copied();
        let r = match (how, form, a) {
            ("connect", 1, Some(a)) if addrs.len() == 1 => Connection::connect(a),
            ("connect", 2, Some(a)) if addrs.len() == 1 => Connection::connect(a.to_string()),
            ("connect", 3, Some(a)) if addrs.len() == 1 => Connection::connect((a.ip().to_string().as_str(), a.port())),
            ("connect", ..) => Connection::connect(&addrs[..]),
            (_, 1, Some(a)) if addrs.len() == 1 => Connection::listen(a),
            (_, 2, Some(a)) if addrs.len() == 1 => Connection::listen(a.to_string().as_str()),
            (_, 3, Some(a)) if addrs.len() == 1 => Connection::listen((a.ip(), a.port())),
            _ => Connection::listen(&addrs[..]),
        };
        let _ = tx.send(r);
    });
    rx
}

enum Outcome {
    Open(Connection, IoThreads),
    Failed(io::Error),
    Panicked,
}

/// The outcome, which must be there in time.
fn outcome(cx: &mut Cx, rx: &Opened, what: &str) -> Outcome {
    match rx.recv_timeout(wait()) {
        Ok(Ok((c, t))) => Outcome::Open(c, t),
        Ok(Err(e)) => Outcome::Failed(e),
        // the panic is on record
        Err(crossbeam_channel::RecvTimeoutError::Disconnected) => Outcome::Panicked,
        Err(_) => cx.stall(format!("{what}: neither a connection nor an error")),
    }
}

/// One message each way between the library's end and the peer's socket.
fn exchange(c: &Connection, s: &TcpStream, tag: usize) -> Result<(), String> {
    let mut s = s;
    let _ = s.set_nonblocking(false);
    let _ = s.set_read_timeout(Some(wait()));
    let (id, back) = (json!(format!("q{tag}")), json!(tag));
    let q = view::custom_request(id.clone(), "c28/q", json!({ "tag": tag }));
    s.write_all(&frame(&q.text())).map_err(|e| format!("the peer cannot write: {e}"))?;
    match c.receiver.recv_timeout(wait()) {
        Ok(m) => view::same(&q.view, &view::view(&m)).map_err(|e| format!("other message received: {e}"))?,
        Err(e) => return Err(format!("the peer's message is not received: {e}")),
    }
    let a = view::custom_request(back.clone(), "c28/back", Value::Null);
    c.sender.send_timeout(a.view.build()?, wait()).map_err(|e| format!("send fails: {e}"))?;
    let mut p = OutParser::default();
    let mut b = [0; 512];
    loop {
        let n = match s.read(&mut b) {
            Err(e) if e.kind() == ErrorKind::Interrupted => continue,
            n => n.map_err(|e| format!("the message sent does not arrive: {e}"))?,
        };
        p.push(&b[..n]);
        match p.next()? {
            Some(v) if v["id"] == back && v["method"] == "c28/back" => return Ok(()),
            Some(v) => return Err(format!("other message sent: {v}")),
            None if n == 0 => return Err("the stream ends instead of the message sent".into()),
            None => {}
        }
    }
}

/// Threads of the harness that have ended may still be there for a moment.
fn same_fds(want: usize) -> Result<(), usize> {
    let end = Instant::now() + Duration::from_secs(5);
    loop {
        let n = mon::open_fds();
        if n <= want {
            return Ok(());
        }
        if Instant::now() > end {
            return Err(n);
        }
        std::thread::sleep(Duration::from_millis(1));
    }
}

fn ip(r: &mut Rng) -> String {
    if r.one_in(6) && TcpListener::bind(("::1", 0)).is_ok() {
        return "::1".into();
    }
    sys::own_ip()
}

fn connect(cx: &mut Cx) {
    let before = mon::open_fds();
    let r = &mut cx.r;
    let (mut addrs, mut listeners, mut refusing) = (vec![], vec![], vec![]);
    let n = *r.pick(&[0, 1, 1, 1, 2, 2, 3, 4, 6]);
    let bias = r.below(3);
    for _ in 0..n {
        let ip = ip(r);
        let good = if bias == 0 { false } else { r.one_in(bias + 1) };
        if good || ip == "::1" {
            match TcpListener::bind((ip.as_str(), 0)) {
                Ok(l) => {
                    let _ = l.set_nonblocking(true);
                    addrs.extend(l.local_addr());
                    if good {
                        listeners.push((addrs.len() - 1, l));
                    }
                }
                Err(e) => return cx.harness_error(format!("bind: {e}")),
            }
        } else {
            match sys::bound(&ip) {
                Some((fd, port)) => {
                    refusing.push(fd);
                    addrs.push(SocketAddr::new(ip.parse().unwrap(), port));
                }
                None => return cx.harness_error("bind"),
            }
        }
    }
    let want = listeners.first().map(|l| l.0);
    let form = r.below(5);
    let storm = r.one_in(5).then(|| sys::storm(Duration::from_micros(100)));
    let tag = r.below(1 << 20);
    let desc = format!("connect to {} addresses of which {:?} listen, form {form}{}", addrs.len(), listeners.iter().map(|l| l.0).collect::<Vec<_>>(), if storm.is_some() { ", signals" } else { "" });
    cx.sig(&format!("{desc} {}", addrs.iter().filter(|a| a.is_ipv6()).count()));
    cx.count(if want.is_some() { "connect: one listens" } else { "connect: none listens" }, 1);
    cx.sample(|| json!(desc));
    let rx = open("connect", addrs, form);
    let o = outcome(cx, &rx, &desc);
    drop(storm);
    cx.evt(1);
    match (o, want) {
        (Outcome::Panicked, _) => {}
        (Outcome::Failed(_), None) => {}
        (Outcome::Failed(e), Some(_)) => cx.violation(format!("{desc}: fails: {e}"), Value::Null),
        (Outcome::Open(..), None) => cx.violation(format!("{desc}: succeeds"), Value::Null),
        (Outcome::Open(c, t), Some(_)) => {
            let end = Instant::now() + wait();
            let s = loop {
                match listeners[0].1.accept() {
                    Ok((s, _)) => break Some(s),
                    Err(_) if Instant::now() > end => break None,
                    Err(_) => std::thread::sleep(Duration::from_micros(200)),
                }
            };
            match &s {
                None => cx.violation(format!("{desc}: not connected to the first that listens"), Value::Null),
                Some(s) => {
                    if let Err(e) = exchange(&c, s, tag) {
                        cx.violation(format!("{desc}: {e}"), Value::Null);
                    }
                    cx.evt(2);
                }
            }
            for (i, l) in &listeners {
                if l.accept().is_ok() {
                    cx.violation(format!("{desc}: another connection to address {i}"), Value::Null);
                }
            }
            drop((c, s));
            if let Joined::Stuck | Joined::Panic = join_within(t, wait()) {
                cx.stall(format!("{desc}: join does not return"));
            }
        }
    }
    drop((listeners, refusing, rx));
    if let Err(n) = same_fds(before) {
        cx.violation(format!("{desc}: {n} descriptors are open, {before} were before"), Value::Null);
    }
}

/// Connects as soon as somebody listens there.
fn client(a: SocketAddr, rx: &Opened, end: Instant) -> Option<TcpStream> {
    while rx.is_empty() && Instant::now() < end {
        match TcpStream::connect(a) {
            // (a socket may happen to connect to itself while nobody listens)
            Ok(s) if s.local_addr().ok() != Some(a) => return Some(s),
            _ => std::thread::sleep(Duration::from_micros(500)),
        }
    }
    None
}

fn refused(a: SocketAddr) -> bool {
    match TcpStream::connect(a) {
        Ok(s) => s.local_addr().ok() == Some(a),
        Err(_) => true,
    }
}

/// (A client whose handshake completes while the listener is being closed is forgotten by the
/// system without a word, and refused when it sends something.)
fn ended(s: &TcpStream) -> bool {
    let mut s = s;
    let _ = s.write(b"C");
    let _ = s.set_read_timeout(Some(wait()));
    loop {
        return match s.read(&mut [0; 64]) {
            Ok(n) => n == 0,
            Err(e) if e.kind() == ErrorKind::Interrupted => continue,
            Err(e) => !matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut),
        };
    }
}

fn listen(cx: &mut Cx) {
    let before = mon::open_fds();
    let long = cx.long_ms();
    let r = &mut cx.r;
    let (mut addrs, mut held, mut want) = (vec![], vec![], None);
    let n = if long > 0 { r.range(1, 3) } else { *r.pick(&[0, 1, 1, 1, 1, 2, 2, 3, 5]) };
    for i in 0..n {
        // at the latest the last can be used, mostly
        let kind = if long > 0 && i + 1 == n { 0 } else { r.below(if i + 1 == n { 8 } else { 3 }) };
        let ip = if kind == 1 { "203.0.113.9".to_string() } else { ip(r) };
        if kind == 1 {
            if TcpListener::bind((ip.as_str(), 0)).is_ok() {
                return cx.harness_error("203.0.113.9 belongs to this machine");
            }
            addrs.push(SocketAddr::new(ip.parse().unwrap(), 0));
            continue;
        }
        let l = match TcpListener::bind((ip.as_str(), 0)) {
            Ok(l) => l,
            Err(e) => return cx.harness_error(format!("bind: {e}")),
        };
        addrs.extend(l.local_addr());
        if kind == 2 {
            let _ = l.set_nonblocking(true);
            held.push((i, l));
        } else if want.is_none() {
            want = Some(addrs[i]);
        }
    }
    let form = r.below(5);
    let rounds = if long > 0 { 1 } else { r.range(1, 3) };
    let storm = r.one_in(5).then(|| sys::storm(Duration::from_micros(100)));
    let first = want.and_then(|w| addrs.iter().position(|a| *a == w));
    let desc = format!("listen on {} addresses of which the first usable is {first:?}, form {form}{}", addrs.len(), if storm.is_some() { ", signals" } else { "" });
    cx.count(if want.is_some() { "listen: usable" } else { "listen: not usable" }, 1);
    cx.sample(|| json!(desc));
    for round in 0..rounds {
        let r = &mut cx.r;
        let idle = if long > 0 { long } else { *r.pick(&[0, 0, 0, 1, 10, 50]) };
        let (second, ghost) = (r.one_in(3), long == 0 && r.one_in(8));
        let (peer_first, reset) = (r.coin(), r.one_in(4));
        let tag = r.below(1 << 20);
        let what = format!("{desc}, round {round}: client after {idle} ms{}{}", if second { ", a second behind it" } else { "" }, if ghost { ", one before that resets at once" } else { "" });
        cx.sig(&what);
        let rx = open("listen", addrs.clone(), form);
        let Some(a) = want else {
            match outcome(cx, &rx, &what) {
                Outcome::Open(..) => cx.violation(format!("{what}: succeeds"), Value::Null),
                _ => cx.evt(1),
            }
            continue;
        };
        std::thread::sleep(Duration::from_millis(idle));
        if !rx.is_empty() {
            match outcome(cx, &rx, &what) {
                Outcome::Open(..) => cx.violation(format!("{what}: returns a connection although nobody came"), Value::Null),
                // (a client of this process may own the port for a moment)
                Outcome::Failed(e) if round == 0 && e.kind() == ErrorKind::AddrInUse => cx.count("port taken meanwhile", 1),
                Outcome::Failed(e) => cx.violation(format!("{what}: fails: {e}"), Value::Null),
                Outcome::Panicked => {}
            }
            break;
        }
        if ghost {
            if let Some(s) = client(a, &rx, Instant::now() + wait()) {
                sys::linger0(&s);
                drop(s);
            }
            cx.count("client resets at once", 1);
            if let Ok(res) = rx.recv_timeout(Duration::from_millis(1500)) {
                if let Ok((c, t)) = res {
                    if !matches!(c.receiver.recv_timeout(wait()), Err(crossbeam_channel::RecvTimeoutError::Disconnected)) {
                        cx.violation(format!("{what}: its stream does not end"), Value::Null);
                    }
                    drop(c);
                    if let Joined::Stuck | Joined::Panic = join_within(t, wait()) {
                        cx.stall(format!("{what}: join does not return"));
                    }
                }
                continue;
            }
        }
        let Some(s) = client(a, &rx, Instant::now() + wait()) else {
            match outcome(cx, &rx, &what) {
                Outcome::Open(..) => cx.violation(format!("{what}: returns a connection although nobody came"), Value::Null),
                Outcome::Failed(e) if round == 0 && e.kind() == ErrorKind::AddrInUse => cx.count("port taken meanwhile", 1),
                Outcome::Failed(e) => cx.violation(format!("{what}: fails: {e}"), Value::Null),
                Outcome::Panicked => {}
            }
            break;
        };
        let late = if second { TcpStream::connect(a).ok().filter(|s| s.local_addr().ok() != Some(a)) } else { None };
        let (c, t) = match outcome(cx, &rx, &what) {
            Outcome::Open(c, t) => (c, t),
            Outcome::Failed(e) => {
                cx.violation(format!("{what}: fails: {e}"), Value::Null);
                break;
            }
            Outcome::Panicked => break,
        };
        if let Err(e) = exchange(&c, &s, tag) {
            cx.violation(format!("{what}: {e}"), Value::Null);
        }
        if let Some(l) = late {
            cx.count("second client", 1);
            if !ended(&l) {
                cx.violation(format!("{what}: the second client is neither served nor refused"), Value::Null);
            }
        }
        if !refused(a) {
            cx.violation(format!("{what}: another client is let in"), Value::Null);
        }
        if let Err(e) = exchange(&c, &s, tag + 1) {
            cx.violation(format!("{what}: later, {e}"), Value::Null);
        }
        cx.evt(6);
        if reset {
            sys::linger0(&s);
        }
        if peer_first {
            drop(s);
            drop(c);
        } else {
            drop(c);
            let _ = s.shutdown(std::net::Shutdown::Write);
        }
        match join_within(t, wait()) {
            Joined::Stuck | Joined::Panic => cx.stall(format!("{what}: join does not return")),
            _ => {}
        }
    }
    drop(storm);
    for (i, l) in &held {
        if l.accept().is_ok() {
            cx.violation(format!("{desc}: connects to address {i}"), Value::Null);
        }
    }
    drop(held);
    if let Err(n) = same_fds(before) {
        cx.violation(format!("{desc}: {n} descriptors are open, {before} were before"), Value::Null);
    }
}

/// Texts that are no addresses.
fn texts(cx: &mut Cx) {
    let before = mon::open_fds();
    let r = &mut cx.r;
    let ip = sys::own_ip();
    let t = match r.below(9) {
        0 => String::new(),
        1 => ip,
        2 => format!("{ip}:"),
        3 => format!("{ip}:{}", r.range(65536, 1 << 30)),
        4 => format!("{ip}:-{}", r.below(9000)),
        5 => format!("{ip}:http"),
        6 => format!("{}\0:80", "x".repeat(r.below(4))),
        7 => format!(":{}:{}", r.below(99), gen::string(r)).replace(|c: char| c.is_ascii_digit(), "x"),
        _ => gen::string(r).replace(':', ";"),
    };
    let how = if r.coin() { "connect" } else { "listen" };
    let desc = format!("{how} {:?}", short(&t, 60));
    cx.sig(&desc);
    cx.count("not an address", 1);
    cx.sample(|| json!(desc));
    let (tx, rx) = bounded(1);
    let t2 = t.clone();
    std::thread::spawn(move || {
        let _ = tx.send(if how == "connect" { Connection::connect(t2) } else { Connection::listen(t2) });
    });
    if let Outcome::Open(..) = outcome(cx, &rx, &desc) {
        cx.violation(format!("{desc}: succeeds"), Value::Null);
    }
    cx.evt(1);
    if let Err(n) = same_fds(before) {
        cx.violation(format!("{desc}: {n} descriptors are open, {before} were before"), Value::Null);
    }
}

/// A process that has few file descriptors left.
fn scarce(cx: &mut Cx) {
    let r = &mut cx.r;
    let how = *r.pick(&["connect", "listen"]);
    let free = if r.one_in(5) { r.range(8, 20) } else { r.below(7) };
    let desc = format!("{how} with {free} descriptors left");
    let tag = r.below(1 << 20);
    cx.sig(&desc);
    cx.count(&desc, 1);
    cx.sample(|| json!(desc));
    let l = match TcpListener::bind((sys::own_ip().as_str(), 0)) {
        Ok(l) => l,
        Err(e) => return cx.harness_error(format!("bind: {e}")),
    };
    let Ok(addr) = l.local_addr() else { return cx.harness_error("no address") };
    let _ = l.set_nonblocking(true);
    let l = (how == "connect").then_some(l);
    let child = std::process::Command::new(std::env::current_exe().unwrap_or_default())
        .envs(crate::trace::env())
        .args([how, &addr.to_string(), "echo", &json!({ "free": free }).to_string()])
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::piped())
        .spawn();
    let mut child = match child {
        Ok(c) => c,
        Err(e) => return cx.harness_error(format!("spawn: {e}")),
    };
    let err = child.stderr.take();
    let (tx, done) = bounded(1);
    std::thread::spawn(move || {
        let mut s = String::new();
        let _ = err.map(|mut e| e.read_to_string(&mut s));
        let _ = tx.send(s);
    });
    // it either serves us or ends
    let end = Instant::now() + wait();
    let mut served = false;
    while done.is_empty() && Instant::now() < end {
        let s = match &l {
            Some(l) => l.accept().ok().map(|s| s.0),
            None => TcpStream::connect(addr).ok().filter(|s| s.local_addr().ok() != Some(addr)),
        };
        let Some(mut s) = s else {
            std::thread::sleep(Duration::from_micros(500));
            continue;
        };
        let _ = s.set_nonblocking(false);
        let _ = s.set_read_timeout(Some(wait()));
        let q = view::custom_request(json!(tag), "c28/q", Value::Null);
        let _ = s.write_all(&frame(&q.text()));
        let mut p = OutParser::default();
        let mut b = [0; 512];
        loop {
            match s.read(&mut b) {
                Ok(0) => break,
                Ok(n) => p.push(&b[..n]),
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut) => {
                    let _ = child.kill();
                    cx.stall(format!("{desc}: the peer is neither served nor refused"))
                }
                Err(_) => break,
            }
            if let Ok(Some(v)) = p.next() {
                served = v["id"] == tag;
                break;
            }
        }
        break;
    }
    let Ok(log) = done.recv_timeout(wait()) else {
        let _ = child.kill();
        cx.stall(format!("{desc}: the process does not end"))
    };
    let status = child.wait().map(|s| s.code()).unwrap_or(None);
    let obs = log.lines().find_map(|l| l.strip_prefix("OBS ")).and_then(|l| serde_json::from_str::<Value>(l).ok());
    let Some(obs) = obs else {
        return cx.violation(format!("{desc}: process ended with {status:?}"), json!({ "stderr": short(&log, 3000) }));
    };
    cx.evt(2);
    app_report(cx, &obs, &desc);
    let failed = !obs["refused"].is_null();
    cx.count(if failed { "reported" } else { "served" }, 1);
    if failed == served {
        cx.violation(format!("{desc}: reported {}, served {served}", obs["refused"]), obs.clone());
    }
    if failed && free >= 8 {
        cx.violation(format!("{desc}: fails with {}", obs["refused"]), obs.clone());
    }
    if failed && obs["free"] != json!(free) {
        cx.violation(format!("{desc}: {} descriptors left after the failure", obs["free"]), obs.clone());
    }
    if failed && obs["threads"].as_u64() > Some(1) {
        cx.violation(format!("{desc}: {} threads after the failure", obs["threads"]), obs.clone());
    }
}
