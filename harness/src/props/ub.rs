//! C25: small hostile sessions for the sanitizers and the undefined-behaviour interpreter.
//! The oracle is the instrumentation; the only check made here is that every text that is
//! delivered really is UTF-8.
use crate::ctx::{emit, Cx};
use crate::frame::frame;
use crate::gen;
use crate::io::join_now;
use crate::rng::Rng;
use crate::view::{self, view};
use bsp_server::{Connection, IoThreads, Message, Request, Response};
use serde_json::json;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::time::Duration;

pub fn prop(id: &str) -> Option<fn(&mut Cx)> {
    (id == "C25").then_some(c25 as fn(&mut Cx))
}

/// Look at every byte of a message. Returns whether its texts are UTF-8.
fn touch(m: &Message) -> bool {
    let _ = format!("{m:?}");
    let ok = serde_json::to_vec(m).map_or(true, |b| std::str::from_utf8(&b).is_ok());
    let v = view(&m.clone());
    ok && std::str::from_utf8(v.method.as_bytes()).is_ok()
}

struct Seen {
    events: usize,
    bad_text: bool,
}

fn receive(c: &Connection, max: usize, wait: Duration, seen: &mut Seen) {
    for _ in 0..max {
        match c.receiver.recv_timeout(wait) {
            Ok(m) => {
                seen.events += 1;
                seen.bad_text |= !touch(&m);
                if let Message::Request(q) = &m {
                    let _ = (q.method(), q.id(), q.params().is_ok());
                    let _ = c.send_timeout(Response::ok(q.id().clone(), json!(1)), ms(200));
                }
                if let Message::Notification(n) = &m {
                    let _ = n.method();
                }
            }
            Err(_) => return,
        }
    }
}

fn send_some(r: &mut Rng, c: &Connection, n: usize) -> usize {
    let mut k = 0;
    for _ in 0..n {
        let g = if r.one_in(10) { let n = r.below(big()); view::gen_sized(r, n) } else { view::gen_msg(r) };
        let Ok(m) = g.view.build() else { continue };
        let d = ms(r.below(40) as u64);
        let ok = match r.below(4) {
            0 => c.try_send(m).is_ok(),
            1 => c.send_deadline(m, std::time::Instant::now() + d).is_ok(),
            2 => c.sender.send_timeout(m, ms(500)).is_ok(),
            _ => c.send_timeout(m, ms(500)).is_ok(),
        };
        k += ok as usize;
        if r.one_in(4) {
            std::thread::yield_now();
        }
    }
    k
}

/// Miri runs a thousand times slower, so patience grows.
fn ms(n: u64) -> Duration {
    Duration::from_millis(if cfg!(miri) { n * 15 } else { n })
}

fn big() -> usize {
    if cfg!(miri) {
        600
    } else {
        60_000
    }
}
fn few(r: &mut Rng, n: usize) -> usize {
    r.below(if cfg!(miri) { n.min(6) } else { n * 4 })
}

/// Several threads send through clones of one connection while another receives.
fn busy(r: &mut Rng, c: Connection, seen: &mut Seen) {
    let threads = r.below(3);
    let max = few(r, 12) + 1;
    let late = r.coin();
    std::thread::scope(|s| {
        for _ in 0..threads {
            let mut r = r.fork();
            let c = Connection { sender: c.sender.clone(), receiver: c.receiver.clone() };
            s.spawn(move || {
                let n = few(&mut r, 5);
                let k = send_some(&mut r, &c, n);
                if r.one_in(3) {
                    let _ = c.receiver.recv_timeout(ms(20));
                }
                k
            });
        }
        receive(&c, max, ms(30), seen);
        if !late {
            drop(c);
        }
    });
}

fn memory(r: &mut Rng) -> Seen {
    let (a, b) = Connection::memory();
    let mut seen = Seen { events: 0, bad_text: false };
    let (mut r1, mut r2) = (r.fork(), r.fork());
    std::thread::scope(|s| {
        let h = s.spawn(move || {
            let mut seen = Seen { events: 0, bad_text: false };
            busy(&mut r1, a, &mut seen);
            seen
        });
        busy(&mut r2, b, &mut seen);
        if let Ok(x) = h.join() {
            seen.events += x.events;
            seen.bad_text |= x.bad_text;
        }
    });
    seen
}

/// Library end and our raw end of a TCP connection; no thread is left behind.
fn pair(listen: bool) -> Result<(Connection, IoThreads, TcpStream), String> {
    if !listen {
        let l = TcpListener::bind(("127.0.0.1", 0)).map_err(|e| e.to_string())?;
        let (c, t) = Connection::connect(l.local_addr().map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        return Ok((c, t, l.accept().map_err(|e| e.to_string())?.0));
    }
    let a = TcpListener::bind(("127.0.0.1", 0)).and_then(|l| l.local_addr()).map_err(|e| e.to_string())?;
    let h = std::thread::spawn(move || Connection::listen(a));
    let s = loop {
        match TcpStream::connect(a) {
            Ok(s) => break s,
            Err(_) if h.is_finished() => return Err("listen failed".into()),
            Err(_) => std::thread::sleep(ms(1)),
        }
    };
    let (c, t) = h.join().map_err(|_| "listen panicked")?.map_err(|e| e.to_string())?;
    Ok((c, t, s))
}

fn bytes(r: &mut Rng) -> Vec<u8> {
    let n = few(r, 5);
    let mut b: Vec<u8> = vec![];
    for _ in 0..n {
        let g = if r.one_in(8) { let n = r.below(big()); view::gen_sized(r, n) } else { view::gen_msg(r) };
        b.extend(frame(&g.text()));
    }
    match r.below(8) {
        0 => {
            let i = r.below(b.len() + 1);
            b.truncate(i);
        }
        1 if !cfg!(miri) => b.extend(super::stream::bad_frame(r).0),
        2 | 3 => {
            // a body that is JSON but for one string that is not UTF-8
            let t = *r.pick(&["{\"id\":\"Q\",\"method\":\"Q\"}", "{\"id\":1,\"method\":\"a\",\"params\":[\"Q\"]}", "{\"method\":\"b\",\"params\":{\"Q\":1}}", "{\"id\":2,\"result\":\"Q\"}"]);
            let bad: &[u8] = r.pick(&[&b"\xff"[..], b"\xc0\x80", b"\xed\xa0\x80", b"\xf5", b"abc\x80", b"\xe2\x82"]);
            let i = t.bytes().position(|c| c == b'Q').unwrap_or(0);
            let mut body = t.as_bytes()[..i].to_vec();
            body.extend(bad);
            body.extend(&t.as_bytes()[i + 1..]);
            b.extend(format!("Content-Length: {}\r\n\r\n", body.len()).bytes());
            b.extend(body);
        }
        4 => b.extend(b"Content-L\xffngth: 5\r\n\r\n{}"),
        5 => b.extend(frame(&view::exit().text())),
        6 => super::stream::flip(r, &mut b),
        _ => {}
    }
    b
}

fn raw_peer(r: &mut Rng, mut s: TcpStream) {
    let b = bytes(r);
    let cut = if r.coin() { r.below(b.len() + 1) } else { b.len() };
    let _ = s.set_read_timeout(Some(ms(100)));
    let _ = s.write_all(&b[..cut]);
    if r.coin() {
        std::thread::sleep(ms(2));
    }
    let _ = s.write_all(&b[cut..]);
    match r.below(4) {
        0 => return,
        1 => {
            let mut x = [0; 40];
            let _ = s.read(&mut x);
            return;
        }
        _ => {
            let _ = s.shutdown(Shutdown::Write);
        }
    }
    let mut x = vec![0; 4096];
    let mut quiet = 0;
    while quiet < 3 {
        match s.read(&mut x) {
            Ok(0) => break,
            Ok(_) => quiet = 0,
            Err(_) => quiet += 1,
        }
    }
}

fn stream(r: &mut Rng, listen: bool) -> Result<Seen, String> {
    let (c, t, s) = pair(listen)?;
    let mut seen = Seen { events: 1, bad_text: false };
    let mut rp = r.fork();
    let early_join = r.one_in(4);
    std::thread::scope(|sc| {
        sc.spawn(move || raw_peer(&mut rp, s));
        if early_join {
            drop(c);
        } else {
            busy(r, c, &mut seen);
        }
        join_now(t);
    });
    Ok(seen)
}

/// A whole session between two library ends over TCP.
fn both(r: &mut Rng) -> Result<Seen, String> {
    let a = TcpListener::bind(("127.0.0.1", 0)).and_then(|l| l.local_addr()).map_err(|e| e.to_string())?;
    let mut rs = r.fork();
    let h = std::thread::spawn(move || {
        let (c, t) = Connection::listen(a).map_err(|e| e.to_string())?;
        let mut seen = Seen { events: 0, bad_text: false };
        let ok = c.initialize(|_p| json!({ "displayName": "s" })).is_ok();
        if ok {
            let n = few(&mut rs, 4);
            send_some(&mut rs, &c, n);
            while let Ok(m) = c.receiver.recv_timeout(ms(500)) {
                seen.events += 1;
                seen.bad_text |= !touch(&m);
                if let Message::Request(q) = &m {
                    if c.handle_shutdown(q).unwrap_or(true) {
                        break;
                    }
                    let _ = c.send_timeout(Response::ok(q.id().clone(), json!(null)), ms(200));
                }
            }
        }
        drop(c);
        join_now(t);
        Ok::<_, String>(seen)
    });
    let (c, t) = loop {
        match Connection::connect(a) {
            Ok(x) => break x,
            Err(_) if h.is_finished() => return Err("listen failed".into()),
            Err(_) => std::thread::sleep(ms(1)),
        }
    };
    let mut seen = Seen { events: 0, bad_text: false };
    let limit = ms(2000);
    let init = json!({ "jsonrpc": "2.0", "id": 0, "method": "build/initialize", "params": { "displayName": "c", "version": "1", "bspVersion": "2", "rootUri": "file:///x", "capabilities": { "languageIds": [] } } });
    let init: Result<Request, _> = serde_json::from_value(init);
    if let Ok(q) = init {
        let _ = c.send_timeout(q, limit);
    }
    let _ = c.receiver.recv_timeout(limit).map(|m| seen.bad_text |= !touch(&m));
    if let Ok(m) = view::initialized().view.build() {
        let _ = c.send_timeout(m, limit);
    }
    let n = few(r, 4);
    send_some(r, &c, n);
    receive(&c, n + 1, ms(20), &mut seen);
    if r.coin() {
        if let Ok(m) = view::shutdown(gen::id(r)).view.build() {
            let _ = c.send_timeout(m, limit);
        }
        let _ = c.receiver.recv_timeout(limit);
    }
    if let Ok(m) = view::exit().view.build() {
        let _ = c.send_timeout(m, limit);
    }
    receive(&c, 50, ms(20), &mut seen);
    drop(c);
    join_now(t);
    if let Ok(Ok(s)) = h.join() {
        seen.events += s.events;
        seen.bad_text |= s.bad_text;
    }
    Ok(seen)
}

/// Decoding of good and damaged texts, encoding, printing, cloning.
fn data(r: &mut Rng) -> Seen {
    let mut seen = Seen { events: 0, bad_text: false };
    for _ in 0..1 + few(r, 8) {
        let g = view::gen_msg(r);
        let mut t = g.text().into_bytes();
        if r.one_in(3) {
            super::stream::flip(r, &mut t);
        }
        seen.events += 1;
        if let Ok(m) = serde_json::from_slice::<Message>(&t) {
            seen.bad_text |= !touch(&m);
            if let Ok(x) = serde_json::to_string(&m) {
                let _ = serde_json::from_str::<Message>(&x).map(|m| touch(&m));
            }
        }
        if let Ok(m) = g.view.build() {
            seen.bad_text |= !touch(&m);
        }
    }
    seen
}

fn one(r: &mut Rng, kind: usize) -> Result<Seen, String> {
    match kind {
        0 => Ok(memory(r)),
        1 => stream(r, false),
        2 => stream(r, true),
        3 => both(r),
        _ => Ok(data(r)),
    }
}

fn c25(cx: &mut Cx) {
    cx.eval();
    let n = 1 + cx.r.below(if cfg!(miri) { 2 } else { 4 });
    let kinds: Vec<usize> = (0..n).map(|i| if i == 0 { (cx.case % 5) as usize } else { cx.r.below(5) }).collect();
    let hs: Vec<_> = kinds
        .iter()
        .map(|&k| {
            let mut r = cx.r.fork();
            std::thread::spawn(move || one(&mut r, k))
        })
        .collect();
    for (h, k) in hs.into_iter().zip(&kinds) {
        match h.join() {
            Ok(Ok(s)) => {
                cx.evt(s.events);
                cx.count(["memory", "connect", "listen", "session", "data"][*k], 1);
                if s.bad_text {
                    emit("U", &json!({ "case": cx.case, "msg": "text that is not UTF-8 was delivered as a string" }));
                }
                cx.sig(&format!("{kinds:?} {k} {}", s.events));
            }
            Ok(Err(e)) => cx.count(&format!("not run: {}", view::short(&e, 40)), 1),
            Err(_) => cx.count("session panicked", 1),
        }
    }
    cx.sample(|| json!({ "concurrent sessions": kinds.iter().map(|k| ["memory", "connect", "listen", "session", "data"][*k]).collect::<Vec<_>>() }));
}
