//! A message passes at once: nothing holds it back until a timer or further traffic.

use crate::ctx::{wait, Cx};
use crate::frame::{frame, OutParser};
use crate::io::{self, join_now, Got, ReadStyle, Transport};
use crate::rng::Rng;
use crate::schema;
use crate::view;
use bsp_server::{Connection, IoThreads, Message, Notification, RequestId, Response};
use crossbeam_channel::{bounded, Receiver, Sender};
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::time::{Duration, Instant};

pub fn prop(id: &str) -> Option<fn(&mut Cx)> {
    (id == "C31").then_some(c31 as fn(&mut Cx))
}

/// One end of a session, which sends and receives when it is told to.
enum End {
    Lib(Connection),
    Raw(TcpStream, OutParser),
}

fn message(i: usize, n: usize, kind: usize) -> Message {
    let s = "p".repeat(n);
    let id = RequestId::from(i as i32);
    match kind % 3 {
        0 => bsp_server::Request::Custom(id, "c31/q", json!({ "i": i, "s": s })).into(),
        1 => Notification::Custom("c31/n", json!({ "i": i, "s": s })).into(),
        _ => Response::ok(id, json!({ "i": i, "s": s })).into(),
    }
}

/// Numbered text of a size, or any message.
#[derive(Clone)]
enum Item {
    Sized(usize),
    Given(Box<view::Gen>),
}

impl std::fmt::Debug for Item {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Item::Sized(n) => write!(f, "{n}"),
            Item::Given(g) => write!(f, "{}", view::short(&g.text(), 60)),
        }
    }
}

fn number(v: &Value) -> Option<usize> {
    [&v["params"]["i"], &v["result"]["i"]].iter().find_map(|x| x.as_u64()).map(|x| x as usize)
}

impl End {
    fn send(&mut self, i: usize, item: &Item, how: usize) -> Result<Instant, String> {
        let m = match item {
            Item::Sized(n) => message(i, *n, how / 4),
            Item::Given(g) => g.view.build()?,
        };
        match self {
            End::Lib(c) => {
                let t = Instant::now();
                match how % 4 {
                    0 => c.send(m).map_err(|e| e.to_string())?,
                    1 => c.send_timeout(m, wait()).map_err(|e| e.to_string())?,
                    2 => c.send_deadline(m, Instant::now() + wait()).map_err(|e| e.to_string())?,
                    _ => c.sender.send(m).map_err(|e| e.to_string())?,
                }
                Ok(t)
            }
            End::Raw(s, _) => {
                let mut v = serde_json::to_value(&m).map_err(|e| e.to_string())?;
                v["jsonrpc"] = json!("2.0");
                let b = frame(&v.to_string());
                // whole, or in two pieces
                let cut = if how % 4 == 0 { b.len() / 2 } else { b.len() };
                s.write_all(&b[..cut]).map_err(|e| e.to_string())?;
                let t = Instant::now();
                s.write_all(&b[cut..]).map_err(|e| e.to_string())?;
                Ok(t)
            }
        }
    }
    fn recv(&mut self) -> Result<(Option<usize>, Instant), String> {
        match self {
            End::Lib(c) => {
                let m = c.receiver.recv_timeout(wait()).map_err(|e| e.to_string())?;
                let t = Instant::now();
                let v = serde_json::to_value(&m).map_err(|e| e.to_string())?;
                Ok((number(&v), t))
            }
            End::Raw(s, p) => {
                let mut b = [0; 65536];
                loop {
                    if let Some(v) = p.next()? {
                        return Ok((number(&v), Instant::now()));
                    }
                    match s.read(&mut b) {
                        Ok(0) => return Err("end".into()),
                        Ok(n) => p.push(&b[..n]),
                        Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                        Err(e) => return Err(e.to_string()),
                    }
                }
            }
        }
    }
}

/// What the two ends do in a round: who sends how many of which size.
#[derive(Clone, Debug)]
struct Step {
    from_a: bool,
    items: Vec<Item>,
    pause_ms: u64,
}

fn any(r: &mut Rng) -> Item {
    loop {
        let g = view::gen_msg(r);
        if !g.is_exit() && g.text().len() < 20_000 {
            return Item::Given(Box::new(g));
        }
    }
}

fn steps(r: &mut Rng) -> Vec<Step> {
    if r.one_in(8) {
        // many small messages one by one: what happens to each n-th
        let n = *r.pick(&[64, 100, 128, 250, 256, 1000, 1024]);
        let how = r.below(3);
        return (0..n).map(|i| Step { from_a: how == 0 || how == 1 && i % 2 == 0, items: vec![Item::Sized(20)], pause_ms: 0 }).collect();
    }
    let mut v: Vec<Step> = vec![];
    for _ in 0..r.range(1, 4) {
        let few = [0, 1, 20, 300, 1400, 1500, 4000, 8100, 8192, 9000, 20_000];
        let items = match *r.pick(&[1, 1, 1, 2, 3, 5, 8, 60]) {
            60 => vec![Item::Sized(*r.pick(&[0, 20, 300])); r.range(20, 60)],
            n => (0..n)
                .flat_map(|_| if r.one_in(3) { vec![any(r); *r.pick(&[1, 2, 3])] } else { vec![Item::Sized(*r.pick(&few))] })
                .collect(),
        };
        let from_a = if v.is_empty() || r.one_in(3) { r.coin() } else { !v[v.len() - 1].from_a };
        v.push(Step { from_a, items, pause_ms: *r.pick(&[0, 0, 0, 0, 0, 0, 1, 1, 30, 30, 300]) });
    }
    v
}

/// Runs the steps `rounds` times with the two ends in threads of their own; how long each message
/// of a round was under way, by position.
fn rounds(mut a: End, mut b: End, steps: &[Step], rounds: usize, seed: usize) -> Result<(End, End, Vec<Vec<f64>>), String> {
    let total: usize = steps.iter().map(|s| s.items.len()).sum();
    let mut times = vec![vec![]; total];
    for round in 0..rounds {
        let mut at = 0;
        for st in steps {
            if st.pause_ms > 0 {
                std::thread::sleep(Duration::from_millis(st.pause_ms));
            }
            let n = st.items.len();
            let base = round * total + at;
            let (from, to) = if st.from_a { (&mut a, &mut b) } else { (&mut b, &mut a) };
            let (sent, got) = std::thread::scope(|s| {
                let h = s.spawn(move || (0..n).map(|_| to.recv()).collect::<Result<Vec<_>, String>>());
                let sent = st.items.iter().enumerate().map(|(i, k)| from.send(base + i, k, seed + i + round)).collect::<Result<Vec<_>, String>>();
                (sent, h.join())
            });
            let (sent, got) = (sent?, got.map_err(|_| "receiver")??);
            for (i, (k, t)) in got.into_iter().enumerate() {
                if matches!(st.items[i], Item::Sized(_)) && k != Some(base + i) {
                    return Err(format!("message {k:?} instead of {}", base + i));
                }
                times[at + i].push(t.saturating_duration_since(sent[i]).as_secs_f64() * 1e3);
            }
            at += n;
        }
    }
    Ok((a, b, times))
}

/// The lower quartile: what a busy machine does to some of them does not count.
fn quartile(v: &[f64]) -> f64 {
    let mut v = v.to_vec();
    v.sort_by(|a, b| a.total_cmp(b));
    v.get(v.len() / 4).copied().unwrap_or(0.0)
}

const LIMIT_MS: f64 = 12.0;

/// `measure` yields times by position. What is slow must be slow each time.
fn judge(cx: &mut Cx, what: &str, detail: Value, mut measure: impl FnMut(&mut Cx) -> Result<Vec<Vec<f64>>, String>) {
    let mut seen = vec![];
    for i in 0..5 {
        let t = match measure(cx) {
            Ok(t) => t,
            Err(e) => return cx.harness_error(format!("{what}: {e}")),
        };
        cx.evt(t.iter().map(Vec::len).sum());
        let q: Vec<f64> = t.iter().map(|v| (quartile(v) * 100.0).round() / 100.0).collect();
        let worst = q.iter().copied().fold(0.0, f64::max);
        cx.count("microseconds at the slowest place", (worst * 1e3) as u64);
        cx.count("measurements", 1);
        seen.push(q);
        if worst < LIMIT_MS {
            break;
        }
        if i < 4 {
            std::thread::sleep(Duration::from_millis(200 << i));
        }
    }
    cx.sig(&format!("{what} {detail}"));
    cx.sample(|| json!({ "what": what, "how": detail, "ms by place": seen }));
    if seen.len() == 5 {
        cx.violation(format!("{what}: messages are held back: {:?} ms (lower quartiles by place)", seen[4]), json!({ "what": what, "how": detail, "ms": seen }));
    }
}

fn c31(cx: &mut Cx) {
    cx.eval();
    match cx.r.below(9) {
        8 => opening(cx),
        0 => stdio(cx),
        1 => handshake(cx),
        2 => endings(cx),
        k => between(cx, k),
    }
}

fn between(cx: &mut Cx, k: usize) {
    let st = steps(&mut cx.r);
    let (mut joins, mut ends): (Vec<IoThreads>, _) = (vec![], None);
    let what = match k {
        3 => "library to library over TCP",
        4 => "on a memory pair",
        5 | 6 => "connected to a peer",
        _ => "listening, with a peer",
    };
    let opened = match k {
        3 => io::tcp_both().map(|((a, ta), (b, tb))| {
            joins.extend([ta, tb]);
            ends = Some((End::Lib(a), End::Lib(b)));
        }),
        4 => {
            let (a, b) = Connection::memory();
            ends = Some((End::Lib(a), End::Lib(b)));
            Ok(())
        }
        _ => io::tcp(k == 7).map(|(c, t, s)| {
            joins.push(t);
            let _ = s.set_read_timeout(Some(wait()));
            ends = Some((End::Lib(c), End::Raw(s, OutParser::default())));
        }),
    };
    if let Err(e) = opened {
        return cx.harness_error(e);
    }
    let seed = cx.r.below(1000);
    if cx.r.one_in(5) {
        // a session with a past
        let warm = |from_a| Step { from_a, items: vec![Item::Sized(20); 50], pause_ms: 0 };
        let of = *cx.r.pick(&[2, 10, 40]);
        match ends.take().ok_or("no ends".to_string()).and_then(|(a, b)| rounds(a, b, &[warm(true), warm(false)], of, seed)) {
            Ok((a, b, _)) => ends = Some((a, b)),
            Err(e) => return cx.harness_error(format!("{what}: {e}")),
        }
    }
    let n = if cx.quick() { 8 } else { 16 };
    let how = view::short(&format!("{st:?}"), 3000);
    judge(cx, what, json!(how), |_| {
        let (a, b) = ends.take().ok_or("no ends")?;
        let (a, b, t) = rounds(a, b, &st, n, seed)?;
        ends = Some((a, b));
        Ok(t)
    });
    if let Some((End::Lib(a), End::Lib(b))) = &ends {
        // between two ends of the library, exit is what ends the threads that read
        for c in [a, b] {
            let _ = c.send(Notification::Exit);
        }
    }
    drop(ends);
    for t in joins {
        if io::join_within(t, wait()) == io::Joined::Stuck {
            cx.stall(format!("{what}: the threads do not end"));
        }
    }
}

/// There and back through a process.
fn stdio(cx: &mut Cx) {
    let mut p = match io::start(Transport::Stdio, "echo", &json!({}), ReadStyle { chunk: 65536, ..Default::default() }) {
        Ok(p) => p,
        Err(e) => return cx.harness_error(e),
    };
    let sizes: Vec<usize> = (0..*cx.r.pick(&[1, 1, 2, 3, 5, 8])).map(|_| *cx.r.pick(&[0, 20, 300, 1024, 4096, 8192, 20_000])).collect();
    let pause = *cx.r.pick(&[0, 0, 1, 30]);
    let how = json!({ "sizes": sizes, "pause": pause });
    judge(cx, "there and back on stdio", how, |_| {
        let mut times = vec![vec![]; sizes.len()];
        for round in 0..10 {
            std::thread::sleep(Duration::from_millis(pause));
            let bytes: Vec<u8> = sizes.iter().enumerate().flat_map(|(i, &n)| frame(&view::custom_notification("c31/n", json!({ "i": i, "s": "p".repeat(n), "round": round })).text())).collect();
            let t0 = Instant::now();
            p.write(&bytes)?;
            for t in times.iter_mut() {
                match p.recv() {
                    Got::Msg(_) => t.push(t0.elapsed().as_secs_f64() * 1e3),
                    g => return Err(format!("{g:?}")),
                }
            }
        }
        Ok(times)
    });
}

/// The library's own answers: refusals, initialization, shutdown.
fn handshake(cx: &mut Cx) {
    let listen = cx.r.coin();
    let refusals = cx.r.below(4);
    let params = schema::gen_obj(&mut cx.r, &schema::INITIALIZE, 0);
    let how = json!({ "listen": listen, "refusals": refusals });
    judge(cx, "handshakes", how, |_| {
        let mut times = vec![vec![]; refusals + 3];
        for _ in 0..8 {
            let (c, t, s) = io::tcp(listen)?;
            let (tx, rx) = bounded(1);
            let h = std::thread::spawn(move || {
                let ok = c.initialize(|_| json!({ "r": 1 })).is_ok();
                if let (true, Ok(Message::Request(q))) = (ok, c.receiver.recv()) {
                    let r = c.handle_shutdown(&q);
                    let _ = tx.send((r.is_ok(), Instant::now()));
                }
                drop(c);
                join_now(t)
            });
            let _ = s.set_read_timeout(Some(wait()));
            let mut p = OutParser::default();
            let mut s = s;
            let mut ask = |text: String, answered: bool| -> Result<f64, String> {
                let t = Instant::now();
                s.write_all(&frame(&text)).map_err(|e| e.to_string())?;
                let mut b = [0; 8192];
                while answered && p.next()?.is_none() {
                    match s.read(&mut b) {
                        Ok(0) => return Err("end".into()),
                        Ok(n) => p.push(&b[..n]),
                        Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                        Err(e) => return Err(e.to_string()),
                    }
                }
                Ok(t.elapsed().as_secs_f64() * 1e3)
            };
            let mut k = 0;
            let mut note = |ms: f64| {
                times[k].push(ms);
                k += 1;
            };
            for i in 0..refusals {
                note(ask(view::custom_request(json!(i), "c31/early", Value::Null).text(), true)?);
            }
            note(ask(json!({ "jsonrpc": "2.0", "id": 1, "method": "build/initialize", "params": params }).to_string(), true)?);
            ask(view::initialized().text(), false)?;
            note(ask(view::shutdown(json!(2)).text(), true)?);
            let t = Instant::now();
            ask(view::exit().text(), false)?;
            let (_, end) = rx.recv_timeout(wait()).map_err(|_| "shutdown is not over")?;
            note(end.saturating_duration_since(t).as_secs_f64() * 1e3);
            drop(s);
            let _ = h.join();
        }
        Ok(times)
    });
}

/// The end of a session: the receiver learns of it, the threads are joined.
fn endings(cx: &mut Cx) {
    let listen = cx.r.coin();
    let end = cx.r.below(4);
    let ready = Duration::from_millis(*cx.r.pick(&[0, 5, 40]));
    let name = ["exit", "half close", "close", "malformed"][end];
    let early = cx.r.coin();
    let how = json!({ "listen": listen, "end": name, "joined": if early { "meanwhile" } else { "after the last message" } });
    judge(cx, "endings", how, |_| {
        let mut times = vec![vec![]; 2];
        for _ in 0..8 {
            let (c, t, mut s) = io::tcp(listen)?;
            let (tx, rx): (Sender<Instant>, Receiver<Instant>) = bounded(2);
            let (tx2, rx2): (Sender<Instant>, Receiver<Instant>) = bounded(2);
            let mut t = Some(t);
            let mut join = |t: Option<IoThreads>| {
                let tx2 = tx2.clone();
                std::thread::spawn(move || {
                    t.map(join_now);
                    let _ = tx2.send(Instant::now());
                })
            };
            let j = early.then(|| join(t.take()));
            let h = std::thread::spawn(move || {
                let c = c;
                while c.receiver.recv().is_ok() {}
                let _ = tx.send(Instant::now());
            });
            let e = |e: std::io::Error| e.to_string();
            s.write_all(&frame(&view::custom_notification("c31/n", json!(1)).text())).map_err(e)?;
            std::thread::sleep(ready);
            let t0 = Instant::now();
            let mut s = Some(s);
            match (end, &mut s) {
                (0, Some(s)) => s.write_all(&frame(&view::exit().text())).map_err(e)?,
                (1, Some(s)) => s.shutdown(std::net::Shutdown::Write).map_err(e)?,
                (2, s) => *s = None,
                (_, Some(s)) => s.write_all(b"no header\r\n").map_err(e)?,
                _ => {}
            }
            let at = rx.recv_timeout(wait()).map_err(|_| "the session does not end")?;
            times[0].push(at.saturating_duration_since(t0).as_secs_f64() * 1e3);
            let _ = h.join();
            let (t1, j) = j.map_or_else(|| (Instant::now(), join(t)), |j| (t0, j));
            let at = rx2.recv_timeout(wait()).map_err(|_| "the threads do not end")?;
            times[1].push(at.saturating_duration_since(t1).as_secs_f64() * 1e3);
            drop(s);
            let _ = j.join();
        }
        Ok(times)
    });
}

/// Connections are opened, and refused, at once.
fn opening(cx: &mut Cx) {
    let ready = Duration::from_millis(*cx.r.pick(&[0, 5, 40, 250]));
    judge(cx, "opening", json!({ "a client comes after": ready.as_millis() as u64 }), |_| {
        let ip = crate::sys::own_ip();
        let e = |e: std::io::Error| e.to_string();
        let mut times = vec![vec![]; 3];
        for _ in 0..8 {
            let l = TcpListener::bind((ip.as_str(), 0)).map_err(e)?;
            let a = l.local_addr().map_err(e)?;
            let t = Instant::now();
            let (c, threads) = Connection::connect(a).map_err(|e| format!("connect: {e}"))?;
            times[0].push(t.elapsed().as_secs_f64() * 1e3);
            drop((c, l.accept().map_err(e)?, l));
            join_now(threads);
            let t = Instant::now();
            if Connection::connect(a).is_ok() {
                return Err("connected to nobody".into());
            }
            times[1].push(t.elapsed().as_secs_f64() * 1e3);
            let (tx, rx) = bounded(1);
            let h = std::thread::spawn(move || {
                let r = Connection::listen(a);
                let _ = tx.send(Instant::now());
                r.map(|(c, t)| {
                    drop(c);
                    join_now(t);
                })
            });
            std::thread::sleep(ready);
            let end = Instant::now() + wait();
            let (t, s) = loop {
                let t = Instant::now();
                match TcpStream::connect(a) {
                    Ok(s) => break (t, s),
                    Err(_) if rx.is_empty() && Instant::now() < end => std::thread::sleep(Duration::from_micros(200)),
                    Err(e) => return Err(e.to_string()),
                }
            };
            let at = rx.recv_timeout(wait()).map_err(|_| "listen does not return")?;
            times[2].push(at.saturating_duration_since(t).as_secs_f64() * 1e3);
            drop(s);
            h.join().map_err(|_| "listen panicked")?.map_err(|e| format!("listen: {e}"))?;
        }
        Ok(times)
    });
}
