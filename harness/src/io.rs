//! Both ends of a session: the application side (the library) and the scripted peer.
use crate::ctx::wait;
use crate::frame::{frame, OutParser};
use crate::sys;
use crate::view::{view, View};
use bsp_server::{Connection, IoThreads, Message};
use crossbeam_channel::{bounded, unbounded, Receiver, RecvTimeoutError, Sender};
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, ErrorKind, Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::process::{Child, Command, Stdio};
use std::os::fd::{AsFd, AsRawFd};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum Joined {
    Ok,
    Err(String),
    Panic,
    Stuck,
}
impl Joined {
    pub fn json(&self) -> Value {
        match self {
            Joined::Ok => json!("ok"),
            Joined::Err(e) => json!({ "err": e }),
            Joined::Panic => json!("panic"),
            Joined::Stuck => json!("stuck"),
        }
    }
    pub fn from_json(v: &Value) -> Joined {
        match v.as_str() {
            Some("ok") => Joined::Ok,
            Some("panic") => Joined::Panic,
            Some("stuck") => Joined::Stuck,
            _ => Joined::Err(v["err"].as_str().unwrap_or("?").into()),
        }
    }
}

pub fn join_now(t: IoThreads) -> Joined {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.join())) {
        Ok(Ok(())) => Joined::Ok,
        Ok(Err(e)) => Joined::Err(format!("{:?}: {e}", e.kind())),
        Err(_) => Joined::Panic,
    }
}

/// Join, but give up after `d`.
pub fn join_within(t: IoThreads, d: Duration) -> Joined {
    let (s, r) = bounded(1);
    std::thread::spawn(move || {
        let _ = s.send(join_now(t));
    });
    r.recv_timeout(d).unwrap_or(Joined::Stuck)
}

/// The library end connected to our socket. `listen` selects Connection::listen.
pub fn tcp(listen: bool) -> Result<(Connection, IoThreads, TcpStream), String> {
    let ip = sys::own_ip();
    if !listen {
        let l = TcpListener::bind((ip.as_str(), 0)).map_err(|e| format!("bind: {e}"))?;
        let a = l.local_addr().map_err(|e| e.to_string())?;
        let (c, t) = Connection::connect(a).map_err(|e| format!("Connection::connect: {e}"))?;
        let (s, _) = l.accept().map_err(|e| format!("accept: {e}"))?;
        let _ = s.set_nodelay(true);
        return Ok((c, t, s));
    }
    let mut last = String::new();
    for _ in 0..20 {
        let a = {
            let l = TcpListener::bind((ip.as_str(), 0)).map_err(|e| format!("bind: {e}"))?;
            l.local_addr().map_err(|e| e.to_string())?
        };
        let (tx, rx) = bounded(1);
        std::thread::spawn(move || {
            let _ = tx.send(Connection::listen(a));
        });
        let end = Instant::now() + wait();
        loop {
            match TcpStream::connect(a) {
                Ok(s) => {
                    let _ = s.set_nodelay(true);
                    match rx.recv_timeout(wait()) {
                        Ok(Ok((c, t))) => return Ok((c, t, s)),
                        Ok(Err(e)) => {
                            last = format!("Connection::listen: {e}");
                            break;
                        }
                        Err(_) => return Err("Connection::listen did not accept".into()),
                    }
                }
                Err(_) => {
                    if let Ok(Err(e)) = rx.try_recv() {
                        last = format!("Connection::listen: {e}");
                        break;
                    }
                    if Instant::now() > end {
                        return Err("Connection::listen did not listen".into());
                    }
                    std::thread::sleep(Duration::from_millis(1));
                }
            }
        }
    }
    Err(last)
}

/// Two library ends connected to each other over TCP.
pub fn tcp_both() -> Result<((Connection, IoThreads), (Connection, IoThreads)), String> {
    let ip = sys::own_ip();
    let mut last = String::new();
    for _ in 0..20 {
        let a = {
            let l = TcpListener::bind((ip.as_str(), 0)).map_err(|e| format!("bind: {e}"))?;
            l.local_addr().map_err(|e| e.to_string())?
        };
        let (tx, rx) = bounded(1);
        std::thread::spawn(move || {
            let _ = tx.send(Connection::listen(a));
        });
        let end = Instant::now() + wait();
        loop {
            match Connection::connect(a) {
                Ok(c) => match rx.recv_timeout(wait()) {
                    Ok(Ok(l)) => return Ok((c, l)),
                    Ok(Err(e)) => {
                            last = format!("Connection::listen: {e}");
                            break;
                        }
                    Err(_) => return Err("Connection::listen did not accept".into()),
                },
                Err(_) => {
                    if let Ok(Err(e)) = rx.try_recv() {
                        last = format!("Connection::listen: {e}");
                        break;
                    }
                    if Instant::now() > end {
                        return Err("Connection::listen did not listen".into());
                    }
                    std::thread::sleep(Duration::from_millis(1));
                }
            }
        }
    }
    Err(last)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Transport {
    Memory,
    Connect,
    Listen,
    Stdio,
}
pub const STREAMS: [Transport; 3] = [Transport::Connect, Transport::Listen, Transport::Stdio];
pub const ALL: [Transport; 4] = [Transport::Memory, Transport::Connect, Transport::Listen, Transport::Stdio];

/// What the peer reads.
#[derive(Clone, Debug, PartialEq)]
pub enum Got {
    Msg(Value),
    Eof,
    /// not a correct frame
    Bad(String),
    Timeout,
    /// connection error (reset)
    Broken(String),
}

enum Wire {
    Memory { tx: Option<Sender<Message>>, rx: Option<Receiver<Message>> },
    Tcp(Option<TcpStream>),
    Stdio { child: Child, stdin: Option<std::process::ChildStdin> },
}

/// The scripted peer and the running application.
pub struct Peer {
    wire: Wire,
    got: Option<Receiver<Got>>,
    app: Option<Receiver<Value>>,
    stderr: Option<std::thread::JoinHandle<String>>,
    pub read_bytes: Arc<AtomicUsize>,
    pub transport: Transport,
    gate: Option<Sender<()>>,
    stop: Arc<AtomicBool>,
    reader: Option<std::thread::JoinHandle<()>>,
    ended: Option<Value>,
}

/// How the peer reads what the library writes.
#[derive(Clone, Copy, Debug)]
pub struct ReadStyle {
    pub chunk: usize,
    pub pause_us: u64,
    pub rcvbuf: i32,
    /// do not read before `Peer::open_gate`
    pub gated: bool,
}
impl Default for ReadStyle {
    fn default() -> Self {
        ReadStyle { chunk: 65536, pause_us: 0, rcvbuf: 0, gated: false }
    }
}

#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}
extern "C" {
    fn poll(fds: *mut PollFd, n: u64, timeout: i32) -> i32;
}

fn reader_thread<R: Read + AsRawFd + Send + 'static>(
    mut src: R,
    st: ReadStyle,
    gate: Receiver<()>,
    count: Arc<AtomicUsize>,
    stop: Arc<AtomicBool>,
) -> (Receiver<Got>, std::thread::JoinHandle<()>) {
    let (tx, rx) = unbounded();
    let h = std::thread::spawn(move || {
        if st.gated {
            let _ = gate.recv();
        }
        let mut p = OutParser::default();
        let mut buf = vec![0u8; st.chunk.max(1)];
        let slow = std::time::Instant::now();
        loop {
            loop {
                if stop.load(Ordering::Relaxed) {
                    return;
                }
                let mut f = PollFd { fd: src.as_raw_fd(), events: 1, revents: 0 };
                if unsafe { poll(&mut f, 1, 5) } > 0 {
                    break;
                }
            }
            match src.read(&mut buf) {
                Ok(0) => {
                    if p.pending() > 0 {
                        let _ = tx.send(Got::Bad(format!("stream ends with {} bytes that are no whole frame", p.pending())));
                    }
                    let _ = tx.send(Got::Eof);
                    return;
                }
                Ok(n) => {
                    count.fetch_add(n, Ordering::Relaxed);
                    p.push(&buf[..n]);
                    loop {
                        match p.next() {
                            Ok(Some(v)) => {
                                if tx.send(Got::Msg(v)).is_err() {
                                    return;
                                }
                            }
                            Ok(None) => break,
                            Err(e) => {
                                let _ = tx.send(Got::Bad(e));
                                return;
                            }
                        }
                    }
                    // slow for a while only, or a large history takes minutes
                    if st.pause_us > 0 && slow.elapsed() < Duration::from_secs(3) {
                        std::thread::sleep(Duration::from_micros(st.pause_us));
                    }
                    if buf.len() < 1000 && slow.elapsed() > Duration::from_secs(4) {
                        buf = vec![0; 65536];
                    }
                }
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(e) => {
                    let _ = tx.send(Got::Broken(format!("{:?}", e.kind())));
                    return;
                }
            }
        }
    });
    (rx, h)
}

/// Application run over a connection; gets its argument, returns its observations.
pub type App = fn(Connection, &Value) -> Value;

/// Start application `name` over `tr` and return the peer's side.
pub fn start(tr: Transport, name: &str, arg: &Value, st: ReadStyle) -> Result<Peer, String> {
    let read_bytes = Arc::new(AtomicUsize::new(0));
    let (gate, gate_rx) = bounded(1);
    let app = crate::apps::app(name).ok_or("no such app")?;
    let stop = Arc::new(AtomicBool::new(false));
    let mut peer = Peer { wire: Wire::Tcp(None), got: None, app: None, stderr: None, read_bytes: read_bytes.clone(), transport: tr, gate: Some(gate), stop: stop.clone(), reader: None, ended: None };
    match tr {
        Transport::Memory => {
            let (a, b) = Connection::memory();
            let Connection { sender, receiver } = b;
            peer.wire = Wire::Memory { tx: Some(sender), rx: Some(receiver) };
            peer.app = Some(spawn_app(app, a, None, arg.clone()));
        }
        Transport::Connect | Transport::Listen => {
            let (c, t, s) = tcp(tr == Transport::Listen)?;
            if st.rcvbuf > 0 {
                sys::small_rcvbuf(&s, st.rcvbuf);
            }
            let rd = s.try_clone().map_err(|e| e.to_string())?;
            let (rx, h) = reader_thread(rd, st, gate_rx, read_bytes, stop);
            (peer.got, peer.reader) = (Some(rx), Some(h));
            peer.wire = Wire::Tcp(Some(s));
            peer.app = Some(spawn_app(app, c, Some(t), arg.clone()));
        }
        Transport::Stdio => {
            let exe = std::env::current_exe().map_err(|e| e.to_string())?;
            let mut child = Command::new(exe)
                .args(["stdio", name, &arg.to_string()])
                .envs(crate::trace::env())
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::piped())
                .spawn()
                .map_err(|e| format!("spawn: {e}"))?;
            let out = child.stdout.take().ok_or("stdout")?;
            let err = child.stderr.take().ok_or("stderr")?;
            let stdin = child.stdin.take();
            let (rx, h) = reader_thread(out, st, gate_rx, read_bytes, stop);
            (peer.got, peer.reader) = (Some(rx), Some(h));
            let (tx, rx) = bounded(1);
            peer.stderr = Some(std::thread::spawn(move || {
                let mut log = String::new();
                for line in BufReader::new(err).lines() {
                    let Ok(line) = line else { break };
                    if let Some(o) = line.strip_prefix("OBS ") {
                        if let Ok(v) = serde_json::from_str::<Value>(o) {
                            let _ = tx.send(v);
                        }
                    } else {
                        log += &line;
                        log.push('\n');
                    }
                }
                log
            }));
            peer.app = Some(rx);
            peer.wire = Wire::Stdio { child, stdin };
        }
    }
    Ok(peer)
}

/// Runs the application, then joins the threads; yields {"obs":…, "join":…, "panicked":…}.
pub fn run_app(app: App, c: Connection, t: Option<IoThreads>, arg: &Value) -> Value {
    let obs = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| app(c, arg)));
    let panicked = obs.is_err();
    let t0 = Instant::now();
    let join = t.map_or(Joined::Ok, join_now);
    json!({ "obs": obs.unwrap_or(Value::Null), "join": join.json(), "app_panicked": panicked, "join_ms": t0.elapsed().as_millis() as u64 })
}

fn spawn_app(app: App, c: Connection, t: Option<IoThreads>, arg: Value) -> Receiver<Value> {
    let (tx, rx) = bounded(1);
    std::thread::spawn(move || {
        let v = run_app(app, c, t, &arg);
        let _ = tx.send(v);
    });
    rx
}

/// The writing half of a peer, for another thread.
pub enum PeerWriter {
    Tcp(TcpStream),
    Pipe(std::fs::File),
}
impl PeerWriter {
    pub fn write(&mut self, b: &[u8]) -> Result<(), String> {
        match self {
            PeerWriter::Tcp(s) => s.write_all(b),
            PeerWriter::Pipe(f) => f.write_all(b),
        }
        .map_err(|e| e.to_string())
    }
}

impl Peer {
    /// A peer on this socket; the application is run by the caller.
    pub fn over(s: TcpStream, st: ReadStyle) -> Result<Peer, String> {
        let read_bytes = Arc::new(AtomicUsize::new(0));
        let (gate, gate_rx) = bounded(1);
        let stop = Arc::new(AtomicBool::new(false));
        let rd = s.try_clone().map_err(|e| e.to_string())?;
        let (rx, h) = reader_thread(rd, st, gate_rx, read_bytes.clone(), stop.clone());
        Ok(Peer { wire: Wire::Tcp(Some(s)), got: Some(rx), app: None, stderr: None, read_bytes, transport: Transport::Connect, gate: Some(gate), stop, reader: Some(h), ended: None })
    }
    /// None on the in-memory pair, where writing never blocks.
    pub fn split_writer(&self) -> Option<PeerWriter> {
        match &self.wire {
            Wire::Tcp(Some(s)) => s.try_clone().ok().map(PeerWriter::Tcp),
            Wire::Stdio { stdin: Some(s), .. } => s.as_fd().try_clone_to_owned().ok().map(|f| PeerWriter::Pipe(f.into())),
            _ => None,
        }
    }
    /// Raw bytes (streams only).
    pub fn write(&mut self, b: &[u8]) -> Result<(), String> {
        match &mut self.wire {
            Wire::Tcp(Some(s)) => s.write_all(b).map_err(|e| e.to_string()),
            Wire::Stdio { stdin: Some(s), .. } => s.write_all(b).and_then(|()| s.flush()).map_err(|e| e.to_string()),
            _ => Err("closed".into()),
        }
    }
    /// A message given as JSON text and meaning.
    pub fn send(&mut self, g: &crate::view::Gen) -> Result<(), String> {
        if let Wire::Memory { tx, .. } = &self.wire {
            let m = g.view.build()?;
            return tx.as_ref().ok_or("closed")?.send(m).map_err(|_| "disconnected".into());
        }
        self.write(&frame(&g.text()))
    }
    pub fn recv_within(&mut self, d: Duration) -> Got {
        match &self.wire {
            Wire::Memory { rx: Some(rx), .. } => match rx.recv_timeout(d) {
                Ok(m) => Got::Msg(serde_json::to_value(&m).map(|mut v| {
                    v["jsonrpc"] = json!("2.0");
                    v
                }).unwrap_or(Value::Null)),
                Err(RecvTimeoutError::Timeout) => Got::Timeout,
                Err(RecvTimeoutError::Disconnected) => Got::Eof,
            },
            Wire::Memory { .. } => Got::Eof,
            _ => match &self.got {
                Some(rx) => match rx.recv_timeout(d) {
                    Ok(g) => g,
                    Err(RecvTimeoutError::Timeout) => Got::Timeout,
                    Err(RecvTimeoutError::Disconnected) => Got::Eof,
                },
                None => Got::Eof,
            },
        }
    }
    pub fn recv(&mut self) -> Got {
        self.recv_within(wait())
    }
    /// Everything until the end of the stream.
    pub fn recv_all(&mut self) -> (Vec<Value>, Got) {
        let mut v = vec![];
        loop {
            match self.recv() {
                Got::Msg(m) => v.push(m),
                g => return (v, g),
            }
        }
    }
    /// Everything that is there already or comes within `quiet`.
    pub fn recv_quiet(&mut self, quiet: Duration) -> (Vec<Value>, Got) {
        let mut v = vec![];
        loop {
            match self.recv_within(quiet) {
                Got::Msg(m) => v.push(m),
                g => return (v, g),
            }
        }
    }
    pub fn open_gate(&mut self) {
        if let Wire::Tcp(Some(s)) = &self.wire {
            sys::small_rcvbuf(s, 2 << 20);
        }
        self.gate = None;
    }
    /// No more input for the application; its output is still read.
    pub fn close_write(&mut self) {
        match &mut self.wire {
            Wire::Memory { tx, .. } => *tx = None,
            Wire::Tcp(Some(s)) => {
                let _ = s.shutdown(Shutdown::Write);
            }
            Wire::Tcp(None) => {}
            Wire::Stdio { stdin, .. } => *stdin = None,
        }
    }
    /// Stop reading for good; the reader's handle is closed.
    pub fn stop_reader(&mut self) {
        self.stop.store(true, Ordering::Relaxed);
        self.gate = None;
        if let Some(h) = self.reader.take() {
            let _ = h.join();
        }
        if let Wire::Memory { rx, .. } = &mut self.wire {
            *rx = None;
        }
    }
    /// Close both directions; `reset` makes it abortive on TCP.
    pub fn close(&mut self, reset: bool) {
        self.stop_reader();
        self.got = None;
        match &mut self.wire {
            Wire::Memory { tx, rx } => {
                *tx = None;
                *rx = None;
            }
            Wire::Tcp(s) => {
                if let Some(s) = s.take() {
                    if reset {
                        sys::linger0(&s);
                    }
                }
            }
            Wire::Stdio { stdin, .. } => *stdin = None,
        }
    }
    /// Has the application ended (and joined its threads) already?
    pub fn has_ended(&mut self) -> bool {
        if self.ended.is_none() {
            self.ended = self.app.as_ref().and_then(|rx| rx.try_recv().ok());
        }
        self.ended.is_some()
    }
    /// The application's observations, None if it does not end.
    pub fn finish(&mut self, d: Duration) -> Option<Value> {
        if let Some(v) = self.ended.take() {
            return Some(v);
        }
        let rx = self.app.as_ref()?;
        rx.recv_timeout(d).ok()
    }
    /// Exit status and stderr of a child (after it has ended, waits at most `d`).
    pub fn child_end(&mut self, d: Duration) -> Option<(Option<i32>, String)> {
        let Wire::Stdio { child, .. } = &mut self.wire else { return None };
        let end = Instant::now() + d;
        loop {
            match child.try_wait() {
                Ok(Some(st)) => {
                    let log = self.stderr.take().and_then(|h| h.join().ok()).unwrap_or_default();
                    return Some((st.code(), log));
                }
                Ok(None) if Instant::now() < end => std::thread::sleep(Duration::from_millis(2)),
                _ => return None,
            }
        }
    }
    pub fn kill(&mut self) {
        if let Wire::Stdio { child, .. } = &mut self.wire {
            let _ = child.kill();
            let _ = child.wait();
        }
    }
}
impl Drop for Peer {
    fn drop(&mut self) {
        self.close(false);
        self.kill();
    }
}

/// Receive everything an application gets.
pub fn drain(c: &Connection, d: Duration) -> (Vec<View>, bool) {
    let mut v = vec![];
    loop {
        match c.receiver.recv_timeout(d) {
            Ok(m) => v.push(view(&m)),
            Err(RecvTimeoutError::Disconnected) => return (v, true),
            Err(RecvTimeoutError::Timeout) => return (v, false),
        }
    }
}
