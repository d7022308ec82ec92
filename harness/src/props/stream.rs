//! Properties of byte streams and queues.
use crate::apps::{tag, tagged, thread_rng};
use crate::ctx::{wait, Cx};
use crate::frame::{frame, frame_variant, reference_parse, render, End};
use crate::gen;
use crate::io::{self, drain, join_within, start, Got, Joined, Peer, ReadStyle, Transport, STREAMS};
use crate::mon;
use crate::props::data::out_same;
use crate::rng::Rng;
use crate::schema;
use crate::sys;
use crate::view::{self, same, view, Gen, Kind, View};
use bsp_server::Connection;
use crossbeam_channel::{RecvTimeoutError, SendTimeoutError, TrySendError};
use serde_json::{json, Value};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Barrier;
use std::time::{Duration, Instant};

pub fn prop(id: &str) -> Option<fn(&mut Cx)> {
    Some(match id {
        "C01" => c01,
        "C02" => c02,
        "C03" => c03,
        "C04" => c04,
        "C16" => c16,
        "C22" => c22,
        "C23" => c23,
        "C24" => c24,
        _ => return None,
    })
}

pub fn style(r: &mut Rng) -> ReadStyle {
    ReadStyle {
        chunk: *r.pick(&[1, 2, 3, 7, 16, 100, 1000, 4096, 65536, 65536, 65536]),
        pause_us: if r.one_in(4) { *r.pick(&[20, 100, 500]) } else { 0 },
        // smaller ones make the kernel wait for its timers
        rcvbuf: if r.one_in(3) { *r.pick(&[16384, 20000, 32768]) } else { 0 },
        gated: false,
    }
}

/// Panics and the child's own report.
pub fn app_report(cx: &mut Cx, o: &Value, what: &str) {
    if o["app_panicked"] == json!(true) {
        cx.violation(format!("{what}: an operation of the application panicked"), o.clone());
    }
    for p in o["panics"].as_array().into_iter().flatten() {
        let file = p[0].as_str().unwrap_or("?");
        if file.starts_with("src/") {
            cx.harness_error(format!("panic in the harness (child): {p}"));
        } else {
            cx.violation(format!("{what}: panic in the child: {p}"), p.clone());
        }
    }
}

/// Wait for the application; a child must also end by itself with status 0.
pub fn finish(cx: &mut Cx, p: &mut Peer, what: &str) -> Value {
    finish_within(cx, p, what, wait())
}
pub fn finish_within(cx: &mut Cx, p: &mut Peer, what: &str, d: Duration) -> Value {
    match p.finish(d) {
        Some(o) => {
            app_report(cx, &o, what);
            if let Some((st, log)) = (p.transport == Transport::Stdio).then(|| p.child_end(wait())).flatten() {
                if st != Some(0) {
                    cx.violation(format!("{what}: process ended with {st:?}"), json!({ "stderr": view::short(&log, 2000) }));
                }
            }
            o
        }
        None => {
            if let Some((st, log)) = p.child_end(Duration::from_secs(1)) {
                cx.violation(format!("{what}: process died with {st:?}"), json!({ "stderr": view::short(&log, 3000) }));
                return Value::Null;
            }
            cx.stall(format!("{what}: the application does not end"))
        }
    }
}

/// Compare what the peer received with what `threads` threads sent. `sent[t][i]` tells which
/// sends succeeded. Each message is regenerated from its seed.
pub fn check_sent(cx: &mut Cx, what: &str, seed: u64, big: usize, sent: &Value, got: &[Value]) {
    let empty = vec![];
    let sent: Vec<Vec<bool>> = sent.as_array().unwrap_or(&empty).iter().map(|t| t.as_array().unwrap_or(&empty).iter().map(|b| b == &json!(true)).collect()).collect();
    let mut at = vec![0usize; sent.len()];
    let mut by: Vec<Vec<&Value>> = vec![vec![]; sent.len()];
    cx.evt(got.len());
    for v in got {
        match tag(v) {
            Some((t, _)) if t < sent.len() => by[t].push(v),
            _ => cx.violation(format!("{what}: a message appeared that was never sent"), json!(view::short(&v.to_string(), 500))),
        }
    }
    for (t, flags) in sent.iter().enumerate() {
        let mut r = thread_rng(seed, t);
        for (i, ok) in flags.iter().enumerate() {
            let g = tagged(&mut r, t, i, big);
            let here = by[t].get(at[t]).and_then(|v| tag(v));
            if here == Some((t, i)) {
                let v = by[t][at[t]];
                at[t] += 1;
                if !ok {
                    cx.violation(format!("{what}: message {t}/{i}, whose send failed, was delivered"), json!(view::short(&v.to_string(), 500)));
                }
                if let Err(e) = out_same(&g.view, v) {
                    cx.violation(format!("{what}: message {t}/{i} arrived altered:{e}"), json!(view::short(&v.to_string(), 500)));
                }
            } else if *ok {
                cx.violation(
                    format!("{what}: message {t}/{i}, whose send succeeded, did not arrive in its place"),
                    json!({ "there": here.map(|(a, b)| format!("{a}/{b}")), "received_of_thread": by[t].len(), "accepted_of_thread": flags.iter().filter(|b| **b).count() }),
                );
                // skip this thread, the rest would only repeat it
                at[t] = by[t].len();
                break;
            }
        }
        if at[t] < by[t].len() {
            cx.violation(format!("{what}: thread {t}: a message arrived again or out of order"), json!(by[t][at[t]].to_string().chars().take(300).collect::<String>()));
        }
    }
}

fn outgoing(cx: &mut Cx, deep: bool) {
    cx.eval();
    let quick = cx.quick();
    let long = if deep { cx.long_ms() } else { 0 };
    let r = &mut cx.r;
    let mut st = style(r);
    let mut tr = *r.pick(&STREAMS);
    let mut threads = *r.pick(&[1, 1, 2, 3, 4, 8]);
    if long > 0 {
        tr = STREAMS[(cx.seed + cx.case) as usize % 3];
        threads = 1;
    }
    // now and then many small ones, or few big ones
    let (n, big) = match r.below(10) {
        // one that is accepted at once, and takes until the peer reads
        _ if long > 0 && cx.case % 4 < 3 => (1, 24_000_001),
        _ if long > 0 => (24, 401_001),
        5 if deep && threads == 1 && r.one_in(3) => (1, 24_000_001),
        0 => (if quick { 600 } else { 3000 } / threads, 0),
        1 | 2 => (r.range(1, 6), if quick { 200_000 } else { 2_000_000 }),
        3 => (r.range(1, 3), 0),
        // more than the buffers of the system hold
        4 if deep => (24 / threads, 401_001),
        _ => (r.range(3, 40), 70_000),
    };
    if big > 0 {
        st.chunk = st.chunk.max(256);
        st.pause_us = if st.chunk < 60_000 { 0 } else { st.pause_us };
    } else if threads * n > 300 {
        st.chunk = st.chunk.max(16);
    }
    st.gated = deep && (big % 2 == 1 || r.one_in(3));
    if st.gated && big % 2 == 1 {
        // after a long time, small windows wait for the timers of the system
        st.rcvbuf = if long > 0 { 1 << 20 } else { 16384 };
        st.chunk = 65536;
    }
    let seed = r.next();
    let mixed = long == 0 && big != 24_000_001 && r.one_in(3);
    let arg = json!({ "seed": seed, "threads": threads, "n": n, "big": big, "mixed": mixed, "jitter": r.one_in(4),
        "storm_us": if r.one_in(6) { json!(200) } else { Value::Null } });
    let storm = (tr != Transport::Stdio && arg["storm_us"].is_u64()).then(|| sys::storm(Duration::from_micros(200)));
    let early_close = mixed || big == 24_000_001 || r.coin();
    // the session may end, or go on, on the peer's side while the application sends
    let (mut receive, mut input) = ("", vec![]);
    if early_close && r.coin() {
        receive = *r.pick(&["first", "while"]);
        input = (0..r.below(6)).map(|_| view::gen_msg(r)).filter(|g| !g.is_exit()).map(|g| g.text()).collect();
        if r.coin() {
            input.push(view::exit().text());
        }
    }
    let mut arg = arg;
    arg["receive"] = json!(receive);
    let exits = input.last().map_or(false, |t| *t == view::exit().text());
    let desc = format!("{tr:?} {st:?} {arg} close early {early_close} exit {exits} stall {long} ms");
    cx.sig(&desc);
    cx.sample(|| json!(desc));
    let mut p = match start(tr, "send", &arg, st) {
        Ok(p) => p,
        Err(e) => return cx.harness_error(e),
    };
    for t in &input {
        if let Err(e) = p.write(&frame(t)) {
            cx.violation(format!("{tr:?}: the peer's messages are not read: {e}"), json!(desc));
        }
    }
    // after build/exit nobody reads, and the peer may keep its side open
    if early_close && !(exits && cx.r.coin()) {
        p.close_write();
    }
    if st.gated {
        let rest = cx.r.below(40) as u64;
        std::thread::sleep(Duration::from_millis(long.max(rest)));
        if big == 24_000_001 && big / 2 > sys::unread_limit(tr == Transport::Stdio) && p.has_ended() {
            cx.violation(format!("{tr:?}: the threads were joined although the peer had read nothing of a message of more than {} bytes", big / 2), json!(desc));
        }
        p.open_gate();
    }
    let (mut got, mut end) = (vec![], Got::Eof);
    if !early_close {
        // all messages must come although we neither write nor close
        let want = threads * n;
        while got.len() < want {
            match p.recv() {
                Got::Msg(v) => got.push(v),
                g => {
                    end = g;
                    break;
                }
            }
        }
        p.close_write();
    }
    if matches!(end, Got::Eof | Got::Timeout) {
        let (more, e) = p.recv_all();
        got.extend(more);
        end = e;
    }
    match &end {
        Got::Eof => {}
        Got::Bad(e) => cx.violation(format!("{tr:?}: not a correct frame: {e}"), json!({ "arg": arg, "frames_before": got.len() })),
        Got::Broken(e) => cx.violation(format!("{tr:?}: the connection broke: {e}"), json!({ "arg": arg, "frames_before": got.len() })),
        _ => cx.stall(format!("{tr:?}: output does not end; {} frames so far; {desc}", got.len())),
    }
    drop(storm);
    let o = finish(cx, &mut p, "sender");
    if Joined::from_json(&o["join"]) != Joined::Ok {
        cx.violation(format!("{tr:?}: join gave {}", o["join"]), json!({ "arg": arg }));
    }
    cx.count(&format!("frames {tr:?}"), got.len() as u64);
    cx.count("bytes", p.read_bytes.load(Ordering::Relaxed) as u64);
    if end == Got::Eof {
        check_sent(cx, &format!("{tr:?}"), seed, big, &o["obs"]["sent"], &got);
    }
    if !mixed {
        for (t, f) in o["obs"]["sent"].as_array().into_iter().flatten().enumerate() {
            if f.as_array().map_or(true, |f| f.len() != n || f.iter().any(|b| b != &json!(true))) {
                cx.violation(format!("{tr:?}: a blocking send of thread {t} failed although the peer was there"), json!({ "arg": arg }));
            }
        }
    }
}

/// Everything a session writes, handshakes, failures and their reports included, is frames.
fn whole_session(cx: &mut Cx) {
    cx.eval();
    let r = &mut cx.r;
    let tr = *r.pick(&[Transport::Stdio, Transport::Stdio, Transport::Connect, Transport::Listen]);
    let app = *r.pick(&["server", "server", "server", "init", "shutdown", "echo", "collect", "defaults"]);
    let msgs = super::session::script(r);
    let mut bytes: Vec<u8> = msgs.iter().flat_map(|g| frame(&g.text())).collect();
    let end = *r.pick(&["", "", "bad", "cut", "close"]);
    match end {
        "bad" => bytes.extend(bad_frame(r).0),
        "cut" => {
            let f = frame(&view::gen_msg(r).text());
            bytes.extend(&f[..r.range(1, f.len() - 1)]);
        }
        _ => {}
    }
    let st = style(r);
    let arg = json!({ "result": gen::payload(r) });
    let desc = format!("{tr:?} {app} {} messages, then {end:?}", msgs.len());
    cx.sig(&format!("{desc} {}", bytes.len()));
    cx.count(&format!("session of {app}"), 1);
    cx.sample(|| json!(desc));
    let mut p = match start(tr, app, &arg, st) {
        Ok(p) => p,
        Err(e) => return cx.harness_error(e),
    };
    if let Some(mut w) = p.split_writer() {
        let (tx, rx) = crossbeam_channel::bounded(1);
        std::thread::spawn(move || {
            let _ = w.write(&bytes);
            let _ = tx.send(());
        });
        // (the application may have ended)
        let _ = rx.recv_timeout(wait());
    }
    p.close_write();
    let (got, e) = p.recv_all();
    cx.evt(1 + got.len());
    let text = || json!({ "session": desc, "messages": msgs.iter().map(|g| view::short(&g.text(), 200)).collect::<Vec<_>>(), "got": got.len() });
    let cut = match e {
        Got::Eof | Got::Broken(_) => None,
        Got::Timeout => cx.stall(format!("{desc}: the output does not end")),
        Got::Bad(e) => Some(e),
        Got::Msg(_) => None,
    };
    let o = match p.finish(wait()) {
        Some(o) => o,
        None => cx.stall(format!("{desc}: the application or joining its threads does not end")),
    };
    app_report(cx, &o, &desc);
    if let Some(e) = cut {
        // once join has reported a failure of the input, a process may end with its output cut
        let may = tr == Transport::Stdio && matches!(Joined::from_json(&o["join"]), Joined::Err(_)) && e.starts_with("stream ends with");
        if !may {
            cx.violation(format!("{desc}: something else than frames is written: {e}"), text());
        }
    }
}

fn c01(cx: &mut Cx) {
    // arbitrary messages one after the other: content, then concurrent ones
    if cx.r.one_in(3) {
        return outgoing(cx, false);
    }
    if cx.r.one_in(3) {
        return whole_session(cx);
    }
    cx.eval();
    let r = &mut cx.r;
    let tr = *r.pick(&[Transport::Connect, Transport::Listen]);
    let st = style(r);
    let n = r.range(10, 60);
    let max = if cx.tier == crate::ctx::Tier::Quick { 200_000 } else { 4_000_000 };
    let msgs: Vec<Gen> = (0..n)
        .map(|_| match r.below(10) {
            0 => {
                let k = if r.one_in(5) { max } else { 70_000 };
                let s = gen::size(r, k);
                view::gen_sized(r, s)
            }
            1 => view::exit(),
            _ => view::gen_msg(r),
        })
        .collect();
    let (c, t, s) = match io::tcp(tr == Transport::Listen) {
        Ok(x) => x,
        Err(e) => return cx.harness_error(e),
    };
    if st.rcvbuf > 0 {
        sys::small_rcvbuf(&s, st.rcvbuf);
    }
    let rd = match s.try_clone() {
        Ok(s) => s,
        Err(e) => return cx.harness_error(e.to_string()),
    };
    let _ = rd.set_read_timeout(Some(wait()));
    let reader = std::thread::spawn(move || {
        use std::io::Read;
        let (mut all, mut buf, mut rd) = (vec![], vec![0; st.chunk.max(64)], rd);
        loop {
            match rd.read(&mut buf) {
                Ok(0) => return Ok(all),
                Ok(n) => all.extend_from_slice(&buf[..n]),
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(e) => return Err(e.to_string()),
            }
            if st.pause_us > 0 {
                std::thread::sleep(Duration::from_micros(st.pause_us / 4));
            }
        }
    });
    let mut sent = vec![];
    for g in &msgs {
        match g.view.build() {
            Ok(m) => {
                if c.send_timeout(m, wait()).is_err() {
                    cx.stall("send does not finish although the peer reads");
                }
                sent.push(&g.view);
            }
            Err(e) => cx.violation(format!("params that fit are refused: {e}"), g.view.json()),
        }
    }
    let _ = s.shutdown(std::net::Shutdown::Write);
    drop(c);
    let j = join_within(t, wait());
    if j != Joined::Ok {
        cx.violation(format!("join gave {j:?}"), json!({ "n": n }));
        if j == Joined::Stuck {
            cx.stall("join blocks");
        }
    }
    let bytes = match reader.join() {
        Ok(Ok(b)) => b,
        x => return cx.violation("output broke", json!(format!("{x:?}"))),
    };
    let mut p = crate::frame::OutParser::default();
    p.push(&bytes);
    let mut i = 0;
    loop {
        match p.next() {
            Ok(Some(v)) => {
                cx.evt(1);
                match sent.get(i) {
                    Some(w) => {
                        if let Err(e) = out_same(w, &v) {
                            cx.violation(format!("frame {i} is not the message sent:{e}"), json!(view::short(&v.to_string(), 500)));
                            return;
                        }
                    }
                    None => return cx.violation("more frames than messages", json!(view::short(&v.to_string(), 500))),
                }
                cx.sig(&v.to_string());
                i += 1;
            }
            Ok(None) => break,
            Err(e) => {
                let last = i.checked_sub(1).map(|k| sent[k].json());
                return cx.violation(format!("not a correct frame: {e}"), json!({ "previous": last, "message": sent.get(i).map(|v| v.json()) }));
            }
        }
    }
    if p.pending() > 0 || i != sent.len() {
        cx.violation(format!("{i} whole frames for {} messages, then {} more bytes", sent.len(), p.pending()), json!({ "message": sent.get(i).map(|v| v.json()) }));
    }
    cx.count("messages", sent.len() as u64);
    cx.count("bytes", bytes.len() as u64);
    cx.sample(|| json!({ "transport": format!("{tr:?}"), "style": format!("{st:?}"), "messages": sent.len(), "bytes": bytes.len() }));
}

fn c03(cx: &mut Cx) {
    outgoing(cx, true)
}

/// Split bytes at random places; returns (piece, pause in µs).
fn segments(r: &mut Rng, b: &[u8], frames: &[usize]) -> Vec<(Vec<u8>, u64)> {
    let mut cuts = vec![];
    let pause = *r.pick(&[0, 0, 0, 50, 300, 1000]);
    match r.below(6) {
        0 => {}
        1 => cuts.extend(frames.iter().copied()),
        2 if b.len() < 3000 => cuts.extend(1..b.len()),
        3 => {
            // around ends of frames, inside the CRLFs and the length
            for f in frames {
                let k = r.below(40);
                cuts.push(f.saturating_sub(1));
                cuts.push(f + k);
            }
        }
        4 => {
            let step = *r.pick(&[1, 2, 3, 5, 17, 64, 1000, 4096, 8191, 8192, 8193]);
            let step = step.max(b.len() / 600 + 1);
            cuts.extend((0..b.len()).step_by(step));
        }
        _ => {
            for _ in 0..r.below(30) {
                cuts.push(r.below(b.len().max(1)));
            }
        }
    }
    cuts.retain(|&c| c > 0 && c < b.len());
    cuts.sort();
    cuts.dedup();
    cuts.push(b.len());
    let mut out = vec![];
    let mut a = 0;
    let few = cuts.len() < 60;
    for c in cuts {
        let p = if few { pause } else { pause.min(60) };
        out.push((b[a..c].to_vec(), if r.one_in(3) { 0 } else { p }));
        a = c;
    }
    out
}

fn c02(cx: &mut Cx) {
    cx.eval();
    let quick = cx.quick();
    let long = cx.long_ms();
    let large = cx.case == 8;
    let tr = if long > 0 { STREAMS[(cx.seed + cx.case) as usize % 3] } else { *cx.r.pick(&STREAMS) };
    let r = &mut cx.r;
    let n = match r.below(6) {
        _ if large => 2,
        0 => r.range(200, if quick { 500 } else { 5000 }),
        1 => r.range(1, 3),
        _ => r.range(3, 60),
    };
    let plain = r.one_in(4);
    let mut bytes = vec![];
    let mut ends = vec![];
    let mut want = vec![];
    let mut bodies = vec![];
    let cap = if quick { 2_000_000 } else { 20_000_000 };
    for _ in 0..n {
        let g = match r.below(14) {
            // larger than any limit one could think of
            _ if large => view::gen_sized(r, if quick { 24_000_000 } else { 70_000_000 }),
            0 if bytes.len() < cap => {
                let k = match r.below(6) {
                    0 => if quick { 1_500_000 } else { 9_000_000 },
                    _ => 70_000,
                };
                let s = gen::size(r, k);
                view::gen_sized(r, s)
            }
            _ => view::gen_msg(r),
        };
        let text = if plain || bytes.len() > cap { g.text() } else { render(r, &g.with_rpc()) };
        let f = if plain { frame(&text) } else { frame_variant(r, &text) };
        bytes.extend_from_slice(&f);
        ends.push(bytes.len());
        want.push(g.view);
        bodies.push(text);
    }
    let exit = long == 0 && r.one_in(5);
    if exit {
        bytes.extend(frame(&view::exit().text()));
        want.push(view::exit().view);
    }
    let mut segs = segments(r, &bytes, &ends);
    // in some the application is the one that takes its time
    let busy = long > 0 && [1, 5, 6].contains(&cx.case);
    let stall_at = r.below(want.len());
    if long > 0 && !busy {
        // idle for long, at the end of a frame or anywhere else
        let k = r.below(segs.len().max(2) - 1);
        segs[k].1 = long * 1000;
        if r.coin() {
            let (s, _) = segs[k].clone();
            if s.len() > 1 {
                let cut = r.range(1, s.len() - 1);
                segs[k] = (s[cut..].to_vec(), 0);
                segs.insert(k, (s[..cut].to_vec(), long * 1000));
            }
        }
    }
    let arg = json!({ "pause_us": if n < 80 && r.one_in(4) { 300 } else { 0 }, "first_ms": if r.one_in(6) { 15 } else { 0 },
        "storm_us": if long == 0 && r.one_in(5) { json!(150) } else { Value::Null },
        "stall": if busy { json!([stall_at, long]) } else { Value::Null } });
    let storm = (tr != Transport::Stdio && arg["storm_us"].is_u64()).then(|| sys::storm(Duration::from_micros(150)));
    let desc = format!("{tr:?} {n} frames {} bytes {} segments {arg} idle {long} ms", bytes.len(), segs.len());
    cx.sig(&format!("{desc} {}", crate::rng::hash_bytes(&bytes)));
    cx.sample(|| json!(desc));
    let mut p = match start(tr, "collect", &arg, ReadStyle::default()) {
        Ok(p) => p,
        Err(e) => return cx.harness_error(e),
    };
    for (s, pause) in &segs {
        if let Err(e) = p.write(s) {
            cx.violation(format!("{tr:?}: the library stopped reading well-formed input: {e}"), json!(desc));
            break;
        }
        if *pause > 0 {
            std::thread::sleep(Duration::from_micros(*pause));
        }
    }
    if !exit {
        p.close_write();
    }
    if busy {
        std::thread::sleep(Duration::from_millis(long));
    }
    let o = finish(cx, &mut p, "collect");
    drop(storm);
    let got = o["obs"]["got"].as_array().cloned().unwrap_or_default();
    cx.evt(got.len());
    cx.count(&format!("frames {tr:?}"), n as u64);
    cx.count("segments", segs.len() as u64);
    cx.count("bytes", bytes.len() as u64);
    compare_received(cx, &format!("{tr:?}"), &want, &got, &|i| bodies.get(i).map(|b| view::short(b, 2000)).unwrap_or_default());
    if Joined::from_json(&o["join"]) != Joined::Ok {
        cx.violation(format!("{tr:?}: join gave {} after well-formed input", o["join"]), json!(desc));
    }
}

pub fn compare_received(cx: &mut Cx, what: &str, want: &[View], got: &[Value], show: &dyn Fn(usize) -> String) {
    for i in 0..want.len().max(got.len()) {
        let w = want.get(i).map(|v| v.json());
        if w.as_ref() != got.get(i) {
            cx.violation(
                format!("{what}: message {i} of {}: expected and delivered messages differ ({} delivered)", want.len(), got.len()),
                json!({ "expected": w.map(|v| view::short(&v.to_string(), 3000)), "got": got.get(i).map(|v| view::short(&v.to_string(), 3000)), "body": show(i) }),
            );
            return;
        }
    }
}

// ---------------------------------------------------------------- C04

/// What the reference says about a body.
fn accept(s: &str, originals: &[String]) -> (Option<bool>, bool) {
    let v: Value = match serde_json::from_str(s) {
        Ok(v) => v,
        Err(e) => {
            let e = e.to_string();
            let vague = ["recursion", "number out of range", "surrogate"].iter().any(|w| e.contains(w));
            return (if vague { None } else { Some(false) }, false);
        }
    };
    let Some(o) = v.as_object() else { return (Some(false), false) };
    let known = originals.iter().any(|x| x == s);
    let (m, id) = (o.get("method"), o.get("id"));
    let id_ok = match id {
        Some(Value::String(_)) => true,
        Some(Value::Number(n)) => {
            if n.is_f64() {
                return (None, false);
            }
            n.as_i64().map_or(false, |i| i32::try_from(i).is_ok())
        }
        _ => false,
    };
    // duplicate members, depth: not specified
    if serde_json::from_str::<crate::frame::Strict>(s).is_err() && !known {
        return (None, false);
    }
    match (m, id) {
        (None | Some(Value::Null), None | Some(Value::Null)) => (Some(false), false),
        (None, Some(_)) => {
            if known {
                return (Some(true), false);
            }
            if !id_ok {
                return (Some(false), false);
            }
            // error objects and odd combinations are only judged when generated as messages
            let fine = o.keys().all(|k| ["id", "jsonrpc", "result"].contains(&k.as_str())) && o.contains_key("result");
            (fine.then_some(true), false)
        }
        (Some(Value::String(m)), id) => {
            let note = matches!(id, None | Some(Value::Null));
            if !note {
                return (Some(id_ok), false);
            }
            if m == "build/exit" {
                return (Some(true), true);
            }
            match schema::notification(m) {
                Some((_, Some(_))) if !known => (None, false),
                _ => (Some(true), false),
            }
        }
        _ => (None, false),
    }
}

pub fn bad_frame(r: &mut Rng) -> (Vec<u8>, &'static str) {
    let g = view::gen_msg(r);
    let t = g.text();
    let l = t.len();
    let h = |s: String| -> Vec<u8> {
        let mut v = s.into_bytes();
        v.extend_from_slice(t.as_bytes());
        v
    };
    match r.below(24) {
        0 => (h("X-Other: 5\r\n\r\n".into()), "no length"),
        1 => (h(format!("Content-Length {l}\r\n\r\n")), "no colon"),
        2 => (h(format!("Content-Length: {l}\n\n")), "LF only"),
        3 => (h(format!("Content-Length: {l}\r\nbroken\r\n\r\n")), "line without colon"),
        4 => (h("Content-Length: \r\n\r\n".into()), "empty length"),
        5 => (h(format!("Content-Length: {l}x\r\n\r\n")), "length with a letter"),
        6 => (h(format!("Content-Length: -{l}\r\n\r\n")), "negative"),
        7 => (h("Content-Length: 99999999999999999999999999\r\n\r\n".into()), "overflow"),
        8 => (h(format!("Content-Length: {l}.0\r\n\r\n")), "fraction"),
        9 => (h(format!("Content-Length: 0x{l:x}\r\n\r\n")), "hex"),
        10 => (h("\r\n".into()), "blank line first"),
        11 => (b"\xff\xfe: 3\r\n\r\n".to_vec(), "header not UTF-8"),
        12 => {
            let mut b = t.into_bytes();
            let i = r.below(b.len());
            b[i] = *r.pick(&[0xff, 0xfe, 0xc0, 0x80]);
            let mut v = format!("Content-Length: {}\r\n\r\n", b.len()).into_bytes();
            v.extend(b);
            (v, "body not UTF-8")
        }
        13 => {
            let s = *r.pick(&["[]", "3", "null", "true", "\"x\"", "", " ", "{", "}", "{\"id\":1", "{\"method\":3}x", "[{\"id\":1}]", "nul", "{'id':1}", "{\"a\":1,}", "{}", "{\"jsonrpc\":\"2.0\"}", "{\"id\":null}", "{\"result\":1}"]);
            (frame(s), "body is no message")
        }
        14 => (frame(&format!("{t}x")), "trailing text"),
        15 => (frame(&format!("{t}{t}")), "two values"),
        16 => {
            // announced one byte too few: body cut, then rubbish
            let d = r.range(1, l.min(20));
            (h(format!("Content-Length: {}\r\n\r\n", l - d)), "length too small")
        }
        17 => {
            let n = *r.pick(&[100_000_000u64, 3_000_000_000, 1 << 40, 1 << 50, u64::MAX >> 1, u64::MAX, u32::MAX as u64, (u32::MAX as u64) + 1]);
            (h(format!("Content-Length: {n}\r\n\r\n")), "huge length")
        }
        18 => (frame(&json!({ "jsonrpc": "2.0", "id": *r.pick(&[2147483648i64, -2147483649, 1 << 60]), "method": "x" }).to_string()), "id too big"),
        19 => {
            let v = r.pick(&[json!(true), json!([1]), json!({}), json!(["x"])]).clone();
            (frame(&json!({ "jsonrpc": "2.0", "id": v, "method": "x" }).to_string()), "id of another type")
        }
        20 => {
            let n = *r.pick(&[1000, 100_000]);
            (frame(&format!("{{\"id\":1,\"method\":\"x\",\"params\":{}{}}}", "[".repeat(n), "]".repeat(n))), "deep")
        }
        21 => (frame(&format!("{}1", "{\"a\":".repeat(50_000))), "deep, open"),
        22 => {
            let n = r.range(1, 3000);
            ((0..n).map(|_| r.next() as u8).collect(), "random bytes")
        }
        _ => (h(format!("GET / HTTP/1.1\r\nHost: x\r\nContent-Length: {l}\r\n\r\n")), "request line"),
    }
}

pub fn flip(r: &mut Rng, b: &mut Vec<u8>) {
    if b.is_empty() {
        return;
    }
    let i = r.below(b.len());
    match r.below(9) {
        0 => b[i] = r.next() as u8,
        1 => b[i] ^= 1 << r.below(8),
        2 => {
            b.remove(i);
        }
        3 => b.insert(i, *r.pick(b"\r\n: 0{}\"[],x\xff\0")),
        4 => {
            let j = (i + r.below(30)).min(b.len());
            b.drain(i..j);
        }
        5 => {
            let j = (i + r.below(30)).min(b.len());
            let c = b[i..j].to_vec();
            b.splice(i..i, c);
        }
        6 => b.truncate(i),
        7 => {
            let w: &[u8] = r.pick(&[&b"\r\n"[..], b"\r\n\r\n", b"Content-Length: 3", b"build/exit", b"null", b"\"id\":1,", b"Content-Length: 18446744073709551615\r\n"]);
            b.splice(i..i, w.iter().copied());
        }
        _ => {
            // change a digit of some number
            if let Some(j) = b[i..].iter().position(|c| c.is_ascii_digit()) {
                b[i + j] = b'0' + r.below(10) as u8;
            }
        }
    }
}

fn c04_one(cx: &mut Cx, tr: Transport, bytes: &[u8], originals: &[String], keep_open: bool, what: &str) {
    cx.eval();
    let (bodies, end) = reference_parse(bytes, &|s| accept(s, originals));
    cx.sig(&format!("{what} {end:?} {}", crate::rng::hash_bytes(bytes)));
    let truncated = matches!(&end, End::Bad(e) if e.starts_with("cut inside")) || matches!(end, End::Clean | End::Unspecified(_));
    let keep_open = keep_open && !truncated;
    mon::reset_max_request();
    let mut p = match start(tr, "collect", &json!({}), ReadStyle::default()) {
        Ok(p) => p,
        Err(e) => return cx.harness_error(e),
    };
    let _ = p.write(bytes);
    if !keep_open {
        p.close_write();
    }
    let o = finish(cx, &mut p, what);
    let got = o["obs"]["got"].as_array().cloned().unwrap_or_default();
    cx.evt(got.len() + 1);
    cx.count(&format!("{tr:?} ends {}", match &end { End::Clean => "clean".to_string(), End::Exit => "exit".into(), End::Bad(e) => format!("bad: {e}"), End::Unspecified(e) => format!("unspecified: {e}") }), 1);
    let info = || json!({ "what": what, "transport": format!("{tr:?}"), "end": format!("{end:?}"), "bytes": view::short(&String::from_utf8_lossy(bytes), 4000), "hex": bytes.iter().take(3000).map(|b| format!("{b:02x}")).collect::<String>() });
    let peak = if tr == Transport::Stdio { o["max_request"].as_u64().unwrap_or(0) as usize } else { mon::max_request() };
    if peak > (4 << 20).max(8 * bytes.len()) {
        cx.violation(format!("{what}: {peak} bytes reserved at once for {} bytes of input", bytes.len()), info());
    }
    let n = bodies.len();
    let unspecified = matches!(end, End::Unspecified(_));
    if got.len() < n || (got.len() > n && !unspecified) {
        cx.violation(format!("{what}: {} messages delivered, {n} before the end ({end:?})", got.len()), info());
        return;
    }
    for (i, b) in bodies.iter().enumerate() {
        let v: Value = serde_json::from_str(b).unwrap_or(Value::Null);
        let kind = if v["method"].is_string() { if v["id"].is_null() { "Notification" } else { "Request" } } else { "Response" };
        if got[i]["kind"] != json!(kind) || got[i].get("id").unwrap_or(&Value::Null) != &v["id"] || (kind != "Response" && got[i]["method"] != v["method"]) {
            cx.violation(format!("{what}: message {i} is not the one sent"), json!({ "got": got[i], "sent": b }));
            return;
        }
    }
    let j = Joined::from_json(&o["join"]);
    let fine = match &end {
        End::Clean | End::Exit => j == Joined::Ok,
        End::Bad(_) => matches!(j, Joined::Err(_)),
        End::Unspecified(_) => matches!(j, Joined::Ok | Joined::Err(_)),
    };
    if !fine {
        cx.violation(format!("{what}: join gave {j:?}, the stream ends {end:?}"), info());
    }
}

fn good_frames(r: &mut Rng, n: usize) -> (Vec<u8>, Vec<String>) {
    let mut bytes = vec![];
    let mut originals = vec![];
    for _ in 0..n {
        let g = view::gen_msg(r);
        let t = g.text();
        bytes.extend(frame(&t));
        originals.push(t);
    }
    (bytes, originals)
}

fn c04(cx: &mut Cx) {
    let tcp = [Transport::Connect, Transport::Listen];
    match cx.case % 5 {
        0 => {
            // every cut of a short session
            let r = &mut cx.r;
            let n = r.range(1, 2);
            let mut texts = vec![];
            let mut bytes = vec![];
            for k in 0..n {
                let g = match r.below(3) {
                    0 => view::custom_request(json!(k), "m", json!(["é"])),
                    1 => view::custom_notification("日", json!({})),
                    _ => view::shutdown(json!("é")),
                };
                texts.push(g.text());
                bytes.extend(if r.coin() { frame(&texts[k]) } else { format!("X-A: b\r\nContent-Length: {}\r\n\r\n{}", texts[k].len(), texts[k]).into_bytes() });
            }
            let step = if cx.tier == crate::ctx::Tier::Quick { 3 } else { 1 };
            let first = cx.r.below(step);
            for i in (first..=bytes.len()).step_by(step) {
                let tr = *cx.r.pick(&tcp);
                c04_one(cx, tr, &bytes[..i].to_vec(), &texts, false, "cut");
            }
        }
        1 | 2 => {
            // good frames, one bad one of each kind, more good ones
            for _ in 0..20 {
                let n = cx.r.below(6);
                let (mut b, mut orig) = good_frames(&mut cx.r, n);
                let (bad, what) = bad_frame(&mut cx.r);
                b.extend(bad);
                let k = cx.r.below(4);
                let (more, o2) = good_frames(&mut cx.r, k);
                b.extend(more);
                orig.extend(o2);
                let tr = *cx.r.pick(&tcp);
                let open = cx.r.coin();
                c04_one(cx, tr, &b, &orig, open, what);
                cx.count(&format!("kind: {what}"), 1);
            }
        }
        3 => {
            for _ in 0..20 {
                let n = cx.r.range(1, 5);
                let (mut b, orig) = good_frames(&mut cx.r, n);
                for _ in 0..cx.r.range(1, 3) {
                    flip(&mut cx.r, &mut b);
                }
                let tr = *cx.r.pick(&tcp);
                let open = cx.r.coin();
                c04_one(cx, tr, &b, &orig, open, "mutated");
            }
        }
        _ => {
            // a real process
            for _ in 0..3 {
                let n = cx.r.below(5);
                let (mut b, orig) = good_frames(&mut cx.r, n);
                let mut what = "mutated";
                if cx.r.coin() {
                    let (bad, w) = bad_frame(&mut cx.r);
                    b.extend(bad);
                    what = w;
                } else {
                    flip(&mut cx.r, &mut b);
                }
                let open = cx.r.coin();
                c04_one(cx, Transport::Stdio, &b, &orig, open, what);
            }
        }
    }
}

// ---------------------------------------------------------------- C16

/// Far more messages than anybody receives.
fn flood(cx: &mut Cx) {
    let n = if cx.quick() { 150_000 } else { 1_500_000 };
    let (a, b) = Connection::memory();
    let both = cx.case == 1;
    cx.sig(&format!("flood {both}"));
    let one = |i: usize| View::notification("Custom", "n", json!(i)).build();
    let _guard = crate::ctx::guard(cx.case, Duration::from_secs(90), "sending to an end that has not received yet".into());
    for i in 0..n {
        for (k, c) in [(0, &a), (1, &b)] {
            if k == 0 && cx.case == 2 || k == 1 && cx.case == 0 {
                continue;
            }
            let Ok(m) = one(i) else { return cx.harness_error("cannot build") };
            let sent = match i % 3 {
                _ if cx.case == 0 => c.try_send(m).map_err(|e| e.is_full()),
                0 => c.send(m).map_err(|_| false),
                1 => c.sender.send(m).map_err(|_| false),
                _ => c.send_timeout(m, Duration::from_secs(1)).map_err(|e| e.is_timeout()),
            };
            if let Err(full) = sent {
                return cx.violation(format!("send {i} of end {k} failed although the other end is there (full: {full}) and nobody has received yet"), json!(n));
            }
        }
    }
    for (k, c) in [(0, &b), (1, &a)] {
        let mut i = 0;
        while let Ok(m) = c.receiver.try_recv() {
            if view(&m).params != json!(i) {
                return cx.violation(format!("message {i} of end {k} is another"), view(&m).json());
            }
            i += 1;
        }
        let want = if k == 0 && cx.case == 2 || k == 1 && cx.case == 0 { 0 } else { n };
        if i != want {
            cx.violation(format!("{i} of {want} messages of end {k} are there"), Value::Null);
        }
        cx.evt(i);
        cx.count("flooded messages", i as u64);
    }
}

fn c16(cx: &mut Cx) {
    cx.eval();
    if cx.case < 3 && std::env::var("BSPMON_TOOL").is_err() {
        return flood(cx);
    }
    let quick = cx.quick();
    let r = &mut cx.r;
    let (a, b) = Connection::memory();
    let seeds = [r.next(), r.next()];
    let threads = [*r.pick(&[1, 2, 4]), *r.pick(&[0, 1, 2, 4])];
    let n = match r.below(6) {
        0 => if quick { 1500 } else { 20_000 },
        1 => r.range(1, 4),
        _ => r.range(5, 120),
    };
    let big = *r.pick(&[0, 0, 3000, 60_000]);
    let big = if n > 200 { 0 } else { big };
    let drain_late = r.coin();
    let jitter = r.one_in(3);
    let desc = format!("threads {threads:?} n {n} big {big} late {drain_late}");
    cx.sig(&format!("{desc} {}", seeds[0]));
    cx.sample(|| json!(desc));
    let ends = [&a, &b];
    let barrier = Barrier::new(threads[0] + threads[1]);
    let (barrier, stop) = (&barrier, &AtomicBool::new(false));
    let slow = AtomicUsize::new(0);
    let slow = &slow;
    let done = AtomicUsize::new(0);
    let done = &done;
    let mut got: [Vec<Value>; 2] = [vec![], vec![]];
    let mut sent: [Vec<Vec<bool>>; 2] = [vec![], vec![]];
    let mut stuck = false;
    std::thread::scope(|s| {
        let mut hs = [vec![], vec![]];
        for e in 0..2 {
            for t in 0..threads[e] {
                let c = ends[e];
                let seed = seeds[e];
                hs[e].push(s.spawn(move || {
                    let mut r = thread_rng(seed, t);
                    let mut j = Rng::new(seed ^ 99 ^ t as u64);
                    barrier.wait();
                    let v: Vec<bool> = (0..n)
                        .map(|i| {
                            let Ok(m) = tagged(&mut r, t, i, big).view.build() else { return false };
                            let t0 = Instant::now();
                            let ok = match if drain_late { 0 } else { j.below(5) } {
                                0 => c.send(m).is_ok(),
                                1 => c.try_send(m).is_ok(),
                                2 => c.send_timeout(m, Duration::from_millis(1)).is_ok(),
                                3 => c.send_deadline(m, Instant::now() + Duration::from_millis(1)).is_ok(),
                                _ => c.sender.send(m).is_ok(),
                            };
                            if t0.elapsed() > Duration::from_secs(5) {
                                slow.fetch_add(1, Ordering::Relaxed);
                            }
                            if jitter && j.one_in(10) {
                                std::thread::yield_now();
                            }
                            ok
                        })
                        .collect();
                    done.fetch_add(1, Ordering::SeqCst);
                    v
                }));
            }
        }
        // nobody receives until all have sent, or at the same time
        let total = threads[0] + threads[1];
        let mut rec = vec![];
        if drain_late {
            let end = Instant::now() + wait();
            while done.load(Ordering::SeqCst) < total {
                if Instant::now() > end {
                    stuck = true;
                    break;
                }
                std::thread::sleep(Duration::from_micros(200));
            }
        }
        for e in 0..2 {
            let c = ends[1 - e];
            let want = threads[e] * n;
            rec.push(s.spawn(move || {
                let mut v = vec![];
                let mut idle = None;
                loop {
                    match c.receiver.recv_timeout(Duration::from_millis(3)) {
                        Ok(m) => v.push(view(&m)),
                        Err(_) if stop.load(Ordering::Relaxed) => return v,
                        Err(_) => {}
                    }
                    if v.len() >= want && idle.is_none() {
                        idle = Some(Instant::now());
                    }
                    if idle.map_or(false, |t| t.elapsed() > Duration::from_millis(5)) {
                        return v;
                    }
                }
            }));
        }
        let end = Instant::now() + wait();
        while done.load(Ordering::SeqCst) < total && Instant::now() < end {
            std::thread::sleep(Duration::from_micros(200));
        }
        stop.store(true, Ordering::Relaxed);
        for (e, h) in rec.into_iter().enumerate() {
            got[e] = h.join().unwrap_or_default().iter().map(out_json).collect();
        }
        if done.load(Ordering::SeqCst) < total {
            stuck = true;
        }
        if !stuck {
            for e in 0..2 {
                sent[e] = std::mem::take(&mut hs[e]).into_iter().map(|h| h.join().unwrap_or_default()).collect();
            }
        } else {
            // threads cannot be abandoned inside the scope
            crate::ctx::emit("T", &json!({ "case": cx.case, "msg": "sends on an in-memory connection block" }));
            cx.report();
            std::process::exit(70);
        }
    });
    if slow.load(Ordering::Relaxed) > 0 {
        cx.stall("a send on an in-memory connection took seconds");
    }
    for e in 0..2 {
        cx.count("messages", got[e].len() as u64);
        check_sent(cx, &format!("end {e} to {}", 1 - e), seeds[e], big, &json!(sent[e]), &got[e]);
        if sent[e].iter().flatten().any(|b| !b) {
            cx.violation("a send failed although both ends are there", json!(desc));
        }
    }
    // dropping an end
    let r = &mut cx.r;
    let k = r.below(8);
    let last: Vec<Gen> = (0..k).map(|_| if r.one_in(4) { view::exit() } else { view::gen_msg(r) }).collect();
    let (x, y) = if r.coin() { (a, b) } else { (b, a) };
    for g in &last {
        match g.view.build() {
            Ok(m) => {
                if x.try_send(m).is_err() {
                    cx.violation("try_send failed on an in-memory connection", json!(desc));
                }
            }
            Err(e) => cx.violation(format!("params that fit are refused: {e}"), g.view.json()),
        }
    }
    drop(x);
    if cx.r.coin() {
        // sending fails before the rest is received, too
        after_drop(cx, &y);
    }
    let (rest, ended) = drain(&y, wait());
    if !ended {
        cx.stall("no end of the stream after the other end was dropped");
    }
    let want: Vec<View> = last.into_iter().map(|g| g.view).collect();
    let rest: Vec<Value> = rest.iter().map(|v| v.json()).collect();
    compare_received(cx, "after dropping the end", &want, &rest, &|_| String::new());
    after_drop(cx, &y);
    if !matches!(y.receiver.recv_timeout(Duration::from_millis(1)), Err(RecvTimeoutError::Disconnected)) {
        cx.violation("the end of the stream is not permanent", json!(desc));
    }
}

fn out_json(v: &View) -> Value {
    let mut o = serde_json::Map::new();
    if v.kind != Kind::Notification {
        o.insert("id".into(), v.id.clone());
    }
    if v.kind == Kind::Response {
        if let Some(x) = &v.result {
            o.insert("result".into(), x.clone());
        }
        if let Some(x) = &v.error {
            o.insert("error".into(), x.clone());
        }
    } else {
        o.insert("method".into(), json!(v.method));
        o.insert("params".into(), v.params.clone());
    }
    Value::Object(o)
}

fn after_drop(cx: &mut Cx, c: &Connection) {
    for k in 0..4 {
        let g = view::gen_msg(&mut cx.r);
        let Ok(m) = g.view.build() else { continue };
        let back = match k {
            0 => c.send(m).err().map(|e| e.0),
            1 => match c.try_send(m) {
                Err(TrySendError::Disconnected(m)) => Some(m),
                Err(TrySendError::Full(_)) => {
                    cx.violation("try_send says full instead of disconnected", g.view.json());
                    continue;
                }
                Ok(()) => None,
            },
            2 => match c.send_timeout(m, Duration::from_millis(5)) {
                Err(SendTimeoutError::Disconnected(m)) => Some(m),
                Err(SendTimeoutError::Timeout(_)) => {
                    cx.violation("send_timeout says timeout instead of disconnected", g.view.json());
                    continue;
                }
                Ok(()) => None,
            },
            _ => c.send_deadline(m, Instant::now() + Duration::from_millis(5)).err().map(|e| e.into_inner()),
        };
        cx.evt(1);
        match back {
            None => cx.violation("a send succeeded although the other end was dropped", g.view.json()),
            Some(m) => {
                if let Err(e) = same(&g.view, &view(&m)) {
                    cx.violation(format!("a failed send returned another message:{e}"), g.view.json());
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C22

/// A file the application and the peer share.
pub struct Go(pub String);
impl Go {
    pub fn new(r: &mut Rng) -> Go {
        let p = std::env::temp_dir().join(format!("bspmon-{}-{:x}", std::process::id(), r.next()));
        let _ = std::fs::write(&p, b"");
        Go(p.to_string_lossy().into_owned())
    }
    pub fn set(&self, n: usize) {
        let _ = std::fs::write(&self.0, vec![b'.'; n]);
    }
    pub fn get(&self) -> usize {
        std::fs::metadata(&self.0).map_or(0, |m| m.len() as usize)
    }
}
impl Drop for Go {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

fn c22(cx: &mut Cx) {
    cx.eval();
    let go = Go::new(&mut cx.r);
    let long = cx.long_ms();
    let tr = if long > 0 { STREAMS[(cx.seed + cx.case) as usize % 3] } else { *cx.r.pick(&io::ALL) };
    let r = &mut cx.r;
    let seed = r.next();
    if if long > 0 { [0, 1, 2, 4].contains(&cx.case) } else { r.coin() } {
        // the peer does not read, outgoing messages pile up
        // enough to fill the buffers of the system
        let (n, big) = match tr {
            Transport::Stdio | Transport::Memory => (r.range(6, 20), 60_001),
            // a single one that is accepted at once is blocked for as long
            _ if r.one_in(6) || long > 0 && cx.case % 4 == 1 => (1, 24_000_001),
            _ => (r.range(20, 26), 401_001),
        };
        let k = r.range(5, 60);
        let msgs: Vec<Gen> = (0..k).map(|_| view::gen_msg(r)).collect();
        let st = ReadStyle { gated: true, rcvbuf: if long > 0 { 1 << 20 } else if r.coin() { 16384 } else { 0 }, ..Default::default() };
        let desc = format!("{tr:?}: peer does not read for {long} ms, {n} outgoing of up to {big} bytes, {k} incoming");
        cx.sig(&format!("{desc} {seed}"));
        cx.sample(|| json!(desc));
        let arg = json!({ "seed": seed, "n": n, "big": big, "go": go.0 });
        let mut p = match start(tr, "duplex", &arg, st) {
            Ok(p) => p,
            Err(e) => return cx.harness_error(e),
        };
        if tr != Transport::Memory {
            std::thread::sleep(Duration::from_millis(r2(cx, 30)));
        }
        for (i, g) in msgs.iter().enumerate() {
            if let Err(e) = p.send(g) {
                cx.violation(format!("{tr:?}: cannot send: {e}"), json!(desc));
                return;
            }
            if cx.r.one_in(3) {
                // one by one: each must be delivered before the next is sent
                wait_go(cx, &go, i + 1, &desc);
            }
        }
        wait_go(cx, &go, k, &desc);
        std::thread::sleep(Duration::from_millis(long));
        let blocked = p.read_bytes.load(Ordering::Relaxed);
        p.open_gate();
        p.close_write();
        let (got, end) = p.recv_all();
        if end != Got::Eof {
            if end == Got::Timeout {
                cx.stall(format!("{desc}: pending messages are not delivered after the peer reads again"));
            }
            cx.violation(format!("{tr:?}: output ends with {end:?}"), json!(desc));
        }
        let o = finish(cx, &mut p, "duplex");
        check_sent(cx, &desc, seed, big, &json!([o["obs"]["sent"]]), &got);
        if o["obs"]["sent"].as_array().map_or(true, |v| v.len() != n || v.iter().any(|b| b != &json!(true))) {
            cx.violation(format!("{desc}: a blocked send failed"), o["obs"]["sent"].clone());
        }
        let want: Vec<View> = msgs.iter().map(|g| g.view.clone()).collect();
        compare_received(cx, &desc, &want, o["obs"]["got"].as_array().unwrap_or(&vec![]), &|_| String::new());
        cx.evt(k);
        cx.count("incoming while output blocked", k as u64);
        cx.count("bytes read before the gate opened", blocked as u64);
        return;
    }
    // the application does not receive
    let n = r.range(5, 25);
    let k = r.range(5, 30);
    let msgs: Vec<Gen> = (0..k)
        .map(|_| {
            if r.coin() {
                let s = gen::size(r, 150_000);
                view::gen_sized(r, s)
            } else {
                view::gen_msg(r)
            }
        })
        .collect();
    let desc = format!("{tr:?}: application does not receive for {long} ms, {k} incoming, {n} outgoing one by one");
    cx.sig(&format!("{desc} {seed}"));
    cx.sample(|| json!(desc));
    let arg = json!({ "seed": seed, "n": n, "go": go.0 });
    let mut p = match start(tr, "lockstep", &arg, ReadStyle::default()) {
        Ok(p) => p,
        Err(e) => return cx.harness_error(e),
    };
    // writing may block until the application receives, so it has a thread of its own
    let bytes: Vec<u8> = msgs.iter().flat_map(|g| frame(&g.text())).collect();
    let writer = p.split_writer();
    let h = match writer {
        Some(mut w) => {
            let b = bytes.clone();
            Some(std::thread::spawn(move || w.write(&b)))
        }
        None => {
            for g in &msgs {
                let _ = p.send(g);
            }
            None
        }
    };
    let mut got = vec![];
    for i in 0..n {
        match p.recv() {
            Got::Msg(v) => got.push(v),
            Got::Timeout => cx.stall(format!("{desc}: message {i} is not written though the one before was confirmed")),
            e => {
                cx.violation(format!("{desc}: output ends with {e:?} after {i}"), json!(desc));
                return;
            }
        }
        if i == 0 {
            std::thread::sleep(Duration::from_millis(long));
        }
        go.set(i + 1);
    }
    // now it receives
    if let Some(h) = h {
        match h.join() {
            Ok(Ok(())) => {}
            e => cx.violation(format!("{desc}: input refused"), json!(format!("{e:?}"))),
        }
    }
    p.close_write();
    let (more, end) = p.recv_all();
    got.extend(more);
    if end == Got::Timeout {
        cx.stall(format!("{desc}: does not end"));
    }
    let o = finish(cx, &mut p, "lockstep");
    check_sent(cx, &desc, seed, 0, &json!([o["obs"]["sent"]]), &got);
    let want: Vec<View> = msgs.iter().map(|g| g.view.clone()).collect();
    compare_received(cx, &desc, &want, o["obs"]["got"].as_array().unwrap_or(&vec![]), &|_| String::new());
    cx.count("outgoing while input blocked", n as u64);
    cx.evt(k);
}

fn r2(cx: &mut Cx, n: usize) -> u64 {
    cx.r.below(n) as u64
}

fn wait_go(cx: &mut Cx, go: &Go, n: usize, desc: &str) {
    let end = Instant::now() + wait();
    while go.get() < n {
        if Instant::now() > end {
            cx.stall(format!("{desc}: incoming message {n} is not delivered while output is blocked"));
        }
        std::thread::sleep(Duration::from_micros(300));
    }
}

// ---------------------------------------------------------------- C23

#[derive(Debug, Clone, Copy, PartialEq)]
enum Out {
    Sent,
    Full,
    Late,
    Gone,
}

/// One attempt; checks the message that comes back and the time taken.
fn attempt(c: &Connection, g: &Gen, how: usize, ms: u64) -> Result<(Out, Duration), String> {
    let m = g.view.build()?;
    let t0 = Instant::now();
    let (out, back) = match how {
        0 => match c.try_send(m) {
            Ok(()) => (Out::Sent, None),
            Err(TrySendError::Full(m)) => (Out::Full, Some(m)),
            Err(TrySendError::Disconnected(m)) => (Out::Gone, Some(m)),
        },
        1 => match c.send_timeout(m, Duration::from_millis(ms)) {
            Ok(()) => (Out::Sent, None),
            Err(SendTimeoutError::Timeout(m)) => (Out::Late, Some(m)),
            Err(SendTimeoutError::Disconnected(m)) => (Out::Gone, Some(m)),
        },
        2 => match c.send_deadline(m, t0 + Duration::from_millis(ms)) {
            Ok(()) => (Out::Sent, None),
            Err(SendTimeoutError::Timeout(m)) => (Out::Late, Some(m)),
            Err(SendTimeoutError::Disconnected(m)) => (Out::Gone, Some(m)),
        },
        // no limit that could be reached
        4 => match c.send_timeout(m, Duration::MAX) {
            Ok(()) => (Out::Sent, None),
            Err(SendTimeoutError::Timeout(m)) => (Out::Late, Some(m)),
            Err(SendTimeoutError::Disconnected(m)) => (Out::Gone, Some(m)),
        },
        5 => match c.send_deadline(m, t0 + Duration::from_secs(1_000_000_000)) {
            Ok(()) => (Out::Sent, None),
            Err(SendTimeoutError::Timeout(m)) => (Out::Late, Some(m)),
            Err(SendTimeoutError::Disconnected(m)) => (Out::Gone, Some(m)),
        },
        // limits that have passed
        6 => match c.send_deadline(m, t0.checked_sub(Duration::from_millis(ms)).unwrap_or(t0)) {
            Ok(()) => (Out::Sent, None),
            Err(SendTimeoutError::Timeout(m)) => (Out::Late, Some(m)),
            Err(SendTimeoutError::Disconnected(m)) => (Out::Gone, Some(m)),
        },
        _ => match c.send(m) {
            Ok(()) => (Out::Sent, None),
            Err(e) => (Out::Gone, Some(e.0)),
        },
    };
    let d = t0.elapsed();
    if let Some(b) = back {
        same(&g.view, &view(&b)).map_err(|e| format!("the message handed back differs:{e}"))?;
    }
    if (how < 3 || how == 6) && d > Duration::from_millis(if how == 0 || how == 6 { 0 } else { ms }) + wait() / 4 {
        return Err(format!("STALL attempt {how} with limit {ms} ms took {d:?}"));
    }
    if out == Out::Late && (how == 4 || how == 5) || how != 6 && out == Out::Late && d < Duration::from_millis(ms) {
        return Err(format!("gave up after {d:?}, before the limit of {ms} ms"));
    }
    Ok((out, d))
}

/// Attempts with limits of many seconds, while nothing is taken or until something is.
fn patience(cx: &mut Cx, long: u64) {
    let (c, t, s) = match io::tcp(cx.r.coin()) {
        Ok(x) => x,
        Err(e) => return cx.harness_error(e),
    };
    let st = ReadStyle { gated: true, rcvbuf: 1 << 20, ..Default::default() };
    sys::small_rcvbuf(&s, st.rcvbuf);
    let mut p = match Peer::over(s, st) {
        Ok(p) => p,
        Err(e) => return cx.harness_error(e),
    };
    p.close_write();
    let how = (cx.seed + cx.case) as usize % 3 + 1;
    // taken before the limit, or never
    let taken = how == 3 || (cx.seed + cx.case / 3) % 2 == 0;
    let desc = format!("attempt {how} with limit {long} ms, {}", if taken { "taken before" } else { "not taken" });
    cx.sig(&desc);
    cx.sample(|| json!(desc));
    let seed = cx.r.next();
    let mut r = thread_rng(seed, 0);
    let big = 24_000_001;
    let first = tagged(&mut r, 0, 0, big);
    match attempt(&c, &first, 3, 0) {
        Ok((Out::Sent, _)) => {}
        x => return cx.violation(format!("{desc}: the first send gave {x:?}"), Value::Null),
    }
    let second = tagged(&mut r, 0, 1, big);
    let res = std::thread::scope(|s| {
        let h = s.spawn(|| attempt(&c, &second, how, long));
        std::thread::sleep(Duration::from_millis(if taken { long * 7 / 10 } else { long + 300 }));
        p.open_gate();
        h.join()
    });
    let sent = match res {
        Ok(Ok((o, d))) => {
            cx.evt(1);
            cx.count(&format!("{o:?} after seconds"), 1);
            // (that it is accepted while the one before is being written would be fine)
            if o == Out::Gone || o == Out::Late && taken {
                cx.violation(format!("{desc}: {o:?} after {d:?}"), json!({ "limit_ms": long }));
            }
            o == Out::Sent
        }
        Ok(Err(e)) if e.starts_with("STALL") => cx.stall(format!("{desc}: {e}")),
        x => return cx.violation(format!("{desc}: {x:?}"), Value::Null),
    };
    drop(c);
    let (got, end) = p.recv_all();
    if end != Got::Eof {
        cx.violation(format!("{desc}: output ends with {end:?}"), Value::Null);
    }
    check_sent(cx, &desc, seed, big, &json!([[true, sent]]), &got);
    if join_within(t, wait()) != Joined::Ok {
        cx.violation(format!("{desc}: join does not succeed"), Value::Null);
    }
}

fn c23(cx: &mut Cx) {
    cx.eval();
    let long = cx.long_ms();
    if long > 0 {
        return patience(cx, long);
    }
    let r = &mut cx.r;
    let memory = r.one_in(4);
    let threads = *r.pick(&[1, 2, 4]);
    let n = r.range(5, 40);
    let seed = r.next();
    let stall = !memory && r.coin();
    let big = if stall { 401_001 } else { *r.pick(&[0, 3000]) };
    let vanish = r.one_in(3);
    let reset = r.coin();
    let desc = format!("memory {memory} threads {threads} n {n} stalled peer {stall} big {big} vanish {vanish}");
    cx.sig(&format!("{desc} {seed}"));
    cx.sample(|| json!(desc));
    let r = &mut cx.r;
    let mut tcp = None;
    let mut mem = None;
    let c = if memory {
        let (a, b) = Connection::memory();
        mem = Some(b);
        a
    } else {
        match io::tcp(r.coin()) {
            Ok((c, t, s)) => {
                tcp = Some((t, s));
                c
            }
            Err(e) => return cx.harness_error(e),
        }
    };
    let st = if stall { ReadStyle { gated: true, rcvbuf: 16384, ..Default::default() } } else { style(r) };
    let mut peer = None;
    let mut threads_t = None;
    if let Some((t, s)) = tcp {
        if st.rcvbuf > 0 {
            sys::small_rcvbuf(&s, st.rcvbuf);
        }
        threads_t = Some(t);
        peer = match Peer::over(s, st) {
            Ok(p) => Some(p),
            Err(e) => return cx.harness_error(e),
        };
    }
    let cr = &c;
    // every attempt is over within its limit of milliseconds (the receiver of blocking ones reads)
    let guard = crate::ctx::guard(cx.case, wait(), format!("{desc}: attempts"));
    let res: Vec<Vec<Result<Out, String>>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                s.spawn(move || {
                    let mut r = thread_rng(seed, t);
                    let mut j = Rng::new(seed ^ 5 ^ t as u64);
                    (0..n)
                        .map(|i| {
                            let g = tagged(&mut r, t, i, big);
                            // the blocking variant would stay blocked on a stalled peer
                            let how = if stall { *j.pick(&[0, 1, 2, 6]) } else { *j.pick(&[0, 0, 1, 1, 2, 2, 3, 4, 5, 6]) };
                            let ms = *j.pick(&[0, 0, 1, 3, 10, 25]);
                            attempt(cr, &g, how, ms).map(|o| o.0)
                        })
                        .collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    drop(guard);
    let mut flags = vec![];
    for t in &res {
        let mut f = vec![];
        for x in t {
            match x {
                Ok(o) => {
                    cx.count(&format!("{o:?}"), 1);
                    cx.evt(1);
                    if memory && *o != Out::Sent {
                        cx.violation(format!("{o:?} on an in-memory connection whose other end is there"), json!(desc));
                    }
                    if *o == Out::Gone {
                        cx.violation("a send failed as disconnected although the peer is there", json!(desc));
                    }
                    f.push(*o == Out::Sent);
                }
                Err(e) if e.starts_with("STALL") => cx.stall(format!("{desc}: {e}")),
                Err(e) => {
                    cx.violation(e.clone(), json!(desc));
                    f.push(false);
                }
            }
        }
        flags.push(f);
    }
    if memory {
        let b = mem.take().unwrap();
        if vanish {
            drop(b);
            after_drop(cx, &c);
            return;
        }
        drop(c);
        let (got, ended) = drain(&b, wait());
        if !ended {
            cx.stall("no end of the stream");
        }
        let got: Vec<Value> = got.iter().map(out_json).collect();
        check_sent(cx, &desc, seed, big, &json!(flags), &got);
        return;
    }
    let (mut p, t) = (peer.unwrap(), threads_t.unwrap());
    if vanish {
        // from some point on every attempt fails as disconnected
        p.close(reset);
        let end = Instant::now() + wait();
        let mut k = 0u64;
        loop {
            let g = view::gen_msg(&mut cx.r);
            let how = (k % 3) as usize;
            k += 1;
            match attempt(&c, &g, how, 20) {
                Ok((Out::Gone, _)) => break,
                Ok(_) => {}
                Err(e) if e.starts_with("STALL") => cx.stall(format!("{desc}: {e}")),
                Err(e) => cx.violation(e, json!(desc)),
            }
            if Instant::now() > end {
                cx.stall(format!("{desc}: sends do not fail after the peer has gone"));
            }
            std::thread::sleep(Duration::from_micros(100));
        }
        for how in [0, 1, 2, 3, 4, 5, 6] {
            let g = view::gen_msg(&mut cx.r);
            match attempt(&c, &g, how, 20) {
                Ok((Out::Gone, _)) => {}
                Ok((o, _)) => cx.violation(format!("{o:?} after a send had failed as disconnected"), json!(desc)),
                Err(e) => cx.violation(e, json!(desc)),
            }
        }
        drop(c);
        let j = join_within(t, wait());
        if j == Joined::Stuck {
            cx.stall("join blocks after the peer has gone");
        }
        if j == Joined::Panic {
            cx.violation("join panicked", json!(desc));
        }
        return;
    }
    drop(c);
    p.open_gate();
    p.close_write();
    let (got, end) = p.recv_all();
    match end {
        Got::Eof => {}
        Got::Timeout => cx.stall("output does not end"),
        e => return cx.violation(format!("output ends with {e:?}"), json!(desc)),
    }
    let j = join_within(t, wait());
    if j != Joined::Ok {
        if j == Joined::Stuck {
            cx.stall("join blocks");
        }
        cx.violation(format!("join gave {j:?}"), json!(desc));
    }
    check_sent(cx, &desc, seed, big, &json!(flags), &got);
}

// ---------------------------------------------------------------- C24

/// Wait until all that are not stalled have finished, and some longer.
fn others_done(busy: &AtomicUsize, long: u64) {
    let end = Instant::now() + wait() + Duration::from_secs(5);
    while busy.load(Ordering::SeqCst) > 0 && Instant::now() < end {
        std::thread::sleep(Duration::from_millis(1));
    }
    std::thread::sleep(Duration::from_millis(long));
}

fn c24(cx: &mut Cx) {
    cx.eval();
    let r = &mut cx.r;
    // now and then more connections than any fixed number of places
    let many = r.one_in(20);
    let n = if many { r.range(40, 140) } else { r.range(4, 14) };
    #[derive(Clone, Copy, PartialEq, Debug)]
    enum Role {
        Healthy,
        Malformed,
        Exit,
        Reset,
        StallOut,
        StallIn,
        Dropped,
        /// a whole session with handshakes
        Session,
        /// the same, whose client waits in the middle
        Waiting,
    }
    let mut roles: Vec<Role> = (0..n)
        .map(|_| *r.pick(&[Role::Healthy, Role::Healthy, Role::Healthy, Role::Malformed, Role::Exit, Role::Reset, Role::StallOut, Role::StallIn, Role::Dropped, Role::Session, Role::Waiting]))
        .collect();
    roles[0] = Role::Healthy;
    roles[1] = *r.pick(&[Role::Healthy, Role::Session]);
    if cx.case < 8 {
        roles[2] = Role::StallOut;
        roles[3] = Role::StallIn;
    }
    let late = |r: &Role| matches!(r, Role::StallIn | Role::StallOut | Role::Waiting);
    let seed = r.next();
    let kinds: Vec<Transport> = (0..n).map(|i| if i == 2 || i == 3 { *r.pick(&[Transport::Connect, Transport::Listen]) } else { *r.pick(&[Transport::Memory, Transport::Connect, Transport::Listen]) }).collect();
    let desc = format!("{:?}", roles.iter().zip(&kinds).collect::<Vec<_>>());
    cx.sig(&desc);
    cx.sample(|| json!(desc));
    let k = if many { 6 } else { cx.r.range(10, 60) };
    cx.count(if many { "40 to 139 connections" } else { "4 to 13 connections" }, 1);
    let long = cx.long_ms();
    // the stalled ones go on when the others are through
    let go = Go::new(&mut cx.r);
    let go = &go;
    let busy = AtomicUsize::new(roles.iter().filter(|r| !late(r)).count());
    let busy = &busy;
    let mut peers = vec![];
    for i in 0..n {
        let st = ReadStyle { gated: roles[i] == Role::StallOut, rcvbuf: if roles[i] != Role::StallOut { 0 } else if long > 0 { 1 << 20 } else { 16384 }, ..Default::default() };
        let (app, arg) = match roles[i] {
            Role::StallOut => ("send", json!({ "seed": seed, "threads": 1, "n": 24, "big": 401_001 })),
            Role::StallIn | Role::Dropped => ("collect", json!({ "stop_after": if roles[i] == Role::Dropped { json!(2) } else { Value::Null }, "go": if roles[i] == Role::StallIn { json!(go.0) } else { Value::Null } })),
            Role::Session | Role::Waiting => ("server", json!({ "result": { "of": i } })),
            _ => ("echo", Value::Null),
        };
        match start(kinds[i], app, &arg, st) {
            Ok(p) => peers.push(Some(p)),
            Err(e) => return cx.harness_error(e),
        }
    }
    // the peers act at the same time
    let results: Vec<(usize, Result<String, String>)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                let mut p = peers[i].take().unwrap();
                let role = roles[i];
                let mut r = Rng::new(seed ^ (i as u64 + 1).wrapping_mul(0x9e37));
                s.spawn(move || -> (usize, Result<String, String>) {
                    let msgs: Vec<Gen> = (0..k)
                        .map(|j| {
                            let mut g = tagged(&mut r, 1000 + i, j, 0);
                            // its JSON form is what the client writes
                            g.json = out_json(&g.view).as_object().cloned().unwrap_or_default();
                            g
                        })
                        .collect();
                    let res = (|| -> Result<String, String> {
                        match role {
                            Role::Healthy => {
                                for g in &msgs {
                                    p.send(g).map_err(|e| format!("cannot send: {e}"))?;
                                    if r.one_in(4) {
                                        std::thread::yield_now();
                                    }
                                }
                                for g in &msgs {
                                    match p.recv() {
                                        Got::Msg(v) => out_same(&g.view, &v).map_err(|e| format!("echo differs:{e}"))?,
                                        Got::Timeout => return Err("STALL a healthy connection is stuck".into()),
                                        x => return Err(format!("{x:?} instead of an echo")),
                                    }
                                }
                                p.close_write();
                                match p.recv_all() {
                                    (v, Got::Eof) if v.is_empty() => {}
                                    (_, Got::Timeout) => return Err("STALL a healthy connection does not end".into()),
                                    x => return Err(format!("more output than input: {x:?}")),
                                }
                                let o = p.finish(wait()).ok_or("STALL a healthy application does not end")?;
                                if o["join"] != json!("ok") || o["obs"]["echoed"] != json!(k) || o["obs"]["failed"] != json!(0) {
                                    return Err(format!("a healthy application reports {o}"));
                                }
                                Ok(format!("{k} echoes"))
                            }
                            Role::Malformed => {
                                if p.transport != Transport::Memory {
                                    let (b, _) = bad_frame(&mut r);
                                    let _ = p.write(&b);
                                }
                                p.close_write();
                                let o = p.finish(wait()).ok_or("STALL after malformed input")?;
                                Ok(format!("{}", o["join"]))
                            }
                            Role::Exit => {
                                for g in msgs.iter().take(5) {
                                    let _ = p.send(g);
                                }
                                let _ = p.send(&view::exit());
                                p.close_write();
                                let o = p.finish(wait()).ok_or("STALL after exit")?;
                                if o["obs"]["echoed"] != json!(msgs.len().min(5) + 1) {
                                    return Err(format!("exiting application reports {o}"));
                                }
                                Ok("exit".into())
                            }
                            Role::Reset => {
                                for g in msgs.iter().take(5) {
                                    let _ = p.send(g);
                                }
                                p.close(true);
                                let o = p.finish(wait()).ok_or("STALL after a reset")?;
                                Ok(format!("{}", o["join"]))
                            }
                            Role::StallOut => {
                                others_done(busy, long);
                                p.open_gate();
                                p.close_write();
                                let (v, end) = p.recv_all();
                                if end == Got::Timeout {
                                    return Err("STALL stalled output does not resume".into());
                                }
                                if v.len() != 24 || end != Got::Eof {
                                    return Err(format!("{} of 24 stalled messages, then {end:?}", v.len()));
                                }
                                Ok("stalled output resumed".into())
                            }
                            Role::StallIn => {
                                for g in &msgs {
                                    p.send(g).map_err(|e| format!("cannot send: {e}"))?;
                                }
                                p.close_write();
                                others_done(busy, long);
                                go.set(1);
                                let o = p.finish(wait()).ok_or("STALL stalled input does not resume")?;
                                let got = o["obs"]["got"].as_array().cloned().unwrap_or_default();
                                let want: Vec<Value> = msgs.iter().map(|g| g.view.json()).collect();
                                if got != want {
                                    return Err(format!("stalled input differs: {} of {}", got.len(), want.len()));
                                }
                                Ok("stalled input resumed".into())
                            }
                            Role::Session | Role::Waiting => {
                                let mut msgs = vec![super::session::initialize(&mut r), view::initialized()];
                                for _ in 0..r.below(12) {
                                    let g = super::session::other_request(&mut r);
                                    if g.view.variant != "Shutdown" {
                                        msgs.push(g);
                                    }
                                }
                                msgs.push(view::shutdown(json!(i)));
                                msgs.push(view::exit());
                                // (a client that takes too long after shutdown is given up)
                                let last = msgs.len() - 1;
                                let stage = if role == Role::Waiting { *r.pick(&[0, 0, 1, 2, last]) } else { usize::MAX };
                                for (j, g) in msgs.iter().enumerate() {
                                    if j == stage {
                                        others_done(busy, if j == last { 0 } else { long });
                                    }
                                    if p.send(g).is_err() {
                                        if stage == last {
                                            break;
                                        }
                                        return Err(format!("cannot send message {j} of a session"));
                                    }
                                    let n = if g.view.kind != view::Kind::Request {
                                        0
                                    } else if j == 0 || j + 1 == last {
                                        1
                                    } else {
                                        crate::apps::answer(&g.view).len()
                                    };
                                    for a in 0..n {
                                        match p.recv() {
                                            Got::Msg(v) if a + 1 < n => {
                                                if v["method"] != json!("server/progress") {
                                                    return Err(format!("{v} is no progress"));
                                                }
                                            }
                                            Got::Msg(v) => {
                                                if v["id"] != g.view.id || (j == 0 && v["result"] != json!({ "of": i })) {
                                                    return Err(format!("{v} answers {}", g.view.json()));
                                                }
                                            }
                                            Got::Timeout => return Err(format!("STALL message {j} of a session is not answered")),
                                            x => return Err(format!("{x:?} instead of an answer to message {j} of a session")),
                                        }
                                    }
                                }
                                p.close_write();
                                match p.recv_all() {
                                    (v, Got::Eof) if v.is_empty() => {}
                                    (_, Got::Timeout) => return Err("STALL a session does not end".into()),
                                    x => return Err(format!("more output than answers: {x:?}")),
                                }
                                let o = p.finish(wait()).ok_or("STALL a session's application does not end")?;
                                let log = o["obs"]["log"].as_array().cloned().unwrap_or_default();
                                if stage != last && (o["join"] != json!("ok") || log.last() != Some(&json!("shutdown"))) {
                                    return Err(format!("a whole session reports {}", view::short(&o.to_string(), 2000)));
                                }
                                Ok("session".into())
                            }
                            Role::Dropped => {
                                for g in &msgs {
                                    let _ = p.send(g);
                                }
                                p.close_write();
                                p.finish(wait()).ok_or("STALL dropped connection")?;
                                Ok("dropped".into())
                            }
                        }
                    })();
                    if !late(&role) {
                        busy.fetch_sub(1, Ordering::SeqCst);
                    }
                    (i, res)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or((99, Err("the peer's script panicked".into())))).collect()
    });
    for (i, x) in results {
        match x {
            Ok(_) => {
                cx.count(&format!("{:?}", roles[i.min(n - 1)]), 1);
                cx.evt(k);
            }
            Err(e) if e.starts_with("STALL") => cx.stall(format!("connection {i} of {desc}: {e}")),
            Err(e) => cx.violation(format!("connection {i} ({:?}): {e}", roles.get(i)), json!(desc)),
        }
    }
}
