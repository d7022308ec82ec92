//! Properties of values: decoding, encoding, accessors. One input per evaluation.
use crate::ctx::Cx;
use crate::frame::{frame, render};
use crate::gen;
use crate::rng::Rng;
use crate::schema::{self, norm, Schema};
use crate::view::{self, make_id, same, short, view, view_not, view_req, Kind, View};
use bsp_server::{Message, Notification, Request, RequestId, Response};
use bsp_types::*;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub fn prop(id: &str) -> Option<fn(&mut Cx)> {
    Some(match id {
        "C05" => c05,
        "C06" => c06,
        "C07" => c07,
        "C08" => c08,
        "C09" => c09,
        "C18" => c18,
        "C19" => c19,
        "C20" => c20,
        "C21" => c21,
        "C26" => c26,
        "C27" => c27,
        _ => return None,
    })
}

const BATCH: usize = 40;

/// Every way of decoding a message from text.
fn decode(text: &str) -> Vec<(&'static str, Result<Message, String>)> {
    let e = |e: serde_json::Error| e.to_string();
    let mut v = vec![
        ("from_str", serde_json::from_str(text).map_err(e)),
        ("from_slice", serde_json::from_slice(text.as_bytes()).map_err(e)),
        ("from_reader", serde_json::from_reader(text.as_bytes()).map_err(e)),
    ];
    if let Ok(x) = serde_json::from_str::<Value>(text) {
        v.push(("from_value", serde_json::from_value(x).map_err(e)));
    }
    v
}

fn expect(cx: &mut Cx, text: &str, want: Option<&View>) {
    for (how, got) in decode(text) {
        cx.evt(1);
        match (&got, want) {
            (Ok(m), Some(w)) => {
                if let Err(d) = same(w, &view(m)) {
                    cx.violation(format!("decoded wrongly ({how}):{d}"), json!({ "text": text }));
                }
            }
            (Err(e), Some(w)) => cx.violation(format!("not decoded ({how}): {e}"), json!({ "text": text, "expected": w.json() })),
            (Ok(m), None) => cx.violation(format!("accepted ({how}) although it is no message"), json!({ "text": text, "got": view(m).json() })),
            (Err(_), None) => {}
        }
    }
}

/// Deliver texts over a TCP connection and return what the application gets.
fn over_tcp(cx: &mut Cx, texts: &[String]) -> Option<(Vec<View>, crate::io::Joined)> {
    let (c, t, mut s) = match crate::io::tcp(cx.r.coin()) {
        Ok(x) => x,
        Err(e) => {
            cx.harness_error(e);
            return None;
        }
    };
    let bytes: Vec<u8> = texts.iter().flat_map(|t| frame(t)).collect();
    let w = std::thread::spawn(move || {
        use std::io::Write;
        let _ = s.write_all(&bytes);
        let _ = s.shutdown(std::net::Shutdown::Write);
        s
    });
    let (got, ended) = crate::io::drain(&c, crate::ctx::wait());
    if !ended {
        cx.stall("the application did not see the end of the stream");
    }
    drop(c);
    let j = crate::io::join_within(t, crate::ctx::wait());
    let _ = w.join();
    Some((got, j))
}

fn bad_id(r: &mut Rng) -> Value {
    match r.below(8) {
        0 => json!(i32::MAX as i64 + 1 + r.below(5) as i64),
        1 => json!(i32::MIN as i64 - 1 - r.below(5) as i64),
        2 => json!(r.next() | 1 << 40),
        3 => json!(r.below(1000) as f64 + 0.5),
        4 => json!(r.coin()),
        5 => json!([]),
        6 => json!([1]),
        _ => json!({ "id": 1 }),
    }
}

fn c05(cx: &mut Cx) {
    let mut wire: Vec<(String, View)> = vec![];
    for _ in 0..BATCH {
        cx.eval();
        let r = &mut cx.r;
        let mut j: Map<String, Value>;
        let want: Option<View>;
        match r.below(12) {
            0..=5 => {
                // conforming messages of all three kinds
                let g = if r.one_in(20) { view::exit() } else { view::gen_msg(r) };
                j = g.json;
                want = Some(g.view);
            }
            6 => {
                // request, whatever other members there are
                let g = view::gen_request(r);
                j = g.json;
                want = Some(g.view);
                for k in ["result", "error", "code", "message"] {
                    if r.coin() {
                        j.insert(k.into(), gen::value(r, 1));
                    }
                }
            }
            7 => {
                // method with an id of another type
                let g = if r.coin() { view::gen_request(r) } else { view::gen_notification(r) };
                j = g.json;
                j.insert("id".into(), bad_id(r));
                want = None;
            }
            8 => {
                // neither method nor id
                let g = view::gen_msg(r);
                j = g.json;
                j.remove("method");
                j.remove("id");
                want = None;
            }
            9 => {
                // response with an unusable id
                let g = view::gen_response(r);
                j = g.json;
                j.insert("id".into(), bad_id(r));
                want = None;
            }
            10 => {
                // response with members of requests
                let g = view::gen_response(r);
                j = g.json;
                if r.coin() {
                    j.insert("params".into(), gen::value(r, 2));
                }
                want = Some(g.view);
            }
            _ => {
                // no object
                let v = match r.below(4) {
                    0 => json!([]),
                    1 => {
                        let g = view::gen_msg(r);
                        Value::Array(g.json.values().cloned().collect())
                    }
                    2 => json!([view::gen_msg(r).with_rpc()]),
                    _ => gen::value(r, 0),
                };
                let text = v.to_string();
                cx.sig(&text);
                cx.count("no object", 1);
                expect(cx, &text, None);
                continue;
            }
        }
        match r.below(4) {
            0 => {}
            1 => {
                j.insert("jsonrpc".into(), gen::value(r, 0));
            }
            _ => {
                j.insert("jsonrpc".into(), json!("2.0"));
            }
        }
        let text = if r.coin() { Value::Object(j).to_string() } else { render(r, &Value::Object(j)) };
        cx.sig(&text);
        cx.count(want.as_ref().map_or("rejected", |w| match w.kind {
            Kind::Request => "requests",
            Kind::Notification => "notifications",
            Kind::Response => "responses",
        }), 1);
        cx.sample(|| json!(text));
        expect(cx, &text, want.as_ref());
        if let Some(w) = want {
            if w.variant != "Exit" {
                wire.push((text, w));
            }
        }
    }
    if cx.case % 4 == 0 {
        // the same through a connection, ended by an object that is no message
        let mut texts: Vec<String> = wire.iter().map(|x| x.0.clone()).collect();
        let bad = cx.r.coin();
        if bad {
            let g = view::gen_request(&mut cx.r);
            let mut j = g.json;
            if cx.r.coin() {
                j.insert("id".into(), bad_id(&mut cx.r));
            } else {
                j.remove("id");
                j.remove("method");
            }
            texts.push(Value::Object(j).to_string());
        }
        if let Some((got, join)) = over_tcp(cx, &texts) {
            cx.evt(got.len());
            cx.count("over TCP", got.len() as u64);
            if got.len() != wire.len() {
                cx.violation(format!("{} messages delivered over TCP, {} expected", got.len(), wire.len()), json!({ "texts": texts }));
            }
            for ((t, w), g) in wire.iter().zip(&got) {
                if let Err(d) = same(w, g) {
                    cx.violation(format!("delivered wrongly over TCP:{d}"), json!({ "text": t }));
                    break;
                }
            }
            if bad != matches!(join, crate::io::Joined::Err(_)) {
                cx.violation(format!("join gave {join:?} (rejected object sent: {bad})"), json!({ "last": texts.last() }));
            }
        }
    }
}

/// The encoded form of `want`: same kind, id, method, and equal params, result, error.
pub fn out_same(want: &View, got: &Value) -> Result<(), String> {
    let Some(o) = got.as_object() else { return Err("not an object".into()) };
    let mut err = String::new();
    let mut chk = |name: &str, w: Option<&Value>, g: Option<&Value>| {
        if w != g {
            let f = |v: Option<&Value>| v.map_or("(absent)".to_string(), |v| short(&v.to_string(), 300));
            err += &format!(" {name}: expected {} got {};", f(w), f(g));
        }
    };
    let null = Value::Null;
    match want.kind {
        Kind::Response => {
            chk("id", Some(&want.id), o.get("id"));
            chk("result", want.result.as_ref(), o.get("result"));
            chk("error", want.error.as_ref(), o.get("error"));
            chk("method", None, o.get("method"));
            chk("params", None, o.get("params"));
        }
        k => {
            chk("id", (k == Kind::Request).then_some(&want.id), o.get("id"));
            chk("method", Some(&json!(want.method)), o.get("method"));
            let s = if k == Kind::Request { schema::request(&want.method) } else { schema::notification(&want.method) };
            let s = s.and_then(|s| s.1);
            let (a, b) = (&want.params, o.get("params").unwrap_or(&null));
            let (a, b) = match s {
                Some(s) => (norm(s, a), norm(s, b)),
                None => (a.clone(), b.clone()),
            };
            chk("params", Some(&a), Some(&b));
            chk("result", None, o.get("result"));
            chk("error", None, o.get("error"));
        }
    }
    for k in o.keys() {
        if !["jsonrpc", "id", "method", "params", "result", "error"].contains(&k.as_str()) {
            err += &format!(" unexpected member {k:?};");
        }
    }
    if err.is_empty() {
        Ok(())
    } else {
        Err(err)
    }
}

fn enc<T: serde::Serialize>(t: &T) -> Result<Value, String> {
    let text = serde_json::to_string(t).map_err(|e| format!("not encodable: {e}"))?;
    let crate::frame::Strict(v) = serde_json::from_str(&text).map_err(|e| format!("encoded to something else than JSON: {e}: {text}"))?;
    let w = serde_json::to_value(t).map_err(|e| format!("not encodable as a value: {e}"))?;
    if v != w {
        return Err(format!("text and value encodings differ: {v} / {w}"));
    }
    Ok(v)
}

fn c06(cx: &mut Cx) {
    let mut msgs = vec![];
    for _ in 0..BATCH {
        cx.eval();
        let g = if cx.r.one_in(40) { let n = gen::size(&mut cx.r, 20000); view::gen_sized(&mut cx.r, n) } else { view::gen_msg(&mut cx.r) };
        cx.sig(&g.text());
        cx.sample(|| g.value());
        let m = match g.view.build() {
            Ok(m) => m,
            Err(e) => {
                cx.violation(format!("conforming params are not decoded: {e}"), g.value());
                continue;
            }
        };
        let v1 = match enc(&m) {
            Ok(v) => v,
            Err(e) => {
                cx.violation(e, g.value());
                continue;
            }
        };
        if let Err(d) = out_same(&g.view, &v1) {
            cx.violation(format!("encoded form differs from the message:{d}"), json!({ "message": g.value(), "encoded": v1 }));
        }
        let text = serde_json::to_string(&m).unwrap_or_default();
        for (how, m2) in decode(&text) {
            match m2 {
                Err(e) => cx.violation(format!("encoded message is not decoded ({how}): {e}"), json!({ "encoded": text })),
                Ok(m2) => {
                    if let Err(d) = same(&g.view, &view(&m2)) {
                        cx.violation(format!("changed by encoding and decoding ({how}):{d}"), json!({ "encoded": text }));
                    }
                    match enc(&m2) {
                        Ok(v2) if v2 == v1 => {}
                        Ok(v2) => cx.violation(format!("encoding again differs ({how})"), json!({ "first": v1, "second": v2 })),
                        Err(e) => cx.violation(e, json!({ "encoded": text })),
                    }
                }
            }
        }
        cx.evt(4);
        msgs.push((g.view, m));
    }
    // over a real connection between two library ends, both directions at once
    if cx.case % 3 == 0 {
        let ((a, ta), (b, tb)) = match crate::io::tcp_both() {
            Ok(x) => x,
            Err(e) => return cx.harness_error(e),
        };
        let views: Vec<View> = msgs.iter().map(|m| m.0.clone()).collect();
        let back: Vec<Message> = msgs.iter().filter_map(|m| m.0.build().ok()).collect();
        let sa = a.sender.clone();
        let sb = b.sender.clone();
        let ha = std::thread::spawn(move || msgs.into_iter().all(|m| sa.send(m.1).is_ok()));
        let hb = std::thread::spawn(move || back.into_iter().all(|m| sb.send(m).is_ok()));
        let want = views.len();
        for (dir, c) in [("connect to listen", &b), ("listen to connect", &a)] {
            let mut got = vec![];
            while got.len() < want {
                match c.receiver.recv_timeout(crate::ctx::wait()) {
                    Ok(m) => got.push(view(&m)),
                    Err(crossbeam_channel::RecvTimeoutError::Timeout) => cx.stall("a message sent was not received"),
                    Err(_) => break,
                }
            }
            cx.evt(got.len());
            cx.count("over TCP", got.len() as u64);
            if got.len() != want {
                cx.violation(format!("{dir}: {} of {want} messages arrived before the stream ended", got.len()), json!({}));
            }
            for (w, g) in views.iter().zip(&got) {
                if let Err(d) = same(w, g) {
                    cx.violation(format!("{dir}: changed on the wire:{d}"), w.json());
                    break;
                }
            }
        }
        if !ha.join().unwrap_or(false) || !hb.join().unwrap_or(false) {
            cx.violation("send failed although the other side is alive", json!({}));
        }
        // one side hangs up with build/exit so that both readers end
        let _ = a.send(Notification::Exit);
        let _ = b.send(Notification::Exit);
        drop((a, b));
        for t in [ta, tb] {
            match crate::io::join_within(t, crate::ctx::wait()) {
                crate::io::Joined::Stuck => cx.stall("join does not return"),
                crate::io::Joined::Panic => cx.violation("join panicked", json!({})),
                _ => {}
            }
        }
    }
}

fn c07(cx: &mut Cx) {
    for _ in 0..BATCH {
        cx.eval();
        let r = &mut cx.r;
        let as_request = r.coin();
        let known = schema::known_methods();
        let method = match r.below(3) {
            0 => r.pick(&known).to_string(),
            1 => {
                let k = r.pick(&known).to_string();
                gen::mutate(r, &k)
            }
            _ => gen::method(r, &known),
        };
        let id = gen::id(r);
        let entry = if as_request { schema::request(&method) } else { schema::notification(&method) };
        let params = match entry {
            Some((_, Some(s))) => schema::gen_obj(r, s, 0),
            _ => gen::payload(r),
        };
        let mut j = Map::new();
        j.insert("method".into(), json!(method));
        if as_request {
            j.insert("id".into(), id.clone());
        }
        if !(params.is_null() && r.coin()) {
            j.insert("params".into(), params.clone());
        }
        let variant = entry.map_or("Custom", |e| e.0);
        let want = if as_request { View::request(variant, id, &method, params) } else { View::notification(variant, &method, params) };
        let text = Value::Object(j).to_string();
        cx.sig(&format!("{as_request}{method}"));
        cx.count(if entry.is_some() { "known" } else { "other names" }, 1);
        cx.sample(|| json!(text));
        expect(cx, &text, Some(&want));
        // directly, not as part of a message
        let direct = if as_request {
            serde_json::from_str::<Request>(&text).map(|q| (view_req(&q), q.method().to_string(), enc(&q)))
        } else {
            serde_json::from_str::<Notification>(&text).map(|n| (view_not(&n), n.method().to_string(), enc(&n)))
        };
        match direct {
            Err(e) => cx.violation(format!("not decoded: {e}"), json!({ "text": text })),
            Ok((v, m, e)) => {
                if let Err(d) = same(&want, &v) {
                    cx.violation(format!("decoded wrongly:{d}"), json!({ "text": text }));
                }
                if m != method {
                    cx.violation(format!("method() is {m:?}, not {method:?}"), json!({ "text": text }));
                }
                match e {
                    Ok(e) if e["method"] == json!(method) => {}
                    Ok(e) => cx.violation(format!("encoded under {} instead of {method:?}", e["method"]), json!({ "text": text })),
                    Err(e) => cx.violation(e, json!({ "text": text })),
                }
            }
        }
        // built from values, without decoding a message
        match want.build() {
            Err(e) => cx.violation(format!("conforming params are not decoded: {e}"), json!({ "text": text })),
            Ok(m) => match enc(&m) {
                Ok(e) if e["method"] == json!(method) => {}
                Ok(e) => cx.violation(format!("typed {variant} is encoded under {} instead of {method:?}", e["method"]), want.json()),
                Err(e) => cx.violation(e, want.json()),
            },
        }
        cx.evt(3);
    }
}

/// Params the protocol specifies in full, with the key under which a failure is reported.
fn spec_vectors() -> Vec<(&'static str, Value)> {
    let t = json!({ "uri": "file:///w/a" });
    let u = json!({ "uri": "file:///w/b" });
    vec![
        ("build/initialize", json!({"id":1,"method":"build/initialize","params":{"displayName":"c","version":"1","bspVersion":"2.0","rootUri":"file:///w","capabilities":{"languageIds":["rust"]},"data":{"k":[1]}}})),
        ("workspace/buildTargets", json!({"id":1,"method":"workspace/buildTargets"})),
        ("workspace/reload", json!({"id":1,"method":"workspace/reload"})),
        ("build/shutdown", json!({"id":1,"method":"build/shutdown"})),
        ("buildTarget/sources", json!({"id":1,"method":"buildTarget/sources","params":{"targets":[t,u]}})),
        ("buildTarget/inverseSources", json!({"id":1,"method":"buildTarget/inverseSources","params":{"textDocument":{"uri":"file:///w/x.rs"}}})),
        ("buildTarget/dependencySources targets", json!({"id":1,"method":"buildTarget/dependencySources","params":{"targets":[t]}})),
        ("buildTarget/dependencyModules", json!({"id":1,"method":"buildTarget/dependencyModules","params":{"targets":[t]}})),
        ("buildTarget/resources", json!({"id":1,"method":"buildTarget/resources","params":{"targets":[t]}})),
        ("buildTarget/compile targets", json!({"id":1,"method":"buildTarget/compile","params":{"targets":[t],"originId":"o"}})),
        ("buildTarget/compile targets and arguments", json!({"id":1,"method":"buildTarget/compile","params":{"targets":[t],"arguments":["-v"]}})),
        ("buildTarget/test targets", json!({"id":1,"method":"buildTarget/test","params":{"targets":[t],"originId":"o"}})),
        ("buildTarget/test targets and arguments", json!({"id":1,"method":"buildTarget/test","params":{"targets":[t],"arguments":["-v"],"dataKind":"scala-test","data":{}}})),
        ("buildTarget/run", json!({"id":1,"method":"buildTarget/run","params":{"target":t,"originId":"o","dataKind":"scala-main-class","data":{"class":"M"}}})),
        ("buildTarget/run arguments", json!({"id":1,"method":"buildTarget/run","params":{"target":t,"arguments":["-v"]}})),
        ("buildTarget/cleanCache", json!({"id":1,"method":"buildTarget/cleanCache","params":{"targets":[t]}})),
        ("debugSession/start", json!({"id":1,"method":"debugSession/start","params":{"targets":[t],"dataKind":"scala-main-class","data":{"class":"M"}}})),
        ("build/showMessage", json!({"method":"build/showMessage","params":{"type":1,"task":{"id":"t","parents":["p"]},"originId":"o","message":"m"}})),
        ("build/logMessage", json!({"method":"build/logMessage","params":{"type":4,"message":"m"}})),
        ("build/publishDiagnostics", json!({"method":"build/publishDiagnostics","params":{"textDocument":{"uri":"file:///w/x.rs"},"buildTarget":t,"originId":"o","diagnostics":[{"range":{"start":{"line":1,"character":2},"end":{"line":3,"character":4}},"severity":1,"code":"E1","source":"rustc","message":"bad"}],"reset":true}})),
        ("build/taskStart", json!({"method":"build/taskStart","params":{"taskId":{"id":"t"},"eventTime":1700000000000u64,"message":"m","dataKind":"compile-task","data":{"target":t}}})),
        ("build/taskProgress", json!({"method":"build/taskProgress","params":{"taskId":{"id":"t","parents":["a","b"]},"eventTime":1700000000000u64,"message":"m","total":10,"progress":3,"unit":"files","dataKind":"x","data":{}}})),
        ("build/taskFinish", json!({"method":"build/taskFinish","params":{"taskId":{"id":"t"},"eventTime":1700000000000u64,"message":"m","status":2,"dataKind":"compile-report","data":{"target":t,"errors":1,"warnings":0}}})),
        ("buildTarget/didChange", json!({"method":"buildTarget/didChange","params":{"changes":[{"target":t,"kind":1,"data":{"x":1}},{"target":u,"kind":3}]}})),
        ("build/initialize without what is optional", json!({"id":"x","method":"build/initialize","params":{"displayName":"c","version":"1","bspVersion":"2.0","rootUri":"file:///w%20x/","capabilities":{"languageIds":[]}}})),
        ("build/showMessage without what is optional", json!({"method":"build/showMessage","params":{"type":2,"message":""}})),
        ("build/logMessage of a task", json!({"method":"build/logMessage","params":{"type":3,"task":{"id":"t"},"originId":"o","message":"m"}})),
        ("build/publishDiagnostics without what is optional", json!({"method":"build/publishDiagnostics","params":{"textDocument":{"uri":"file:///w/x.rs"},"buildTarget":t,"diagnostics":[],"reset":false}})),
        ("build/publishDiagnostics with everything", json!({"method":"build/publishDiagnostics","params":{"textDocument":{"uri":"file:///w/x.rs"},"buildTarget":t,"diagnostics":[{"range":{"start":{"line":0,"character":0},"end":{"line":2147483647,"character":2147483647}},"severity":4,"code":1001,"source":"scalac","message":"bad","tags":[1,2],"relatedInformation":[{"location":{"uri":"file:///w/y.rs","range":{"start":{"line":1,"character":2},"end":{"line":3,"character":4}}},"message":"here"}]}],"reset":true}})),
        ("build/taskStart without what is optional", json!({"method":"build/taskStart","params":{"taskId":{"id":"t"}}})),
        ("build/taskProgress without what is optional", json!({"method":"build/taskProgress","params":{"taskId":{"id":"t"}}})),
        ("build/taskProgress total beyond 32 bits", json!({"method":"build/taskProgress","params":{"taskId":{"id":"t"},"total":6_000_000_000u64,"progress":10,"unit":"bytes"}})),
        ("build/taskProgress progress beyond 32 bits", json!({"method":"build/taskProgress","params":{"taskId":{"id":"t"},"progress":5_000_000_000u64}})),
        ("build/taskFinish without what is optional", json!({"method":"build/taskFinish","params":{"taskId":{"id":"t"},"status":3}})),
        ("build/taskFinish of a test", json!({"method":"build/taskFinish","params":{"taskId":{"id":"t","parents":["r"]},"status":1,"dataKind":"test-report","data":{"target":t,"passed":1,"failed":0,"ignored":0,"cancelled":0,"skipped":2,"time":12}}})),
        ("buildTarget/didChange of one", json!({"method":"buildTarget/didChange","params":{"changes":[{"target":t}]}})),
        ("buildTarget/didChange of none", json!({"method":"buildTarget/didChange","params":{"changes":[]}})),
        ("buildTarget/didChange changed", json!({"method":"buildTarget/didChange","params":{"changes":[{"target":t,"kind":2}]}})),
        ("buildTarget/run without what is optional", json!({"id":1,"method":"buildTarget/run","params":{"target":t}})),
        ("debugSession/start of several", json!({"id":1,"method":"debugSession/start","params":{"targets":[t,u],"dataKind":"scala-attach-remote","data":null}})),
        ("buildTarget/sources of none", json!({"id":1,"method":"buildTarget/sources","params":{"targets":[]}})),
        ("build/initialized", json!({"method":"build/initialized"})),
        ("build/exit", json!({"method":"build/exit"})),
    ]
}

fn c08(cx: &mut Cx) {
    if cx.case == 0 {
        for (key, v) in spec_vectors() {
            cx.eval();
            cx.evt(1);
            cx.sig(key);
            let m = v["method"].as_str().unwrap_or("").to_string();
            let got: Result<Message, _> = serde_json::from_value(v.clone());
            let bad = match &got {
                Err(e) => Some(format!("is not decoded: {e}")),
                Ok(g) => {
                    let w = view(g);
                    let e = enc(g).map(|e| e["params"].clone());
                    let s = schema::request(&m).or(schema::notification(&m)).and_then(|x| x.1);
                    if w.variant == "Custom" {
                        Some("is not decoded to the typed message".into())
                    } else if let (Some(s), Ok(e)) = (s, &e) {
                        (norm(s, e) != norm(s, &v["params"])).then(|| format!("is encoded as {e}"))
                    } else {
                        e.err()
                    }
                }
            };
            if let Some(b) = bad {
                cx.finding(key, format!("the protocol's {m} {b}"), v);
            }
        }
    }
    for _ in 0..BATCH {
        cx.eval();
        let i = cx.r.below(schema::REQUESTS.len() + schema::NOTIFICATIONS.len());
        let r = &mut cx.r;
        let mut g = if i < schema::REQUESTS.len() {
            let id = gen::id(r);
            view::typed_request(r, i, id)
        } else {
            view::typed_notification(r, i - schema::REQUESTS.len())
        };
        let is_req = g.view.kind == Kind::Request;
        let s = schema::by_variant(is_req, &g.view.variant).and_then(|x| x.1);
        let corrupt = match s {
            Some(s) if r.one_in(3) => {
                let mut p = g.json.get("params").cloned().unwrap_or_default();
                let w = schema::corrupt(r, s, &mut p);
                g.json.insert("params".into(), p);
                w
            }
            _ => None,
        };
        let text = g.text();
        cx.sig(&text);
        cx.sample(|| json!(text));
        match corrupt {
            Some(how) => {
                cx.count("not conforming", 1);
                for (by, m) in decode(&text) {
                    cx.evt(1);
                    if let Ok(m) = m {
                        let v = view(&m);
                        if v.variant == g.view.variant {
                            cx.violation(format!("{}: {how}, but decoded ({by}) to the typed message", g.view.method), json!({ "text": text, "got": v.json() }));
                        }
                    }
                }
                let typed = if is_req {
                    serde_json::from_str::<Request>(&text).ok().map(|q| view_req(&q))
                } else {
                    serde_json::from_str::<Notification>(&text).ok().map(|n| view_not(&n))
                };
                if typed.map_or(false, |v| v.variant == g.view.variant) {
                    cx.violation(format!("{}: {how}, but decoded to the typed message", g.view.method), json!({ "text": text }));
                }
            }
            None => {
                cx.count("conforming", 1);
                expect(cx, &text, Some(&g.view));
                if let Ok(m) = serde_json::from_str::<Message>(&text) {
                    match enc(&m) {
                        Ok(e) => {
                            if let Err(d) = out_same(&g.view, &e) {
                                cx.violation(format!("{} encoded differently:{d}", g.view.method), json!({ "text": text, "encoded": e }));
                            }
                        }
                        Err(e) => cx.violation(e, json!({ "text": text })),
                    }
                }
            }
        }
    }
}

fn rt<T: serde::de::DeserializeOwned + serde::Serialize>(v: &Value, text: &str) -> Result<Value, String> {
    let a: T = serde_json::from_value(v.clone()).map_err(|e| format!("reject: {e}"))?;
    let b: T = serde_json::from_str(text).map_err(|e| format!("reject: {e}"))?;
    let (a, b) = (enc(&a)?, enc(&b)?);
    if a != b {
        return Err(format!("decoding from text and from a value differ: {a} / {b}"));
    }
    Ok(a)
}
fn to_msg<T: serde::de::DeserializeOwned>(id: RequestId, v: &Value) -> Option<Message>
where
    Message: From<(RequestId, T)>,
{
    serde_json::from_value::<T>(v.clone()).ok().map(|t| Message::from((id, t)))
}

type Rt = fn(&Value, &str) -> Result<Value, String>;
type ToMsg = fn(RequestId, &Value) -> Option<Message>;
fn results() -> Vec<(&'static str, &'static Schema, Rt, Option<ToMsg>)> {
    macro_rules! t {
        ($t:ty, $s:ident) => {
            (stringify!($t), &schema::$s, rt::<$t> as Rt, Some(to_msg::<$t> as ToMsg))
        };
        ($t:ty, $s:ident, -) => {
            (stringify!($t), &schema::$s, rt::<$t> as Rt, None)
        };
    }
    vec![
        t!(InitializeBuildResult, INITIALIZE_RESULT),
        t!(WorkspaceBuildTargetsResult, WORKSPACE_TARGETS_RESULT),
        t!(BuildTargetSourcesResult, SOURCES_RESULT),
        t!(BuildTargetInverseSourcesResult, TARGETS),
        t!(BuildTargetDependencySourcesResult, DEP_SOURCES_RESULT),
        t!(BuildTargetDependencyModulesResult, MODULES_RESULT),
        t!(BuildTargetResourcesResult, RESOURCES_RESULT),
        t!(BuildTargetCompileResult, CODE_DATA_RESULT),
        t!(BuildTargetTestResult, CODE_DATA_RESULT),
        t!(BuildTargetRunResult, CODE_RESULT),
        t!(BuildTargetCleanCacheResult, CLEAN_RESULT),
        t!(DebugSessionStartResult, DEBUG_RESULT),
        t!(ServerCapabilities, SERVER_CAPS, -),
        t!(BuildTargetCapabilities, TARGET_CAPS, -),
        t!(BuildTarget, BUILD_TARGET, -),
        t!(SourcesCollection, SOURCES_ITEM, -),
        t!(Sources, SOURCE, -),
        t!(Resources, RESOURCES_ITEM, -),
        t!(DependencySourcesItem, DEP_SOURCES_ITEM, -),
        t!(DependencyModulesItem, MODULES_ITEM, -),
        t!(DependencyModule, MODULE, -),
        t!(CompileProvider, PROVIDER, -),
        t!(TestProvider, PROVIDER, -),
        t!(RunProvider, PROVIDER, -),
        t!(DebugProvider, PROVIDER, -),
    ]
}

fn c09(cx: &mut Cx) {
    let types = results();
    for _ in 0..BATCH {
        cx.eval();
        let (name, s, f, _) = &types[cx.r.below(types.len())];
        let r = &mut cx.r;
        let mut v = schema::gen_obj(r, s, 0);
        let bad = if r.one_in(3) { schema::corrupt(r, s, &mut v) } else { None };
        let text = render(r, &v);
        cx.sig(&format!("{name}{v}"));
        cx.sample(|| json!([name, v]));
        cx.evt(2);
        match (f(&v, &text), bad) {
            (Ok(e), None) => {
                cx.count("conforming", 1);
                let (a, b) = (norm(s, &v), norm(s, &e));
                if a != b {
                    cx.violation(format!("{name}: encoded differently"), json!({ "given": a, "encoded": b }));
                }
            }
            (Err(e), None) => cx.violation(format!("{name}: {e}"), v),
            (Ok(e), Some(how)) => cx.violation(format!("{name}: accepted although {how}"), json!({ "given": v, "encoded": e })),
            (Err(e), Some(_)) if e.starts_with("reject") => cx.count("rejected", 1),
            (Err(e), Some(_)) => cx.violation(format!("{name}: {e}"), v),
        }
    }
    // tags on their own
    for _ in 0..BATCH {
        cx.eval();
        cx.evt(1);
        let r = &mut cx.r;
        let t = match r.below(3) {
            0 => r.pick(schema::TAGS).to_string(),
            1 => {
                let t = r.pick(schema::TAGS).to_string();
                gen::mutate(r, &t)
            }
            _ => gen::string(r),
        };
        cx.sig(&format!("tag {t}"));
        match serde_json::from_value::<BuildTargetTag>(json!(t)) {
            Err(e) => cx.violation(format!("tag {t:?} rejected: {e}"), json!(t)),
            Ok(tag) => {
                let known = match &tag {
                    BuildTargetTag::Libary => Some("library"),
                    BuildTargetTag::Application => Some("application"),
                    BuildTargetTag::Test => Some("test"),
                    BuildTargetTag::IntegrationTest => Some("integration-test"),
                    BuildTargetTag::Benchmark => Some("benchmark"),
                    BuildTargetTag::NoIDE => Some("no-ide"),
                    BuildTargetTag::Manual => Some("manual"),
                    BuildTargetTag::Custom(x) => {
                        if *x != t || schema::TAGS.contains(&t.as_str()) {
                            cx.violation(format!("tag {t:?} decoded to Custom({x:?})"), json!(t));
                        }
                        None
                    }
                };
                if known.map_or(false, |k| k != t) {
                    cx.violation(format!("tag {t:?} decoded to {tag:?}"), json!(t));
                }
                match enc(&tag) {
                    Ok(e) if e == json!(t) => {}
                    e => cx.violation(format!("tag {t:?} encoded as {e:?}"), json!(t)),
                }
            }
        }
        let c = BuildTargetTag::custom(t.as_str());
        if enc(&c) != Ok(json!(t)) {
            cx.violation(format!("custom tag {t:?} encoded as {:?}", enc(&c)), json!(t));
        }
    }
}

#[derive(serde::Serialize)]
struct Sample<'a> {
    a: i64,
    #[serde(rename = "bB")]
    b: Option<&'a str>,
    c: Vec<Value>,
}

fn c18(cx: &mut Cx) {
    let types = results();
    for _ in 0..BATCH {
        cx.eval();
        let idv = gen::id(&mut cx.r);
        let id = make_id(&idv);
        let r = &mut cx.r;
        let check = |cx: &mut Cx, what: &str, m: Result<Value, String>, want: Value, s: Option<&Schema>| {
            cx.evt(1);
            match m {
                Err(e) => cx.violation(format!("{what}: {e}"), want),
                Ok(mut got) => {
                    let mut w = want;
                    if let (Some(s), true) = (s, got.get("result").is_some()) {
                        got["result"] = norm(s, &got["result"]);
                        w["result"] = norm(s, &w["result"]);
                    }
                    if got != w {
                        cx.violation(format!("{what}: encoded differently"), json!({ "expected": w, "got": got }));
                    }
                }
            }
        };
        match r.below(4) {
            0 => {
                let (name, s, _, Some(f)) = &types[r.below(12)] else { continue };
                let v = schema::gen_obj(r, s, 0);
                cx.sig(&format!("{name}{idv}{v}"));
                match f(id, &v) {
                    None => cx.violation(format!("{name}: conforming result not decoded"), v),
                    Some(m) => check(cx, name, enc(&m), json!({ "id": idv, "result": v }), Some(s)),
                }
            }
            1 => {
                let v = gen::payload(r);
                let t = gen::string(r);
                cx.sig(&format!("{idv}{v}{t}"));
                cx.sample(|| json!([idv, v]));
                check(cx, "Response::ok(Value)", enc(&Response::ok(id.clone(), &v)), json!({ "id": idv, "result": v }), None);
                check(cx, "Message from (id, Value)", enc(&Message::from((id.clone(), v.clone()))), json!({ "id": idv, "result": v }), None);
                check(cx, "Message from (id, String)", enc(&Message::from((id.clone(), t.clone()))), json!({ "id": idv, "result": t }), None);
                check(cx, "Response::ok(())", enc(&Response::ok(id.clone(), ())), json!({ "id": idv, "result": null }), None);
                check(cx, "Response::ok(None)", enc(&Response::ok(id.clone(), None::<u8>)), json!({ "id": idv, "result": null }), None);
                let m: BTreeMap<String, Value> = [(t.clone(), v.clone())].into();
                check(cx, "Response::ok(map)", enc(&Response::ok(id.clone(), &m)), json!({ "id": idv, "result": { &t: v } }), None);
                let smp = Sample { a: gen::int(&mut cx.r), b: cx.r.coin().then_some(&t), c: vec![v.clone()] };
                let w = json!({ "a": smp.a, "bB": smp.b, "c": [v] });
                let p = Response::ok(id, smp);
                if p.error.is_some() || p.result.as_ref() != Some(&w) || view::id_value(&p.id) != idv {
                    cx.violation("Response::ok(struct): wrong fields", json!({ "expected": w, "got": format!("{p:?}") }));
                }
                check(cx, "Response::ok(struct)", enc(&Message::from(p)), json!({ "id": idv, "result": w }), None);
            }
            _ => {
                let msg = gen::string(r);
                let code = gen::id_int(r);
                let all: Vec<(&str, i32, Response)> = vec![
                    ("err", code, Response::err(id.clone(), code, msg.clone())),
                    ("parse_error", -32700, Response::parse_error(id.clone(), msg.clone())),
                    ("server_not_initialized", -32002, Response::server_not_initialized(id.clone(), msg.clone())),
                    ("invalid_request", -32600, Response::invalid_request(id.clone(), msg.clone())),
                    ("method_not_found", -32601, Response::method_not_found(id.clone(), msg.clone())),
                    ("invalid_params", -32602, Response::invalid_params(id.clone(), msg.clone())),
                    ("internal_error", -32603, Response::internal_error(id.clone(), msg.clone())),
                    ("server_error_start", -32099, Response::server_error_start(id.clone(), msg.clone())),
                    ("server_error_end", -32000, Response::server_error_end(id.clone(), msg.clone())),
                    ("request_canceled", -32800, Response::request_canceled(id.clone(), msg.clone())),
                    ("content_modified", -32801, Response::content_modified(id.clone(), msg.clone())),
                    ("server_canceled", -32802, Response::server_canceled(id.clone(), msg.clone())),
                ];
                cx.sig(&format!("{idv}{msg}{code}"));
                cx.sample(|| json!([idv, code, msg]));
                for (name, code, p) in all {
                    let want = json!({ "id": idv, "error": { "code": code, "message": msg } });
                    if p.result.is_some() || p.error.is_none() {
                        cx.violation(format!("{name}: not exactly one outcome"), json!(format!("{p:?}")));
                    }
                    check(cx, name, enc(&p), want.clone(), None);
                    check(cx, name, enc(&Message::from(p)), want, None);
                }
            }
        }
    }
    if cx.case == 0 {
        use bsp_server::ErrorCode as E;
        for (n, c, w) in [
            ("ParseError", E::ParseError as i32, -32700),
            ("InvalidRequest", E::InvalidRequest as i32, -32600),
            ("MethodNotFound", E::MethodNotFound as i32, -32601),
            ("InvalidParams", E::InvalidParams as i32, -32602),
            ("InternalError", E::InternalError as i32, -32603),
            ("ServerErrorStart", E::ServerErrorStart as i32, -32099),
            ("ServerErrorEnd", E::ServerErrorEnd as i32, -32000),
            ("ServerNotInitialized", E::ServerNotInitialized as i32, -32002),
            ("RequestCanceled", E::RequestCanceled as i32, -32800),
            ("ContentModified", E::ContentModified as i32, -32801),
            ("ServerCancelled", E::ServerCancelled as i32, -32802),
        ] {
            if c != w {
                cx.violation(format!("ErrorCode::{n} is {c}, not {w}"), json!({}));
            }
        }
    }
}

fn c19_req(cx: &mut Cx, how: &str, q: &Request, want: &View) {
    cx.evt(1);
    let e = match enc(q) {
        Ok(e) => e,
        Err(e) => return cx.violation(e, want.json()),
    };
    let mut bad = |what: &str, a: Value, b: Value| {
        cx.violation(format!("{how}: {what} reported {} but encoded {}", short(&a.to_string(), 300), short(&b.to_string(), 300)), json!({ "encoded": e, "request": want.json() }));
    };
    let id = view::id_value(q.id());
    if id != e["id"] || id != want.id {
        bad("id", id, e["id"].clone());
    }
    if json!(q.method()) != e["method"] || q.method() != want.method {
        bad("method", json!(q.method()), e["method"].clone());
    }
    let ep = e.get("params").cloned().unwrap_or(Value::Null);
    match q.params() {
        Ok(p) => {
            let s = schema::by_variant(true, &want.variant).and_then(|x| x.1);
            let n = |v: &Value| s.map_or(v.clone(), |s| norm(s, v));
            if p != ep || n(&p) != n(&want.params) {
                bad("params", p, ep);
            }
        }
        Err(x) => bad("params error", json!(x.to_string()), ep),
    }
}

fn c19(cx: &mut Cx) {
    for _ in 0..BATCH {
        cx.eval();
        if cx.r.one_in(4) {
            let g = if cx.r.one_in(10) { view::exit() } else { view::gen_notification(&mut cx.r) };
            cx.sig(&g.text());
            let got: Vec<Message> = serde_json::from_value::<Message>(g.with_rpc()).ok().into_iter().chain(g.view.build().ok()).collect();
            if got.len() != 2 {
                cx.violation("conforming notification not decoded", g.value());
            }
            for m in got {
                if let Message::Notification(n) = &m {
                    cx.evt(1);
                    let e = enc(n).unwrap_or_default();
                    if json!(n.method()) != e["method"] || n.method() != g.view.method {
                        cx.violation(format!("method reported {:?} but encoded {}", n.method(), e["method"]), g.value());
                    }
                }
            }
            continue;
        }
        let g = view::gen_request(&mut cx.r);
        cx.sig(&g.text());
        cx.sample(|| g.value());
        match serde_json::from_value::<Message>(g.with_rpc()) {
            Ok(Message::Request(q)) => {
                c19_req(cx, "received", &q, &g.view);
                c19_req(cx, "cloned", &q.clone(), &g.view);
            }
            _ => cx.violation("request not decoded as one", g.value()),
        }
        match g.view.build() {
            Ok(Message::Request(q)) => c19_req(cx, "built", &q, &g.view),
            _ => cx.violation("request not built", g.value()),
        }
        // conversions from (id, params)
        let id = || make_id(&g.view.id);
        let p = g.view.params.clone();
        macro_rules! conv {
            ($($v:ident)*) => {
                match g.view.variant.as_str() {
                    $(stringify!($v) => match serde_json::from_value::<$v>(p) {
                        Ok(x) => vec![Some(Request::from((id(), x.clone()))), match Message::from((id(), x)) { Message::Request(q) => Some(q), _ => None }],
                        Err(_) => vec![None],
                    },)*
                    "Custom" => {
                        let m = gen::leak(&g.view.method);
                        vec![Some(Request::from((id(), m, p.clone()))), match Message::from((id(), m, p)) { Message::Request(q) => Some(q), _ => None }]
                    }
                    _ => vec![],
                }
            };
        }
        let qs = conv!(InitializeBuild BuildTargetDependencyModules DebugSessionStart BuildTargetSources TextDocumentInverseSources
            BuildTargetDependencySources BuildTargetResources BuildTargetRun BuildTargetCompile BuildTargetTest BuildTargetCleanCache);
        for q in qs {
            match q {
                Some(q) => c19_req(cx, "converted", &q, &g.view),
                None => cx.violation("conversion does not give a request", g.value()),
            }
        }
    }
}

fn c20(cx: &mut Cx) {
    use std::ffi::OsString;
    use std::os::unix::ffi::OsStringExt;
    use std::path::PathBuf;
    for _ in 0..BATCH {
        cx.eval();
        let r = &mut cx.r;
        let n = if r.one_in(12) { 0 } else { r.range(1, 5) };
        let mut bytes = vec![b'/'];
        for i in 0..n {
            let seg: Vec<u8> = match r.below(8) {
                0 => r.pick(&["a b", "100%", "%20", "%2F", "ü", "日本", "a?b", "a#b", "a;b", "a:b", "a&b=c", "[x]", "{y}", "~", "a\\b", "\"q\"", "<t>", "^", "`", "a+b", "...", ".hidden", "x.", "%", "%zz", "\t", "new\nline", "C:", "a|b", "😀"]).as_bytes().to_vec(),
                1 => (0..r.range(1, 6)).map(|_| 1 + r.below(255) as u8).collect(),
                2 => gen::string(r).into_bytes(),
                3 => format!("{:?}", gen::any_char(r)).into_bytes(),
                _ => (0..r.range(1, 8)).map(|_| 32 + r.below(95) as u8).collect(),
            };
            let seg: Vec<u8> = seg.into_iter().filter(|&c| c != b'/' && c != 0).collect();
            // "." and ".." are not names; X| and X: first are drive letters to URLs (DESIGN.md)
            let drive = i == 0 && seg.len() == 2 && seg[0].is_ascii_alphabetic() && matches!(seg[1], b'|' | b':');
            if seg.is_empty() || seg == b"." || seg == b".." || drive {
                continue;
            }
            if bytes.len() > 1 {
                bytes.push(b'/');
            }
            bytes.extend(seg);
        }
        let mut path = PathBuf::from(OsString::from_vec(bytes));
        // paths that exist, some of them through links
        if r.one_in(8) {
            static LINKS: std::sync::OnceLock<Option<PathBuf>> = std::sync::OnceLock::new();
            let dir = LINKS.get_or_init(|| {
                let d = std::env::temp_dir().join(format!("bspmon.{}", std::process::id()));
                std::fs::create_dir_all(d.join("real dir/sub")).ok()?;
                std::fs::write(d.join("file"), "").ok()?;
                for (to, at) in [("real dir", "link"), ("real dir/sub", "link2"), ("nowhere", "broken"), ("file", "to file"), ("link", "root")] {
                    let _ = std::os::unix::fs::symlink(d.join(to), d.join(at));
                }
                Some(d)
            });
            let own = ["", "real dir", "link", "link/sub", "link2", "broken", "file", "to file", "root/sub", "link/none", "LINK"];
            path = match dir {
                Some(d) if r.coin() => d.join(r.pick(&own)),
                _ => PathBuf::from(*r.pick(&["/", "/bin", "/bin/sh", "/lib", "/tmp", "/var/run", "/proc/self", "/proc/self/cwd", "/dev/stdin", "/dev/fd", "/usr/lib", "/etc", "/root", "/home"])),
            };
        }
        let Ok(url) = Url::from_file_path(&path) else {
            cx.harness_error(format!("no URL for {path:?}"));
            continue;
        };
        cx.sig(&format!("{path:?}"));
        cx.sample(|| json!(format!("{path:?}")));
        let show = json!({ "path": format!("{path:?}"), "url": url.as_str() });
        let p = InitializeBuild::new_simple("c", "1", "2", url.clone(), ClientCapabilities::default());
        let mut got = vec![("constructed", p.root_path())];
        let p2 = InitializeBuild::new("c", "1", "2", url.clone(), ClientCapabilities::default(), json!({ "k": 1 }));
        got.push(("constructed with data", p2.root_path()));
        let mut p3 = InitializeBuild::new_simple("c", "1", "2", Url::parse("file:///other").unwrap_or(url.clone()), ClientCapabilities::default());
        p3.set_root_uri(url.clone());
        got.push(("set", p3.root_path()));
        let m = Message::from((RequestId::from(1), p));
        match serde_json::to_string(&m).map(|t| serde_json::from_str::<Message>(&t)) {
            // some URLs change when the url crate reads its own text (backslashes; DESIGN.md)
            Ok(Ok(Message::Request(Request::InitializeBuild(_, p)))) if Url::parse(url.as_str()).as_ref() == Ok(&url) => got.push(("over the wire", p.root_path())),
            Ok(Ok(Message::Request(Request::InitializeBuild(..)))) => cx.count("url not stable", 1),
            x => cx.violation("initialize request lost on the wire", json!([show, format!("{x:?}")])),
        }
        cx.evt(got.len());
        for (how, g) in got {
            // same components (the url crate adds a slash after a last component such as "C:")
            if g != path {
                cx.violation(format!("{how}: root path is {g:?}, not {path:?}"), show.clone());
            }
        }
    }
}

use crate::apps::Only;

fn c21(cx: &mut Cx) {
    let s = Only;
    for _ in 0..BATCH {
        cx.eval();
        cx.evt(15);
        macro_rules! p {
            ($t:ty, $s:ident) => {{
                let v = schema::gen_obj(&mut cx.r, &schema::$s, 0);
                cx.sig(&format!("{}{v}", stringify!($t)));
                match serde_json::from_value::<$t>(v.clone()) {
                    Ok(p) => p,
                    Err(e) => {
                        cx.violation(format!("conforming params rejected: {e}"), v);
                        continue;
                    }
                }
            }};
        }
        macro_rules! call {
            ($name:ident, $e:expr) => {
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| $e)) {
                    Ok(Ok(v)) => Some(Ok(serde_json::to_value(&v).unwrap_or_default())),
                    Ok(Err(e)) => Some(Err(e.to_string())),
                    Err(_) => None, // recorded by the panic hook, reported by the runner
                }
            };
        }
        let i = p!(InitializeBuild, INITIALIZE);
        let got: Vec<(&str, Option<Result<Value, String>>, Option<Value>)> = vec![
            ("build_shutdown", call!(build_shutdown, s.build_shutdown()), Some(json!(null))),
            ("workspace_reload", call!(workspace_reload, s.workspace_reload()), Some(json!(null))),
            ("workspace_bts", call!(workspace_bts, s.workspace_bts()), Some(json!({ "targets": [] }))),
            ("bt_sources", { let p = p!(BuildTargetSources, TARGETS); call!(x, s.bt_sources(p)) }, Some(json!({ "items": [] }))),
            ("bt_inverse_sources", { let p = p!(TextDocumentInverseSources, DOC); call!(x, s.bt_inverse_sources(p)) }, Some(json!({ "targets": [] }))),
            ("bt_dependency_sources", { let p = p!(BuildTargetDependencySources, DOC); call!(x, s.bt_dependency_sources(p)) }, Some(json!({ "items": [] }))),
            ("bt_resources", { let p = p!(BuildTargetResources, TARGETS); call!(x, s.bt_resources(p)) }, Some(json!({ "items": [] }))),
            ("bt_dependency_modules", { let p = p!(BuildTargetDependencyModules, TARGETS); call!(x, s.bt_dependency_modules(p)) }, None),
            ("debug_session_start", { let p = p!(DebugSessionStart, DEBUG_START); call!(x, s.debug_session_start(p)) }, None),
            ("bt_run", { let p = p!(BuildTargetRun, RUN); call!(x, s.bt_run(p)) }, None),
            ("bt_compile", { let p = p!(BuildTargetCompile, COMPILE); call!(x, s.bt_compile(p)) }, None),
            ("bt_test", { let p = p!(BuildTargetTest, RUN); call!(x, s.bt_test(p)) }, None),
            ("bt_clean_cache", { let p = p!(BuildTargetCleanCache, TARGETS); call!(x, s.bt_clean_cache(p)) }, None),
        ];
        let want = json!([i.display_name(), i.version(), i.bsp_version()]);
        if let Some(Ok(v)) = call!(initialize, s.initialize(i)) {
            if json!([v["displayName"], v["version"], v["bspVersion"]]) != want {
                cx.violation("initialize is not the server's own", v);
            }
        }
        let _ = std::panic::catch_unwind(|| {
            Only.on_initializtion();
            Only.on_build_exit();
        });
        for (name, got, want) in got {
            match (got, want) {
                (Some(Ok(v)), Some(w)) if v == w => {}
                (Some(Err(_)), None) => {}
                (None, _) => {}
                (g, w) => cx.violation(format!("{name}: {g:?}, expected {}", w.map_or("an error".into(), |w| w.to_string())), json!({})),
            }
        }
        cx.sample(|| json!("14 handlers called with generated params"));
    }
}

fn c26(cx: &mut Cx) {
    use std::hash::{Hash, Hasher};
    let hash = |i: &RequestId| {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        i.hash(&mut h);
        h.finish()
    };
    cx.eval();
    // a set of ids with look-alikes
    let mut vals: Vec<Value> = vec![];
    for _ in 0..20 {
        let v = gen::id(&mut cx.r);
        if cx.r.coin() {
            vals.push(json!(v.as_str().map_or(v.to_string(), |s| format!("{s:?}"))));
            if let Some(i) = v.as_str().and_then(|s| s.parse::<i32>().ok()) {
                vals.push(json!(i));
            }
        }
        vals.push(v);
    }
    let mut ids: Vec<(Value, RequestId)> = vec![];
    for v in &vals {
        cx.sig(&v.to_string());
        cx.evt(1);
        let text = v.to_string();
        let built = make_id(v);
        let all = [
            ("from_value", serde_json::from_value::<RequestId>(v.clone()).map_err(|e| e.to_string())),
            ("from_str", serde_json::from_str::<RequestId>(&text).map_err(|e| e.to_string())),
            ("in a message", match serde_json::from_value::<Message>(json!({ "id": v, "method": "m" })) {
                Ok(Message::Request(q)) => Ok(q.id().clone()),
                x => Err(format!("{x:?}")),
            }),
            ("in a response", match serde_json::from_str::<Message>(&json!({ "id": v, "result": 1 }).to_string()) {
                Ok(Message::Response(q)) => Ok(q.id),
                x => Err(format!("{x:?}")),
            }),
        ];
        for (how, i) in all {
            match i {
                Err(e) => cx.violation(format!("id {text} rejected {how}: {e}"), v.clone()),
                Ok(i) => {
                    if view::id_value(&i) != *v || serde_json::to_string(&i).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()).as_ref() != Some(v) {
                        cx.violation(format!("id {text} became {:?} {how}", view::id_value(&i)), v.clone());
                    }
                    if i != built || hash(&i) != hash(&built) || i.cmp(&built) != std::cmp::Ordering::Equal || i.clone() != i {
                        cx.violation(format!("id {text} {how} differs from the one built"), v.clone());
                    }
                }
            }
        }
        let shown = built.to_string();
        let ok = match v {
            Value::String(s) => {
                if s.chars().all(|c| c.is_ascii_alphanumeric() || c == ' ') {
                    shown == format!("\"{s}\"")
                } else {
                    shown.len() >= 2 && shown.starts_with('"') && shown.ends_with('"')
                }
            }
            v => shown == v.to_string(),
        };
        if !ok {
            cx.violation(format!("id {text} is displayed as {shown}"), v.clone());
        }
        ids.push((v.clone(), built));
    }
    cx.sample(|| json!(vals));
    for (a, x) in &ids {
        for (b, y) in &ids {
            cx.evt(1);
            let eq = a == b;
            let o = x.cmp(y);
            if (x == y) != eq || (o == std::cmp::Ordering::Equal) != eq || (eq && hash(x) != hash(y)) || o != y.cmp(x).reverse() || x.partial_cmp(y) != Some(o) {
                cx.violation(format!("ids {a} and {b}: equal {}, order {o:?}", x == y), json!([a, b]));
            }
            if (x.to_string() == y.to_string()) != eq && !(a.is_string() && b.is_string()) {
                cx.violation(format!("ids {a} and {b} are displayed as {x} and {y}"), json!([a, b]));
            }
        }
    }
    let mut sorted: Vec<&RequestId> = ids.iter().map(|x| &x.1).collect();
    sorted.sort();
    for (i, x) in sorted.iter().enumerate() {
        for y in &sorted[i..] {
            if x > y {
                cx.violation("the order of ids is not transitive", json!([x.to_string(), y.to_string()]));
            }
        }
    }
    let distinct: BTreeSet<String> = vals.iter().map(|v| v.to_string()).collect();
    let h: HashMap<RequestId, Value> = ids.iter().map(|(v, i)| (i.clone(), v.clone())).collect();
    let b: BTreeMap<RequestId, Value> = ids.iter().map(|(v, i)| (i.clone(), v.clone())).collect();
    if h.len() != distinct.len() || b.len() != distinct.len() {
        cx.violation(format!("{} distinct ids, {} in a hash map, {} in an ordered map", distinct.len(), h.len(), b.len()), json!(vals));
    }
    for (v, i) in &ids {
        if h.get(i) != Some(v) || b.get(i) != Some(v) {
            cx.violation(format!("id {v} is not found as a key"), v.clone());
        }
    }
    for _ in 0..20 {
        cx.evt(1);
        let v = match cx.r.below(3) {
            0 => {
                let mut n = gen::number(&mut cx.r);
                if n.as_i64().map_or(false, |i| i32::try_from(i).is_ok()) {
                    n = json!(i32::MAX as i64 + 1);
                }
                n
            }
            _ => bad_id(&mut cx.r),
        };
        // whole floats such as 3.0 are left open
        if v.as_f64().map_or(false, |f| v.is_f64() && f.fract() == 0.0) {
            continue;
        }
        for text in [v.to_string()] {
            if let Ok(i) = serde_json::from_str::<RequestId>(&text) {
                cx.violation(format!("{text} accepted as id {i}"), v.clone());
            }
            if let Ok(i) = serde_json::from_value::<RequestId>(v.clone()) {
                cx.violation(format!("{text} accepted as id {i}"), v.clone());
            }
            for m in [json!({ "id": v, "method": "m" }), json!({ "id": v, "method": "build/shutdown" }), json!({ "id": v, "result": null })] {
                if let Ok(x) = serde_json::from_str::<Message>(&m.to_string()) {
                    cx.violation(format!("{text} accepted as an id: {:?}", view(&x).json()), m);
                }
            }
        }
    }
}

fn c27(cx: &mut Cx) {
    for _ in 0..BATCH {
        cx.eval();
        let g = if cx.r.one_in(30) { view::exit() } else { view::gen_msg(&mut cx.r) };
        let r = &mut cx.r;
        let mut j = g.json.clone();
        // unknown members inside the payload
        let s = match g.view.kind {
            Kind::Request => schema::request(&g.view.method),
            Kind::Notification => schema::notification(&g.view.method),
            Kind::Response => None,
        }
        .and_then(|x| x.1);
        if let (Some(s), Some(p), true) = (s, j.get_mut("params"), g.view.variant != "Custom") {
            if r.coin() {
                schema::add_unknown(r, s, p);
            }
        }
        if let Some(Value::Object(e)) = j.get_mut("error") {
            for _ in 0..r.below(3) {
                let k = schema::unknown_name(r, ["code", "message", "data"].into_iter());
                let v = gen::value(r, 2);
                e.entry(k).or_insert(v);
            }
        }
        let known: &[&str] = match g.view.kind {
            Kind::Response => &["id", "method", "result", "error"],
            _ => &["id", "method", "params"],
        };
        for _ in 0..r.below(4) {
            let k = schema::unknown_name(r, known.iter().copied());
            let v = gen::value(r, 3);
            j.entry(k).or_insert(v);
        }
        if r.coin() {
            j.insert("jsonrpc".into(), json!("2.0"));
        }
        let v = Value::Object(j);
        let text = render(r, &v);
        cx.sig(&text);
        cx.sample(|| json!(text));
        expect(cx, &text, Some(&g.view));
        // decoded on their own; unfit params are only kept by whole messages
        let plain = g.value();
        macro_rules! own {
            ($t:ty, $view:expr) => {{
                let base = serde_json::from_value::<$t>(plain.clone()).map(|x| $view(&x)).map_err(|e| e.to_string());
                let fit = g.view.variant != "Custom" || s.is_none();
                let all = [
                    ("from_value, plain", base),
                    ("from_str", serde_json::from_str::<$t>(&text).map(|x| $view(&x)).map_err(|e| e.to_string())),
                    ("from_reader", serde_json::from_reader::<_, $t>(text.as_bytes()).map(|x| $view(&x)).map_err(|e| e.to_string())),
                    ("from_value", serde_json::from_value::<$t>(v.clone()).map(|x| $view(&x)).map_err(|e| e.to_string())),
                ];
                for (how, got) in all {
                    cx.evt(1);
                    match got {
                        Ok(got) => {
                            if let Err(d) = same(&g.view, &got) {
                                cx.violation(format!("{} decoded wrongly on its own ({how}):{d}", stringify!($t)), json!({ "text": text }));
                            }
                        }
                        Err(e) if fit => cx.violation(format!("{} not decoded on its own ({how}): {e}", stringify!($t)), json!({ "text": text })),
                        Err(_) => {}
                    }
                }
            }};
        }
        match g.view.kind {
            Kind::Request => own!(Request, view_req),
            Kind::Notification => own!(Notification, view_not),
            Kind::Response => own!(Response, |p: &Response| view(&Message::Response(p.clone()))),
        }
    }
    if cx.case % 5 == 0 {
        let mut texts = vec![];
        let mut want = vec![];
        for _ in 0..BATCH {
            let g = view::gen_msg(&mut cx.r);
            texts.push(render(&mut cx.r, &g.with_rpc()));
            want.push(g.view);
        }
        if let Some((got, j)) = over_tcp(cx, &texts) {
            cx.evt(got.len());
            cx.count("over TCP", got.len() as u64);
            if got.len() != want.len() || j != crate::io::Joined::Ok {
                cx.violation(format!("{} of {} messages delivered over TCP, join {j:?}", got.len(), want.len()), json!({ "texts": texts }));
            }
            for (i, (w, g)) in want.iter().zip(&got).enumerate() {
                if let Err(d) = same(w, g) {
                    cx.violation(format!("delivered wrongly over TCP:{d}"), json!({ "text": texts[i] }));
                    break;
                }
            }
        }
    }
}
