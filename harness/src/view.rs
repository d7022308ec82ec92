//! A library message seen through its public data, and the reference classification of JSON.
use crate::gen::{self, leak};
use crate::rng::Rng;
use crate::schema::{self, norm};
use bsp_server::{Message, Notification, Request, RequestId, Response, ResponseError};
use serde_json::{json, Map, Value};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Request,
    Notification,
    Response,
}

#[derive(Clone, PartialEq, Debug)]
pub struct View {
    pub kind: Kind,
    /// enum variant ("Custom" for custom ones, "Response")
    pub variant: String,
    pub id: Value,
    pub method: String,
    pub params: Value,
    pub result: Option<Value>,
    pub error: Option<Value>,
}

fn val<T: serde::Serialize>(t: &T) -> Value {
    serde_json::to_value(t).unwrap_or_else(|e| json!({ "unserializable": e.to_string() }))
}

pub fn id_value(id: &RequestId) -> Value {
    val(id)
}

pub fn make_id(v: &Value) -> RequestId {
    match v {
        Value::String(s) => RequestId::from(s.clone()),
        v => RequestId::from(v.as_i64().unwrap_or(0) as i32),
    }
}

pub fn view(m: &Message) -> View {
    match m {
        Message::Request(q) => view_req(q),
        Message::Notification(n) => view_not(n),
        Message::Response(p) => View {
            kind: Kind::Response,
            variant: "Response".into(),
            id: id_value(&p.id),
            method: String::new(),
            params: Value::Null,
            result: p.result.clone(),
            error: p.error.as_ref().map(|e| {
                let mut m = Map::new();
                m.insert("code".into(), json!(e.code));
                m.insert("message".into(), json!(e.message));
                if let Some(d) = &e.data {
                    m.insert("data".into(), d.clone());
                }
                Value::Object(m)
            }),
        },
    }
}

macro_rules! req_variants {
    ($m:ident) => {
        $m! { InitializeBuild BuildTargetDependencyModules DebugSessionStart BuildTargetSources TextDocumentInverseSources
              BuildTargetDependencySources BuildTargetResources BuildTargetRun BuildTargetCompile BuildTargetTest BuildTargetCleanCache }
    };
}
macro_rules! not_variants {
    ($m:ident) => {
        $m! { ShowMessage LogMessage PublishDiagnostics TaskStart TaskFinish TaskProgress BuildTargetDidChange }
    };
}

pub fn view_req(q: &Request) -> View {
    macro_rules! go {
        ($($v:ident)*) => {
            match q {
                $(Request::$v(id, p) => (stringify!($v), id, val(p)),)*
                Request::Shutdown(id) => ("Shutdown", id, Value::Null),
                Request::WorkspaceBuildTargets(id) => ("WorkspaceBuildTargets", id, Value::Null),
                Request::WorkspaceReload(id) => ("WorkspaceReload", id, Value::Null),
                Request::Custom(id, m, p) => {
                    return View { kind: Kind::Request, variant: "Custom".into(), id: id_value(id), method: m.to_string(), params: p.clone(), result: None, error: None };
                }
                #[allow(unreachable_patterns)]
                _ => ("Unknown", q.id(), Value::Null),
            }
        };
    }
    let (variant, id, params) = req_variants!(go);
    let (method, s) = schema::by_variant(true, variant).unwrap_or(("?", None));
    let params = s.map_or(Value::Null, |s| norm(s, &params));
    View { kind: Kind::Request, variant: variant.into(), id: id_value(id), method: method.into(), params, result: None, error: None }
}

pub fn view_not(n: &Notification) -> View {
    macro_rules! go {
        ($($v:ident)*) => {
            match n {
                $(Notification::$v(p) => (stringify!($v), val(p)),)*
                Notification::Exit => ("Exit", Value::Null),
                Notification::Initialized => ("Initialized", Value::Null),
                Notification::Custom(m, p) => {
                    return View { kind: Kind::Notification, variant: "Custom".into(), id: Value::Null, method: m.to_string(), params: p.clone(), result: None, error: None };
                }
                #[allow(unreachable_patterns)]
                _ => ("Unknown", Value::Null),
            }
        };
    }
    let (variant, params) = not_variants!(go);
    let (method, s) = schema::by_variant(false, variant).unwrap_or(("?", None));
    let params = s.map_or(Value::Null, |s| norm(s, &params));
    View { kind: Kind::Notification, variant: variant.into(), id: Value::Null, method: method.into(), params, result: None, error: None }
}

impl View {
    pub fn request(variant: &str, id: Value, method: &str, params: Value) -> View {
        let params = match schema::by_variant(true, variant) {
            Some((_, Some(s))) => norm(s, &params),
            Some((_, None)) => Value::Null,
            None => params,
        };
        View { kind: Kind::Request, variant: variant.into(), id, method: method.into(), params, result: None, error: None }
    }
    pub fn notification(variant: &str, method: &str, params: Value) -> View {
        let params = match schema::by_variant(false, variant) {
            Some((_, Some(s))) => norm(s, &params),
            Some((_, None)) => Value::Null,
            None => params,
        };
        View { kind: Kind::Notification, variant: variant.into(), id: Value::Null, method: method.into(), params, result: None, error: None }
    }
    pub fn response(id: Value, result: Option<Value>, error: Option<Value>) -> View {
        View { kind: Kind::Response, variant: "Response".into(), id, method: String::new(), params: Value::Null, result, error }
    }

    /// As JSON for logs and for comparing observations across processes.
    pub fn json(&self) -> Value {
        let mut m = Map::new();
        m.insert("kind".into(), json!(format!("{:?}", self.kind)));
        m.insert("variant".into(), json!(self.variant));
        if self.kind != Kind::Notification {
            m.insert("id".into(), self.id.clone());
        }
        if self.kind != Kind::Response {
            m.insert("method".into(), json!(self.method));
            m.insert("params".into(), self.params.clone());
        } else {
            m.insert("result".into(), self.result.clone().map_or(json!("(absent)"), |r| json!({ "value": r })));
            m.insert("error".into(), self.error.clone().unwrap_or(json!("(absent)")));
        }
        Value::Object(m)
    }

    /// The library message, made through constructors and payload decoding only.
    pub fn build(&self) -> Result<Message, String> {
        let id = || make_id(&self.id);
        macro_rules! req {
            ($($v:ident)*) => {
                match self.variant.as_str() {
                    $(stringify!($v) => Request::$v(id(), serde_json::from_value(self.params.clone()).map_err(|e| format!("{}: {e}", stringify!($v)))?),)*
                    "Shutdown" => Request::Shutdown(id()),
                    "WorkspaceBuildTargets" => Request::WorkspaceBuildTargets(id()),
                    "WorkspaceReload" => Request::WorkspaceReload(id()),
                    _ => Request::Custom(id(), leak(&self.method), self.params.clone()),
                }
            };
        }
        macro_rules! not {
            ($($v:ident)*) => {
                match self.variant.as_str() {
                    $(stringify!($v) => Notification::$v(serde_json::from_value(self.params.clone()).map_err(|e| format!("{}: {e}", stringify!($v)))?),)*
                    "Exit" => Notification::Exit,
                    "Initialized" => Notification::Initialized,
                    _ => Notification::Custom(leak(&self.method), self.params.clone()),
                }
            };
        }
        Ok(match self.kind {
            Kind::Request => Message::Request(req_variants!(req)),
            Kind::Notification => Message::Notification(not_variants!(not)),
            Kind::Response => Message::Response(Response {
                id: id(),
                result: self.result.clone(),
                error: self.error.as_ref().map(|e| ResponseError {
                    code: e["code"].as_i64().unwrap_or(0) as i32,
                    message: e["message"].as_str().unwrap_or("").into(),
                    data: e.get("data").cloned(),
                }),
            }),
        })
    }
}

/// The message as a client writes it (without jsonrpc), and what it means.
#[derive(Clone, Debug)]
pub struct Gen {
    pub json: Map<String, Value>,
    pub view: View,
}

impl Gen {
    pub fn value(&self) -> Value {
        Value::Object(self.json.clone())
    }
    pub fn with_rpc(&self) -> Value {
        let mut m = self.json.clone();
        m.insert("jsonrpc".into(), json!("2.0"));
        Value::Object(m)
    }
    pub fn text(&self) -> String {
        self.with_rpc().to_string()
    }
    pub fn is_exit(&self) -> bool {
        self.view.variant == "Exit"
    }
}

fn obj(fields: Vec<(&str, Value)>) -> Map<String, Value> {
    fields.into_iter().map(|(k, v)| (k.to_string(), v)).collect()
}

/// Null params may be omitted.
fn put_params(r: &mut Rng, m: &mut Map<String, Value>, p: Value) {
    if !(p.is_null() && r.coin()) {
        m.insert("params".into(), p);
    }
}

pub fn gen_request(r: &mut Rng) -> Gen {
    let id = gen::id(r);
    match r.below(6) {
        0 => {
            // custom or near-miss
            let known = schema::known_methods();
            let m = loop {
                let m = gen::method(r, &known);
                if schema::request(&m).is_none() {
                    break m;
                }
            };
            let p = gen::payload(r);
            let mut j = obj(vec![("id", id.clone()), ("method", json!(m))]);
            put_params(r, &mut j, p.clone());
            Gen { json: j, view: View::request("Custom", id, &m, p) }
        }
        1 => {
            // known, unfit params: delivered as custom
            let with: Vec<_> = schema::REQUESTS.iter().filter(|x| x.2.is_some()).collect();
            let &&(m, _, Some(s)) = r.pick(&with) else { unreachable!() };
            let p = unfit(r, s);
            let mut j = obj(vec![("id", id.clone()), ("method", json!(m))]);
            put_params(r, &mut j, p.clone());
            Gen { json: j, view: View::request("Custom", id, m, p) }
        }
        _ => {
            let i = r.below(schema::REQUESTS.len());
            typed_request(r, i, id)
        }
    }
}

/// Params that surely do not fit the schema.
pub fn unfit(r: &mut Rng, s: &'static schema::Schema) -> Value {
    let mut p = schema::gen_obj(r, s, 0);
    if r.one_in(4) || schema::corrupt(r, s, &mut p).is_none() {
        return match r.below(5) {
            0 => Value::Null,
            1 => json!("text"),
            2 => json!(3),
            3 => json!(true),
            _ => json!(2.5),
        };
    }
    p
}

pub fn typed_request(r: &mut Rng, i: usize, id: Value) -> Gen {
    let (m, v, s) = schema::REQUESTS[i % schema::REQUESTS.len()];
    let mut j = obj(vec![("id", id.clone()), ("method", json!(m))]);
    let p = match s {
        Some(s) => schema::gen_obj(r, s, 0),
        None if r.coin() => Value::Null,
        None => gen::payload(r),
    };
    put_params(r, &mut j, p.clone());
    Gen { json: j, view: View::request(v, id, m, p) }
}

pub fn typed_notification(r: &mut Rng, i: usize) -> Gen {
    let (m, v, s) = schema::NOTIFICATIONS[i % schema::NOTIFICATIONS.len()];
    let mut j = obj(vec![("method", json!(m))]);
    let p = match s {
        Some(s) => schema::gen_obj(r, s, 0),
        None if r.coin() => Value::Null,
        None => gen::payload(r),
    };
    put_params(r, &mut j, p.clone());
    Gen { json: j, view: View::notification(v, m, p) }
}

/// Any notification but build/exit.
pub fn gen_notification(r: &mut Rng) -> Gen {
    let mut g = if r.one_in(4) {
        let known = schema::known_methods();
        let m = loop {
            let m = gen::method(r, &known);
            if schema::notification(&m).is_none() {
                break m;
            }
        };
        let p = gen::payload(r);
        let mut j = obj(vec![("method", json!(m))]);
        put_params(r, &mut j, p.clone());
        Gen { json: j, view: View::notification("Custom", &m, p) }
    } else {
        let i = 1 + r.below(schema::NOTIFICATIONS.len() - 1);
        typed_notification(r, i)
    };
    if r.one_in(12) {
        g.json.insert("id".into(), Value::Null);
    }
    g
}

pub fn exit() -> Gen {
    Gen { json: obj(vec![("method", json!("build/exit"))]), view: View::notification("Exit", "build/exit", Value::Null) }
}
pub fn initialized() -> Gen {
    Gen { json: obj(vec![("method", json!("build/initialized"))]), view: View::notification("Initialized", "build/initialized", Value::Null) }
}
pub fn shutdown(id: Value) -> Gen {
    Gen { json: obj(vec![("id", id.clone()), ("method", json!("build/shutdown"))]), view: View::request("Shutdown", id, "build/shutdown", Value::Null) }
}
pub fn custom_request(id: Value, m: &str, p: Value) -> Gen {
    Gen { json: obj(vec![("id", id.clone()), ("method", json!(m)), ("params", p.clone())]), view: View::request("Custom", id, m, p) }
}
pub fn custom_notification(m: &str, p: Value) -> Gen {
    Gen { json: obj(vec![("method", json!(m)), ("params", p.clone())]), view: View::notification("Custom", m, p) }
}

pub fn gen_error(r: &mut Rng) -> Value {
    let mut e = obj(vec![("code", json!(gen::id_int(r))), ("message", json!(gen::string(r)))]);
    if r.coin() {
        let mut d = gen::payload(r);
        if d.is_null() {
            d = json!(0);
        }
        e.insert("data".into(), d);
    }
    Value::Object(e)
}

pub fn gen_response(r: &mut Rng) -> Gen {
    let id = gen::id(r);
    let mut j = obj(vec![("id", id.clone())]);
    let (mut result, mut error) = (None, None);
    match r.below(10) {
        0..=5 => {
            let v = gen::payload(r);
            j.insert("result".into(), v.clone());
            result = Some(v);
        }
        6..=8 => {
            let e = gen_error(r);
            j.insert("error".into(), e.clone());
            error = Some(e);
        }
        _ => {
            let (v, e) = (gen::value(r, 1), gen_error(r));
            j.insert("result".into(), v.clone());
            j.insert("error".into(), e.clone());
            (result, error) = (Some(v), Some(e));
        }
    }
    Gen { json: j, view: View::response(id, result, error) }
}

/// Any message but build/exit.
pub fn gen_msg(r: &mut Rng) -> Gen {
    match r.below(5) {
        0 | 1 => gen_request(r),
        2 | 3 => gen_notification(r),
        _ => gen_response(r),
    }
}

/// A message whose encoded body has about `n` bytes.
pub fn gen_sized(r: &mut Rng, n: usize) -> Gen {
    let c = *r.pick(&["x", "é", "日", "😀", "\\", "\""]);
    let unit = serde_json::to_string(c).map_or(1, |s| s.len() - 2);
    let base = 60;
    let k = n.saturating_sub(base) / unit;
    let mut s = c.repeat(k);
    for _ in 0..n.saturating_sub(base) % unit {
        s.push('y');
    }
    match r.below(3) {
        0 => custom_request(gen::id(r), "big/request", json!({ "s": s })),
        1 => custom_notification("big/notification", json!([s])),
        _ => {
            let id = gen::id(r);
            Gen { json: obj(vec![("id", id.clone()), ("result", json!(s))]), view: View::response(id, Some(json!(s)), None) }
        }
    }
}

/// Compare a view decoded by the library with the expected one.
pub fn same(want: &View, got: &View) -> Result<(), String> {
    if want == got {
        return Ok(());
    }
    let (a, b) = (want.json(), got.json());
    let mut d = String::new();
    for k in ["kind", "variant", "id", "method", "params", "result", "error"] {
        if a.get(k) != b.get(k) {
            let f = |v: Option<&Value>| short(&v.map_or("-".to_string(), |v| v.to_string()), 300);
            d += &format!(" {k}: expected {} got {};", f(a.get(k)), f(b.get(k)));
        }
    }
    Err(d)
}

pub fn short(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.into()
    } else {
        format!("{}…({} bytes)", s.chars().take(n).collect::<String>(), s.len())
    }
}
