//! C10: constructors, setters and getters of every payload type against a JSON model that the
//! monitor keeps beside the real value.
use crate::ctx::Cx;
use crate::gen;
use crate::rng::Rng;
use crate::schema::{self as s, norm, Schema};
use bsp_types::*;
use lsp_types::TextDocumentIdentifier;
use serde::Serialize;
use serde_json::{json, Map, Value};

pub fn prop(id: &str) -> Option<fn(&mut Cx)> {
    (id == "C10").then_some(c10 as fn(&mut Cx))
}

/// A random argument and the JSON it must encode to.
trait Arg: Sized {
    fn arg(r: &mut Rng) -> (Self, Value);
}
fn arg<T: Arg>(r: &mut Rng) -> (T, Value) {
    T::arg(r)
}
impl Arg for String {
    fn arg(r: &mut Rng) -> (Self, Value) {
        let s = gen::string(r);
        (s.clone(), json!(s))
    }
}
impl Arg for bool {
    fn arg(r: &mut Rng) -> (Self, Value) {
        let b = r.coin();
        (b, json!(b))
    }
}
impl Arg for usize {
    fn arg(r: &mut Rng) -> (Self, Value) {
        let v = s::gen_ty(r, &s::Code, 0);
        (v.as_u64().unwrap() as usize, v)
    }
}
impl Arg for u64 {
    fn arg(r: &mut Rng) -> (Self, Value) {
        let v = s::gen_ty(r, &s::U64, 0);
        (v.as_u64().unwrap(), v)
    }
}
impl Arg for u32 {
    fn arg(r: &mut Rng) -> (Self, Value) {
        let v = gen::u32v(r);
        (v, json!(v))
    }
}
impl Arg for Value {
    fn arg(r: &mut Rng) -> (Self, Value) {
        let v = if r.one_in(8) { Value::Null } else { gen::value(r, 2) };
        (v.clone(), v)
    }
}
impl Arg for Url {
    fn arg(r: &mut Rng) -> (Self, Value) {
        let u: Url = gen::url(r).parse().expect("generated url");
        let v = json!(u.as_str());
        (u, v)
    }
}
impl<T: Arg> Arg for Option<T> {
    fn arg(r: &mut Rng) -> (Self, Value) {
        if r.one_in(3) {
            return (None, Value::Null);
        }
        let (t, v) = T::arg(r);
        (Some(t), v)
    }
}
impl<T: Arg> Arg for Vec<T> {
    fn arg(r: &mut Rng) -> (Self, Value) {
        let n = if r.one_in(12) { r.below(30) } else { r.below(4) };
        let (a, b): (Vec<T>, Vec<Value>) = (0..n).map(|_| T::arg(r)).unzip();
        (a, Value::Array(b))
    }
}
macro_rules! arg_enum {
    ($t:ty: $($e:expr => $w:expr),*) => {
        impl Arg for $t {
            fn arg(r: &mut Rng) -> (Self, Value) {
                let n = [$($w.to_string()),*].len();
                let k = r.below(n);
                let mut i = 0;
                $( if i == k { return ($e, json!($w)); } i += 1; )*
                unreachable!("{i}")
            }
        }
    };
}
arg_enum!(MessageType: MessageType::Error => 1, MessageType::Warning => 2, MessageType::Info => 3, MessageType::Log => 4);
arg_enum!(SourceKind: SourceKind::File => 1, SourceKind::Directory => 2);
arg_enum!(TaskStatus: TaskStatus::Ok => 1, TaskStatus::Error => 2, TaskStatus::Cancelled => 3);
arg_enum!(BuildTargetEventKind: BuildTargetEventKind::Created => 1, BuildTargetEventKind::Changed => 2, BuildTargetEventKind::Deleted => 3);
impl Arg for BuildTargetTag {
    fn arg(r: &mut Rng) -> (Self, Value) {
        match r.below(8) {
            0 => (BuildTargetTag::Libary, json!("library")),
            1 => (BuildTargetTag::Application, json!("application")),
            2 => (BuildTargetTag::Test, json!("test")),
            3 => (BuildTargetTag::IntegrationTest, json!("integration-test")),
            4 => (BuildTargetTag::Benchmark, json!("benchmark")),
            5 => (BuildTargetTag::NoIDE, json!("no-ide")),
            6 => (BuildTargetTag::Manual, json!("manual")),
            _ => {
                let x = gen::string(r);
                if r.coin() {
                    (BuildTargetTag::custom(x.clone()), json!(x))
                } else {
                    (BuildTargetTag::custom(x.as_str()), json!(x))
                }
            }
        }
    }
}
impl Arg for TaskDataKind {
    fn arg(r: &mut Rng) -> (Self, Value) {
        match r.below(8) {
            0 => (TaskDataKind::CompileTask, json!("compile-task")),
            1 => (TaskDataKind::CompileReport, json!("compile-report")),
            2 => (TaskDataKind::TestTask, json!("test-task")),
            3 => (TaskDataKind::TestReport, json!("test-report")),
            4 => (TaskDataKind::TestStart, json!("test-start")),
            5 => (TaskDataKind::TestFinish, json!("test-finish")),
            6 => (TaskDataKind::None, Value::Null),
            _ => {
                let x = gen::string(r);
                (TaskDataKind::Custom(x.clone()), json!(x))
            }
        }
    }
}
impl Arg for TextDocumentIdentifier {
    fn arg(r: &mut Rng) -> (Self, Value) {
        let (u, v) = Url::arg(r);
        (TextDocumentIdentifier { uri: u }, json!({ "uri": v }))
    }
}
impl Arg for TaskId {
    fn arg(r: &mut Rng) -> (Self, Value) {
        let (id, v) = String::arg(r);
        match r.below(4) {
            0 => (TaskId::from(id), json!({ "id": v })),
            1 => (TaskId::from(id.as_str()), json!({ "id": v })),
            _ => {
                let (p, pv) = Vec::<String>::arg(r);
                (TaskId::new(id, p), json!({ "id": v, "parents": pv }))
            }
        }
    }
}
macro_rules! arg_provider {
    ($($t:ident)*) => { $(impl Arg for $t {
        fn arg(r: &mut Rng) -> (Self, Value) {
            let (l, v) = arg(r);
            ($t { language_ids: l }, json!({ "languageIds": v }))
        }
    })* };
}
arg_provider!(CompileProvider TestProvider RunProvider DebugProvider);

/// A value under test with its model.
struct Sut<'a, T> {
    cx: &'a mut Cx,
    name: &'static str,
    schema: &'static Schema,
    v: T,
    m: Map<String, Value>,
    ops: Vec<String>,
}

impl<T: Serialize> Sut<'_, T> {
    fn fail(&mut self, msg: String) {
        let d = json!({ "type": self.name, "operations": self.ops, "model": self.m, "encoded": serde_json::to_value(&self.v).ok() });
        self.cx.violation(format!("{}: {msg}", self.name), d);
    }
    /// Encoding must be the model, as a value and as text.
    fn encoded(&mut self) {
        self.cx.evt(1);
        let want = norm(self.schema, &Value::Object(self.m.clone()));
        match serde_json::to_value(&self.v) {
            Err(e) => self.fail(format!("does not encode: {e}")),
            Ok(g) => {
                let got = norm(self.schema, &g);
                if got != want {
                    // the first differing member
                    let k = self.schema.fields.iter().map(|f| f.0).find(|k| got.get(k) != want.get(k)).unwrap_or("?");
                    let (a, b) = (got.get(k).cloned().unwrap_or_default(), want.get(k).cloned().unwrap_or_default());
                    self.fail(format!("member {k} encodes as {a} instead of {b} after {}", self.ops.last().cloned().unwrap_or_default()));
                    // go on from what is there, to look at other members
                    if let Value::Object(o) = g {
                        self.m = o;
                    }
                } else if serde_json::to_string(&self.v).ok() != serde_json::to_string(&g).ok() && self.text_value().as_ref() != Some(&reparse(&g)) {
                    self.fail("encodes differently as text and as a value".into());
                }
            }
        }
    }
    fn text_value(&self) -> Option<Value> {
        serde_json::to_string(&self.v).ok().and_then(|s| serde_json::from_str(&s).ok())
    }
    fn getter(&mut self, fname: &str, member: &str, got: Value) {
        self.cx.evt(1);
        let full = norm(self.schema, &Value::Object(self.m.clone()));
        let want = full.get(member).cloned().unwrap_or(Value::Null);
        // nested defaults
        let one = norm(self.schema, &json!({ member: got.clone() }));
        let g = one.get(member).cloned().unwrap_or(Value::Null);
        if g != want && got != want {
            self.fail(format!("{fname}() returns {got}, but {member} encodes as {want}"));
        }
    }
}

fn reparse(v: &Value) -> Value {
    serde_json::to_string(v).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_default()
}

/// Mutate a vector through a `*_mut` accessor, and the model's array in the same way.
fn poke<A: Arg>(r: &mut Rng, v: &mut Vec<A>, m: &mut Value) {
    let Value::Array(a) = m else { return };
    match r.below(4) {
        0 => {
            v.pop();
            a.pop();
        }
        1 => {
            let (x, j) = A::arg(r);
            v.insert(0, x);
            a.insert(0, j);
        }
        2 if r.coin() => {
            v.clear();
            a.clear();
        }
        _ => {
            let (x, j) = A::arg(r);
            v.push(x);
            a.push(j);
        }
    }
}

type Set<T> = (&'static str, &'static str, fn(&mut T, &mut Rng, &Value) -> Value);
type Get<T> = (&'static str, &'static str, fn(&T) -> Value);

macro_rules! set { ($($f:ident = $m:literal),* $(,)?) => { &[$((stringify!($f), $m, |v, r, _| { let (a, j) = arg(r); v.$f(a); j })),*] }; }
macro_rules! field { ($($f:ident = $m:literal),* $(,)?) => { &[$((stringify!($f), $m, |v, r, _| { let (a, j) = arg(r); v.$f = a; j })),*] }; }
macro_rules! vecmut { ($($f:ident = $m:literal),* $(,)?) => { &[$((stringify!($f), $m, |v, r, cur| { let mut j = cur.clone(); poke(r, v.$f(), &mut j); j })),*] }; }
macro_rules! get { ($($f:ident = $m:literal),* $(,)?) => { &[$((stringify!($f), $m, |v| serde_json::to_value(v.$f()).unwrap_or(json!("unencodable")))),*] }; }
macro_rules! getf { ($($f:ident = $m:literal),* $(,)?) => { &[$((stringify!($f), $m, |v| serde_json::to_value(&v.$f).unwrap_or(json!("unencodable")))),*] }; }

/// Drive one value through a random history of sets; all getters are read after every step.
fn drive<T: Serialize>(
    cx: &mut Cx,
    name: &'static str,
    schema: &'static Schema,
    how: &str,
    (v, m): (T, Value),
    sets: &[&[Set<T>]],
    gets: &[Get<T>],
    extra: fn(&T, &Value) -> Option<String>,
) {
    cx.eval();
    let Value::Object(m) = m else { unreachable!() };
    let mut t = Sut { cx, name, schema, v, m, ops: vec![format!("{how}")] };
    let all: Vec<&Set<T>> = sets.iter().flat_map(|x| x.iter()).collect();
    let steps = if all.is_empty() { 0 } else { t.cx.r.below(1 + 2 * all.len()) };
    t.encoded();
    for step in 0..=steps {
        for g in gets {
            let got = (g.2)(&t.v);
            t.getter(g.0, g.1, got);
        }
        if let Some(e) = extra(&t.v, &norm(schema, &Value::Object(t.m.clone()))) {
            t.fail(e);
        }
        if t.cx.violations > 0 || step == steps {
            break;
        }
        let s = *t.cx.r.pick(&all);
        let cur = norm(schema, &Value::Object(t.m.clone())).get(s.1).cloned().unwrap_or(json!([]));
        let j = {
            let mut r = t.cx.r.fork();
            (s.2)(&mut t.v, &mut r, &cur)
        };
        t.ops.push(format!("{}({})", s.0, crate::view::short(&j.to_string(), 200)));
        t.m.insert(s.1.into(), j);
        t.encoded();
    }
    // Reading must not have changed anything.
    t.encoded();
    let ops: Vec<String> = t.ops.iter().map(|o| o.split('(').next().unwrap().to_string()).collect();
    let nops = t.ops.len() as u64;
    t.cx.sig(&format!("{name}:{}", ops.join(",")));
    t.cx.count("operations", nops);
    t.cx.count(name, 1);
    let (o, mm) = (t.ops.clone(), t.m.clone());
    t.cx.sample(|| json!({ "type": name, "operations": o, "model": mm }));
}

fn none<T>(_: &T, _: &Value) -> Option<String> {
    None
}

/// `arg!(r; a = "x", b = "y")`: bind arguments and collect the model.
macro_rules! args {
    ($r:expr; $m:ident; $($a:ident = $n:literal),*) => { $(let (__v, __j) = arg($r); let $a = __v; $m.insert($n.to_string(), __j);)* };
}
macro_rules! build {
    ($r:expr; ($($a:ident = $n:literal),*) $e:expr) => {{ let mut m: Map<String, Value> = Map::new(); args!($r; m; $($a = $n),*); ($e, Value::Object(m)) }};
}
/// Types that other constructors take as arguments.
macro_rules! arg_new {
    ($($t:ident ($($a:ident = $n:literal),*);)*) => { $(impl Arg for $t {
        fn arg(r: &mut Rng) -> (Self, Value) { build!(r; ($($a = $n),*) $t::new($($a),*)) }
    })* };
}
arg_new! {
    BuildTargetIdentifier(uri = "uri");
    ClientCapabilities(l = "languageIds");
    BuildTargetCapabilities(a = "canCompile", b = "canTest", c = "canRun", d = "canDebug");
    Sources(u = "uri", k = "kind", g = "generated");
    SourcesCollection(t = "target", s = "sources");
    Resources(t = "target", s = "resources");
    DependencyModulesItem(t = "target", m = "modules");
}
impl Arg for DependencyModule {
    fn arg(r: &mut Rng) -> (Self, Value) {
        match r.below(3) {
            0 => build!(r; (n = "name", v = "version") DependencyModule::new_simple(n, v)),
            _ => build!(r; (n = "name", v = "version", k = "dataKind", d = "data") DependencyModule::new(n, v, k, d)),
        }
    }
}
impl Arg for BuildTargetEvent {
    fn arg(r: &mut Rng) -> (Self, Value) {
        match r.below(3) {
            0 => build!(r; (t = "target") BuildTargetEvent::new_simple(t)),
            _ => build!(r; (t = "target", k = "kind", d = "data") BuildTargetEvent::new(t, k, d)),
        }
    }
}
impl Arg for BuildTarget {
    fn arg(r: &mut Rng) -> (Self, Value) {
        match r.below(3) {
            0 => build!(r; (i = "id", t = "tags", c = "capabilities", l = "languageIds", d = "dependencies") BuildTarget::new_simple(i, t, c, l, d)),
            _ => build!(r; (i = "id", n = "displayName", b = "baseDirectory", t = "tags", c = "capabilities", l = "languageIds", d = "dependencies")
                BuildTarget::new(i, n, b, t, c, l, d)),
        }
    }
}
impl Arg for ServerCapabilities {
    fn arg(r: &mut Rng) -> (Self, Value) {
        let mut v = ServerCapabilities::default();
        let mut m = Map::new();
        for s in SERVER_CAPS {
            if r.coin() {
                let j = (s.2)(&mut v, r, &Value::Null);
                m.insert(s.1.into(), j);
            }
        }
        (v, Value::Object(m))
    }
}
const SERVER_CAPS: &[Set<ServerCapabilities>] = set![
    set_compile_provider = "compileProvider", set_test_provider = "testProvider", set_run_provider = "runProvider",
    set_debug_provider = "debugProvider", set_inverse_sources_provider = "inverseSourcesProvider",
    set_dependency_sources_provider = "dependencySourcesProvider", set_dependency_modules_provider = "dependencyModulesProvider",
    set_resources_provider = "resourcesProvider", set_can_reload = "canReload", set_build_target_changed_provider = "buildTargetChangedProvider",
];

/// Only for payloads whose sole content is target or document identifiers: normal URLs.
fn targets(r: &mut Rng) -> (Vec<Value>, Value) {
    let (_, v) = Vec::<BuildTargetIdentifier>::arg(r);
    (v.as_array().cloned().unwrap(), json!({ "targets": v }))
}

const TYPES: usize = 37;

fn one(cx: &mut Cx, k: usize) {
    let mut rr = cx.r.fork();
    let r = &mut rr;
    match k {
        0 => {
            let x = arg::<BuildTargetCapabilities>(r);
            let x = if r.one_in(5) { (BuildTargetCapabilities::default(), json!({"canCompile": false, "canTest": false, "canRun": false, "canDebug": false})) } else { x };
            drive(cx, "BuildTargetCapabilities", &s::TARGET_CAPS, "new", x,
                &[set![set_can_compile = "canCompile", set_can_test = "canTest", set_can_run = "canRun", set_can_debug = "canDebug"]],
                get![can_compile = "canCompile", can_test = "canTest", can_run = "canRun", can_debug = "canDebug"], none);
        }
        1 => {
            let (_, m) = targets(r);
            let Ok(v) = serde_json::from_value::<BuildTargetCleanCache>(m.clone()) else {
                return cx.violation("BuildTargetCleanCache does not decode", m);
            };
            drive(cx, "BuildTargetCleanCache", &s::TARGETS, "decoded", (v, m),
                &[set![set_targets = "targets"], vecmut![targets_mut = "targets"]], get![targets = "targets"], |v, m| {
                    let e = m["targets"] == json!([]);
                    (v.is_empty() != e).then(|| format!("is_empty() returns {}", v.is_empty()))
                });
        }
        2 => {
            let x = match r.below(2) {
                0 => build!(r; (c = "cleaned") BuildTargetCleanCacheResult::new_simple(c)),
                _ => build!(r; (m = "message", c = "cleaned") BuildTargetCleanCacheResult::new(m, c)),
            };
            drive(cx, "BuildTargetCleanCacheResult", &s::CLEAN_RESULT, "new", x,
                &[set![set_cleaned = "cleaned", set_message = "message"]], get![cleaned = "cleaned", message = "message"], none);
        }
        3 => {
            let x = match r.below(2) {
                0 => build!(r; (t = "target") BuildTargetCompile::new_simple(t)),
                _ => build!(r; (t = "target", o = "originId", a = "arguments") BuildTargetCompile::new(t, o, a)),
            };
            drive(cx, "BuildTargetCompile", &s::COMPILE, "new", x,
                &[set![set_target = "target", set_origin_id = "originId", set_arguments = "arguments"]],
                get![target = "target", origin_id = "originId", arguments = "arguments"], none);
        }
        4 => {
            let x = match r.below(2) {
                0 => build!(r; (c = "statusCode") BuildTargetCompileResult::new_simple(c)),
                _ => build!(r; (o = "originId", c = "statusCode", k = "dataKind", d = "data") BuildTargetCompileResult::new(o, c, k, d)),
            };
            drive(cx, "BuildTargetCompileResult", &s::CODE_DATA_RESULT, "new", x,
                &[set![set_origin_id = "originId", set_status_code = "statusCode", set_data_kind = "dataKind", set_data = "data"]],
                get![origin_id = "originId", status_code = "statusCode", data_kind = "dataKind", data = "data"], none);
        }
        5 => {
            let (_, m) = targets(r);
            let Ok(v) = serde_json::from_value::<BuildTargetDependencyModules>(m.clone()) else {
                return cx.violation("BuildTargetDependencyModules does not decode", m);
            };
            drive(cx, "BuildTargetDependencyModules", &s::TARGETS, "decoded", (v, m),
                &[set![set_targets = "targets"], vecmut![targets_mut = "targets"]], get![targets = "targets"], |v, m| {
                    let e = m["targets"] == json!([]);
                    (v.is_empty() != e).then(|| format!("is_empty() returns {}", v.is_empty()))
                });
        }
        6 => {
            let x = match r.below(4) {
                0 => (BuildTargetDependencyModulesResult::default(), json!({ "items": [] })),
                _ => build!(r; (i = "items") BuildTargetDependencyModulesResult::new(i)),
            };
            drive(cx, "BuildTargetDependencyModulesResult", &s::MODULES_RESULT, "new", x, &[vecmut![items_mut = "items"]], get![items = "items"], none);
        }
        7 => {
            let x = arg::<DependencyModulesItem>(r);
            drive(cx, "DependencyModulesItem", &s::MODULES_ITEM, "new", x, &[set![set_modules = "modules"]], get![target = "target", modules = "modules"], none);
        }
        8 => {
            let x = if r.one_in(5) { (DependencyModule::default(), json!({ "name": "", "version": "" })) } else { arg::<DependencyModule>(r) };
            drive(cx, "DependencyModule", &s::MODULE, "new", x,
                &[set![set_name = "name", set_version = "version", set_data_kind = "dataKind"]],
                get![name = "name", version = "version", data_kind = "dataKind"], none);
        }
        9 => {
            let x = build!(r; (d = "textDocument") BuildTargetDependencySources::new(d));
            drive(cx, "BuildTargetDependencySources", &s::DOC, "new", x, &[set![set_text_document = "textDocument"]], get![text_document = "textDocument"], none);
        }
        10 => {
            let (t, tv) = BuildTargetIdentifier::arg(r);
            let (src, sv) = Vec::<String>::arg(r);
            let _ = (t, src);
            let m = json!({ "target": tv, "sources": sv });
            let Ok(v) = serde_json::from_value::<DependencySourcesItem>(m.clone()) else {
                return cx.violation("DependencySourcesItem does not decode", m);
            };
            drive(cx, "DependencySourcesItem", &s::DEP_SOURCES_ITEM, "decoded", (v, m),
                &[set![set_target = "target", set_sources = "sources"]], get![target = "target", sources = "sources"], none);
        }
        11 => {
            let x = match r.below(3) {
                0 => (BuildTargetDidChange::default(), json!({ "changes": [] })),
                _ => build!(r; (c = "changes") BuildTargetDidChange { changes: c }),
            };
            drive(cx, "BuildTargetDidChange", &s::DID_CHANGE, "built", x, &[field![changes = "changes"]], getf![changes = "changes"], none);
        }
        12 => {
            let x = arg::<BuildTargetEvent>(r);
            drive(cx, "BuildTargetEvent", &s::TARGET_EVENT, "new", x,
                &[field![target = "target", kind = "kind", data = "data"]], getf![target = "target", kind = "kind", data = "data"], none);
        }
        13 => {
            let x = arg::<BuildTargetIdentifier>(r);
            drive(cx, "BuildTargetIdentifier", &s::TARGET_ID, "new", x, &[set![set_uri = "uri"]], get![uri = "uri"], none);
        }
        14 => {
            let x = build!(r; (d = "textDocument") TextDocumentInverseSources::new(d));
            drive(cx, "TextDocumentInverseSources", &s::DOC, "new", x, &[set![set_text_document = "textDocument"]], get![text_document = "textDocument"], none);
        }
        15 => {
            let x = build!(r; (t = "targets") BuildTargetResources::new(t));
            drive(cx, "BuildTargetResources", &s::TARGETS, "new", x,
                &[set![set_targets = "targets"], vecmut![targets_mut = "targets"]], get![targets = "targets"], none);
        }
        16 => {
            let x = match r.below(4) {
                0 => (BuildTargetResourcesResult::default(), json!({ "items": [] })),
                _ => build!(r; (i = "items") BuildTargetResourcesResult::new(i)),
            };
            drive(cx, "BuildTargetResourcesResult", &s::RESOURCES_RESULT, "new", x, &[vecmut![items_mut = "items"]], get![items = "items"], none);
        }
        17 => {
            let x = arg::<Resources>(r);
            drive(cx, "Resources", &s::RESOURCES_ITEM, "new", x,
                &[set![set_target = "target", set_resources = "resources"]], get![target = "target", resources = "resources"], none);
        }
        18 => {
            let x = match r.below(2) {
                0 => build!(r; (t = "target") BuildTargetRun::new_simple(t)),
                _ => build!(r; (t = "target", o = "originId", a = "arguments", k = "dataKind", d = "data") BuildTargetRun::new(t, o, a, k, d)),
            };
            drive(cx, "BuildTargetRun", &s::RUN, "new", x,
                &[set![set_target = "target", set_origin_id = "originId", set_arguments = "arguments", set_data_kind = "dataKind", set_data = "data"]],
                get![target = "target", origin_id = "originId", arguments = "arguments", data_kind = "dataKind", data = "data"], none);
        }
        19 => {
            let x = build!(r; (o = "originId", c = "statusCode") BuildTargetRunResult::new(o, c));
            drive(cx, "BuildTargetRunResult", &s::CODE_RESULT, "new", x,
                &[set![set_origin_id = "originId", set_status_code = "statusCode"]], get![origin_id = "originId", status_code = "statusCode"], none);
        }
        20 => {
            let x = match r.below(4) {
                0 => (BuildTargetSources::default(), json!({ "targets": [] })),
                _ => build!(r; (t = "targets") BuildTargetSources::new(t)),
            };
            drive(cx, "BuildTargetSources", &s::TARGETS, "new", x, &[set![set_targets = "targets"]], get![targets = "targets"], none);
        }
        21 => {
            let x = match r.below(4) {
                0 => (BuildTargetSourcesResult::default(), json!({ "items": [] })),
                _ => build!(r; (i = "items") BuildTargetSourcesResult::new(i)),
            };
            drive(cx, "BuildTargetSourcesResult", &s::SOURCES_RESULT, "new", x, &[set![set_items = "items"]], get![items = "items"], none);
        }
        22 => {
            let x = arg::<SourcesCollection>(r);
            drive(cx, "SourcesCollection", &s::SOURCES_ITEM, "new", x,
                &[set![set_target = "target", set_sources = "sources"]], get![target = "target", sources = "sources"], none);
        }
        23 => {
            let x = arg::<Sources>(r);
            drive(cx, "Sources", &s::SOURCE, "new", x,
                &[set![set_uri = "uri", set_kind = "kind", set_generated = "generated"]], get![uri = "uri", kind = "kind", generated = "generated"], none);
        }
        24 => {
            let x = match r.below(2) {
                0 => build!(r; (t = "target") BuildTargetTest::new_simple(t)),
                _ => build!(r; (t = "target", o = "originId", a = "arguments", k = "dataKind", d = "data") BuildTargetTest::new(t, o, a, k, d)),
            };
            drive(cx, "BuildTargetTest", &s::RUN, "new", x,
                &[set![set_target = "target", set_origin_id = "originId", set_arguments = "arguments", set_data_kind = "dataKind", set_data = "data"]],
                get![target = "target", origin_id = "originId", arguments = "arguments", data_kind = "dataKind", data = "data"], none);
        }
        25 => {
            let x = match r.below(2) {
                0 => build!(r; (c = "statusCode") BuildTargetTestResult::new_simple(c)),
                _ => build!(r; (o = "originId", c = "statusCode", k = "dataKind", d = "data") BuildTargetTestResult::new(o, c, k, d)),
            };
            drive(cx, "BuildTargetTestResult", &s::CODE_DATA_RESULT, "new", x,
                &[set![set_origin_id = "originId", set_status_code = "statusCode", set_data_kind = "dataKind", set_data = "data"]],
                get![origin_id = "originId", status_code = "statusCode", data_kind = "dataKind", data = "data"], none);
        }
        26 => {
            let x = if r.one_in(5) { (ClientCapabilities::default(), json!({ "languageIds": [] })) } else { arg::<ClientCapabilities>(r) };
            drive(cx, "ClientCapabilities", &s::CLIENT_CAPS, "new", x,
                &[set![set_language_ids = "languageIds"], vecmut![language_ids_mut = "languageIds"]], get![language_ids = "languageIds"], none);
        }
        27 => {
            let x = match r.below(4) {
                0 => (DebugSessionStart::default(), json!({ "targets": [], "dataKind": "" })),
                _ => build!(r; (t = "targets", k = "dataKind", d = "data") DebugSessionStart::new(t, k, d)),
            };
            drive(cx, "DebugSessionStart", &s::DEBUG_START, "new", x,
                &[set![set_targets = "targets", set_data_kind = "dataKind", set_data = "data"]],
                get![targets = "targets", data_kind = "dataKind", data = "data"], none);
        }
        28 => {
            let x = build!(r; (u = "uri") DebugSessionStartResult::new(u));
            drive(cx, "DebugSessionStartResult", &s::DEBUG_RESULT, "new", x, &[], &[], none);
        }
        29 => {
            let x = match r.below(3) {
                0 => build!(r; (n = "displayName", v = "version", b = "bspVersion", u = "rootUri", c = "capabilities")
                    InitializeBuild::new_simple::<String>(n, v, b, u, c)),
                1 => {
                    let ((n, nv), (v, vv), (b, bv)) = (String::arg(r), String::arg(r), String::arg(r));
                    let ((u, uv), (c, cv), (d, dv)) = (Url::arg(r), ClientCapabilities::arg(r), Value::arg(r));
                    (InitializeBuild::new(n.as_str(), v.as_str(), b.as_str(), u, c, d),
                     json!({"displayName": nv, "version": vv, "bspVersion": bv, "rootUri": uv, "capabilities": cv, "data": dv}))
                }
                _ => build!(r; (n = "displayName", v = "version", b = "bspVersion", u = "rootUri", c = "capabilities", d = "data")
                    InitializeBuild::new::<String>(n, v, b, u, c, d)),
            };
            drive(cx, "InitializeBuild", &s::INITIALIZE, "new", x,
                &[set![set_data = "data", set_capabilities = "capabilities", set_root_uri = "rootUri", set_bsp_version = "bspVersion",
                       set_version = "version", set_display_name = "displayName"]],
                get![data = "data", capabilities = "capabilities", root_uri = "rootUri", bsp_version = "bspVersion", version = "version", display_name = "displayName"], none);
        }
        30 => {
            let x = match r.below(4) {
                0 => (InitializeBuildResult::default(), json!({"displayName": "", "version": "", "bspVersion": "", "capabilities": {}})),
                1 => build!(r; (n = "displayName", v = "version", b = "bspVersion", c = "capabilities") InitializeBuildResult::new_simple::<String>(n, v, b, c)),
                _ => build!(r; (n = "displayName", v = "version", b = "bspVersion", c = "capabilities", d = "data") InitializeBuildResult::new::<String>(n, v, b, c, d)),
            };
            drive(cx, "InitializeBuildResult", &s::INITIALIZE_RESULT, "new", x,
                &[set![set_data = "data", set_capabilities = "capabilities", set_bsp_version = "bspVersion", set_version = "version", set_display_name = "displayName"],
                  &[("data_mut", "data", |v, r, _| { let (a, j) = arg(r); *v.data_mut() = a; j })]],
                get![data = "data", capabilities = "capabilities", bsp_version = "bspVersion", version = "version", display_name = "displayName"], none);
        }
        31 => {
            let x = arg::<ServerCapabilities>(r);
            drive(cx, "ServerCapabilities", &s::SERVER_CAPS, "default", x, &[SERVER_CAPS],
                get![compile_provider = "compileProvider", test_provider = "testProvider", run_provider = "runProvider", debug_provider = "debugProvider",
                     inverse_sources_provider = "inverseSourcesProvider", dependency_sources_provider = "dependencySourcesProvider",
                     dependency_modules_provider = "dependencyModulesProvider", resources_provider = "resourcesProvider", can_reload = "canReload",
                     build_target_changed_provider = "buildTargetChangedProvider"], none);
        }
        32 => {
            // the shortcuts fix the type
            let kind = r.below(6);
            let x = match kind {
                0 => (LogMessage::default(), json!({ "type": 4, "message": "" })),
                1 => build!(r; (t = "type", m = "message", k = "task", o = "originId") LogMessage::new::<String>(t, m, k, o)),
                _ => {
                    let (v, mut m) = match kind {
                        2 => build!(r; (m = "message", k = "task", o = "originId") LogMessage::info::<String>(m, k, o)),
                        3 => build!(r; (m = "message", k = "task", o = "originId") LogMessage::log::<String>(m, k, o)),
                        4 => build!(r; (m = "message", k = "task", o = "originId") LogMessage::warn::<String>(m, k, o)),
                        _ => build!(r; (m = "message", k = "task", o = "originId") LogMessage::error::<String>(m, k, o)),
                    };
                    m["type"] = json!([3, 4, 2, 1][kind - 2]);
                    (v, m)
                }
            };
            drive(cx, "LogMessage", &s::MESSAGE, ["default", "new", "info", "log", "warn", "error"][kind], x,
                &[field![typ = "type", message = "message", task = "task", origin_id = "originId"]],
                getf![typ = "type", message = "message", task = "task", origin_id = "originId"], none);
        }
        33 => {
            let kind = r.below(6);
            let x = match kind {
                0 => (ShowMessage::default(), json!({ "type": 4, "message": "" })),
                1 => build!(r; (t = "type", m = "message", k = "task", o = "originId") ShowMessage::new::<String>(t, m, k, o)),
                _ => {
                    let (v, mut m) = match kind {
                        2 => build!(r; (m = "message", k = "task", o = "originId") ShowMessage::info::<String>(m, k, o)),
                        3 => build!(r; (m = "message", k = "task", o = "originId") ShowMessage::log::<String>(m, k, o)),
                        4 => build!(r; (m = "message", k = "task", o = "originId") ShowMessage::warn::<String>(m, k, o)),
                        _ => build!(r; (m = "message", k = "task", o = "originId") ShowMessage::error::<String>(m, k, o)),
                    };
                    m["type"] = json!([3, 4, 2, 1][kind - 2]);
                    (v, m)
                }
            };
            drive(cx, "ShowMessage", &s::MESSAGE, ["default", "new", "info", "log", "warn", "error"][kind], x,
                &[field![typ = "type", message = "message", task = "task", origin_id = "originId"]],
                getf![typ = "type", message = "message", task = "task", origin_id = "originId"], none);
        }
        34 => {
            let x = if r.one_in(6) { (TaskId::default(), json!({ "id": "" })) } else { arg::<TaskId>(r) };
            drive(cx, "TaskId", &s::TASK_ID, "new", x, &[&[("add_parent", "parents", |v: &mut TaskId, r, cur| {
                let (a, j) = String::arg(r);
                v.add_parent(a);
                let mut c = cur.as_array().cloned().unwrap_or_default();
                c.push(j);
                Value::Array(c)
            })]], &[], none);
        }
        35 => match r.below(3) {
            0 => {
                let (t, tv) = TaskId::arg(r);
                let x = match r.below(3) {
                    0 => (TaskStart::default(), json!({})),
                    1 => (TaskStart::new(t), json!({ "taskId": tv })),
                    _ => {
                        let (i, iv) = String::arg(r);
                        (if r.coin() { TaskStart::new(i) } else { TaskStart::new(i.as_str()) }, json!({ "taskId": { "id": iv } }))
                    }
                };
                drive(cx, "TaskStart", &s::TASK_START, "new", x,
                    &[field![task_id = "taskId", event_time = "eventTime", message = "message", data_kind = "dataKind", data = "data"]],
                    getf![task_id = "taskId", event_time = "eventTime", message = "message", data_kind = "dataKind", data = "data"],
                    |v, m| (v.data_kind.is_none() != m.get("dataKind").is_none()).then(|| "data_kind.is_none() is wrong".into()));
            }
            1 => {
                let (t, tv) = TaskId::arg(r);
                let x = match r.below(3) {
                    0 => (TaskFinish::default(), json!({})),
                    _ => (TaskFinish::new(t), json!({ "taskId": tv })),
                };
                drive(cx, "TaskFinish", &s::TASK_FINISH, "new", x,
                    &[field![task_id = "taskId", event_time = "eventTime", message = "message", status = "status", data_kind = "dataKind", data = "data"]],
                    getf![task_id = "taskId", event_time = "eventTime", message = "message", status = "status", data_kind = "dataKind", data = "data"],
                    |v, m| {
                        let is = (v.status.is_ok(), v.status.is_error(), v.status.is_cancelled());
                        let n = m["status"].as_u64();
                        (is != (n == Some(1), n == Some(2), n == Some(3))).then(|| format!("status {n:?} reports (is_ok, is_error, is_cancelled) = {is:?}"))
                    });
            }
            _ => {
                let x = (TaskProgress::default(), json!({}));
                drive(cx, "TaskProgress", &s::TASK_PROGRESS, "default", x,
                    &[field![task_id = "taskId", event_time = "eventTime", message = "message", total = "total", progress = "progress", unit = "unit",
                             data_kind = "dataKind", data = "data"]],
                    getf![task_id = "taskId", event_time = "eventTime", message = "message", total = "total", progress = "progress", unit = "unit",
                          data_kind = "dataKind", data = "data"], none);
            }
        },
        _ => match r.below(3) {
            0 => {
                let x = arg::<BuildTarget>(r);
                drive(cx, "BuildTarget", &s::BUILD_TARGET, "new", x,
                    &[field![id = "id", display_name = "displayName", base_directory = "baseDirectory", tags = "tags", capabilities = "capabilities",
                             language_ids = "languageIds", dependencies = "dependencies"]],
                    getf![id = "id", display_name = "displayName", base_directory = "baseDirectory", tags = "tags", capabilities = "capabilities",
                          language_ids = "languageIds", dependencies = "dependencies"], none);
            }
            1 => {
                let x = match r.below(4) {
                    0 => (WorkspaceBuildTargetsResult::default(), json!({ "targets": [] })),
                    1 => {
                        let (t, j) = BuildTarget::arg(r);
                        (WorkspaceBuildTargetsResult::from(t), json!({ "targets": [j] }))
                    }
                    _ => build!(r; (t = "targets") WorkspaceBuildTargetsResult::new(t)),
                };
                drive(cx, "WorkspaceBuildTargetsResult", &s::WORKSPACE_TARGETS_RESULT, "new", x, &[field![targets = "targets"]], getf![targets = "targets"], none);
            }
            _ => {
                let (a, j) = match r.below(4) {
                    0 => (serde_json::to_value(CompileProvider::default()), json!({ "languageIds": [] })),
                    1 => { let (v, j) = CompileProvider::arg(r); (serde_json::to_value(v), j) }
                    2 => { let (v, j) = TestProvider::arg(r); (serde_json::to_value(v), j) }
                    _ => { let (v, j) = DebugProvider::arg(r); (serde_json::to_value(v), j) }
                };
                cx.eval();
                cx.evt(1);
                if a.as_ref().ok() != Some(&j) {
                    cx.violation("a provider encodes wrongly", json!({ "expected": j, "got": a.ok() }));
                }
                let all = [
                    (serde_json::to_value(MessageType::default()).ok(), json!(4)),
                    (serde_json::to_value(SourceKind::default()).ok(), json!(1)),
                    (serde_json::to_value(TaskStatus::default()).ok(), json!(1)),
                    (serde_json::to_value(BuildTargetTag::default()).ok(), json!("no-ide")),
                    (serde_json::to_value(BuildTargetEventKind::default()).ok(), json!(1)),
                ];
                for (got, want) in all {
                    if got.as_ref() != Some(&want) {
                        cx.violation("an enumeration's default changed", json!({ "expected": want, "got": got }));
                    }
                }
            }
        },
    }
}

fn c10(cx: &mut Cx) {
    let start = cx.r.below(TYPES);
    for i in 0..TYPES {
        one(cx, (start + i) % TYPES);
        if cx.violations > 0 {
            return;
        }
    }
}
