//! Tables of the protocol's payloads, written from the BSP specification as this library
//! models it. They are the oracle for C06-C09 and the generator of conforming payloads.
use crate::gen;
use crate::rng::Rng;
use serde_json::{json, Map, Value};

#[derive(Clone, Copy)]
pub enum Ty {
    Str,
    Url,
    Bool,
    U32,
    U64,
    /// usize status codes (any non-negative number)
    Code,
    Any,
    /// closed enumeration
    Enum(&'static [u64]),
    /// enumeration of lsp-types, whose other numbers are kept
    Open(&'static [u64]),
    Obj(&'static Schema),
    Arr(&'static Ty),
    DataKind,
    Tag,
    NumOrStr,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Need {
    /// must be present
    Req,
    /// may be absent or null
    Opt,
    /// may be absent, then stands for this JSON text; must not be null
    Def(&'static str),
}
pub use Need::*;
pub use Ty::*;

pub struct Field(pub &'static str, pub Ty, pub Need);
pub struct Schema {
    pub name: &'static str,
    pub fields: &'static [Field],
}

macro_rules! schema {
    ($id:ident { $($n:literal : $t:expr => $o:expr),* $(,)? }) => {
        pub static $id: Schema = Schema { name: stringify!($id), fields: &[$(Field($n, $t, $o)),*] };
    };
}

pub const KINDS: &[&str] = &["compile-task", "compile-report", "test-task", "test-report", "test-start", "test-finish"];
pub const TAGS: &[&str] = &["library", "application", "test", "integration-test", "benchmark", "no-ide", "manual"];

schema!(TARGET_ID { "uri": Url => Req });
schema!(TEXT_DOC { "uri": Url => Req });
schema!(CLIENT_CAPS { "languageIds": Arr(&Str) => Req });
schema!(TASK_ID { "id": Str => Def("\"\""), "parents": Arr(&Str) => Def("[]") });
schema!(INITIALIZE {
    "displayName": Str => Req, "version": Str => Def("\"\""), "bspVersion": Str => Def("\"\""), "rootUri": Url => Req,
    "capabilities": Obj(&CLIENT_CAPS) => Def("{\"languageIds\":[]}"), "data": Any => Opt,
});
schema!(TARGETS { "targets": Arr(&Obj(&TARGET_ID)) => Req });
schema!(DEBUG_START { "targets": Arr(&Obj(&TARGET_ID)) => Def("[]"), "dataKind": Str => Def("\"\""), "data": Any => Opt });
schema!(DOC { "textDocument": Obj(&TEXT_DOC) => Req });
schema!(RUN { "target": Obj(&TARGET_ID) => Req, "originId": Str => Opt, "arguments": Str => Opt, "dataKind": Str => Opt, "data": Any => Opt });
schema!(COMPILE { "target": Obj(&TARGET_ID) => Req, "originId": Str => Opt, "arguments": Str => Opt });

schema!(MESSAGE { "type": Enum(&[1, 2, 3, 4]) => Req, "message": Str => Req, "task": Obj(&TASK_ID) => Opt, "originId": Str => Opt });
schema!(POSITION { "line": U32 => Req, "character": U32 => Req });
schema!(RANGE { "start": Obj(&POSITION) => Req, "end": Obj(&POSITION) => Req });
schema!(LOCATION { "uri": Url => Req, "range": Obj(&RANGE) => Req });
schema!(RELATED { "location": Obj(&LOCATION) => Req, "message": Str => Req });
schema!(CODE_DESC { "href": Url => Req });
schema!(DIAGNOSTIC {
    "range": Obj(&RANGE) => Req, "severity": Open(&[1, 2, 3, 4]) => Opt, "code": NumOrStr => Opt,
    "codeDescription": Obj(&CODE_DESC) => Opt, "source": Str => Opt, "message": Str => Req,
    "relatedInformation": Arr(&Obj(&RELATED)) => Opt, "tags": Arr(&Open(&[1, 2])) => Opt, "data": Any => Opt,
});
schema!(DIAGNOSTICS {
    "textDocument": Obj(&TEXT_DOC) => Req, "buildTarget": Obj(&TARGET_ID) => Req, "originId": Str => Opt,
    "diagnostics": Arr(&Obj(&DIAGNOSTIC)) => Req, "reset": Bool => Req,
});
schema!(TASK_START {
    "taskId": Obj(&TASK_ID) => Def("{}"), "eventTime": U64 => Opt, "message": Str => Def("\"\""), "dataKind": DataKind => Opt, "data": Any => Opt,
});
schema!(TASK_FINISH {
    "taskId": Obj(&TASK_ID) => Def("{}"), "eventTime": U64 => Opt, "message": Str => Def("\"\""), "status": Enum(&[1, 2, 3]) => Def("1"),
    "dataKind": DataKind => Opt, "data": Any => Opt,
});
schema!(TASK_PROGRESS {
    "taskId": Obj(&TASK_ID) => Def("{}"), "eventTime": U64 => Opt, "message": Str => Def("\"\""), "total": U32 => Opt, "progress": U32 => Opt,
    "unit": Str => Def("\"\""), "dataKind": DataKind => Opt, "data": Any => Opt,
});
schema!(TARGET_EVENT { "target": Obj(&TARGET_ID) => Req, "kind": Enum(&[1, 2, 3]) => Opt, "data": Any => Opt });
schema!(DID_CHANGE { "changes": Arr(&Obj(&TARGET_EVENT)) => Req });

schema!(PROVIDER { "languageIds": Arr(&Str) => Req });
schema!(SERVER_CAPS {
    "compileProvider": Obj(&PROVIDER) => Opt, "testProvider": Obj(&PROVIDER) => Opt, "runProvider": Obj(&PROVIDER) => Opt,
    "debugProvider": Obj(&PROVIDER) => Opt, "inverseSourcesProvider": Bool => Opt, "dependencySourcesProvider": Bool => Opt,
    "dependencyModulesProvider": Bool => Opt, "resourcesProvider": Bool => Opt, "canReload": Bool => Opt, "buildTargetChangedProvider": Bool => Opt,
});
schema!(INITIALIZE_RESULT {
    "displayName": Str => Req, "version": Str => Req, "bspVersion": Str => Req, "capabilities": Obj(&SERVER_CAPS) => Req, "data": Any => Opt,
});
schema!(TARGET_CAPS { "canCompile": Bool => Req, "canTest": Bool => Req, "canRun": Bool => Req, "canDebug": Bool => Req });
schema!(BUILD_TARGET {
    "id": Obj(&TARGET_ID) => Req, "displayName": Str => Opt, "baseDirectory": Str => Opt, "tags": Arr(&Tag) => Req,
    "capabilities": Obj(&TARGET_CAPS) => Req, "languageIds": Arr(&Str) => Req, "dependencies": Arr(&Obj(&TARGET_ID)) => Req,
});
schema!(WORKSPACE_TARGETS_RESULT { "targets": Arr(&Obj(&BUILD_TARGET)) => Req });
schema!(SOURCE { "uri": Url => Req, "kind": Enum(&[1, 2]) => Req, "generated": Bool => Req });
schema!(SOURCES_ITEM { "target": Obj(&TARGET_ID) => Req, "sources": Arr(&Obj(&SOURCE)) => Req });
schema!(SOURCES_RESULT { "items": Arr(&Obj(&SOURCES_ITEM)) => Req });
schema!(RESOURCES_ITEM { "target": Obj(&TARGET_ID) => Req, "resources": Arr(&Str) => Req });
schema!(RESOURCES_RESULT { "items": Arr(&Obj(&RESOURCES_ITEM)) => Req });
schema!(DEP_SOURCES_ITEM { "target": Obj(&TARGET_ID) => Req, "sources": Arr(&Str) => Req });
schema!(DEP_SOURCES_RESULT { "items": Arr(&Obj(&DEP_SOURCES_ITEM)) => Req });
schema!(MODULE { "name": Str => Req, "version": Str => Req, "dataKind": Str => Opt, "data": Any => Opt });
schema!(MODULES_ITEM { "target": Obj(&TARGET_ID) => Req, "modules": Arr(&Obj(&MODULE)) => Req });
schema!(MODULES_RESULT { "items": Arr(&Obj(&MODULES_ITEM)) => Req });
schema!(CODE_RESULT { "originId": Str => Opt, "statusCode": Code => Req });
schema!(CODE_DATA_RESULT { "originId": Str => Opt, "statusCode": Code => Req, "dataKind": Str => Opt, "data": Any => Opt });
schema!(CLEAN_RESULT { "message": Str => Opt, "cleaned": Bool => Req });
schema!(DEBUG_RESULT { "uri": Url => Req });

/// (method, variant, params)
pub static REQUESTS: &[(&str, &str, Option<&Schema>)] = &[
    ("build/initialize", "InitializeBuild", Some(&INITIALIZE)),
    ("build/shutdown", "Shutdown", None),
    ("workspace/buildTargets", "WorkspaceBuildTargets", None),
    ("workspace/reload", "WorkspaceReload", None),
    ("buildTarget/dependencyModules", "BuildTargetDependencyModules", Some(&TARGETS)),
    ("debugSession/start", "DebugSessionStart", Some(&DEBUG_START)),
    ("buildTarget/sources", "BuildTargetSources", Some(&TARGETS)),
    ("buildTarget/inverseSources", "TextDocumentInverseSources", Some(&DOC)),
    ("buildTarget/dependencySources", "BuildTargetDependencySources", Some(&DOC)),
    ("buildTarget/resources", "BuildTargetResources", Some(&TARGETS)),
    ("buildTarget/run", "BuildTargetRun", Some(&RUN)),
    ("buildTarget/compile", "BuildTargetCompile", Some(&COMPILE)),
    ("buildTarget/test", "BuildTargetTest", Some(&RUN)),
    ("buildTarget/cleanCache", "BuildTargetCleanCache", Some(&TARGETS)),
];
pub static NOTIFICATIONS: &[(&str, &str, Option<&Schema>)] = &[
    ("build/exit", "Exit", None),
    ("build/initialized", "Initialized", None),
    ("build/showMessage", "ShowMessage", Some(&MESSAGE)),
    ("build/logMessage", "LogMessage", Some(&MESSAGE)),
    ("build/publishDiagnostics", "PublishDiagnostics", Some(&DIAGNOSTICS)),
    ("build/taskStart", "TaskStart", Some(&TASK_START)),
    ("build/taskFinish", "TaskFinish", Some(&TASK_FINISH)),
    ("build/taskProgress", "TaskProgress", Some(&TASK_PROGRESS)),
    ("buildTarget/didChange", "BuildTargetDidChange", Some(&DID_CHANGE)),
];

pub fn known_methods() -> Vec<&'static str> {
    REQUESTS.iter().chain(NOTIFICATIONS).map(|x| x.0).collect()
}
pub fn request(method: &str) -> Option<(&'static str, Option<&'static Schema>)> {
    REQUESTS.iter().find(|x| x.0 == method).map(|x| (x.1, x.2))
}
pub fn notification(method: &str) -> Option<(&'static str, Option<&'static Schema>)> {
    NOTIFICATIONS.iter().find(|x| x.0 == method).map(|x| (x.1, x.2))
}
pub fn by_variant(request: bool, variant: &str) -> Option<(&'static str, Option<&'static Schema>)> {
    let t = if request { REQUESTS } else { NOTIFICATIONS };
    t.iter().find(|x| x.1 == variant).map(|x| (x.0, x.2))
}

/// Fill defaults in and drop null members, so that equal meanings become equal values.
pub fn norm(s: &Schema, v: &Value) -> Value {
    let Some(o) = v.as_object() else { return v.clone() };
    let mut out = Map::new();
    for (k, x) in o {
        if let Some(f) = s.fields.iter().find(|f| f.0 == k) {
            if !x.is_null() {
                out.insert(k.clone(), norm_ty(&f.1, x));
            }
        } else {
            out.insert(k.clone(), x.clone());
        }
    }
    for f in s.fields {
        if let (Def(d), false) = (f.2, out.contains_key(f.0)) {
            out.insert(f.0.into(), norm_ty(&f.1, &serde_json::from_str(d).unwrap()));
        }
    }
    Value::Object(out)
}

fn norm_ty(t: &Ty, v: &Value) -> Value {
    match (t, v) {
        (Obj(s), Value::Object(_)) => norm(s, v),
        (Arr(t), Value::Array(a)) => Value::Array(a.iter().map(|x| norm_ty(t, x)).collect()),
        _ => v.clone(),
    }
}

pub fn gen_ty(r: &mut Rng, t: &Ty, depth: usize) -> Value {
    match t {
        Str => json!(gen::string(r)),
        Url => json!(gen::url(r)),
        Bool => json!(r.coin()),
        U32 => json!(gen::u32v(r)),
        U64 => match r.below(3) {
            0 => json!(1_600_000_000_000u64 + r.next() % 400_000_000_000),
            1 => json!(*r.pick(&[0u64, 1, i32::MAX as u64, i32::MAX as u64 + 1, u32::MAX as u64, u32::MAX as u64 + 1, i64::MAX as u64, 1 << 53])),
            _ => json!(r.next() >> (1 + r.below(63))),
        },
        Code => match r.below(3) {
            0 => json!(*r.pick(&[0u64, 1, 2, 3, 255, u32::MAX as u64])),
            1 => json!(r.below(10)),
            _ => json!(r.next() >> (1 + r.below(63))),
        },
        Any => gen::value(r, 2),
        Enum(v) | Open(v) => json!(*r.pick(v)),
        Obj(s) => gen_obj(r, s, depth + 1),
        Arr(t) => {
            let n = match r.below(6) {
                0 => 0,
                1 => r.below(12) / (depth + 1),
                _ => r.below(4),
            };
            Value::Array((0..n).map(|_| gen_ty(r, t, depth + 1)).collect())
        }
        DataKind => {
            if r.coin() {
                json!(r.pick(KINDS))
            } else if r.coin() {
                let k = *r.pick(KINDS);
                json!(gen::mutate(r, k))
            } else {
                json!(gen::string(r))
            }
        }
        Tag => {
            if r.coin() {
                json!(r.pick(TAGS))
            } else if r.coin() {
                let k = *r.pick(TAGS);
                json!(gen::mutate(r, k))
            } else {
                json!(gen::string(r))
            }
        }
        NumOrStr => {
            if r.coin() {
                json!(gen::id_int(r))
            } else {
                json!(gen::string(r))
            }
        }
    }
}

/// A conforming object. Optional members are absent, null or given.
pub fn gen_obj(r: &mut Rng, s: &Schema, depth: usize) -> Value {
    let all = r.one_in(4);
    let none = !all && r.one_in(5);
    let mut m = Map::new();
    for f in s.fields {
        let here = match f.2 {
            Req => true,
            _ => all || (!none && r.coin()),
        };
        if here {
            m.insert(f.0.into(), gen_ty(r, &f.1, depth));
        } else if f.2 == Opt && r.one_in(4) {
            m.insert(f.0.into(), Value::Null);
        }
    }
    Value::Object(m)
}

/// Values of a wrong type for `t`.
fn wrong(r: &mut Rng, t: &Ty) -> Option<Value> {
    let cands: Vec<Value> = match t {
        Str => vec![json!(3), json!(true), json!({}), json!(["x"])],
        Url => vec![json!(3), json!(true), json!({}), json!("no url"), json!(""), json!("/just/a/path")],
        Bool => vec![json!("true"), json!(1), json!({}), json!("")],
        U32 => vec![json!(-1), json!(4294967296u64), json!("3"), json!(1.5), json!({})],
        U64 | Code => vec![json!(-1), json!("3"), json!(1.5), json!({}), json!(true)],
        Any | DataKind => return None,
        Enum(_) => vec![json!("1"), json!("error"), json!({}), json!(1.5), json!(0), json!(99), json!(-1), json!(5), json!(257), json!(65537)],
        Open(_) => vec![json!("1"), json!("error"), json!({}), json!(1.5)],
        Obj(_) => vec![json!("x"), json!(3), json!(true)],
        Arr(_) => vec![json!("x"), json!(3), json!({}), json!(false)],
        Tag => vec![json!(3), json!({}), json!(true), json!(["library"])],
        NumOrStr => vec![json!(true), json!({}), json!([])],
    };
    Some(r.pick(&cands).clone())
}

/// Corrupt a conforming object at one place so that it surely does not conform any more:
/// a required member removed, nulled or given a wrong type (an optional one a wrong type).
pub fn corrupt(r: &mut Rng, s: &Schema, v: &mut Value) -> Option<String> {
    let o = v.as_object_mut()?;
    let start = r.below(s.fields.len());
    for i in 0..s.fields.len() {
        let f = &s.fields[(start + i) % s.fields.len()];
        // descend now and then
        if r.coin() {
            if let (Obj(sub), Some(x)) = (&f.1, o.get_mut(f.0)) {
                if let Some(w) = corrupt(r, sub, x) {
                    return Some(format!("{}.{w}", f.0));
                }
            }
            if let (Arr(t), Some(Value::Array(a))) = (&f.1, o.get_mut(f.0)) {
                if !a.is_empty() {
                    let i = r.below(a.len());
                    if let Obj(sub) = t {
                        if let Some(w) = corrupt(r, sub, &mut a[i]) {
                            return Some(format!("{}[{i}].{w}", f.0));
                        }
                    } else if let Some(x) = wrong(r, t) {
                        a[i] = x;
                        return Some(format!("{}[{i}] wrong type", f.0));
                    }
                }
            }
        }
        match f.2 {
            Req if r.one_in(3) => {
                o.remove(f.0);
                return Some(format!("{} removed", f.0));
            }
            Req if r.one_in(4) => {
                o.insert(f.0.into(), Value::Null);
                return Some(format!("{} null", f.0));
            }
            _ => {
                if let Some(x) = wrong(r, &f.1) {
                    o.insert(f.0.into(), x);
                    return Some(format!("{} wrong type", f.0));
                }
            }
        }
    }
    None
}

/// Insert unknown members into the objects the schema knows (not into free-form data).
pub fn add_unknown(r: &mut Rng, s: &Schema, v: &mut Value) {
    let Some(o) = v.as_object_mut() else { return };
    for f in s.fields {
        match (&f.1, o.get_mut(f.0)) {
            (Obj(sub), Some(x)) => add_unknown(r, sub, x),
            (Arr(Obj(sub)), Some(Value::Array(a))) => a.iter_mut().for_each(|x| add_unknown(r, sub, x)),
            _ => {}
        }
    }
    for _ in 0..r.below(3) {
        let k = unknown_name(r, s.fields.iter().map(|f| f.0));
        let v = gen::value(r, 2);
        o.entry(k).or_insert(v);
    }
}

/// A member name that differs from all of `known` (often only a little).
pub fn unknown_name<'a>(r: &mut Rng, known: impl Iterator<Item = &'a str>) -> String {
    let known: Vec<&str> = known.collect();
    loop {
        let k = match r.below(4) {
            0 if !known.is_empty() => {
                let k = *r.pick(&known);
                gen::mutate(r, k)
            }
            1 => r.pick(&["jsonrpc", "id", "method", "params", "result", "error", "data", "x", "", "_meta", "type"]).to_string(),
            _ => gen::string(r),
        };
        if !known.contains(&k.as_str()) {
            return k;
        }
    }
}
