//! Input generators. The dictionary (literals found in /repo's sources) only steers generation.
use crate::rng::Rng;
use serde_json::{json, Map, Value};
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    pub strs: Vec<String>,
    pub ints: Vec<i64>,
}
static DICT: OnceLock<Dict> = OnceLock::new();

pub fn dict() -> &'static Dict {
    DICT.get_or_init(|| {
        let mut d = Dict::default();
        if let Some(v) = std::env::var_os("BSPMON_DICT")
            .and_then(|p| std::fs::read_to_string(p).ok())
            .and_then(|s| serde_json::from_str::<Value>(&s).ok())
        {
            for s in v["strs"].as_array().into_iter().flatten() {
                d.strs.extend(s.as_str().map(String::from));
            }
            for s in v["ints"].as_array().into_iter().flatten() {
                d.ints.extend(s.as_i64());
            }
        }
        d.strs.push("build/exit".into());
        d.ints.push(0);
        d
    })
}

const TEXT: &[&str] = &[
    "", "a", "id", "method", "params", "jsonrpc", "result", "error", "2.0", "data", "null", "true", "0", "3",
    "é", "日本語", "😀", "𝔘𝔫𝔦", "e\u{301}", "\u{0}", "\u{1f}\u{7f}", "\u{2028}\u{2029}", "\u{feff}", "\u{ffff}", "\u{10ffff}",
    "\"", "\\", "\\\"", "/", "\r\n", "\n", "\t", "\r\n\r\n", "Content-Length: 2\r\n\r\n{}", "Content-Length: 5",
    "{\"id\":1}", "[]", "build/exit", "build/initialize", "build/shutdown", " ", "  lead", "trail  ", "%20", "a b%c",
    "-1", "2147483648", "1e5", "NaN", "İ", "ß", "ﬁ", "ᾳ", "\u{200d}", "\u{202e}abc",
];

pub fn string(r: &mut Rng) -> String {
    match r.below(12) {
        0..=2 => (0..r.below(12)).map(|_| (b'a' + r.below(26) as u8) as char).collect(),
        3 | 4 => r.pick(TEXT).to_string(),
        5 => {
            let n = r.range(1, 4);
            (0..n).map(|_| *r.pick(TEXT)).collect()
        }
        6 | 7 => r.pick(&dict().strs).clone(),
        8 => {
            let s = r.pick(&dict().strs).clone();
            mutate(r, &s)
        }
        9 => r.pick(&dict().ints).to_string(),
        10 => {
            let n = r.below(20);
            (0..n).map(|_| any_char(r)).collect()
        }
        _ => {
            let n = r.below(300);
            let c = *r.pick(&['x', 'é', '日', '😀', '"', '\\', '\n']);
            std::iter::repeat(c).take(n).collect()
        }
    }
}

pub fn any_char(r: &mut Rng) -> char {
    loop {
        let m = *r.pick(&[0x80u32, 0x800, 0x10000, 0x110000]);
        if let Some(c) = char::from_u32(r.next() as u32 % m) {
            return c;
        }
    }
}

pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    match r.below(9) {
        0 => c.insert(r.below(c.len() + 1), any_char(r)),
        1 if !c.is_empty() => {
            c.remove(r.below(c.len()));
        }
        2 => return s.to_uppercase(),
        3 => return s.to_lowercase(),
        4 => return format!("{s}{}", r.pick(&[" ", "/", "x", "\u{0}", "s", "2", "/x"])),
        5 => return format!("{}{s}", r.pick(&[" ", "/", "x", "$/", "build/", "workspace/"])),
        6 if !c.is_empty() => {
            let i = r.below(c.len());
            c[i] = if c[i].is_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() };
        }
        7 if c.len() > 1 => {
            let i = r.below(c.len() - 1);
            c.swap(i, i + 1);
        }
        _ => c.truncate(c.len() / 2),
    }
    c.into_iter().collect()
}

pub fn int(r: &mut Rng) -> i64 {
    match r.below(6) {
        0 => *r.pick(&[0, 1, -1, 2, 3, 10, 127, 128, 255, 256, 32767, 65535, 65536]),
        1 => *r.pick(&[i32::MAX as i64, i32::MIN as i64, u32::MAX as i64, i64::MAX, i64::MIN, i32::MAX as i64 + 1, i32::MIN as i64 - 1, 1 << 53]),
        2 => *r.pick(&dict().ints),
        3 => r.next() as i64,
        4 => r.below(1000) as i64,
        _ => r.next() as i32 as i64,
    }
}

pub fn u32v(r: &mut Rng) -> u32 {
    match r.below(4) {
        0 => *r.pick(&[0, 1, 2, u32::MAX, i32::MAX as u32, i32::MAX as u32 + 1]),
        1 => int(r) as u32,
        2 => r.below(100) as u32,
        _ => r.next() as u32,
    }
}

pub fn id_int(r: &mut Rng) -> i32 {
    match r.below(5) {
        0 => *r.pick(&[0, 1, -1, 2, 3, i32::MAX, i32::MIN, i32::MAX - 1, i32::MIN + 1]),
        1 => i32::try_from(*r.pick(&dict().ints)).unwrap_or(7),
        2 => r.below(100) as i32,
        _ => r.next() as i32,
    }
}

/// A valid request id as JSON.
pub fn id(r: &mut Rng) -> Value {
    match r.below(8) {
        0..=3 => json!(id_int(r)),
        4 => json!(id_int(r).to_string()),
        5 => json!(r.pick(&["", "0", "-0", "00", "1.0", "null", "true", "id", " 3", "3 ", "+3", "1e3", "\"3\"", "ａ"])),
        _ => json!(string(r)),
    }
}

pub fn number(r: &mut Rng) -> Value {
    match r.below(5) {
        0 => json!(r.next() | (1 << 63)),
        1 => json!((r.next() as i32 as f64) / 4.0 + 0.25),
        _ => json!(int(r)),
    }
}

/// Any JSON value. Floats are multiples of 1/4 so that text conversion is exact.
pub fn value(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth == 0 { 7 } else { 10 }) {
        0 => Value::Null,
        1 => json!(r.coin()),
        2 | 3 => number(r),
        4..=6 => json!(string(r)),
        7 => {
            let n = r.below(5);
            Value::Array((0..n).map(|_| value(r, depth - 1)).collect())
        }
        _ => Value::Object(object(r, depth)),
    }
}

pub fn object(r: &mut Rng, depth: usize) -> Map<String, Value> {
    let n = r.below(5);
    let mut m = Map::new();
    for _ in 0..n {
        let k = string(r);
        let v = value(r, depth.saturating_sub(1));
        m.insert(k, v);
    }
    m
}

/// Params-like value: biased to objects, now and then deep, wide or scalar.
pub fn payload(r: &mut Rng) -> Value {
    match r.below(14) {
        0 => Value::Null,
        1 => json!([]),
        2 => json!({}),
        3 => {
            let mut v = value(r, 0);
            for _ in 0..r.below(90) {
                v = if r.coin() { json!([v]) } else { json!({ string(r): v }) };
            }
            v
        }
        4 => {
            let n = r.below(200);
            Value::Array((0..n).map(|i| json!(i)).collect())
        }
        5 => value(r, 0),
        6 => {
            // looks like a message itself
            let mut m = Map::new();
            for k in ["id", "method", "params", "jsonrpc", "result", "error"] {
                if r.coin() {
                    m.insert(k.into(), value(r, 1));
                }
            }
            Value::Object(m)
        }
        _ => value(r, 3),
    }
}

/// Canonical URLs (text equal to what any URL parser prints).
pub fn url(r: &mut Rng) -> String {
    let seg = |r: &mut Rng| -> String {
        match r.below(6) {
            0 => "a%20b".into(),
            1 => "%E6%97%A5".into(),
            2 => "x.rs".into(),
            3 => "%25".into(),
            _ => (0..r.range(1, 8)).map(|_| *r.pick(&['a', 'b', 'Z', '0', '-', '_', '~', '.', 'q'])).collect::<String>() + "k",
        }
    };
    let n = r.range(1, 4);
    let path: String = (0..n).map(|_| format!("/{}", seg(r))).collect();
    match r.below(8) {
        0 => format!("https://example.com{path}?id={}#f", r.below(100)),
        1 => format!("file://{path}/"),
        2 => format!("http://127.0.0.1:{}{path}", 1024 + r.below(60000)),
        3 => format!("tcp://localhost:{}", 1 + r.below(60000)),
        4 => format!("urn:x-target:{}", r.below(1000)),
        _ => format!("file://{path}"),
    }
}

/// Sizes around buffer boundaries.
pub fn size(r: &mut Rng, max: usize) -> usize {
    let n = match r.below(8) {
        0 => 8192 + r.below(9) - 4,
        1 => 4096 + r.below(5) - 2,
        2 => 65536 + r.below(9) - 4,
        3 => 1024 + r.below(5) - 2,
        4 => 16384 + r.below(9) - 4,
        5 => {
            let d = r.pick(&dict().ints).unsigned_abs() as usize;
            if d <= max { (d + r.below(3)).saturating_sub(1) } else { r.below(max) }
        }
        6 => r.below(max),
        _ => r.below(512),
    };
    n.min(max)
}

/// Method names that are not necessarily known.
pub fn method(r: &mut Rng, known: &[&str]) -> String {
    match r.below(8) {
        0 => string(r),
        1 | 2 => {
            let s = r.pick(known).to_string();
            mutate(r, &s)
        }
        3 => r.pick(&["", "$/cancelRequest", "x", "build/", "buildTarget/", "rpc.x", "textDocument/inverseSources", "build/taskProgressing", "buildTarget/outputPaths", "window/showMessage"]).to_string(),
        4 => r.pick(&dict().strs).clone(),
        5 => format!("custom/{}", r.below(50)),
        _ => r.pick(known).to_string(),
    }
}

/// A `'static` copy; bounded pool so that the harness itself does not leak per case.
pub fn leak(s: &str) -> &'static str {
    use std::collections::HashSet;
    use std::sync::Mutex;
    static POOL: OnceLock<Mutex<HashSet<&'static str>>> = OnceLock::new();
    let mut p = POOL.get_or_init(Default::default).lock().unwrap();
    if let Some(x) = p.get(s) {
        return x;
    }
    let x: &'static str = Box::leak(s.to_string().into_boxed_str());
    p.insert(x);
    x
}
