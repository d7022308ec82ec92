//! Reference framing: strict parser of outgoing bytes, encoder with textual variants and
//! three-valued parser for incoming bytes.
use crate::gen;
use crate::rng::Rng;
use serde::de::{Deserialize, Deserializer, MapAccess, SeqAccess, Visitor};
use serde_json::{Map, Value};
use std::fmt;

/// JSON without duplicate member names at any level.
pub struct Strict(pub Value);
impl<'de> Deserialize<'de> for Strict {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Strict;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("JSON")
            }
            fn visit_bool<E>(self, v: bool) -> Result<Strict, E> {
                Ok(Strict(v.into()))
            }
            fn visit_i64<E>(self, v: i64) -> Result<Strict, E> {
                Ok(Strict(v.into()))
            }
            fn visit_u64<E>(self, v: u64) -> Result<Strict, E> {
                Ok(Strict(v.into()))
            }
            fn visit_f64<E>(self, v: f64) -> Result<Strict, E> {
                Ok(Strict(v.into()))
            }
            fn visit_str<E>(self, v: &str) -> Result<Strict, E> {
                Ok(Strict(v.into()))
            }
            fn visit_unit<E>(self) -> Result<Strict, E> {
                Ok(Strict(Value::Null))
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Strict, A::Error> {
                let mut v = vec![];
                while let Some(Strict(x)) = a.next_element()? {
                    v.push(x);
                }
                Ok(Strict(v.into()))
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Strict, A::Error> {
                let mut m = Map::new();
                while let Some((k, Strict(x))) = a.next_entry::<String, Strict>()? {
                    if m.insert(k.clone(), x).is_some() {
                        return Err(serde::de::Error::custom(format!("duplicate member {k:?}")));
                    }
                }
                Ok(Strict(m.into()))
            }
        }
        d.deserialize_any(V)
    }
}

/// Incremental strict parser of what the library writes.
#[derive(Default)]
pub struct OutParser {
    buf: Vec<u8>,
    pos: usize,
    pub frames: usize,
    pub bytes: usize,
}

impl OutParser {
    pub fn push(&mut self, b: &[u8]) {
        // nothing that is done with stays, as C15 counts the bytes of this process
        if self.pos == self.buf.len() || self.pos > 1 << 16 {
            self.buf.drain(..self.pos);
            self.pos = 0;
            self.buf.shrink_to(1 << 18);
        }
        self.buf.extend_from_slice(b);
        self.bytes += b.len();
    }
    pub fn pending(&self) -> usize {
        self.buf.len() - self.pos
    }
    /// Next whole frame's body. Err if what is there cannot be the start of a correct frame.
    pub fn next(&mut self) -> Result<Option<Value>, String> {
        const H: &[u8] = b"Content-Length: ";
        let b = &self.buf[self.pos..];
        let ctx = |b: &[u8]| format!("{:?}", String::from_utf8_lossy(&b[..b.len().min(80)]));
        let n = b.len().min(H.len());
        if b[..n] != H[..n] {
            return Err(format!("frame {} does not start with a Content-Length header: {}", self.frames, ctx(b)));
        }
        if b.len() < H.len() {
            return Ok(None);
        }
        let digits = b[H.len()..].iter().take_while(|c| c.is_ascii_digit()).count();
        let end = H.len() + digits;
        if digits > 19 {
            return Err(format!("frame {}: absurd length: {}", self.frames, ctx(b)));
        }
        let tail = &b[end..];
        let k = tail.len().min(4);
        if tail[..k] != b"\r\n\r\n"[..k] {
            return Err(format!("frame {}: header not followed by a blank line: {}", self.frames, ctx(b)));
        }
        if k < 4 {
            return Ok(None);
        }
        let txt = std::str::from_utf8(&b[H.len()..end]).unwrap_or("");
        if digits == 0 || (digits > 1 && txt.starts_with('0')) {
            return Err(format!("frame {}: length is not a plain decimal: {}", self.frames, ctx(b)));
        }
        let len: usize = txt.parse().map_err(|_| format!("frame {}: bad length {txt}", self.frames))?;
        let body = &tail[4..];
        if body.len() < len {
            return Ok(None);
        }
        let body = &body[..len];
        let s = std::str::from_utf8(body).map_err(|e| format!("frame {}: body is not UTF-8: {e}: {}", self.frames, ctx(body)))?;
        let Strict(v) = serde_json::from_str::<Strict>(s).map_err(|e| format!("frame {}: body of the announced length is not one JSON value: {e}: {}", self.frames, ctx(body)))?;
        if !v.is_object() {
            return Err(format!("frame {}: body is not an object: {}", self.frames, ctx(body)));
        }
        if v["jsonrpc"] != "2.0" {
            return Err(format!("frame {}: no \"jsonrpc\": \"2.0\": {}", self.frames, ctx(body)));
        }
        self.pos += end + 4 + len;
        self.frames += 1;
        Ok(Some(v))
    }
}

pub fn frame(body: &str) -> Vec<u8> {
    let mut v = format!("Content-Length: {}\r\n\r\n", body.len()).into_bytes();
    v.extend_from_slice(body.as_bytes());
    v
}

/// A frame with random additional headers, header order and letter case.
pub fn frame_variant(r: &mut Rng, body: &str) -> Vec<u8> {
    if r.one_in(3) {
        return frame(body);
    }
    let name = match r.below(5) {
        0 => "content-length".to_string(),
        1 => "CONTENT-LENGTH".to_string(),
        2 => "Content-length".to_string(),
        3 => "Content-Length".chars().map(|c| if r.coin() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        _ => "Content-Length".to_string(),
    };
    let mut heads = vec![format!("{name}: {}", body.len())];
    for _ in 0..r.below(4) {
        heads.push(extra_header(r));
    }
    r.shuffle(&mut heads);
    let mut v = vec![];
    for h in heads {
        v.extend_from_slice(h.as_bytes());
        v.extend_from_slice(b"\r\n");
    }
    v.extend_from_slice(b"\r\n");
    v.extend_from_slice(body.as_bytes());
    v
}

pub fn extra_header(r: &mut Rng) -> String {
    match r.below(9) {
        0 => "Content-Type: application/vscode-jsonrpc; charset=utf-8".into(),
        1 => "content-type: application/vscode-jsonrpc; charset=utf8".into(),
        2 => format!("X-Content-Length: {}", r.below(1000)),
        3 => format!("Content-Length-Hint: {}", r.below(1000)),
        4 => format!("Content-Lengt: {}", r.below(1000)),
        5 => "X-Pairs: a: b: c: 7".into(),
        6 => "X-Text: é日本😀".into(),
        7 => format!("X-Long: {}", "v".repeat(gen::size(r, 20000))),
        _ => format!("X-{}: {}", r.below(100), r.below(100000)),
    }
}

/// Render JSON with random member order, whitespace and escapes.
pub fn render(r: &mut Rng, v: &Value) -> String {
    let style = r.below(4);
    let mut s = String::new();
    ws(r, style, &mut s);
    render_into(r, style, v, &mut s);
    ws(r, style, &mut s);
    s
}

fn ws(r: &mut Rng, style: usize, s: &mut String) {
    match style {
        0 => {}
        1 => {
            if r.one_in(3) {
                s.push(' ')
            }
        }
        _ => {
            for _ in 0..r.below(4) {
                s.push(*r.pick(&[' ', '\t', '\n', '\r']));
            }
        }
    }
}

fn render_into(r: &mut Rng, style: usize, v: &Value, s: &mut String) {
    match v {
        Value::Object(m) => {
            let mut ks: Vec<&String> = m.keys().collect();
            r.shuffle(&mut ks);
            s.push('{');
            for (i, k) in ks.iter().enumerate() {
                if i > 0 {
                    s.push(',');
                }
                ws(r, style, s);
                render_str(r, k, s);
                ws(r, style, s);
                s.push(':');
                ws(r, style, s);
                render_into(r, style, &m[k.as_str()], s);
                ws(r, style, s);
            }
            ws(r, style, s);
            s.push('}');
        }
        Value::Array(a) => {
            s.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    s.push(',');
                }
                ws(r, style, s);
                render_into(r, style, x, s);
                ws(r, style, s);
            }
            s.push(']');
        }
        Value::String(t) => render_str(r, t, s),
        x => s.push_str(&x.to_string()),
    }
}

fn render_str(r: &mut Rng, t: &str, s: &mut String) {
    let mode = r.below(4);
    s.push('"');
    for c in t.chars() {
        let esc = matches!(c, '"' | '\\') || (c as u32) < 0x20;
        if mode == 0 || (mode == 1 && r.one_in(4)) || (esc && r.coin()) {
            let mut b = [0u16; 2];
            for u in c.encode_utf16(&mut b) {
                if r.coin() {
                    s.push_str(&format!("\\u{u:04x}"));
                } else {
                    s.push_str(&format!("\\u{u:04X}"));
                }
            }
        } else {
            match c {
                '"' => s.push_str("\\\""),
                '\\' => s.push_str("\\\\"),
                '\n' => s.push_str("\\n"),
                '\r' => s.push_str("\\r"),
                '\t' => s.push_str("\\t"),
                '\u{8}' => s.push_str("\\b"),
                '\u{c}' => s.push_str("\\f"),
                '/' if r.coin() => s.push_str("\\/"),
                c if (c as u32) < 0x20 => s.push_str(&format!("\\u{:04x}", c as u32)),
                c => s.push(c),
            }
        }
    }
    s.push('"');
}

#[derive(Debug, Clone, PartialEq)]
pub enum End {
    /// stream ends between frames
    Clean,
    /// malformed, or cut inside a header line or a body
    Bad(String),
    /// the statement does not say
    Unspecified(String),
    /// build/exit was the last body
    Exit,
}

/// What the bytes mean: the bodies of the well-formed frames, and how it ends.
/// `accept` tells whether a body is a message (None: the statement does not say) and
/// whether it is build/exit.
pub fn reference_parse(bytes: &[u8], accept: &dyn Fn(&str) -> (Option<bool>, bool)) -> (Vec<String>, End) {
    let mut out = vec![];
    let mut i = 0;
    loop {
        let mut len: Option<usize> = None;
        let mut lines = 0;
        let body_at = loop {
            let rest = &bytes[i..];
            if rest.is_empty() {
                return (out, if lines == 0 { End::Clean } else { End::Unspecified("cut between header lines".into()) });
            }
            let Some(nl) = rest.iter().position(|&c| c == b'\n') else {
                return (out, End::Bad("cut inside a header line".into()));
            };
            let line = &rest[..=nl];
            if !line.ends_with(b"\r\n") {
                return (out, End::Bad("header line without CRLF".into()));
            }
            let line = &line[..line.len() - 2];
            i += nl + 1;
            lines += 1;
            if line.is_empty() {
                break i;
            }
            let Ok(line) = std::str::from_utf8(line) else {
                return (out, End::Bad("header line is not UTF-8".into()));
            };
            let Some((name, value)) = line.split_once(':') else {
                return (out, End::Bad("header line without a colon".into()));
            };
            // without exactly one space after the colon, with surrounding blanks: unspecified
            let clean = value.starts_with(' ') && value.trim() == &value[1..] && name.trim() == name && !name.is_empty();
            if name.trim().eq_ignore_ascii_case("content-length") {
                let v = value.trim();
                if v.is_empty() || !v.bytes().all(|c| c.is_ascii_digit()) || v.parse::<usize>().is_err() {
                    if v.starts_with('+') {
                        return (out, End::Unspecified("signed length".into()));
                    }
                    return (out, End::Bad("bad Content-Length".into()));
                }
                if !clean || len.is_some() || (v.len() > 1 && v.starts_with('0')) {
                    return (out, End::Unspecified("unusual Content-Length".into()));
                }
                len = v.parse().ok();
            } else if !value.starts_with(' ') || name.is_empty() {
                return (out, End::Unspecified("unusual header".into()));
            }
        };
        let Some(len) = len else {
            return (out, End::Bad("no Content-Length".into()));
        };
        if bytes.len() - body_at < len {
            return (out, End::Bad("cut inside the body".into()));
        }
        let body = &bytes[body_at..body_at + len];
        i = body_at + len;
        let Ok(s) = std::str::from_utf8(body) else {
            return (out, End::Bad("body is not UTF-8".into()));
        };
        match accept(s) {
            (None, _) => return (out, End::Unspecified("body".into())),
            (Some(false), _) => return (out, End::Bad("body is not a message".into())),
            (Some(true), exit) => {
                out.push(s.to_string());
                if exit {
                    return (out, End::Exit);
                }
            }
        }
    }
}
