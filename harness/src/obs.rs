//! Calls into the library, and the trace format the specification reads.
use serde_json::{json, Map, Number, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::Instant;
use toon_rs::{Delimiter, ExpandPaths, KeyFolding, Options};

pub static CURRENT: Mutex<Option<(Instant, String)>> = Mutex::new(None);
pub fn guard<T>(what: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Result<T, String> {
    *CURRENT.lock().unwrap() = Some((Instant::now(), what()));
    let r = catch_unwind(AssertUnwindSafe(f));
    *CURRENT.lock().unwrap() = None;
    r.map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
    })
}

pub fn cps(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}
pub fn text_of(v: &Value) -> String {
    v.as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect()
}
pub fn lines_of(text: &str) -> Value {
    if text.is_empty() {
        return json!([]);
    }
    Value::Array(text.split('\n').map(cps).collect())
}
/// sign, significant digits, exponent
pub fn norm(neg: bool, digits: &str, exp: i64) -> Value {
    let t = digits.trim_start_matches('0');
    let u = t.trim_end_matches('0');
    if u.is_empty() {
        return json!({"t":"num","neg":false,"d":[],"e":0});
    }
    let e = exp + (t.len() - u.len()) as i64;
    json!({"t":"num","neg":neg,"d":u.bytes().map(|b| b - b'0').collect::<Vec<u8>>(),"e":e})
}
pub fn norm_f64(f: f64) -> Value {
    let s = format!("{:e}", f.abs());
    let (m, e) = s.split_once('e').unwrap();
    let (i, fr) = m.split_once('.').unwrap_or((m, ""));
    norm(f < 0.0, &format!("{i}{fr}"), e.parse::<i64>().unwrap() - fr.len() as i64)
}
pub fn norm_num(n: &Number) -> Value {
    if let Some(u) = n.as_u64() {
        norm(false, &u.to_string(), 0)
    } else if let Some(i) = n.as_i64() {
        norm(i < 0, &i.unsigned_abs().to_string(), 0)
    } else {
        norm_f64(n.as_f64().unwrap())
    }
}
pub fn val(v: &Value) -> Value {
    if depth(v) > 50 {
        let mut x = vec![];
        flat(v, &mut x);
        return json!({"t": "flat", "x": x});
    }
    nested(v)
}
fn depth(v: &Value) -> usize {
    match v {
        Value::Array(a) => 1 + a.iter().map(depth).max().unwrap_or(0),
        Value::Object(m) => 1 + m.values().map(depth).max().unwrap_or(0),
        _ => 0,
    }
}
/// The nodes in postorder: readers of the records limit nesting.
fn flat(v: &Value, out: &mut Vec<Value>) {
    match v {
        Value::Array(a) => {
            a.iter().for_each(|x| flat(x, out));
            out.push(json!({"t": "arr", "n": a.len()}));
        }
        Value::Object(m) => {
            m.values().for_each(|x| flat(x, out));
            out.push(json!({"t": "obj", "k": m.keys().map(|k| cps(k)).collect::<Vec<_>>()}));
        }
        _ => out.push(nested(v)),
    }
}
pub fn nested(v: &Value) -> Value {
    match v {
        Value::Null => json!({"t":"null"}),
        Value::Bool(b) => json!({"t":"bool","b":b}),
        Value::Number(n) => norm_num(n),
        Value::String(s) => json!({"t":"str","s":cps(s)}),
        Value::Array(a) => json!({"t":"arr","a":a.iter().map(nested).collect::<Vec<_>>()}),
        Value::Object(m) => json!({"t":"obj","k":m.keys().map(|k| cps(k)).collect::<Vec<_>>(),"v":m.values().map(nested).collect::<Vec<_>>()}),
    }
}
pub fn unval(v: &Value) -> Value {
    match v["t"].as_str().unwrap() {
        "null" => Value::Null,
        "bool" => v["b"].clone(),
        "num" => {
            let ds: String = v["d"].as_array().unwrap().iter().map(|d| d.to_string()).collect();
            let s = format!("{}{}e{}", if v["neg"].as_bool().unwrap() { "-" } else { "" }, if ds.is_empty() { "0" } else { &ds }, v["e"]);
            let e = v["e"].as_i64().unwrap();
            if e >= 0 && e < 19 {
                let t = format!("{}{}{}", if v["neg"].as_bool().unwrap() { "-" } else { "" }, if ds.is_empty() { "0" } else { &ds }, "0".repeat(e as usize));
                if let Ok(i) = t.parse::<i64>() {
                    return json!(i);
                }
                if let Ok(u) = t.parse::<u64>() {
                    return json!(u);
                }
            }
            json!(s.parse::<f64>().unwrap())
        }
        "str" => Value::String(text_of(&v["s"])),
        "arr" => Value::Array(v["a"].as_array().unwrap().iter().map(unval).collect()),
        "obj" => {
            let mut m = Map::new();
            for (k, x) in v["k"].as_array().unwrap().iter().zip(v["v"].as_array().unwrap()) {
                m.insert(text_of(k), unval(x));
            }
            Value::Object(m)
        }
        t => panic!("{t}"),
    }
}

/// The double's shortest decimal, where there is just one.
pub fn shortest(f: f64) -> Value {
    if crate::gen::one_shortest(f) { norm_f64(f) } else { json!({"t": "unknown"}) }
}
/// Numeric tokens whose binary rounding the specification does not compute.
pub fn fl(text: &str) -> Value {
    let is = |c: char| c.is_ascii_digit() || matches!(c, '+' | '-' | '.' | 'e' | 'E');
    let mut out = vec![];
    for tok in text.split(|c: char| !is(c)) {
        if tok.len() < 4 || tok.len() > 800 || !json_number(tok) {
            continue;
        }
        let mant = tok.split(['e', 'E']).next().unwrap();
        let sig: String = mant.chars().filter(|c| c.is_ascii_digit()).collect();
        let sig = sig.trim_start_matches('0').trim_end_matches('0');
        let f: f64 = tok.parse().unwrap();
        let extreme = f != 0.0 && (f.abs() > 1e290 || f.abs() < 1e-290) || (f == 0.0 && !sig.is_empty());
        if (sig.len() > 15 || extreme) && f.is_finite() {
            out.push(json!({"k": cps(tok), "n": shortest(f)}));
        }
    }
    Value::Array(out)
}
pub fn json_number(s: &str) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    if i < b.len() && b[i] == b'-' {
        i += 1;
    }
    let st = i;
    while i < b.len() && b[i].is_ascii_digit() {
        i += 1;
    }
    if i == st || (b[st] == b'0' && i > st + 1) {
        return false;
    }
    if i < b.len() && b[i] == b'.' {
        let st = i + 1;
        i = st;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        if i == st {
            return false;
        }
    }
    if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        i += 1;
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
            i += 1;
        }
        let st = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        if i == st {
            return false;
        }
    }
    i == b.len()
}

#[derive(Clone, Debug)]
pub struct O {
    pub d: char,
    pub n: usize,
    pub fold: bool,
    pub fd: i64,
    pub strict: bool,
    pub ex: bool,
}
impl O {
    pub fn std() -> Self {
        O { d: ',', n: 2, fold: false, fd: -1, strict: true, ex: false }
    }
    pub fn options(&self) -> Options {
        // What a caller gets who sets nothing.
        if self.d == ',' && self.n == 2 && !self.fold && self.fd < 0 && self.strict && !self.ex {
            return Options::default();
        }
        Options {
            delimiter: match self.d {
                '\t' => Delimiter::Tab,
                '|' => Delimiter::Pipe,
                _ => Delimiter::Comma,
            },
            strict: self.strict,
            indent: self.n,
            key_folding: if self.fold { KeyFolding::Safe } else { KeyFolding::Off },
            flatten_depth: if self.fd < 0 { None } else { Some(self.fd as usize) },
            expand_paths: if self.ex { ExpandPaths::Safe } else { ExpandPaths::Off },
        }
    }
    pub fn enc_json(&self) -> Value {
        json!({"d": self.d as u32, "n": self.n, "fold": self.fold, "fd": self.fd})
    }
    pub fn dec_json(&self, text: &str) -> Value {
        json!({"strict": self.strict, "n": self.n, "ex": self.ex, "fl": fl(text), "dd": self.d as u32})
    }
}

#[cfg(not(any(feature = "f_alloc", feature = "f_std")))]
pub const ENCODERS: &[&str] = &["stream", "value"];
#[cfg(any(feature = "f_alloc", feature = "f_std"))]
pub const ENCODERS: &[&str] = &["stream"];
/// Without the json feature key folding is not supported.
pub const FOLDS: bool = cfg!(not(any(feature = "f_alloc", feature = "f_std")));
/// Typed decoding by the direct deserializer.
pub const DIRECT: bool = cfg!(any(feature = "f_direct", feature = "f_all"));
pub fn err_line(e: &toon_rs::Error) -> i64 {
    match e {
        toon_rs::Error::Syntax { line, .. } => (*line).min(1_000_000_000) as i64,
        _ => -1,
    }
}
/// The result of an encoding call: text, or the outcome to report.
pub fn encode_raw<T: serde::Serialize>(v: &T, o: &O, by: &str, what: impl FnOnce() -> String) -> (String, String) {
    let opt = o.options();
    let r = guard(what, || match by {
        "stream" => toon_rs::encode_to_string(v, &opt),
        #[cfg(not(any(feature = "f_alloc", feature = "f_std")))]
        "value" => toon_rs::ser::to_string(v, &opt),
        #[cfg(not(any(feature = "f_alloc", feature = "f_std")))]
        "tostream" => toon_rs::ser::to_string_streaming(v, &opt),
        _ => panic!("encoder {by}"),
    });
    match r {
        Ok(Ok(s)) => ("ok".into(), s),
        Ok(Err(e)) => ("err".into(), e.to_string()),
        Err(p) => ("panic".into(), p),
    }
}
/// kind "enc": judged line by line; "seen": only recorded.
pub fn enc(kind: &str, v: &Value, o: &O, by: &str) -> (Value, Option<String>) {
    let (res, s) = encode_raw(v, o, by, || json!({"enc": v, "o": o.enc_json(), "by": by}).to_string());
    let ok = res == "ok";
    let ob = json!({"k": kind, "is": "enc", "by": by, "v": val(v), "o": o.enc_json(), "res": res, "lines": if ok { lines_of(&s) } else { json!([]) },
        "msg": if ok { String::new() } else { s.clone() }});
    (ob, if ok { Some(s) } else { None })
}
pub fn dec(kind: &str, text: &str, o: &O) -> (Value, Option<Value>) {
    let opt = o.options();
    let r = guard(|| json!({"dec": text, "o": format!("{:?}", o)}).to_string(), || toon_rs::decode_from_str::<Value>(text, &opt));
    let (res, v, el, msg) = match r {
        Ok(Ok(v)) => ("ok", Some(v), 0, String::new()),
        Ok(Err(e)) => ("err", None, err_line(&e), e.to_string()),
        Err(p) => ("panic", None, 0, p),
    };
    let ob = json!({"k": kind, "is": "dec", "o": o.dec_json(text), "lines": lines_of(text), "res": res, "el": el,
        "v": v.as_ref().map(val).unwrap_or(json!({"t":"none"})), "msg": msg});
    (ob, v)
}
