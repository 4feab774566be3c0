//! Documents of many equal parts (ToonBulk): sizes far beyond what is judged line by line.
use crate::gen::{self, Cfg};
use crate::obs::{self, O};
use crate::rng::Rng;
use crate::tool::{self, Q};
use serde_json::{json, Map, Value};

struct Bulk {
    shape: &'static str,
    u: Value,
    w: Value,
    p: usize,
    n: usize,
    inner: bool,
    z: Value,
}
const COUNTS: &[usize] = &[3, 9, 10, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192,
    8193, 9999, 10000, 16383, 16384, 16385, 32767, 32768, 32769, 50000, 65535, 65536, 65537, 99999, 100000, 131072];
fn part(r: &mut Rng, c: &Cfg) -> Value {
    match r.below(8) {
        0 | 1 => gen::scalar(r, c),
        2 | 6 | 7 => gen::object(r, c, 0),
        3 => gen::object(r, c, 2),
        4 => gen::array(r, c, 2),
        _ => gen::value(r, c, 3),
    }
}
/// Something close to u.
fn near(r: &mut Rng, c: &Cfg, u: &Value) -> Value {
    match u {
        Value::Object(m) if !m.is_empty() => {
            let mut m = m.clone();
            let k = m.keys().nth(r.below(m.len())).unwrap().clone();
            match r.below(5) {
                0 => {
                    m.remove(&k);
                }
                1 => {
                    m.insert("kx".into(), gen::scalar(r, c));
                }
                2 => {
                    let x = part(r, c);
                    m.insert(k, x);
                }
                3 => {
                    let mut l: Vec<_> = m.into_iter().collect();
                    l.reverse();
                    m = l.into_iter().collect();
                }
                _ => {
                    let x = gen::scalar(r, c);
                    m.insert(k, x);
                }
            }
            Value::Object(m)
        }
        Value::Array(a) if !a.is_empty() => {
            let mut a = a.clone();
            let i = r.below(a.len());
            if r.pct(50) { a[i] = part(r, c) } else { a.push(gen::scalar(r, c)) }
            Value::Array(a)
        }
        Value::Array(_) | Value::Object(_) => part(r, c),
        _ => gen::scalar(r, c),
    }
}
fn bulk(r: &mut Rng) -> Bulk {
    let c = Cfg { depth: 2, width: 2, word: 25, odd_keys: 10, ..Cfg::std() };
    let shape = *r.pick(&["array", "array", "array", "fields", "text"]);
    let u = if shape == "text" {
        loop {
            let s = gen::string(r);
            if !s.is_empty() && s.len() < 60 {
                break Value::String(s);
            }
        }
    } else {
        part(r, &c)
    };
    let w = match (shape, r.below(4)) {
        ("text", _) | (_, 0) => u.clone(),
        (_, 1) => part(r, &c),
        _ => near(r, &c, &u),
    };
    let top = 3_000_000 / u.to_string().len().max(8);
    let mut n = *r.pick(COUNTS);
    while n > top {
        n = *r.pick(COUNTS);
    }
    let p = match r.below(6) {
        _ if shape == "text" => 0,
        0 => 0,
        1 | 2 => n - 1,
        3 => *r.pick(&COUNTS[..12]) - 1,
        4 => *r.pick(COUNTS) % n,
        _ => r.below(n),
    }
    .min(n - 1);
    Bulk { shape, u, w, p, n, inner: r.pct(50), z: gen::scalar(r, &c) }
}
/// A text taken apart: what precedes the parts, the parts with their leads, what follows.
struct Cut {
    form: &'static str,
    pre: String,
    parts: Vec<String>,
    post: String,
}
impl Cut {
    fn sep(&self, o: &O) -> String {
        match self.form {
            "text" => String::new(),
            "inline" => o.d.to_string(),
            _ => "\n".into(),
        }
    }
    fn join(&self, o: &O) -> String {
        format!("{}{}{}", self.pre, self.parts.join(&self.sep(o)), self.post)
    }
}
fn split_cells(s: &str, d: char) -> Vec<String> {
    let (mut out, mut cur, mut quoted, mut esc) = (vec![], String::new(), false, false);
    for c in s.chars() {
        if c == d && !quoted {
            out.push(std::mem::take(&mut cur));
            continue;
        }
        if esc {
            esc = false;
        } else if quoted && c == '\\' {
            esc = true;
        } else if c == '"' {
            quoted = !quoted;
        }
        cur.push(c);
    }
    out.push(cur);
    out
}
/// Lines gathered into parts, each beginning with a line that starts with mark.
fn gather(s: &str, mark: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for l in s.split('\n') {
        match out.last_mut() {
            Some(last) if !l.starts_with(mark) => {
                last.push('\n');
                last.push_str(l);
            }
            _ => out.push(l.into()),
        }
    }
    out
}
impl Bulk {
    /// Written as a table.
    fn flat(&self) -> bool {
        let (Value::Object(u), Value::Object(w)) = (&self.u, &self.w) else { return false };
        let plain = |m: &Map<String, Value>| m.values().all(|x| !x.is_array() && !x.is_object());
        !u.is_empty() && plain(u) && plain(w) && u.len() == w.len() && u.keys().all(|k| w.contains_key(k))
    }
    fn whole(&self) -> Value {
        let at = |i: usize| if i == self.p { self.w.clone() } else { self.u.clone() };
        let b = match self.shape {
            "array" => Value::Array((0..self.n).map(at).collect()),
            "fields" => Value::Object((0..self.n).map(|i| (format!("k{i}"), at(i))).collect()),
            _ => Value::String(self.u.as_str().unwrap().repeat(self.n)),
        };
        if self.inner {
            let mut m = Map::new();
            m.insert("a".into(), b);
            m.insert("z".into(), self.z.clone());
            Value::Object(m)
        } else {
            b
        }
    }
    fn q(&self) -> Value {
        json!({"shape": self.shape, "u": obs::val(&self.u), "w": obs::val(&self.w), "p": self.p, "inner": self.inner, "z": obs::val(&self.z)})
    }
    fn cut(&self, text: &str, o: &O) -> Option<Cut> {
        let stop = if self.inner { text.rfind('\n')? } else { text.len() };
        let (head, tail) = text.split_at(stop);
        let (form, start, stop) = match self.shape {
            "text" => {
                let a = if self.inner { 3 } else { 0 };
                let quoted = head.get(a..)?.starts_with('"');
                ("text", a + usize::from(quoted), head.len() - usize::from(quoted && head.ends_with('"')))
            }
            "fields" => ("fields", if self.inner { head.find('\n')? + 1 } else { 0 }, head.len()),
            _ => {
                let close = head.find(']')?;
                match head[close + 1..].chars().next()? {
                    '{' => ("table", head.find('\n')? + 1, head.len()),
                    _ if head[close + 1..].starts_with(":\n") => ("list", close + 3, head.len()),
                    _ => ("inline", close + 3, head.len()),
                }
            }
        };
        let body = head.get(start..stop)?;
        let sp = |k: usize| " ".repeat(k);
        let parts = match form {
            "inline" => split_cells(body, o.d),
            "table" => body.split('\n').map(String::from).collect(),
            "list" => gather(body, &format!("{}-", sp(o.n))),
            "fields" => gather(body, &format!("{}k", sp(if self.inner { o.n } else { 0 }))),
            _ => {
                if self.n == 0 || body.len() % self.n != 0 {
                    return None;
                }
                let k = body.len() / self.n;
                (0..self.n).map(|i| body.get(i * k..(i + 1) * k).map(String::from)).collect::<Option<_>>()?
            }
        };
        Some(Cut { form, pre: head[..start].into(), parts, post: format!("{}{}", &head[stop..], tail) })
    }
    /// The runs of a text that should consist of n - 1 copies of one thing and one other.
    fn runs(&self, text: &str, o: &O) -> Value {
        let total = text.chars().count();
        let none = json!({"pre": [], "lead": [], "unit": [], "odd": [], "post": [], "times": 0, "total": total});
        let Some(c) = self.cut(text, o) else { return none };
        if c.parts.len() != self.n {
            return none;
        }
        let lead = if c.form == "fields" { c.parts[0].find('k').map_or("", |k| &c.parts[0][..=k]) } else { "" };
        let bare = |i: usize| -> Option<&str> {
            let t = c.parts[i].strip_prefix(lead)?;
            if c.form == "fields" { t.strip_prefix(&i.to_string()) } else { Some(t) }
        };
        let first = usize::from(self.p == 0);
        let (Some(unit), Some(odd)) = (bare(first), bare(self.p)) else { return none };
        let times = (0..self.n).filter(|i| *i != self.p && bare(*i) == Some(unit)).count();
        json!({"pre": obs::cps(&c.pre), "lead": obs::cps(lead), "unit": obs::cps(unit), "odd": obs::cps(odd), "post": obs::cps(&c.post), "times": times, "total": total})
    }
    fn summary(&self, v: &Value) -> Value {
        let none = json!({"t": "none"});
        let (b, z) = if self.inner {
            if !v.as_object().is_some_and(|m| m.keys().eq(["a", "z"].iter())) {
                return json!({"len": 0, "same": 0, "first": none, "pth": none, "z": none});
            }
            (&v["a"], obs::val(&v["z"]))
        } else {
            (v, none.clone())
        };
        let f = usize::from(self.p == 0);
        let parts: Vec<(bool, Value)> = match (self.shape, b) {
            ("array", Value::Array(a)) => a.iter().map(|x| (true, x.clone())).collect(),
            ("fields", Value::Object(m)) => m.iter().enumerate().map(|(i, (k, x))| (**k == format!("k{i}"), x.clone())).collect(),
            ("text", Value::String(s)) => {
                let k = self.u.as_str().unwrap().len();
                (0..s.len().div_ceil(k)).map(|i| (true, s.get(i * k..(i + 1) * k).map_or(Value::Null, Value::from))).collect()
            }
            _ => vec![],
        };
        let first = parts.get(f).map(|x| &x.1);
        let text = first.map(Value::to_string);
        let same = parts.iter().enumerate().filter(|(i, (k, x))| *i != self.p && *k && Some(x) == first && Some(x.to_string()) == text).count();
        let at = |i: usize| parts.get(i).filter(|x| x.0).map_or(none.clone(), |x| obs::val(&x.1));
        json!({"len": parts.len(), "same": same, "first": at(f), "pth": at(self.p), "z": z})
    }
}
fn put(mut a: Value, b: Value) -> Value {
    for (k, x) in b.as_object().unwrap() {
        a[k] = x.clone();
    }
    a
}
#[cfg(not(feature = "f_alloc"))]
mod lib_io {
    use super::*;
    /// A writer that takes a bounded number of bytes per call.
    pub struct Dribble(pub Vec<u8>, pub usize);
    impl std::io::Write for &mut Dribble {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            let k = b.len().min(self.1);
            self.0.extend_from_slice(&b[..k]);
            Ok(k)
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    pub struct Sip<'a>(pub &'a [u8], pub usize);
    impl std::io::Read for Sip<'_> {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            let k = b.len().min(self.1).min(self.0.len());
            b[..k].copy_from_slice(&self.0[..k]);
            self.0 = &self.0[k..];
            Ok(k)
        }
    }
    pub fn write(v: &Value, o: &O, by: &str, step: usize) -> Option<String> {
        let mut w = Dribble(vec![], step);
        let opt = o.options();
        let r = obs::guard(|| format!("bulk write {by}"), || match by {
            #[cfg(not(feature = "f_std"))]
            "to_writer" => toon_rs::ser::to_writer(&mut w, v, &opt),
            "to_writer_streaming" => toon_rs::ser::to_writer_streaming(&mut w, v, &opt),
            _ => toon_rs::encode_to_writer(&mut w, v, &opt),
        });
        if matches!(r, Ok(Ok(()))) { String::from_utf8(w.0).ok() } else { None }
    }
    pub fn read(t: &str, o: &O, step: usize) -> (&'static str, Option<Value>) {
        let opt = o.options();
        match obs::guard(|| "bulk read".into(), || toon_rs::decode_from_reader::<_, Value>(Sip(t.as_bytes(), step), &opt)) {
            Ok(Ok(v)) => ("ok", Some(v)),
            Ok(Err(_)) => ("err", None),
            Err(_) => ("panic", None),
        }
    }
}
#[cfg(feature = "f_alloc")]
mod lib_io {
    use super::*;
    pub fn write(_: &Value, _: &O, _: &str, _: usize) -> Option<String> {
        None
    }
    pub fn read(_: &str, _: &O, _: usize) -> (&'static str, Option<Value>) {
        ("panic", None)
    }
}
fn encode(b: &Bulk, o: &O, way: &str, r: &mut Rng) -> Value {
    let v = b.whole();
    let step = *r.pick(&[1usize << 30, 8192, 4096, 1000, 65536, 7]);
    let (res, text) = match way {
        "cli" | "wasm" => {
            let q = Q { tool: if way == "cli" { "cli" } else { "wasm" }, dec: false, d: o.d, strict: true, pretty: false, from: if way == "wasm" { "arg" } else { *r.pick(&["stdin", "file"]) }, args: r.next() };
            let a = tool::run(&q, v.to_string().as_bytes());
            let t = String::from_utf8(a.out).ok();
            let t = if way == "cli" { t.and_then(|t| t.strip_suffix('\n').map(String::from)) } else { t };
            if a.done { ("ok".to_string(), t.unwrap_or_default()) } else { ("err".into(), a.note) }
        }
        "encode_to_writer" | "to_writer" | "to_writer_streaming" => match lib_io::write(&v, o, way, step) {
            Some(t) => ("ok".into(), t),
            None => ("err".into(), String::new()),
        },
        _ => obs::encode_raw(&v, o, way, || format!("bulk encode {way} {} x {}", b.n, b.u)),
    };
    put(json!({"k": "bulke", "by": way, "q": b.q(), "n": b.n, "o": o.enc_json(), "res": res}), b.runs(&text, o))
}
const DAMAGES: &[&str] = &["none", "count", "cell", "blank", "blank", "tab", "step"];
/// Reads the encoding after one damage; enc tells what the encoding was.
fn decode(b: &Bulk, o: &O, dam: &str, way: &str, r: &mut Rng) -> Value {
    let text = obs::encode_raw(&b.whole(), o, "stream", || "bulk".into()).1;
    let mut enc = json!({"q": b.q(), "n": b.n, "o": o.enc_json(), "res": "ok"});
    enc = put(enc, b.runs(&text, o));
    let n = b.n;
    let (mut dam, mut m, mut t) = (dam, n, text.clone());
    match (dam, b.cut(&text, o)) {
        ("count", _) if b.shape == "array" => {
            m = (*r.pick(&[n + 1, n - 1, n + 2, n - 2, n / 2 + 1, n * 2, n + 256, n + 65536, n % 256, n % 65536, n + 1, n - 1])).max(2);
            t = text.replacen(&format!("[{n}"), &format!("[{m}"), 1);
        }
        ("cell", Some(mut c)) if matches!(c.form, "inline" | "table") && c.parts.len() == n => {
            c.parts[b.p].push_str(&format!("{}1", o.d));
            t = c.join(o);
        }
        ("blank" | "tab" | "step", Some(mut c)) if matches!(c.form, "table" | "list" | "fields") && c.parts.len() == n => {
            c.parts[b.p].insert(0, match dam { "blank" => '\n', "tab" => '\t', _ => ' ' });
            t = c.join(o);
        }
        _ => dam = "none",
    }
    let od = O { strict: matches!(way, "cli") || r.pct(70), n: o.n, d: if r.pct(50) { ',' } else { '|' }, ..O::std() };
    let (res, v) = match way {
        "cli" | "wasm" => {
            let q = Q { tool: if way == "cli" { "cli" } else { "wasm" }, dec: true, d: od.d, strict: od.strict, pretty: r.pct(50), from: if way == "wasm" { "arg" } else { *r.pick(&["stdin", "file"]) }, args: r.next() };
            let a = tool::run(&q, t.as_bytes());
            let v = serde_json::from_slice(&a.out).ok();
            if a.done { ("ok", v) } else if a.told && a.out.is_empty() { ("err", None) } else { ("panic", None) }
        }
        "reader" => {
            let step = *r.pick(&[1usize << 30, 8192, 4096, 1000, 65536, 7]);
            lib_io::read(&t, &od, step)
        }
        _ => {
            let opt = od.options();
            match obs::guard(|| format!("bulk decode {dam} {} x {}", b.n, b.u), || toon_rs::decode_from_str::<Value>(&t, &opt)) {
                Ok(Ok(v)) => ("ok", Some(v)),
                Ok(Err(_)) => ("err", None),
                Err(_) => ("panic", None),
            }
        }
    };
    put(json!({"k": "bulkd", "by": way, "q": b.q(), "n": n, "m": m, "dam": dam, "strict": od.strict, "o": o.enc_json(), "enc": enc, "res": res}), b.summary(&v.unwrap_or(Value::Null)))
}
/// serde_json reads some numbers of many digits inexactly: the tools are given only values it reads back as they are.
fn exact(v: &Value) -> bool {
    serde_json::from_str::<Value>(&v.to_string()).is_ok_and(|x| x == *v && x.to_string() == v.to_string())
}
pub fn session(r: &mut Rng, what: &str) -> Vec<Value> {
    let mut b = bulk(r);
    while matches!(what, "cli" | "wasm") && !(exact(&b.u) && exact(&b.w) && exact(&b.z)) {
        b = bulk(r);
    }
    let mut o = O { d: *r.pick(&[',', '\t', '|']), n: *r.pick(&[2, 2, 4, 1]), ..O::std() };
    match what {
        "enc" => obs::ENCODERS.iter().map(|w| encode(&b, &o, w, r)).collect(),
        "counts" => {
            while b.shape != "array" {
                b = bulk(r);
            }
            vec![decode(&b, &o, if r.pct(70) { "count" } else { "cell" }, "str", r)]
        }
        "damage" => {
            let d = *r.pick(DAMAGES);
            let table = r.pct(60);
            let suits = |b: &Bulk| match d {
                "blank" => b.shape == "array" && b.p > 0 && if table { b.flat() } else { b.u.is_array() || b.u.is_object() },
                "cell" | "count" => b.shape == "array" && (!table || b.flat()),
                _ => true,
            };
            while !suits(&b) {
                b = bulk(r);
            }
            vec![decode(&b, &o, d, "str", r)]
        }
        "io" => {
            let w = *r.pick(crate::io::WRITERS);
            let d = if r.pct(70) { "none" } else { *r.pick(DAMAGES) };
            vec![encode(&b, &o, w, r), decode(&b, &o, d, "reader", r)]
        }
        "cli" | "wasm" => {
            o.n = 2;
            if what == "wasm" && o.d == '\t' {
                o.d = '|';
            }
            let d = if r.pct(50) { "none" } else { *r.pick(DAMAGES) };
            vec![if r.pct(50) { encode(&b, &o, what, r) } else { decode(&b, &o, d, what, r) }]
        }
        _ => {
            let w = *r.pick(obs::ENCODERS);
            vec![encode(&b, &o, w, r), decode(&b, &o, "none", "str", r)]
        }
    }
}
