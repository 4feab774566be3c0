//! The command line tool and the WebAssembly functions, run as processes.
use crate::gen;
use crate::io;
use crate::obs::{self, O};
use crate::profiles;
use crate::rng::Rng;
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;

/// One use of a tool.
#[derive(Clone, Debug)]
pub struct Q {
    pub tool: &'static str,
    pub dec: bool,
    pub d: char,
    pub strict: bool,
    pub pretty: bool,
    pub from: &'static str, // stdin, file, missing, dir
    pub args: u64,          // how the flags are written
}
pub struct A {
    pub done: bool,
    pub out: Vec<u8>,
    pub told: bool,
    pub note: String,
}
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Self {
        let d = std::env::temp_dir().join(format!("toonh{}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
pub fn cli(q: &Q, input: &[u8]) -> A {
    let scratch = if q.from == "stdin" { None } else { Some(Scratch::new()) };
    // groups of arguments, in any order
    let mut g: Vec<Vec<std::ffi::OsString>> = vec![];
    let mut rng = Rng::new(q.args, 1);
    if q.dec {
        g.push(vec![rng.pick(&["-d", "--decode"]).into()]);
    }
    let name = match q.d {
        '\t' => "tab",
        '|' => "pipe",
        _ => "comma",
    };
    if name != "comma" || rng.pct(30) {
        g.push(if rng.pct(50) { vec!["--delimiter".into(), name.into()] } else { vec![format!("--delimiter={name}").into()] });
    }
    if q.pretty {
        g.push(vec!["--pretty".into()]);
    }
    if rng.pct(20) {
        g.push(vec!["--strict".into()]);
    }
    if let Some(s) = &scratch {
        g.push(vec![match q.from {
            "dir" => s.0.clone(),
            "missing" => s.0.join("no such file"),
            _ => {
                let p = s.0.join(*rng.pick(&["in", "in.json", "a b.toon", "é.txt"]));
                std::fs::write(&p, input).unwrap();
                p
            }
        }
        .into()]);
    }
    for i in (1..g.len()).rev() {
        let j = rng.below(i + 1);
        g.swap(i, j);
    }
    let a: Vec<std::ffi::OsString> = g.into_iter().flatten().collect();
    let r = obs::guard(
        || json!({"cli": format!("{a:?}"), "in": String::from_utf8_lossy(input)}).to_string(),
        || {
            let mut c = Command::new(std::env::var("TOON_CLI").unwrap())
                .args(&a)
                .env_clear()
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::piped())
                .spawn()
                .unwrap();
            let mut si = c.stdin.take().unwrap();
            let data = if q.from == "stdin" { input.to_vec() } else { b"unused: 1".to_vec() };
            // nobody may be listening when a file was named
            let t = std::thread::spawn(move || {
                let mid = data.len() / 2;
                let _ = si.write_all(&data[..mid]);
                let _ = si.flush();
                let _ = si.write_all(&data[mid..]);
            });
            let o = c.wait_with_output().unwrap();
            t.join().unwrap();
            o
        },
    );
    match r {
        Ok(o) => A { done: o.status.success(), out: o.stdout, told: !o.stderr.is_empty(), note: format!("{:?} {}", o.status.code(), String::from_utf8_lossy(&o.stderr)) },
        Err(p) => panic!("cannot run the tool: {p}"),
    }
}
static WASM: Mutex<Option<(Child, ChildStdin, BufReader<ChildStdout>)>> = Mutex::new(None);
fn ask(q: &Value) -> Value {
    let mut g = WASM.lock().unwrap();
    if g.is_none() {
        let mut c = Command::new(std::env::var("TOON_WASM").unwrap()).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap();
        let (i, o) = (c.stdin.take().unwrap(), BufReader::new(c.stdout.take().unwrap()));
        *g = Some((c, i, o));
    }
    let (_, i, o) = g.as_mut().unwrap();
    let mut l = String::new();
    let r = obs::guard(|| q.to_string(), || writeln!(i, "{q}").and_then(|_| i.flush()).and_then(|_| o.read_line(&mut l)));
    match r {
        Ok(Ok(n)) if n > 0 => serde_json::from_str(&l).unwrap(),
        _ => {
            // it died on this request
            *g = None;
            json!({"res": "died", "s": "", "told": false, "eq": false})
        }
    }
}
pub fn wasm(q: &Q, input: &str) -> A {
    let r = ask(&json!({"f": if q.dec { "dec" } else { "enc" }, "s": input, "pipe": q.d == '|', "strict": q.strict, "pretty": q.pretty}));
    let s = r["s"].as_str().unwrap();
    match r["res"].as_str().unwrap() {
        "ok" => A { done: true, out: s.as_bytes().to_vec(), told: true, note: String::new() },
        x => A { done: false, out: vec![], told: x == "err" && !s.is_empty(), note: format!("{x} {s}") },
    }
}
/// What the library returns for the same input.
pub fn library(q: &Q, input: &[u8]) -> Option<String> {
    if matches!(q.from, "missing" | "dir") {
        return None;
    }
    let s = std::str::from_utf8(input).ok()?;
    let o = O { d: q.d, strict: q.strict, ..O::std() };
    if q.dec {
        let v = obs::dec("seen", s, &o).1?;
        Some(if q.pretty { serde_json::to_string_pretty(&v).unwrap() } else { v.to_string() })
    } else {
        obs::enc("seen", &serde_json::from_str::<Value>(s).ok()?, &o, "stream").1
    }
}
pub fn run(q: &Q, input: &[u8]) -> A {
    if q.tool == "cli" { cli(q, input) } else { wasm(q, std::str::from_utf8(input).unwrap()) }
}
/// JSON tokens whose double is serde_json's to find.
fn flj(text: &str) -> Value {
    let is = |c: char| c.is_ascii_digit() || matches!(c, '+' | '-' | '.' | 'e' | 'E');
    let mut out = vec![];
    for tok in text.split(|c: char| !is(c)) {
        if tok.len() < 4 || tok.len() > 800 || !obs::json_number(tok) || out.iter().any(|(k, _)| k == tok) {
            continue;
        }
        let (mant, exp) = tok.split_once(['e', 'E']).unwrap_or((tok, "0"));
        let sig: String = mant.chars().filter(|c| c.is_ascii_digit()).collect();
        let frac = mant.split_once('.').map(|x| x.1.len()).unwrap_or(0);
        let far = exp.parse::<i64>().map(|x| (x - frac as i64).abs() > 22).unwrap_or(true);
        if sig.trim_start_matches('0').len() > 15 || far {
            if let Ok(f) = serde_json::from_str::<f64>(tok) {
                out.push((tok.to_string(), obs::shortest(f)));
            }
        }
    }
    out.into_iter().map(|(k, n)| json!({"k": obs::cps(&k), "n": n})).collect()
}
fn observe(q: &Q, input: &[u8]) -> Value {
    let a = run(q, input);
    let lib = library(q, input);
    let text = String::from_utf8_lossy(input);
    let fl = if q.dec { obs::fl(&format!("{text}\n{}", String::from_utf8_lossy(&a.out))) } else { flj(&text) };
    json!({"k": "tool", "tool": q.tool, "note": a.note, "how": format!("{q:?}"), "lib": lib.is_some(), "lout": lib.unwrap_or_default().as_bytes(),
        "q": {"op": if q.dec { "dec" } else { "enc" }, "in": input, "readable": !matches!(q.from, "missing" | "dir"), "limit": q.tool == "wasm", "nl": q.tool == "cli",
              "d": q.d as u32, "strict": q.strict, "pretty": q.pretty, "fl": fl},
        "a": {"done": a.done, "out": a.out, "told": a.told}})
}

// ------------------------------------------------------------- JSON texts
fn ws(r: &mut Rng, noise: usize) -> &'static str {
    if r.pct(noise) { r.pick(&[" ", "\n", "\t", "\r\n", "  "]) } else { "" }
}
fn jstr(r: &mut Rng, s: &str, noise: usize, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        let short = match c {
            '"' => "\\\"",
            '\\' => "\\\\",
            '\n' => "\\n",
            '\r' => "\\r",
            '\t' => "\\t",
            '\u{8}' => "\\b",
            '\u{c}' => "\\f",
            '/' if r.pct(noise) => "\\/",
            _ => "",
        };
        if !short.is_empty() && !r.pct(noise / 3) {
            o.push_str(short);
        } else if (c as u32) < 32 || !short.is_empty() || r.pct(noise / 4) {
            let mut b = [0u16; 2];
            for u in c.encode_utf16(&mut b) {
                o.push_str(&if r.pct(50) { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") });
            }
        } else {
            o.push(c);
        }
    }
    o.push('"');
}
fn jnum(r: &mut Rng, n: &serde_json::Number, noise: usize) -> String {
    if !r.pct(noise) {
        return n.to_string();
    }
    match r.below(9) {
        0 => format!("{}.0", n.as_i64().unwrap_or(7)),
        1 => format!("{}e{}", n.as_i64().unwrap_or(3), r.below(30)),
        2 => format!("{}E-{}", n.as_i64().unwrap_or(3), r.below(30)),
        3 => format!("{}.{}e+{}", r.below(100), r.next() % 100000, r.below(40)),
        4 => format!("-{}", r.next()),
        5 => format!("{}{}", r.next(), r.next() % 1000),
        6 => format!("0.{:0w$}{}", 0, r.next() % 100000, w = r.range(1, 12)),
        7 => "-0".into(),
        _ => n.as_f64().map(|f| format!("{f:e}")).unwrap_or("1".into()),
    }
}
pub fn jtext(r: &mut Rng, v: &Value, noise: usize, o: &mut String) {
    o.push_str(ws(r, noise));
    match v {
        Value::Null => o.push_str("null"),
        Value::Bool(b) => o.push_str(&b.to_string()),
        Value::Number(n) => o.push_str(&jnum(r, n, noise)),
        Value::String(s) => jstr(r, s, noise, o),
        Value::Array(a) => {
            o.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                jtext(r, x, noise, o);
            }
            o.push_str(ws(r, noise));
            o.push(']');
        }
        Value::Object(m) => {
            o.push('{');
            let mut first = true;
            for (k, x) in m {
                let again = r.pct(noise / 6);
                for _ in 0..if again { 2 } else { 1 } {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    o.push_str(ws(r, noise));
                    jstr(r, k, noise, o);
                    o.push_str(ws(r, noise));
                    o.push(':');
                    if again && r.pct(50) { o.push('1') } else { jtext(r, x, noise, o) }
                }
            }
            o.push_str(ws(r, noise));
            o.push('}');
        }
    }
    o.push_str(ws(r, noise));
}
const JSOUP: &[&str] = &["{", "}", "[", "]", ",", ":", "\"a\"", "\"b\"", "1", "-0", "01", "1.5", ".5", "1e5", "1E+", "-", "true", "null", "nul", "\"\\x\"", "\"\\ud83d\\ude00\"", "\"\\ud800\"", "\"\u{1}\"",
    "\"a", "'a'", " ", "\n", "\u{feff}", "\u{a0}", "//c", "NaN", "Infinity", "\"\\u00e9\"", "1e400", "18446744073709551616", "{}", "[]", "[1,]", "{\"a\":1,}"];
fn json_text(r: &mut Rng) -> String {
    if r.pct(8) {
        return (0..r.range(0, 6)).map(|_| *r.pick(JSOUP)).collect();
    }
    if r.below(400) == 0 {
        let n = *r.pick(&[100, 126, 127, 128, 129, 200]);
        return format!("{}1{}", "[".repeat(n), "]".repeat(n));
    }
    let c = profiles::cfg(r);
    let v = gen::root(r, &c);
    let mut o = String::new();
    let noise = *r.pick(&[0, 0, 20, 40]);
    jtext(r, &v, noise, &mut o);
    if r.pct(20) {
        let mut cs: Vec<char> = o.chars().collect();
        let i = r.below(cs.len().max(1));
        match r.below(4) {
            0 => cs.truncate(i),
            1 if !cs.is_empty() => {
                cs.remove(i);
            }
            2 => {
                let x: Vec<char> = r.pick(JSOUP).chars().collect();
                cs.splice(i..i, x);
            }
            _ => cs.extend(r.pick(JSOUP).chars()),
        }
        o = cs.into_iter().collect();
    }
    o
}
pub fn session(r: &mut Rng, tool: &'static str) -> Vec<Value> {
    let dec = r.pct(50);
    let json = dec == r.pct(6);
    let mut b = if json { json_text(r) } else { profiles::any_text(r).0 }.into_bytes();
    if r.pct(15) {
        b.push(b'\n');
    }
    let cli = tool == "cli";
    if cli && r.pct(7) {
        io::spoil(r, &mut b);
    }
    let from = if cli { *r.pick(&["stdin", "stdin", "stdin", "file", "file", "stdin", "file", "stdin", "missing", "dir"]) } else { "arg" };
    let d = if cli { *r.pick(&[',', '\t', '|']) } else { *r.pick(&[',', '|']) };
    let q = Q { tool, dec, d, strict: cli || r.pct(50), pretty: r.pct(50), from, args: r.next() };
    let mut out = vec![observe(&q, &b)];
    // what it printed goes back through it
    let a = &out[0]["a"];
    if a["done"] == true && r.pct(30) {
        let o: Vec<u8> = a["out"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
        out.push(observe(&Q { dec: !dec, from: if cli { "stdin" } else { "arg" }, ..q }, &o));
    }
    out
}
pub fn limits(r: &mut Rng) -> Vec<Value> {
    let i = r.1 as usize;
    let max = 10usize * 1024 * 1024;
    let len = [max, max + 1, max - 1, max + 2, max / 2 + 1, max * 2, max - 3, max + 1000][i % 8];
    let op = ["enc", "dec"][i / 8 % 2];
    let ch = ["x", "é", "漢", "😀"][i / 16 % 4];
    let (s, p) = (i / 64 % 2 == 0, i / 128 % 2 == 0);
    let a = ask(&json!({"f": "limit", "op": op, "ch": ch, "len": len, "strict": s, "pretty": p, "pipe": p}));
    vec![json!({"k": "limit", "op": op, "ch": ch, "len": len, "res": a["res"], "eq": a["eq"], "told": a["told"]})]
}
/// A document's or text's outcome compared with what a model expects of it.
pub fn agrees(tool: &'static str, dec: bool, strict: bool, pretty: bool, d: char, input: &str, args: u64, want: Option<&str>) -> Result<(), String> {
    let from = if tool == "wasm" { "arg" } else if args % 3 == 0 { "file" } else { "stdin" };
    let a = run(&Q { tool, dec, d, strict, pretty, from, args }, input.as_bytes());
    let got = String::from_utf8_lossy(&a.out).to_string();
    let ok = match want {
        Some(w) => a.done && if tool == "cli" { got == format!("{w}\n") } else { got == w },
        None => !a.done && a.told && a.out.is_empty(),
    };
    if ok { Ok(()) } else { Err(format!("{got} [{}]", a.note)) }
}
