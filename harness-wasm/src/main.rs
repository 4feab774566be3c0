//! One JSON request per line, one JSON answer per line.
//!   {"f":"enc","s":TEXT,"pipe":B,"strict":B}     json_to_toon
//!   {"f":"dec","s":TEXT,"strict":B,"pretty":B}   toon_to_json
//!   {"f":"limit","op":"enc"|"dec","ch":TEXT,"len":BYTES,...}   an input of exactly that many bytes
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::catch_unwind;

fn call(op: &str, s: &str, a: bool, b: bool) -> Value {
    let r = catch_unwind(|| if op == "enc" { toon_wasm::json_to_toon(s, a, b) } else { toon_wasm::toon_to_json(s, a, b) });
    match r {
        Ok(Ok(s)) => json!({"res": "ok", "s": s}),
        Ok(Err(e)) => json!({"res": "err", "s": e}),
        Err(_) => json!({"res": "panic", "s": ""}),
    }
}
/// What the library itself answers.
fn library(op: &str, s: &str, a: bool, b: bool) -> Option<String> {
    let mut o = toon_rs::Options { strict: if op == "enc" { b } else { a }, ..Default::default() };
    if op == "enc" {
        o.delimiter = if a { toon_rs::Delimiter::Pipe } else { toon_rs::Delimiter::Comma };
        toon_rs::encode_to_string(&serde_json::from_str::<Value>(s).ok()?, &o).ok()
    } else {
        let v: Value = toon_rs::decode_from_str(s, &o).ok()?;
        Some(if b { serde_json::to_string_pretty(&v).unwrap() } else { v.to_string() })
    }
}
/// A document of exactly `len` bytes made of `ch`.
fn big(op: &str, ch: &str, len: usize) -> String {
    let (pre, post) = if op == "enc" { ("{\"a\":\"", "\"}") } else { ("a: ", "") };
    let mut s = String::from(pre);
    let room = len - pre.len() - post.len();
    s.extend(std::iter::repeat_n(ch, room / ch.len()));
    s.extend(std::iter::repeat_n("z", room % ch.len()));
    s.push_str(post);
    assert_eq!(s.len(), len);
    s
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let q: Value = serde_json::from_str(&l.unwrap()).unwrap();
        let flag = |k: &str| q[k].as_bool().unwrap_or(false);
        let st = |k: &str| q[k].as_str().unwrap().to_string();
        let f = st("f");
        let op = if f == "limit" { st("op") } else { f.clone() };
        let (a, b) = if op == "enc" { (flag("pipe"), flag("strict")) } else { (flag("strict"), flag("pretty")) };
        let ans = if f == "limit" {
            let s = big(&op, &st("ch"), q["len"].as_u64().unwrap() as usize);
            let r = call(&op, &s, a, b);
            let eq = r["res"] == "ok" && r["s"].as_str() == library(&op, &s, a, b).as_deref();
            json!({"res": r["res"], "eq": eq, "told": r["s"] != ""})
        } else {
            call(&op, &st("s"), a, b)
        };
        let mut w = out.lock();
        writeln!(w, "{ans}").unwrap();
        w.flush().unwrap();
    }
}
