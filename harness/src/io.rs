//! The reader and writer entry points, driven by an environment that splits, interrupts and fails.
use crate::gen;
use crate::obs::{self, O};
use crate::profiles;
use crate::rng::Rng;
use crate::typegen;
use serde_json::{json, Value};
use std::io::{Error, ErrorKind, Read, Result, Write};

/// What the environment does on one call.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Step {
    Take(usize),
    Intr,
    Zero,
    Err,
}
struct Env {
    plan: Vec<Step>,
    at: usize,
    log: Vec<Value>,
}
impl Env {
    fn new(plan: &[Step]) -> Self {
        Env { plan: plan.to_vec(), at: 0, log: vec![] }
    }
    fn next(&mut self) -> Step {
        self.at += 1;
        self.plan.get(self.at - 1).cloned().unwrap_or(Step::Take(usize::MAX))
    }
    fn note(&mut self, t: &str, b: Option<&[u8]>) {
        self.log.push(match b {
            Some(b) => json!({"t": t, "b": b}),
            None => json!({"t": t}),
        });
    }
}
fn failure() -> Error {
    Error::new(ErrorKind::Other, "boom")
}
struct W(Env);
impl Write for &mut W {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let e = &mut self.0;
        if buf.is_empty() {
            e.note("take", Some(buf));
            return Ok(0);
        }
        match e.next() {
            Step::Take(n) => {
                let n = n.clamp(1, buf.len());
                e.note("take", Some(&buf[..n]));
                Ok(n)
            }
            Step::Intr => {
                e.note("intr", None);
                Err(ErrorKind::Interrupted.into())
            }
            Step::Zero => {
                e.note("zero", None);
                Ok(0)
            }
            Step::Err => {
                e.note("err", None);
                Err(failure())
            }
        }
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
struct R<'a>(Env, &'a [u8]);
impl Read for &mut R<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let e = &mut self.0;
        if self.1.is_empty() && e.at >= e.plan.len() {
            e.note("eof", None);
            return Ok(0);
        }
        match e.next() {
            Step::Take(_) | Step::Zero if self.1.is_empty() => {
                // nothing left to split
                e.note("eof", None);
                Ok(0)
            }
            Step::Take(n) => {
                let n = n.clamp(1, buf.len().min(self.1.len()));
                buf[..n].copy_from_slice(&self.1[..n]);
                e.note("give", Some(&self.1[..n]));
                self.1 = &self.1[n..];
                Ok(n)
            }
            Step::Zero | Step::Intr => {
                e.note("intr", None);
                Err(ErrorKind::Interrupted.into())
            }
            Step::Err => {
                e.note("err", None);
                Err(failure())
            }
        }
    }
}
#[cfg(not(any(feature = "f_alloc", feature = "f_std")))]
pub const WRITERS: &[&str] = &["encode_to_writer", "to_writer", "to_writer_streaming"];
#[cfg(feature = "f_std")]
pub const WRITERS: &[&str] = &["encode_to_writer", "to_writer_streaming"];
#[cfg(feature = "f_alloc")]
pub const WRITERS: &[&str] = &[];
pub fn write<T: serde::Serialize>(v: &T, what: (&str, Value), o: &O, by: &str, plan: &[Step]) -> Value {
    let mut w = W(Env::new(plan));
    let opt = o.options();
    let r = obs::guard(
        || json!({"write": what.1, "by": by, "plan": format!("{plan:?}")}).to_string(),
        || match by {
            #[cfg(not(feature = "f_alloc"))]
            "encode_to_writer" => toon_rs::encode_to_writer(&mut w, v, &opt),
            #[cfg(not(any(feature = "f_alloc", feature = "f_std")))]
            "to_writer" => toon_rs::ser::to_writer(&mut w, v, &opt),
            #[cfg(not(feature = "f_alloc"))]
            "to_writer_streaming" => toon_rs::ser::to_writer_streaming(&mut w, v, &opt),
            _ => {
                let _ = (&mut w, &opt, v);
                let r: toon_rs::Result<()> = panic!("writer {by}");
                #[allow(unreachable_code)]
                r
            }
        },
    );
    let (res, msg) = match r {
        Ok(Ok(())) => ("ok", String::new()),
        Ok(Err(e)) => ("err", e.to_string()),
        Err(p) => ("panic", p),
    };
    json!({"k": "io", "dir": "w", "by": by, "is": what.0, "x": what.1, "o": o.enc_json(), "ev": w.0.log, "res": res, "msg": msg})
}
#[cfg(feature = "f_alloc")]
pub fn read(_: &[u8], _: &O, _: &[Step]) -> Value {
    json!({"k": "seen"})
}
#[cfg(not(feature = "f_alloc"))]
pub fn read(whole: &[u8], o: &O, plan: &[Step]) -> Value {
    let mut r = R(Env::new(plan), whole);
    let opt = o.options();
    let x = obs::guard(
        || json!({"read": String::from_utf8_lossy(whole), "plan": format!("{plan:?}")}).to_string(),
        || toon_rs::decode_from_reader::<_, Value>(&mut r, &opt),
    );
    let (res, v, msg) = match x {
        Ok(Ok(v)) => ("ok", obs::val(&v), String::new()),
        Ok(Err(e)) => ("err", json!({"t": "none"}), e.to_string()),
        Err(p) => ("panic", json!({"t": "none"}), p),
    };
    // the same text, whole
    let (d, _) = match std::str::from_utf8(whole) {
        Ok(t) => obs::dec("seen", t, o),
        Err(_) => (json!({"res": "none", "v": {"t": "none"}}), None),
    };
    json!({"k": "io", "dir": "r", "sres": d["res"], "sv": d["v"], "o": o.dec_json(&String::from_utf8_lossy(whole)), "whole": whole, "ev": r.0.log, "res": res, "v": v, "msg": msg})
}
fn plan(r: &mut Rng, faults: usize) -> Vec<Step> {
    let k = r.range(0, 14);
    let small = r.pct(50);
    (0..k)
        .map(|_| {
            if r.pct(faults) {
                r.pick(&[Step::Intr, Step::Intr, Step::Intr, Step::Zero, Step::Err]).clone()
            } else if small {
                Step::Take(r.range(1, 3))
            } else {
                Step::Take(*r.pick(&[1, 2, 3, 7, 8, 31, 32, 33, 64, 500]))
            }
        })
        .collect()
}
fn wopts(r: &mut Rng) -> O {
    let fold = r.pct(30) && obs::FOLDS;
    O { d: *r.pick(&[',', '\t', '|']), n: *r.pick(&[2, 4, 1, 3]), fold, fd: *r.pick(&[-1, -1, 0, 2, 3]), ..O::std() }
}
pub fn session(r: &mut Rng) -> Vec<Value> {
    let faults = *r.pick(&[0, 20, 50]);
    if r.below(400) == 0 {
        // longer than any usual buffer, with a long character near a buffer's end
        let at = *r.pick(&[1020usize, 4092, 8188, 8192, 9000]) + r.below(5);
        let s = format!("{}{}{}", "x".repeat(at), r.pick(&["é", "漢", "😀"]), "y".repeat(r.below(3000)));
        let p = plan(r, faults);
        let p: Vec<Step> = p.into_iter().map(|s| if let Step::Take(n) = s { Step::Take(n * 97) } else { s }).collect();
        if r.pct(50) {
            let v = json!({"a": s});
            return WRITERS.iter().map(|by| write(&v, ("value", obs::val(&v)), &O::std(), by, &p)).collect();
        }
        return vec![read(format!("a: {s}").as_bytes(), &O::std(), &p)];
    }
    if r.pct(45) {
        let c = profiles::cfg(r);
        let v = gen::root(r, &c);
        let o = wopts(r);
        let p = plan(r, faults);
        return WRITERS.iter().map(|by| write(&v, ("value", obs::val(&v)), &o, by, &p)).collect();
    }
    if r.pct(15) {
        let d = r.range(1, 3);
        let t = typegen::wild(r, d);
        let o = wopts(r);
        let p = plan(r, faults);
        return WRITERS.iter().map(|by| write(&t, ("tree", t.js()), &o, by, &p)).collect();
    }
    let (t, n) = profiles::any_text(r);
    let mut b = t.into_bytes();
    if r.pct(30) {
        spoil(r, &mut b);
    }
    let o = O { strict: r.pct(60), n, ex: r.pct(30), d: *r.pick(&[',', '\t', '|']), ..O::std() };
    let (p, q) = (plan(r, faults), plan(r, 0));
    vec![read(&b, &o, &p), read(&b, &o, &q)]
}
/// Make the bytes (likely) not UTF-8.
pub fn spoil(r: &mut Rng, b: &mut Vec<u8>) {
    let i = r.below(b.len() + 1);
    let x: &[&[u8]] = &[&[0xff], &[0x80], &[0xc3], &[0xe2, 0x82], &[0xf0, 0x9f, 0x98], &[0xc0, 0xaf], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xc3, 0xa9], &[0xef, 0xbb, 0xbf]];
    let x = r.pick(x).to_vec();
    if r.pct(25) {
        b.truncate(i);
        b.extend(x);
    } else {
        b.splice(i..i, x);
    }
}
fn steps(v: &Value) -> Vec<Step> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|s| match s["t"].as_str().unwrap() {
            "take" => Step::Take(s["n"].as_u64().unwrap() as usize),
            "intr" => Step::Intr,
            "zero" => Step::Zero,
            _ => Step::Err,
        })
        .collect()
}
/// Sessions for the schedules TLC generated: every writer and the reader under every one.
pub fn schedules(cfg: &Value, gen: &[Value]) -> Vec<Vec<Value>> {
    let mut out = vec![];
    let mut seen = std::collections::BTreeSet::new();
    for g in gen {
        let doc: Vec<u8> = cfg["docs"][g["doc"].as_u64().unwrap() as usize - 1].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect();
        let p = steps(&g["plan"]);
        if !seen.insert((doc.clone(), p.clone())) {
            continue;
        }
        if cfg["dir"] == "w" {
            let v: Value = toon_rs::decode_from_str(std::str::from_utf8(&doc).unwrap(), &O::std().options()).unwrap();
            out.push(WRITERS.iter().map(|by| write(&v, ("value", obs::val(&v)), &O::std(), by, &p)).collect());
        } else {
            out.push(vec![read(&doc, &O::std(), &p)]);
        }
    }
    out
}
