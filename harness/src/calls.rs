//! Many calls in one process: begun inside one another, abandoned half way by their caller's
//! code, on several threads in a given order, and truly at once.
use crate::obs::{self, O};
use crate::profiles;
use crate::rng::Rng;
use crate::gen;
use serde::de::{self, Deserialize, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Serialize, SerializeMap, SerializeSeq, Serializer};
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Barrier};
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Call {
    op: String,
    v: Value,
    text: String,
    o: O,
}
impl Call {
    fn encodes(&self) -> bool {
        matches!(self.op.as_str(), "senc" | "venc" | "wenc")
    }
    fn js(&self) -> Value {
        if self.encodes() {
            json!({"op": self.op, "v": obs::val(&self.v), "o": self.o.enc_json()})
        } else {
            json!({"op": self.op, "lines": obs::lines_of(&self.text), "o": self.o.dec_json(&self.text)})
        }
    }
    fn parse(c: &Value) -> Call {
        let op = c["op"].as_str().unwrap().to_string();
        let o = &c["o"];
        let n = o["n"].as_u64().unwrap() as usize;
        let ch = |x: &Value| char::from_u32(x.as_u64().unwrap() as u32).unwrap();
        if c.get("v").is_some() {
            let o = O { d: ch(&o["d"]), n, fold: o["fold"].as_bool().unwrap(), fd: o["fd"].as_i64().unwrap(), ..O::std() };
            return Call { op, v: obs::unval(&c["v"]), text: String::new(), o };
        }
        let text = c["lines"].as_array().unwrap().iter().map(obs::text_of).collect::<Vec<_>>().join("\n");
        let o = O { d: ch(&o["dd"]), n, strict: o["strict"].as_bool().unwrap(), ex: o["ex"].as_bool().unwrap(), ..O::std() };
        Call { op, v: Value::Null, text, o }
    }
}
enum Cmd {
    Begin(Arc<Call>),
    Pass,
    Err,
    Panic,
}
thread_local! {
    static LINE: RefCell<Option<(Receiver<Cmd>, Sender<Value>)>> = const { RefCell::new(None) };
}
/// The caller's own code: reports that it was reached and does as it is told.  Runs freely
/// on threads that have no line to the driver.
fn gate() -> Result<(), &'static str> {
    LINE.with(|l| {
        let l = l.borrow();
        let Some((rx, tx)) = l.as_ref() else { return Ok(()) };
        tx.send(json!({"res": "wait"})).unwrap();
        loop {
            match rx.recv() {
                Ok(Cmd::Begin(c)) => tx.send(perform(&c).js()).unwrap(),
                Ok(Cmd::Pass) => return Ok(()),
                Ok(Cmd::Err) => return Err("gate"),
                Ok(Cmd::Panic) | Err(_) => panic!("gate"),
            }
        }
    })
}
/// A JSON value that passes a gate at every string.  The library may ask a string more than
/// once: it answers as it first did.
struct Gated<'a>(&'a Value, &'a RefCell<HashMap<*const Value, bool>>);
impl Serialize for Gated<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.0 {
            Value::String(x) => {
                let known = self.1.borrow().get(&(self.0 as *const _)).copied();
                let fine = known.unwrap_or_else(|| gate().is_ok());
                self.1.borrow_mut().insert(self.0, fine);
                if !fine {
                    return Err(ser::Error::custom("gate"));
                }
                s.serialize_str(x)
            }
            Value::Array(a) => {
                let mut q = s.serialize_seq(Some(a.len()))?;
                for x in a {
                    q.serialize_element(&Gated(x, self.1))?;
                }
                q.end()
            }
            Value::Object(m) => {
                let mut q = s.serialize_map(Some(m.len()))?;
                for (k, x) in m {
                    q.serialize_entry(k, &Gated(x, self.1))?;
                }
                q.end()
            }
            x => x.serialize(s),
        }
    }
}
struct Taken(Value);
impl<'de> Deserialize<'de> for Taken {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Value;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("a value")
            }
            fn visit_bool<E>(self, b: bool) -> Result<Value, E> {
                Ok(json!(b))
            }
            fn visit_i64<E>(self, n: i64) -> Result<Value, E> {
                Ok(json!(n))
            }
            fn visit_u64<E>(self, n: u64) -> Result<Value, E> {
                Ok(json!(n))
            }
            fn visit_f64<E>(self, n: f64) -> Result<Value, E> {
                Ok(json!(n))
            }
            fn visit_unit<E>(self) -> Result<Value, E> {
                Ok(Value::Null)
            }
            fn visit_none<E>(self) -> Result<Value, E> {
                Ok(Value::Null)
            }
            fn visit_str<E: de::Error>(self, s: &str) -> Result<Value, E> {
                gate().map_err(E::custom)?;
                Ok(json!(s))
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
                let mut out = vec![];
                while let Some(Taken(x)) = a.next_element()? {
                    out.push(x);
                }
                Ok(Value::Array(out))
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
                let mut out = Map::new();
                while let Some((k, Taken(x))) = a.next_entry::<String, Taken>()? {
                    out.insert(k, x);
                }
                Ok(Value::Object(out))
            }
        }
        d.deserialize_any(V).map(Taken)
    }
}
struct Port<'a>(bool, &'a [u8], Vec<u8>);
impl Port<'_> {
    fn gate(&mut self) -> std::io::Result<()> {
        if !std::mem::replace(&mut self.0, true) {
            gate().map_err(std::io::Error::other)?;
        }
        Ok(())
    }
}
impl Write for &mut Port<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if !b.is_empty() {
            self.gate()?;
        }
        self.2.extend(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Read for &mut Port<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if !b.is_empty() {
            self.gate()?;
        }
        self.1.read(b)
    }
}
#[derive(Clone, PartialEq)]
enum Out {
    Text(String),
    Val(Value),
    Err(String),
    Panic,
}
impl Out {
    fn js(&self) -> Value {
        match self {
            Out::Text(s) => json!({"res": "ok", "lines": obs::lines_of(s)}),
            Out::Val(v) => json!({"res": "ok", "v": obs::val(v)}),
            Out::Err(m) => json!({"res": "err", "msg": m}),
            Out::Panic => json!({"res": "panic"}),
        }
    }
}
fn perform(c: &Call) -> Out {
    let o = c.o.options();
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<Out, toon_rs::Error> {
        let seen = RefCell::new(HashMap::new());
        let (enc, dec) = (Out::Text, Out::Val);
        // a copy of the text of its own, gone after the call
        let text = c.text.clone();
        Ok(match c.op.as_str() {
            "senc" => enc(toon_rs::encode_to_string(&Gated(&c.v, &seen), &o)?),
            #[cfg(not(any(feature = "f_alloc", feature = "f_std")))]
            "venc" => enc(toon_rs::ser::to_string(&Gated(&c.v, &seen), &o)?),
            #[cfg(not(feature = "f_alloc"))]
            "wenc" => {
                let mut p = Port(false, &[], vec![]);
                toon_rs::encode_to_writer(&mut p, &c.v, &o)?;
                enc(String::from_utf8(p.2).expect("not UTF-8"))
            }
            #[cfg(not(feature = "f_alloc"))]
            "rdec" => {
                let mut p = Port(false, text.as_bytes(), vec![]);
                dec(toon_rs::decode_from_reader::<_, Value>(&mut p, &o)?)
            }
            "dec" => dec(toon_rs::decode_from_str::<Taken>(&text, &o)?.0),
            "plain" => dec(toon_rs::decode_from_str::<Value>(&text, &o)?),
            x => panic!("operation {x}"),
        })
    }));
    match r {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => Out::Err(e.to_string()),
        Err(_) => Out::Panic,
    }
}
/// Every call on a thread of its own, alone.
fn first(calls: &[Call]) -> Vec<Value> {
    calls.iter().map(|c| std::thread::scope(|s| s.spawn(|| perform(c).js()).join().unwrap())).collect()
}
/// One thread of the system, waiting for what to do next.
struct Worker(Option<Sender<Cmd>>, Receiver<Value>, Option<std::thread::JoinHandle<()>>);
impl Worker {
    fn new() -> Worker {
        let (tx, rx) = channel();
        let (otx, orx) = channel::<Value>();
        let h = std::thread::spawn(move || {
            LINE.with(|l| *l.borrow_mut() = Some((rx, otx)));
            LINE.with(|l| {
                let l = l.borrow();
                let (rx, tx) = l.as_ref().unwrap();
                while let Ok(m) = rx.recv() {
                    if let Cmd::Begin(c) = m {
                        tx.send(perform(&c).js()).unwrap();
                    }
                }
            });
        });
        Worker(Some(tx), orx, Some(h))
    }
    fn event(&self, m: Cmd) -> Value {
        self.0.as_ref().unwrap().send(m).unwrap();
        self.1.recv().unwrap_or(json!({"res": "gone"}))
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        self.0 = None;
        let _ = self.2.take().unwrap().join();
    }
}
struct System {
    calls: Vec<Arc<Call>>,
    first: Vec<Value>,
    workers: Vec<Worker>,
    ev: Vec<Value>,
    /// calls in progress per thread
    open: Vec<usize>,
}
impl System {
    fn new(calls: &[Call], threads: usize) -> System {
        let what = json!(calls.iter().map(|c| c.js()).collect::<Vec<_>>()).to_string();
        *obs::CURRENT.lock().unwrap() = Some((Instant::now(), what));
        System {
            calls: calls.iter().cloned().map(Arc::new).collect(),
            first: first(calls),
            workers: (0..threads).map(|_| Worker::new()).collect(),
            ev: vec![],
            open: vec![0; threads],
        }
    }
    /// Thread t: a = "begin" (call c, from 1), "pass", "err" or "panic".
    fn event(&mut self, t: usize, a: &str, c: usize) {
        let out = self.workers[t].event(match a {
            "begin" => Cmd::Begin(self.calls[c - 1].clone()),
            "pass" => Cmd::Pass,
            "err" => Cmd::Err,
            _ => Cmd::Panic,
        });
        let waits = out["res"] == "wait";
        if a == "begin" {
            self.open[t] += waits as usize;
        } else if !waits {
            self.open[t] -= 1;
        }
        let mut e = json!({"t": t + 1, "a": a, "out": out});
        if a == "begin" {
            e["c"] = json!(c);
        }
        self.ev.push(e);
    }
    fn done(mut self) -> Value {
        for t in 0..self.workers.len() {
            while self.open[t] > 0 {
                self.event(t, "pass", 0);
            }
        }
        *obs::CURRENT.lock().unwrap() = None;
        json!({"k": "calls", "calls": self.calls.iter().map(|c| c.js()).collect::<Vec<_>>(), "first": self.first, "threads": self.workers.len(), "ev": self.ev})
    }
}
/// Sessions for the schedules TLC generated.
pub fn schedules(cfg: &Value, gen: &[Value]) -> Vec<Vec<Value>> {
    let calls: Vec<Call> = cfg["calls"].as_array().unwrap().iter().map(Call::parse).collect();
    let mut out = vec![];
    let mut seen = HashSet::new();
    for g in gen {
        if !seen.insert(g["ev"].to_string()) {
            continue;
        }
        let mut s = System::new(&calls, cfg["threads"].as_u64().unwrap() as usize);
        for e in g["ev"].as_array().unwrap() {
            let t = e["t"].as_u64().unwrap() as usize - 1;
            let a = e["a"].as_str().unwrap();
            if a != "begin" && s.open[t] == 0 {
                break; // the library ended the call early: already recorded
            }
            s.event(t, a, e["c"].as_u64().unwrap_or(0) as usize);
        }
        out.push(vec![s.done()]);
    }
    out
}

fn eopts(r: &mut Rng) -> O {
    O { d: profiles::any_delim(r), n: *r.pick(&[2, 2, 4, 1, 3]), fold: r.pct(30) && obs::FOLDS, fd: *r.pick(&[-1, -1, 0, 2, 3]), ..O::std() }
}
fn dopts(r: &mut Rng, n: usize) -> O {
    O { strict: r.pct(60), n, ex: r.pct(30), d: profiles::any_delim(r), ..O::std() }
}
fn small(r: &mut Rng) -> Value {
    let c = profiles::cfg(r);
    for _ in 0..20 {
        let v = gen::root(r, &c);
        if v.to_string().len() < 400 {
            return v;
        }
    }
    json!({"a": "x"})
}
const EOPS: &[&str] = if cfg!(feature = "f_alloc") { &["senc"] } else if cfg!(feature = "f_std") { &["senc", "wenc"] } else { &["senc", "venc", "wenc"] };
const DOPS: &[&str] = if cfg!(feature = "f_alloc") { &["plain"] } else { &["plain", "rdec"] };
/// Calls that resemble one another: the same data under other options and entry points,
/// and data of the same size.
fn pool(r: &mut Rng) -> Vec<Call> {
    let mut out: Vec<Call> = vec![];
    for _ in 0..r.range(2, 6) {
        if !out.is_empty() && r.pct(60) {
            let mut c = r.pick(&out).clone();
            match r.below(4) {
                0 if c.encodes() => c.op = r.pick(EOPS).to_string(),
                1 if c.encodes() => c.o = eopts(r),
                2 | 3 if c.encodes() => {
                    nudge(r, &mut c.v);
                }
                0 if c.op != "dec" => c.op = r.pick(DOPS).to_string(),
                1 if c.op != "dec" => {
                    let n = c.o.n;
                    c.o = dopts(r, n)
                }
                2 if c.op == "dec" => c.o.strict = !c.o.strict,
                _ if c.op != "dec" => {
                    let mut cs: Vec<char> = c.text.chars().collect();
                    if !cs.is_empty() {
                        let i = r.below(cs.len());
                        cs[i] = *r.pick(&['1', 'a', ' ', ':', '-', '"', '2', ',']);
                    }
                    c.text = cs.into_iter().collect();
                }
                _ => {}
            }
            out.push(c);
            continue;
        }
        out.push(match r.below(10) {
            0..=4 => {
                let op = r.pick(EOPS).to_string();
                Call { op, v: small(r), text: String::new(), o: eopts(r) }
            }
            5 | 6 if !obs::DIRECT => {
                let v = small(r);
                let o = O { fold: false, ..eopts(r) };
                let text = toon_rs::encode_to_string(&v, &o.options()).unwrap_or_default();
                Call { op: "dec".into(), v: Value::Null, text, o }
            }
            _ => {
                let op = r.pick(DOPS).to_string();
                let (text, n) = profiles::any_text(r);
                let o = dopts(r, n);
                Call { op, v: Value::Null, text: text.chars().take(600).collect(), o }
            }
        });
    }
    out
}
/// One text or value under options that tell its calls apart.
fn versions(r: &mut Rng) -> Vec<Call> {
    let mut out = vec![];
    for _ in 0..40 {
        out.clear();
        let k = r.range(2, 4);
        if r.pct(35) {
            let v = small(r);
            for _ in 0..k {
                out.push(Call { op: r.pick(EOPS).to_string(), v: v.clone(), text: String::new(), o: eopts(r) });
            }
        } else {
            let (text, n) = match r.below(10) {
                0..=5 => profiles::strict_only(r),
                6 | 7 => profiles::damaged(r),
                _ => profiles::any_text(r),
            };
            let text: String = text.chars().take(800).collect();
            for i in 0..k {
                let o = O { strict: i % 2 == 0, ..dopts(r, n) };
                out.push(Call { op: r.pick(DOPS).to_string(), v: Value::Null, text: text.clone(), o });
            }
        }
        let f = first(&out);
        if f.iter().any(|x| x != &f[0]) {
            break;
        }
    }
    out
}
/// Another value of the same shape.
fn nudge(r: &mut Rng, v: &mut Value) {
    match v {
        Value::Array(a) if !a.is_empty() => {
            let i = r.below(a.len());
            nudge(r, &mut a[i]);
        }
        Value::Object(m) if !m.is_empty() => {
            let i = r.below(m.len());
            nudge(r, m.values_mut().nth(i).unwrap());
        }
        Value::String(s) => {
            let mut cs: Vec<char> = s.chars().collect();
            if let Some(i) = (!cs.is_empty()).then(|| r.below(cs.len())) {
                cs[i] = *r.pick(&['x', '1', ':', '"', ',', '-', ' ']);
            }
            *s = cs.into_iter().collect();
        }
        Value::Number(_) => *v = json!(r.below(10)),
        Value::Bool(b) => *b = !*b,
        _ => {}
    }
}
pub fn session(r: &mut Rng) -> Vec<Value> {
    if r.pct(60) {
        return burst(r);
    }
    let calls = if r.pct(30) { versions(r) } else { pool(r) };
    let threads = *r.pick(&[1, 1, 2, 3]);
    let mut s = System::new(&calls, threads);
    let n = *r.pick(&[3, 6, 10, 20, 60]);
    let (faults, nest) = (*r.pick(&[0, 10, 30]), *r.pick(&[5, 30, 60]));
    let mut begun = 0;
    while begun < n || s.open.iter().any(|x| *x > 0) {
        let t = r.below(threads);
        if begun < n && s.open[t] < 5 && (s.open[t] == 0 || r.pct(nest)) {
            begun += 1;
            let c = r.range(1, calls.len());
            s.event(t, "begin", c);
        } else if s.open[t] > 0 {
            let a = if r.pct(faults) { *r.pick(&["err", "panic"]) } else { "pass" };
            s.event(t, a, 0);
        }
    }
    vec![s.done()]
}
/// Several threads at once, each through its own list again and again; what a call gave is
/// recorded once for every different outcome.
fn burst(r: &mut Rng) -> Vec<Value> {
    let calls = if r.pct(70) { versions(r) } else { pool(r) };
    let what = json!(calls.iter().map(|c| c.js()).collect::<Vec<_>>()).to_string();
    *obs::CURRENT.lock().unwrap() = Some((Instant::now(), what));
    let alone = first(&calls);
    let threads = r.range(2, 6);
    let reps = *r.pick(&[20, 100, 400]);
    let go = Arc::new(Barrier::new(threads));
    let hs: Vec<_> = (0..threads)
        .map(|_| {
            let list: Vec<usize> = (0..r.range(1, 5)).map(|_| r.below(calls.len())).collect();
            let (calls, go) = (calls.clone(), go.clone());
            std::thread::spawn(move || {
                let mut outs: Vec<(usize, Out)> = vec![];
                go.wait();
                for _ in 0..reps {
                    for &i in &list {
                        let x = (i, perform(&calls[i]));
                        if !outs.contains(&x) {
                            outs.push(x);
                        }
                    }
                }
                outs
            })
        })
        .collect();
    let mut outs = vec![vec![]; calls.len()];
    for h in hs {
        for (i, x) in h.join().unwrap() {
            let x = x.js();
            if !outs[i].contains(&x) {
                outs[i].push(x);
            }
        }
    }
    *obs::CURRENT.lock().unwrap() = None;
    vec![json!({"k": "burst", "calls": calls.iter().map(|c| c.js()).collect::<Vec<_>>(), "first": alone, "outs": outs})]
}
