//! Real types with serde's derives.
use crate::gen;
use crate::obs::{self, O};
use crate::rng::Rng;
use crate::tree::{capture, Tree};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, VecDeque};

#[derive(Serialize, Deserialize, Clone)]
struct Point {
    x: i32,
    y: f64,
}
#[derive(Serialize, Deserialize, Clone)]
#[serde(rename_all = "camelCase")]
struct User {
    user_id: u64,
    full_name: String,
    #[serde(skip_serializing_if = "Option::is_none", default)]
    nick_name: Option<String>,
    #[serde(default)]
    tags: Vec<String>,
    points: Vec<Point>,
    active: bool,
    grade: char,
}
#[derive(Serialize, Deserialize, Clone)]
enum Shape {
    Empty,
    Circle(f64),
    Line(Point, Point),
    Rect { at: Point, w: u32, h: Option<u32> },
}
#[derive(Serialize, Deserialize, Clone)]
#[serde(tag = "type")]
enum Internal {
    Text { body: String },
    Num { value: i64 },
    Nothing,
}
#[derive(Serialize, Deserialize, Clone)]
#[serde(tag = "t", content = "c")]
enum Adjacent {
    Unit,
    One(String),
    Two(u8, bool),
    Rec { k: Vec<u16> },
}
#[derive(Serialize, Deserialize, Clone)]
#[serde(untagged)]
enum Untagged {
    Flag(bool),
    Int(i64),
    Text(String),
    List(Vec<u8>),
    Named { name: String },
}
#[derive(Serialize, Deserialize, Clone)]
struct Wrapper(Vec<Option<i16>>);
#[derive(Serialize, Deserialize, Clone)]
struct Unit;
#[derive(Serialize, Deserialize, Clone)]
struct Pair(String, (u8, Option<bool>));
#[derive(Serialize, Deserialize, Clone)]
struct Flat {
    id: u32,
    #[serde(flatten)]
    rest: BTreeMap<String, String>,
}
#[derive(Serialize, Deserialize, Clone)]
struct FlatStruct {
    #[serde(flatten)]
    base: Point,
    label: String,
    #[serde(flatten)]
    more: Internal,
}
#[derive(Serialize, Deserialize, Clone)]
#[serde(transparent)]
struct Clear {
    inner: BTreeMap<u16, Vec<Point>>,
}
#[derive(Serialize, Deserialize, Clone)]
struct Deep {
    level: u8,
    child: Option<Box<Deep>>,
    kids: Vec<Deep>,
}
#[derive(Serialize, Deserialize, Clone)]
struct Config {
    a: Section,
    b: BTreeMap<String, Section>,
    set: BTreeSet<i8>,
    queue: VecDeque<(u8, u8)>,
    arr: [u16; 3],
    unit: Unit,
    pair: Pair,
    wrap: Wrapper,
    res: Result<u8, String>,
}
#[derive(Serialize, Deserialize, Clone)]
struct Section {
    b: Inner,
}
#[derive(Serialize, Deserialize, Clone)]
struct Inner {
    c: Untagged,
}

fn text(r: &mut Rng) -> String {
    let c = gen::Cfg { word: 30, ..gen::Cfg::std() };
    gen::any_string(r, &c)
}
fn list<T>(r: &mut Rng, n: usize, f: impl Fn(&mut Rng) -> T) -> Vec<T> {
    (0..r.below(n + 1)).map(|_| f(r)).collect()
}
fn opt<T>(r: &mut Rng, f: impl Fn(&mut Rng) -> T) -> Option<T> {
    if r.pct(50) { Some(f(r)) } else { None }
}
fn point(r: &mut Rng) -> Point {
    Point { x: r.next() as i32 >> r.below(31), y: gen::float(r) }
}
fn internal(r: &mut Rng) -> Internal {
    match r.below(3) {
        0 => Internal::Text { body: text(r) },
        1 => Internal::Num { value: r.next() as i64 },
        _ => Internal::Nothing,
    }
}
fn untagged(r: &mut Rng) -> Untagged {
    match r.below(5) {
        0 => Untagged::Flag(r.pct(50)),
        1 => Untagged::Int(r.next() as i64),
        2 => Untagged::Text(text(r)),
        3 => Untagged::List(list(r, 3, |r| r.next() as u8)),
        _ => Untagged::Named { name: text(r) },
    }
}
fn shape(r: &mut Rng) -> Shape {
    match r.below(4) {
        0 => Shape::Empty,
        1 => Shape::Circle(gen::float(r)),
        2 => Shape::Line(point(r), point(r)),
        _ => Shape::Rect { at: point(r), w: r.next() as u32, h: opt(r, |r| r.next() as u32) },
    }
}
fn adjacent(r: &mut Rng) -> Adjacent {
    match r.below(4) {
        0 => Adjacent::Unit,
        1 => Adjacent::One(text(r)),
        2 => Adjacent::Two(r.next() as u8, r.pct(50)),
        _ => Adjacent::Rec { k: list(r, 3, |r| r.next() as u16) },
    }
}
fn user(r: &mut Rng) -> User {
    User { user_id: r.next() >> r.below(64), full_name: text(r), nick_name: opt(r, text), tags: list(r, 3, text), points: list(r, 3, point),
        active: r.pct(50), grade: text(r).chars().next().unwrap_or('z') }
}
fn deep(r: &mut Rng, n: usize) -> Deep {
    Deep { level: n as u8, child: if n > 0 && r.pct(60) { Some(Box::new(deep(r, n - 1))) } else { None },
        kids: if n > 0 { list(r, 2, |r| deep(r, n - 1)) } else { vec![] } }
}
fn section(r: &mut Rng) -> Section {
    Section { b: Inner { c: untagged(r) } }
}
fn map<T>(r: &mut Rng, f: impl Fn(&mut Rng) -> T) -> BTreeMap<String, T> {
    (0..r.below(4)).map(|_| (if r.pct(70) { r.pick(gen::KEYS).to_string() } else { r.pick(gen::ODDKEYS).to_string() }, f(r))).collect()
}

/// `anchor`: sessions also record the direct typed result for a second reading.
fn run<T: Serialize + DeserializeOwned + 'static>(r: &mut Rng, x: &T, decode: bool) -> Vec<Value> {
    let o = O { d: *r.pick(&[',', '\t', '|']), n: *r.pick(&[2, 2, 4, 1]), fold: r.pct(25), fd: *r.pick(&[-1, -1, 2, 3]), ..O::std() };
    let t = capture(x);
    let mut out = vec![];
    let mut last = String::new();
    for by in obs::ENCODERS {
        let (ob, s) = ser(&t, x, &o, by);
        out.push(ob);
        last = s.unwrap_or_else(|| "\u{0}".into());
    }
    if decode {
        let od = O { strict: r.pct(50), n: o.n, ex: o.fold, ..O::std() };
        let opt = od.options();
        // with folding, keys that contain dots of their own come back split
        if !(o.fold && last.lines().any(|l| l.contains('.'))) {
            let g = obs::guard(|| json!({"derived": last}).to_string(), || toon_rs::decode_from_str::<T>(&last, &opt));
            let (res, back, msg) = match g {
                Ok(Ok(y)) => ("ok", capture(&y).js(), String::new()),
                Ok(Err(e)) => ("err", json!({"c":"none"}), e.to_string()),
                Err(p) => ("panic", json!({"c":"none"}), p),
            };
            out.push(json!({"k":"ident","is":"ident","tree":t.js(),"lines":obs::lines_of(&last),"res":res,"back":back,"msg":msg}));
        }
    }
    out
}
/// kind "ser": the text of a typed value.
pub fn ser<T: Serialize>(t: &Tree, x: &T, o: &O, by: &str) -> (Value, Option<String>) {
    let (res, s) = obs::encode_raw(x, o, by, || json!({"ser": t.js(), "o": o.enc_json(), "by": by}).to_string());
    let ok = res == "ok";
    let ob = json!({"k":"ser","is":"ser","by":by,"tree":t.js(),"o":o.enc_json(),"res":res,"lines": if ok { obs::lines_of(&s) } else { json!([]) },
        "msg": if ok { String::new() } else { s.clone() }});
    (ob, if ok { Some(s) } else { None })
}
pub fn session(r: &mut Rng, decode: bool) -> Vec<Value> {
    match r.below(17) {
        0 => { let x = point(r); run(r, &x, decode) }
        1 => { let x = user(r); run(r, &x, decode) }
        2 => { let x = shape(r); run(r, &x, decode) }
        3 => { let x = internal(r); run(r, &x, decode) }
        4 => { let x = adjacent(r); run(r, &x, decode) }
        5 => { let x = list(r, 4, untagged); run(r, &x, decode) }
        6 => { let x = Flat { id: r.next() as u32, rest: (0..r.below(3)).map(|i| (format!("k{i}"), text(r))).collect() }; run(r, &x, decode) }
        7 => { let x = FlatStruct { base: point(r), label: text(r), more: internal(r) }; run(r, &x, decode) }
        8 => { let x = Clear { inner: (0..r.below(3)).map(|i| (i as u16 * 7, list(r, 2, point))).collect() }; run(r, &x, decode) }
        9 => { let x = deep(r, 3); run(r, &x, decode) }
        10 => { let x = list(r, 3, user); run(r, &x, decode) }
        11 => { let x = list(r, 3, shape); run(r, &x, decode) }
        12 => { let x = map(r, shape); run(r, &x, decode) }
        13 => { let x: BTreeMap<String, Vec<Adjacent>> = map(r, |r| list(r, 2, adjacent)); run(r, &x, decode) }
        14 => { let x = (text(r), list(r, 3, internal), opt(r, point)); run(r, &x, decode) }
        15 => { let x: Vec<BTreeMap<String, Option<i8>>> = list(r, 3, |r| map(r, |r| opt(r, |r| r.next() as i8))); run(r, &x, decode) }
        _ => {
            let x = Config {
                a: section(r), b: map(r, section), set: (0..r.below(4)).map(|_| r.next() as i8).collect(),
                queue: (0..r.below(3)).map(|_| (r.next() as u8, r.next() as u8)).collect(), arr: [r.next() as u16, 0, 7], unit: Unit,
                pair: Pair(text(r), (r.next() as u8, opt(r, |r| r.pct(50)))), wrap: Wrapper(list(r, 3, |r| opt(r, |r| r.next() as i16))),
                res: if r.pct(50) { Ok(r.next() as u8) } else { Err(text(r)) },
            };
            run(r, &x, decode)
        }
    }
}
