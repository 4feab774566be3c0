//! Nesting: documents and values around the depth limit, judged in full; documents far beyond
//! it and other big ones, decoded on a small stack, must end with a value or an error.
use crate::obs::{self, O};
use crate::profiles::{any_delim, rt};
use crate::rng::Rng;
use serde_json::{json, Value};

/// A thread's usual stack.
const STACK: usize = 2 << 20;
/// Deepest value that has to survive a round trip (the deepest serde_json reads).
const DEEPEST: usize = 127;

pub fn session(r: &mut Rng) -> Vec<Value> {
    match r.below(10) {
        0..=3 => document(r),
        4..=6 => value(r),
        _ => big(r),
    }
}
fn key(r: &mut Rng) -> &'static str {
    *r.pick(&["a", "b", "a", "x y", "a.b", "\u{e9}"])
}
/// Lines nested `n` deep: each holds the next.
fn nested(r: &mut Rng, n: usize, unit: usize, kinds: &[u64], dotted: usize) -> Vec<String> {
    let mut out = vec![];
    let mut col = 0;
    let mut item = false; // an array is open
    for i in 0..n {
        let last = i + 1 == n;
        let k = if r.pct(10) { "b" } else { "a" };
        let k = if dotted > 0 && r.pct(30) { vec![k; dotted].join(".") } else { k.to_string() };
        let list = *r.pick(kinds) == 1;
        let body = match (last, list) {
            (true, _) if r.pct(70) => format!("{k}: 1"),
            (true, _) => format!("{k}[2]: 1,2"),
            (_, true) => if item && r.pct(50) { "[1]:".into() } else { format!("{k}[1]:") },
            _ => format!("{k}:"),
        };
        out.push(format!("{}{}{}", " ".repeat(col), if item { "- " } else { "" }, body));
        // what stands below a key on a hyphen line is two units deeper than the hyphen
        col += if item && !body.starts_with('[') { 2 * unit } else { unit };
        item = list;
    }
    out
}
fn document(r: &mut Rng) -> Vec<Value> {
    let unit = *r.pick(&[1, 1, 2]);
    let n = *r.pick(&[60, 100, 120, 126, 127, 128, 128, 129, 130, 140]);
    let kinds: &[u64] = *r.pick(&[&[0][..], &[1][..], &[0, 1][..], &[0, 0, 0, 0, 1][..]]);
    let ex = r.pct(40);
    if ex && r.pct(50) {
        // one long path, or several that add up
        let m = *r.pick(&[1, 2, 3]);
        let mut left = n;
        let mut l = vec![];
        for i in 0..m {
            let s = if i + 1 == m { left } else { r.range(1, left / 2) };
            left -= s;
            let mut p = vec!["a"; s];
            if r.pct(50) {
                p[s - 1] = "b";
            }
            l.push(format!("{}{}:{}", " ".repeat(unit * i), p.join("."), if i + 1 == m { " 1" } else { "" }));
        }
        return modes(&l.join("\n"), unit, true);
    }
    let dotted = if ex { *r.pick(&[0, 2, 3]) } else { 0 };
    let l = nested(r, n, unit, kinds, dotted);
    modes(&l.join("\n"), unit, ex)
}
fn modes(t: &str, n: usize, ex: bool) -> Vec<Value> {
    [true, false].map(|strict| obs::dec("dec", t, &O { strict, n, ex, ..O::std() }).0).to_vec()
}
fn has_dots(v: &Value) -> bool {
    match v {
        Value::Object(m) => m.iter().any(|(k, x)| k.contains('.') || has_dots(x)),
        Value::Array(a) => a.iter().any(has_dots),
        _ => false,
    }
}
/// A value nested about as deep as can be.
fn value(r: &mut Rng) -> Vec<Value> {
    let n = *r.pick(&[30, 60, 100, 120, 126, DEEPEST]);
    let lists = *r.pick(&[0, 0, 20, 50, 80, 100]);
    let wide = *r.pick(&[0, 0, 5, 30]);
    let mut v = match r.below(3) {
        0 => json!([]),
        1 => json!({"k": 1, "l": "x"}),
        _ => json!([1, "a,b"]),
    };
    let plain = r.pct(40);
    for _ in 1..n {
        v = if r.pct(lists) {
            let mut a = vec![v];
            if r.pct(wide) {
                a.insert(r.below(2) as usize, json!(1));
            }
            Value::Array(a)
        } else {
            let mut m = serde_json::Map::new();
            if r.pct(wide) {
                m.insert("k".into(), json!("v"));
            }
            m.insert(if plain { "a" } else { key(r) }.into(), v);
            if r.pct(wide) {
                m.insert("l".into(), json!(2));
            }
            Value::Object(m)
        };
    }
    let dots = has_dots(&v);
    let fold = obs::FOLDS && !dots && r.pct(50);
    let o = O { d: any_delim(r), n: *r.pick(&[1, 2]), fold, fd: *r.pick(&[-1, -1, 2, 64]), ..O::std() };
    let mut out = vec![];
    let by = *r.pick(obs::ENCODERS);
    let (ob, text) = obs::enc("enc", &v, &o, by);
    out.push(ob);
    let text = text.unwrap_or_else(|| "\u{0}".into());
    let od = O { strict: r.pct(50), n: o.n, d: any_delim(r), ex: fold, ..O::std() };
    out.push(obs::dec("seen", &text, &od).0);
    out.push(rt(2, &v, &O { fold: false, ..o }));
    out
}
/// Depths and sizes nothing should stumble over, on a thread with an ordinary stack.
fn big(r: &mut Rng) -> Vec<Value> {
    let ex = r.pct(60);
    let strict = r.pct(50);
    let (what, n) = match r.below(9) {
        0 => ("path", *r.pick(&[200, 1000, 5000, 60000])),
        1 => ("paths", *r.pick(&[100, 300, 1000])),
        2 => ("wide", *r.pick(&[3000, 32000])),
        3 => ("keys", *r.pick(&[3000, 20000])),
        4 => ("dup", *r.pick(&[3000, 20000])),
        _ => ("nest", *r.pick(&[150, 300, 1000, 2000, 4000])),
    };
    let ex = ex || what == "path" || what == "paths" || what == "wide";
    let pre = *r.pick(&["", "", "[1]:\n  - ", "z:\n  "]);
    let kinds: &[u64] = *r.pick(&[&[0][..], &[1][..], &[0, 1][..]]);
    let text = match what {
        "path" => format!("{pre}{}a: 1", "a.".repeat(n)),
        "paths" => (0..n).map(|i| format!("{}{}a:", " ".repeat(i), "a.".repeat(*r.pick(&[1, 5, 100])))).collect::<Vec<_>>().join("\n"),
        "wide" => (0..n).map(|i| format!("a.b.k{i}: 1")).collect::<Vec<_>>().join("\n"),
        "keys" => (0..n).map(|i| format!("k{i}: 1")).collect::<Vec<_>>().join("\n"),
        "dup" => (0..n).map(|i| format!("k{}: 1", i % 3)).collect::<Vec<_>>().join("\n"),
        _ => nested(r, n, 1, kinds, 0).join("\n"),
    };
    let nl = text.split('\n').count();
    let o = O { strict, ex, n: if what == "nest" || what == "paths" { 1 } else { 2 }, ..O::std() };
    let opt = o.options();
    let name = json!({"big": what, "n": n, "o": format!("{o:?}")}).to_string();
    let (res, ires) = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            let a = obs::guard(|| name.clone(), || toon_rs::decode_from_str::<Value>(&text, &opt).map(|_| ()));
            let b = obs::guard(|| name.clone(), || toon_rs::decode_from_str::<serde::de::IgnoredAny>(&text, &opt).map(|_| ()));
            (a, b)
        })
        .unwrap()
        .join()
        .unwrap();
    let show = |x: &Result<Result<(), toon_rs::Error>, String>| match x {
        Ok(Ok(())) => ("ok", 0),
        Ok(Err(e)) => ("err", obs::err_line(e)),
        Err(_) => ("panic", 0),
    };
    let (a, b) = (show(&res), show(&ires));
    vec![json!({"k": "big", "what": what, "n": n, "nl": nl, "strict": strict, "ex": ex, "res": a.0, "el": a.1, "ires": b.0, "iel": b.1})]
}
