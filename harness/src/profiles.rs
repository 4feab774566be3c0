//! One session generator per property.
use crate::derived;
use crate::doc;
use crate::typed::{self, Ty};
use crate::typegen;
use crate::gen::{self, Cfg};
use crate::obs::{self, O};
use crate::rng::Rng;
use serde_json::{json, Value};

fn enc_opts(r: &mut Rng) -> O {
    O { d: *r.pick(&[',', ',', '\t', '|']), n: *r.pick(&[2, 2, 2, 4, 1, 3, 8]), ..O::std() }
}
pub fn any_delim(r: &mut Rng) -> char {
    *r.pick(&[',', '\t', '|'])
}
pub fn rt(j: usize, v: &Value, o: &O) -> Value {
    json!({"k": "rt", "j": j, "v": obs::val(v), "o": o.enc_json()})
}
pub fn cfg(r: &mut Rng) -> Cfg {
    let mut c = Cfg::std();
    c.depth = *r.pick(&[1, 2, 3, 3, 4, 5]);
    c.width = *r.pick(&[2, 3, 3, 5]);
    c.odd_keys = *r.pick(&[0, 10, 30]);
    c.word = *r.pick(&[5, 30, 70]);
    c.big = r.pct(20);
    c
}

pub fn session(profile: &str, r: &mut Rng) -> Vec<Value> {
    match profile {
        "roundtrip" => roundtrip(r),
        "layout" => layout(r),
        "huge" => huge(r),
        "strings" => strings(r),
        "numbers" => numbers(r),
        "fold" => fold(r, false),
        "foldlayout" => fold(r, true),
        "tokens" => tokens(r),
        "counts" => counts(r),
        "damage" => damage(r),
        "total" => total(r),
        "calls" => crate::calls::session(r),
        "kept" => crate::kept::session(r),
        "deep" => crate::deep::session(r),
        "modes" => modes(r),
        "expand" => expand(r),
        "delims" => delims(r),
        "fixpoint" => fixpoint(r),
        "handwritten" => handwritten(r),
        "serde" => serde_calls(r),
        "typed" => typed_decode(r),
        "cli" => crate::tool::session(r, "cli"),
        "wasm" => crate::tool::session(r, "wasm"),
        "limits" => crate::tool::limits(r),
        "io" => crate::io::session(r),
        "features" => features(r),
        "direct_known" => direct_known(r.1),
        p if p.starts_with("bulk") => crate::bulk::session(r, &p[4..]),
        p => panic!("profile {p}"),
    }
}

/// Encode, then decode in both modes under any delimiter option.
fn cycle(r: &mut Rng, v: &Value, o: &O, by: &str, out: &mut Vec<Value>, spec_dec: bool) {
    let (ob, text) = obs::enc("seen", v, o, by);
    out.push(ob);
    let text = text.unwrap_or_else(|| "\u{0}".into());
    let both = r.pct(50);
    let s0 = r.pct(50);
    for strict in [s0, !s0] {
        if strict != s0 && !both {
            continue;
        }
        let od = O { strict, n: o.n, d: any_delim(r), ..O::std() };
        out.push(obs::dec(if spec_dec { "dec" } else { "seen" }, &text, &od).0);
        let j = out.len();
        out.push(rt(j, v, o));
    }
}
fn roundtrip(r: &mut Rng) -> Vec<Value> {
    let c = cfg(r);
    let v = gen::root(r, &c);
    let o = enc_opts(r);
    let mut out = vec![];
    cycle(r, &v, &o, "stream", &mut out, false);
    cycle(r, &v, &o, "value", &mut out, false);
    out
}
fn layout(r: &mut Rng) -> Vec<Value> {
    let mut c = cfg(r);
    c.table = *r.pick(&[10, 50]);
    c.word = 10;
    let v = gen::root(r, &c);
    let o = enc_opts(r);
    vec![obs::enc("enc", &v, &o, "stream").0, obs::enc("enc", &v, &o, "value").0]
}
/// Values of hundreds to thousands of elements, columns, fields or characters, and their texts with one count off.
fn huge(r: &mut Rng) -> Vec<Value> {
    let c = Cfg { depth: 2, width: 2, word: *r.pick(&[0, 20]), odd_keys: 0, bignum: 5, ..Cfg::std() };
    let n = *r.pick(gen::HUGE);
    let v = gen::large_n(r, &c, n);
    let o = O { d: any_delim(r), n: *r.pick(&[2, 2, 4, 1]), ..O::std() };
    let (a, text) = obs::enc("enc", &v, &o, "stream");
    let mut out = vec![a, obs::enc("enc", &v, &o, "value").0];
    let mut text = text.unwrap_or_else(|| "\u{0}".into());
    let strict = r.pct(50);
    let od = O { strict, n: o.n, d: any_delim(r), ..O::std() };
    if r.pct(30) {
        let mut l: Vec<String> = text.split('\n').map(String::from).collect();
        if r.pct(50) { doc::count(r, &mut l) } else { doc::elements(r, &mut l) }
        text = l.join("\n");
        out.push(obs::dec("dec", &text, &od).0);
    } else {
        out.push(obs::dec("dec", &text, &od).0);
        out.push(rt(3, &v, &o));
    }
    for ob in &mut out[..3] {
        ob["once"] = json!(true);
    }
    out
}
fn strings(r: &mut Rng) -> Vec<Value> {
    let c = Cfg { word: 20, ..Cfg::std() };
    let s = gen::string(r);
    let v = if r.pct(65) { gen::positions(r, &c, &Value::String(s)) } else {
        let k = if r.pct(50) { s } else { r.pick(gen::ODDKEYS).to_string() };
        gen::key_positions(r, &c, &k)
    };
    let o = O { d: any_delim(r), ..O::std() };
    let by = if r.pct(50) { "stream" } else { "value" };
    let (ob, text) = obs::enc("enc", &v, &o, by);
    let text = text.unwrap_or_else(|| "\u{0}".into());
    let od = O { strict: r.pct(50), d: any_delim(r), ..O::std() };
    vec![ob, obs::dec("seen", &text, &od).0, rt(2, &v, &o)]
}
fn numbers(r: &mut Rng) -> Vec<Value> {
    let c = Cfg { bignum: 80, ..Cfg::std() };
    let num = gen::number(r, true);
    let v = gen::positions(r, &c, &Value::Number(num));
    let o = O { d: any_delim(r), ..O::std() };
    let od = O { strict: r.pct(50), ..O::std() };
    let (a, text) = obs::enc("enc", &v, &o, "stream");
    let (b, _) = obs::enc("enc", &v, &o, "value");
    let text = text.unwrap_or_else(|| "\u{0}".into());
    vec![a, b, obs::dec("seen", &text, &od).0, rt(3, &v, &o)]
}
fn fold(r: &mut Rng, layout: bool) -> Vec<Value> {
    let mut c = Cfg { depth: 5, chain: 55, dotted: layout, odd_keys: 12, word: 15, width: 3, ..Cfg::std() };
    c.table = 10;
    let v = gen::root(r, &c);
    let v = if layout && r.pct(30) { collide(r, &v) } else { v };
    let fd = *r.pick(&[-1, -1, -1, 0, 1, 2, 3, 4]);
    let o = O { d: any_delim(r), n: *r.pick(&[2, 2, 4, 1]), fold: true, fd, ..O::std() };
    if layout {
        let o2 = O { fold: r.pct(85), ..o };
        return vec![obs::enc("enc", &v, &o2, "stream").0, obs::enc("enc", &v, &o2, "value").0];
    }
    let mut out = vec![];
    for by in ["stream", "value"] {
        let (ob, text) = obs::enc("seen", &v, &o, by);
        out.push(ob);
        let text = text.unwrap_or_else(|| "\u{0}".into());
        let ox = O { strict: r.pct(50), n: o.n, ex: true, ..O::std() };
        out.push(obs::dec("seen", &text, &ox).0);
        let j = out.len();
        out.push(rt(j, &v, &O { fold: false, ..o.clone() }));
        let on = O { strict: r.pct(50), n: o.n, ..O::std() };
        out.push(obs::dec("seen", &text, &on).0);
        let j = out.len();
        out.push(rt(j, &v, &o));
    }
    out
}
/// Add a sibling whose key equals a dotted chain somewhere.
fn collide(r: &mut Rng, v: &Value) -> Value {
    match v {
        Value::Object(m) => {
            let mut m2 = serde_json::Map::new();
            let mut dotted = vec![];
            for (k, x) in m {
                let mut path = k.clone();
                let mut y = x;
                while let Value::Object(n) = y {
                    if n.len() != 1 {
                        break;
                    }
                    let (k2, z) = n.iter().next().unwrap();
                    path = format!("{path}.{k2}");
                    y = z;
                    if r.pct(60) {
                        dotted.push(path.clone());
                    }
                }
                m2.insert(k.clone(), collide(r, x));
            }
            for d in dotted {
                if r.pct(50) {
                    m2.insert(d, json!(1));
                }
            }
            Value::Object(m2)
        }
        Value::Array(a) => Value::Array(a.iter().map(|x| collide(r, x)).collect()),
        x => x.clone(),
    }
}

fn dec_opts(r: &mut Rng, n: usize) -> O {
    O { strict: r.pct(60), n, d: any_delim(r), ..O::std() }
}
fn token(r: &mut Rng) -> String {
    if r.pct(3) {
        // long tokens
        let n = *r.pick(gen::SIZES);
        let digits = |r: &mut Rng, n: usize| -> String { (0..n).map(|_| *r.pick(&["0", "1", "9", "5"])).collect() };
        return match r.below(5) {
            0 => digits(r, n),
            1 => format!("-{}.{}", r.below(10), digits(r, n)),
            2 => format!("{}e-{}", digits(r, n), r.below(40)),
            3 => format!("0.{}", digits(r, n)),
            _ => format!("1{}x", digits(r, n)),
        };
    }
    match r.below(10) {
        0..=2 => r.pick(gen::WORDS).to_string(),
        3..=5 => (0..r.range(1, 8)).map(|_| *r.pick(&["0", "1", "9", ".", "e", "E", "-", "+", "00", "5", "7"])).collect(),
        6 => r.pick(&["9007199254740993", "9007199254740992", "18446744073709551615", "18446744073709551616", "9223372036854775807",
            "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "1e5", "1E+5", "1e-5", "-0", "-0.0", "0e0", "1.0", "1.50",
            "100000000000000000000", "0.1e1", "123456789012345678", "1.7976931348623157e308", "5e-324", "2.2250738585072014e-308", "-1e-7",
            "3.141592653589793238", "4.35", "0.30000000000000004"]).to_string(),
        7 => format!("{}", gen::float(r)),
        8 => format!("{:e}", gen::float(r)),
        _ => {
            let s = gen::string(r);
            let mut t = String::from("\"");
            for ch in s.chars() {
                match ch {
                    '"' => t.push_str("\\\""),
                    '\\' => t.push_str("\\\\"),
                    '\n' => t.push_str("\\n"),
                    c if r.pct(30) && (c as u32) < 0x10000 => t.push_str(&format!("\\u{:04x}", c as u32)),
                    c => t.push(c),
                }
            }
            if r.pct(15) {
                t.push_str(r.pick(&["\\b", "\\f", "\\/", "\\r", "\\t", "\\x", "\\", "\\u12", "\\u+041"]));
            }
            t.push('"');
            t
        }
    }
    .replace('\n', "")
}
fn tokens(r: &mut Rng) -> Vec<Value> {
    let t = token(r);
    let t2 = token(r);
    let text = match r.below(11) {
        0 => t.clone(),
        1 => format!("a: {t}"),
        2 => format!("a[1]: {t}"),
        3 => format!("a[2]: {t},{t2}"),
        4 => format!("a[2|]: {t2}|{t}"),
        5 => format!("a[2]:\n  - {t}\n  - {t2}"),
        6 => format!("a[1]{{x,y}}:\n  {t},{t2}"),
        7 => format!("a[1\t]{{x\ty}}:\n  {t2}\t{t}"),
        8 => format!("a[1]:\n  - x: {t}\n    y: {t2}"),
        9 => format!("[2]: {t},{t2}"),
        _ => format!("a[1]:\n  - [2]: {t2},{t}"),
    };
    let s = r.pct(50);
    let a = O { strict: s, ..O::std() };
    vec![obs::dec("dec", &text, &a).0, obs::dec("dec", &text, &O { strict: !s, ..O::std() }).0]
}
fn well_formed(r: &mut Rng, noise: usize, c: &Cfg) -> (Vec<String>, doc::Style) {
    let v = gen::root(r, c);
    let st = doc::style(r, noise);
    (doc::render(r, &st, &v), st)
}
fn doc_cfg(r: &mut Rng) -> Cfg {
    Cfg { word: *r.pick(&[0, 0, 20, 50]), odd_keys: *r.pick(&[0, 0, 15, 30]), depth: *r.pick(&[2, 3, 4]), width: 3, ..Cfg::std() }
}
fn counts(r: &mut Rng) -> Vec<Value> {
    let mut c = Cfg { word: 0, odd_keys: 0, depth: *r.pick(&[2, 3, 4]), width: 3, ..Cfg::std() };
    c.table = 35;
    let noise = *r.pick(&[0, 10]);
    let (mut l, st) = well_formed(r, noise, &c);
    match r.below(8) {
        0 => {}
        1..=4 => doc::count(r, &mut l),
        5 | 6 => doc::elements(r, &mut l),
        _ => {
            doc::count(r, &mut l);
            doc::elements(r, &mut l);
        }
    }
    let o = dec_opts(r, st.n);
    vec![obs::dec("dec", &l.join("\n"), &o).0]
}
pub fn damaged(r: &mut Rng) -> (String, usize) {
    let c = doc_cfg(r);
    let noise = *r.pick(&[0, 10, 25]);
    let (mut l, st) = well_formed(r, noise, &c);
    for _ in 0..*r.pick(&[0, 1, 1, 1, 1, 2, 3]) {
        doc::damage(r, &mut l, st.n);
    }
    (l.join("\n"), st.n)
}
/// Documents that only the strict mode objects to, in one of its many ways.
pub fn strict_only(r: &mut Rng) -> (String, usize) {
    let c = Cfg { word: 0, odd_keys: 0, depth: *r.pick(&[2, 3]), width: 4, table: *r.pick(&[20, 60, 95]), ..Cfg::std() };
    let mut v = gen::array(r, &c, 3);
    if r.pct(60) {
        v = gen::two("a", v, "b", gen::scalar(r, &c));
    }
    let st = doc::Style { noise: 0, blanks: 0, ..doc::style(r, 0) };
    let mut l = doc::render(r, &st, &v);
    let i = r.below(l.len() + 1);
    match r.below(6) {
        0..=2 => l.insert(i, String::new()),
        3 => doc::elements(r, &mut l),
        4 => doc::count(r, &mut l),
        _ => doc::damage(r, &mut l, st.n),
    }
    (l.join("\n"), st.n)
}
fn damage(r: &mut Rng) -> Vec<Value> {
    let (t, n) = damaged(r);
    let o = O { strict: true, n, d: any_delim(r), ..O::std() };
    vec![obs::dec("dec", &t, &o).0]
}
pub fn any_text(r: &mut Rng) -> (String, usize) {
    let unit = *r.pick(&[2, 2, 2, 1, 3, 4]);
    let n = r.range(1, 8);
    let mut l = match r.below(5) {
        0 | 1 => doc::soup(r, n, unit),
        2 => return ((0..r.range(0, 12)).map(|_| *r.pick(gen::FRAGS)).collect(), unit),
        _ => {
            let c = doc_cfg(r);
            let (mut l, st) = well_formed(r, 30, &c);
            for _ in 0..r.range(0, 3) {
                doc::damage(r, &mut l, st.n);
            }
            return (l.join("\n"), st.n);
        }
    };
    if r.pct(10) {
        doc::damage(r, &mut l, unit);
    }
    let sep = if r.pct(6) { "\r\n" } else { "\n" };
    let mut t = l.join(sep);
    if r.pct(20) {
        t.push('\n');
    }
    (t, unit)
}
fn total(r: &mut Rng) -> Vec<Value> {
    let (t, n) = any_text(r);
    let mut out = vec![];
    for _ in 0..2 {
        let o = O { strict: r.pct(50), ex: r.pct(50), n: if r.pct(80) { n } else { *r.pick(&[0, 1, 2, 3, 7]) }, d: any_delim(r), ..O::std() };
        out.push(obs::dec("total", &t, &o).0);
    }
    out
}
fn modes(r: &mut Rng) -> Vec<Value> {
    let (t, n) = any_text(r);
    let o = O { strict: true, ex: r.pct(40), n, d: any_delim(r), ..O::std() };
    vec![obs::dec("seen", &t, &o).0, obs::dec("seen", &t, &O { strict: false, ..o }).0, json!({"k":"implies","a":1,"b":2})]
}
fn expand(r: &mut Rng) -> Vec<Value> {
    // fields with dotted keys, in every order, possibly conflicting
    let st = doc::Style { n: 2, d: ',', mixed: 0, noise: 0, blanks: 0, legacy: 0 };
    fn path(r: &mut Rng) -> String {
        let n = *r.pick(&[1, 1, 2, 2, 3, 4]);
        let p: Vec<&str> = (0..n).map(|_| *r.pick(&["a", "b", "c", "a", "b", "d_1"])).collect();
        let mut p = p.join(".");
        if r.pct(12) {
            p = r.pick(&["a.", ".a", "a..b", "a.1", "a.b-c", "a b.c", "1.a", ".", "a.é"]).to_string();
        }
        p
    }
    fn fields(r: &mut Rng, st: &doc::Style, ind: usize, depth: usize, out: &mut Vec<String>) {
        for _ in 0..r.range(1, if depth == 2 { 5 } else { 2 }) {
            let p = path(r);
            let k = if r.pct(15) { format!("\"{p}\"") } else { p };
            let pad = " ".repeat(ind);
            match r.below(if depth == 0 { 3 } else { 7 }) {
                0..=2 => out.push(format!("{pad}{k}: {}", r.pick(&["1", "2", "x", "null"]))),
                3 | 4 => {
                    out.push(format!("{pad}{k}:"));
                    if r.pct(85) {
                        fields(r, st, ind + 2, depth - 1, out);
                    }
                }
                5 => {
                    out.push(format!("{pad}{k}[1]:"));
                    let k2 = path(r);
                    out.push(format!("{pad}  - {k2}: 3"));
                    fields(r, st, ind + 4, 0, out);
                }
                _ => match r.below(3) {
                    0 => out.push(format!("{pad}{k}[2]: 1,2")),
                    1 => {
                        let (a, b) = (path(r), path(r));
                        out.push(format!("{pad}{k}[1]{{{a},{b}}}:"));
                        out.push(format!("{pad}  1,2"));
                    }
                    _ => out.push(format!("{pad}{k}[0]:")),
                },
            }
        }
    }
    let mut l = vec![];
    fields(r, &st, 0, 2, &mut l);
    let t = l.join("\n");
    let ex = r.pct(85);
    vec![
        obs::dec("dec", &t, &O { strict: true, ex, ..O::std() }).0,
        obs::dec("dec", &t, &O { strict: false, ex, ..O::std() }).0,
    ]
}
/// Some strings become mixtures of delimiters and letters.
fn delim_rich(r: &mut Rng, v: &mut Value, pct: usize) {
    match v {
        Value::String(s) if r.pct(pct) => {
            let k = r.range(1, 7);
            *s = (0..k).map(|_| *r.pick(&["|", ",", "|", ",", "a", "b", "é", " ", "\t", "\"", "#"])).collect();
        }
        Value::Array(a) => a.iter_mut().for_each(|x| delim_rich(r, x, pct)),
        Value::Object(m) => m.values_mut().for_each(|x| delim_rich(r, x, pct)),
        _ => {}
    }
}
fn delims(r: &mut Rng) -> Vec<Value> {
    let mut c = doc_cfg(r);
    c.table = 40;
    c.word = 30;
    let mut v = gen::root(r, &c);
    let pct = *r.pick(&[0, 30, 60]);
    delim_rich(r, &mut v, pct);
    let mut st = doc::style(r, 5);
    st.mixed = 60;
    let l = doc::render(r, &st, &v);
    let t = l.join("\n");
    let o = O { strict: r.pct(60), n: st.n, d: ',', ..O::std() };
    vec![
        obs::dec("dec", &t, &o).0,
        obs::dec("seen", &t, &O { d: '|', ..o.clone() }).0,
        obs::dec("seen", &t, &O { d: '\t', ..o.clone() }).0,
        json!({"k":"same","a":1,"b":2}),
        json!({"k":"same","a":1,"b":3}),
    ]
}
fn fixpoint(r: &mut Rng) -> Vec<Value> {
    let (t, n) = any_text(r);
    let o = O { strict: r.pct(30), n, ..O::std() };
    let (ob, v) = obs::dec("seen", &t, &o);
    let mut out = vec![ob];
    let Some(v) = v else { return out };
    let oe = O { d: any_delim(r), n: *r.pick(&[2, 2, 4, 1]), ..O::std() };
    let (e1, t1) = obs::enc("seen", &v, &oe, if r.pct(50) { "stream" } else { "value" });
    out.push(e1);
    let t1 = t1.unwrap_or_else(|| "\u{0}".into());
    let (d1, v1) = obs::dec("seen", &t1, &O { strict: r.pct(50), n: oe.n, ..O::std() });
    out.push(d1);
    out.push(rt(3, &v, &oe));
    let Some(v1) = v1 else { return out };
    let (e2, _) = obs::enc("seen", &v1, &oe, "stream");
    out.push(e2);
    out.push(json!({"k":"same","a":2,"b":5}));
    out
}
fn handwritten(r: &mut Rng) -> Vec<Value> {
    let c = doc_cfg(r);
    let noise = *r.pick(&[10, 30, 50]);
    let (l, st) = well_formed(r, noise, &c);
    let mut t = l.join("\n");
    if r.pct(30) {
        t.push('\n');
    }
    let o = dec_opts(r, st.n);
    vec![obs::dec("dec", &t, &o).0]
}

fn serde_calls(r: &mut Rng) -> Vec<Value> {
    if r.pct(25) {
        return derived::session(r, false);
    }
    let t = if r.pct(45) {
        let d = r.range(1, 4);
        let ty = typegen::ty(r, d);
        typegen::of(r, &ty)
    } else {
        let d = r.range(1, 4);
        typegen::wild(r, d)
    };
    let o = O { d: any_delim(r), n: *r.pick(&[2, 2, 4, 1]), fold: r.pct(35), fd: *r.pick(&[-1, -1, 0, 1, 2, 3]), ..O::std() };
    let mut out = vec![];
    for by in obs::ENCODERS {
        out.push(derived::ser(&t, &t, &o, by).0);
    }
    if r.pct(30) {
        let u = t.loosened();
        out.push(derived::ser(&u, &u, &o, "stream").0);
    }
    if r.pct(10) && obs::ENCODERS.len() > 1 {
        out.push(derived::ser(&t, &t, &o, "tostream").0);
    }
    out
}
fn typed_decode(r: &mut Rng) -> Vec<Value> {
    if r.pct(15) {
        return derived::session(r, true);
    }
    let mut out = vec![];
    if r.pct(60) {
        let d = r.range(1, 3);
        let ty = typegen::ty(r, d);
        let t = typegen::of(r, &ty);
        let o = O { d: any_delim(r), n: *r.pick(&[2, 2, 4, 1]), ..O::std() };
        let by = *r.pick(obs::ENCODERS);
        let (ob, text) = derived::ser(&t, &t, &o, by);
        let mut ob = ob;
        ob["k"] = json!("seen");
        out.push(ob);
        let text = text.unwrap_or_else(|| "\u{0}".into());
        let od = O { strict: r.pct(50), n: o.n, d: any_delim(r), ..O::std() };
        out.push(typed::typed(&text, &ty, &od));
        let own = &out[1];
        out.push(json!({"k":"ident","is":"ident","tree":t.js(),"lines":own["lines"],"res":own["res"],"back":own["x"],"msg":own["msg"]}));
        for _ in 0..r.below(3) {
            let m = typegen::mutate(r, &ty);
            out.push(typed::typed(&text, &m, &od));
        }
        return out;
    }
    // documents written by hand, read as a type they may or may not have
    let c = doc_cfg(r);
    let noise = *r.pick(&[0, 10, 30]);
    let v = gen::root(r, &c);
    let st = doc::style(r, noise);
    let mut l = doc::render(r, &st, &v);
    if r.pct(15) {
        doc::damage(r, &mut l, st.n);
    }
    let text = l.join("\n");
    let od = O { strict: r.pct(50), n: st.n, d: any_delim(r), ex: r.pct(20), ..O::std() };
    for _ in 0..r.range(1, 3) {
        let ty = typegen::ty_of(r, &v, 4);
        out.push(typed::typed(&text, &ty, &od));
    }
    out
}

/// Long texts with special characters at any offset, for scanners that work in blocks.
fn long(r: &mut Rng) -> String {
    let n = *r.pick(&[7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 130, 300]);
    let mut s: String = (0..n).map(|_| *r.pick(&['a', 'b', 'c', ' ', '1', 'x'])).collect();
    for _ in 0..r.below(4) {
        let i = r.below(s.len());
        if s.is_char_boundary(i) {
            s.insert_str(i, *r.pick(&["\"", ":", ",", "|", "\t", "\\", "é", "漢", "- ", "[", "]", "{", "}", "\n", "#", "\u{1}"]));
        }
    }
    s
}
fn wide(r: &mut Rng) -> Value {
    let c = Cfg { word: 25, ..Cfg::std() };
    let any = |r: &mut Rng| match r.below(3) {
        0 => Value::String(long(r)),
        _ => gen::scalar(r, &c),
    };
    let n = *r.pick(&[1, 4, 7, 8, 9, 15, 16, 17, 32, 33, 40]);
    let key = |r: &mut Rng, i: usize| if r.pct(8) { long(r) } else { format!("k{i}") };
    match r.below(5) {
        0 => Value::Array((0..n).map(|_| any(r)).collect()),
        1 => {
            let ks: Vec<String> = (0..n).map(|i| key(r, i)).collect();
            let rows = (0..r.range(1, 4)).map(|_| Value::Object(ks.iter().map(|k| (k.clone(), any(r))).collect())).collect();
            gen::two("t", Value::Array(rows), "z", any(r))
        }
        2 => Value::Object((0..n).map(|i| (key(r, i), any(r))).collect()),
        3 => {
            let mut v = any(r);
            for i in 0..n {
                v = if r.pct(60) { Value::Object([(key(r, i), v)].into_iter().collect()) } else { Value::Array(vec![v]) };
            }
            v
        }
        _ => Value::Array((0..n.min(12)).map(|i| gen::two(&key(r, i), any(r), "q", Value::Array(vec![any(r)]))).collect()),
    }
}
/// Documents within what the direct deserializer handles (see KNOWN_FINDINGS), with a type.
fn direct_doc(r: &mut Rng) -> (String, Ty) {
    fn tok(r: &mut Rng, k: usize) -> (String, Ty) {
        match k {
            0 => (r.pct(50).to_string(), Ty::Bool),
            1 => ((r.next() as i64 >> r.below(64)).to_string(), Ty::Int("i64")),
            2 => ((r.next() >> r.below(64)).to_string(), Ty::Int("u64")),
            3 => (format!("{}.5", r.below(1000)), Ty::F64),
            4 => (r.pick(&["hello", "foo bar", "x_1", "漢字", "é"]).to_string(), Ty::Str),
            5 => (r.pick(&["\"a: b\"", "\"x,y|z\"", "\"q \\\" \\\\ \\n\"", "\"\"", "\"\\u00e9\"", "\"12\"", "\"true\"", "\"- a\""]).to_string(), Ty::Str),
            _ => (r.below(200).to_string(), Ty::Int("u8")),
        }
    }
    fn fields(r: &mut Rng, ind: usize, depth: usize, out: &mut Vec<String>) -> Vec<(String, Ty)> {
        let pad = " ".repeat(ind);
        let mut f: Vec<(String, Ty)> = vec![];
        for i in 0..r.range(1, 4) {
            let key = format!("{}{i}", r.pick(&["a", "key_", "x.y", "Z"]));
            let shown = if r.pct(15) { format!("\"{key}\"") } else { key.clone() };
            let k = r.below(7);
            let d = *r.pick(&["", "", "|", "\t"]);
            let sep = if d.is_empty() { "," } else { d };
            let ty = match r.below(if depth == 0 { 3 } else { 6 }) {
                0 | 1 => {
                    let (t, ty) = tok(r, k);
                    out.push(format!("{pad}{shown}: {t}"));
                    ty
                }
                2 => {
                    let n = r.range(1, 12);
                    let ts: Vec<(String, Ty)> = (0..n).map(|_| tok(r, k)).collect();
                    out.push(format!("{pad}{key}[{n}{d}]: {}", ts.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(sep)));
                    Ty::Vec(Box::new(ts[0].1.clone()))
                }
                3 => {
                    out.push(format!("{pad}{shown}:"));
                    let g = fields(r, ind + 2, depth - 1, out);
                    if r.pct(20) && g.iter().all(|x| x.1 == g[0].1) { Ty::Map(Box::new(Ty::Str), Box::new(g[0].1.clone())) } else { Ty::Struct(g) }
                }
                4 => {
                    let n = r.range(1, 5);
                    out.push(format!("{pad}{key}[{n}{d}]:"));
                    let ts: Vec<(String, Ty)> = (0..n).map(|_| tok(r, if k == 5 { 4 } else { k })).collect();
                    for t in &ts {
                        out.push(format!("{pad}  - {}", t.0));
                    }
                    Ty::Vec(Box::new(ts[0].1.clone()))
                }
                _ => {
                    let n = r.range(1, 3);
                    out.push(format!("{pad}{key}[{n}{d}]:"));
                    let k2 = r.below(7);
                    let mut t = vec![];
                    for _ in 0..n {
                        let (a, b) = (tok(r, k), tok(r, k2));
                        out.push(format!("{pad}  - p: {}", a.0));
                        out.push(format!("{pad}    q: {}", b.0));
                        t = vec![("p".to_string(), a.1), ("q".to_string(), b.1)];
                    }
                    Ty::Vec(Box::new(Ty::Struct(t)))
                }
            };
            f.push((key, ty));
        }
        f
    }
    let mut out = vec![];
    let mut f = fields(r, 0, 3, &mut out);
    match r.below(12) {
        0 => {
            f.pop();
        }
        1 => f.push(("absent".into(), Ty::Str)),
        2 => f[0].1 = Ty::Any,
        3 => f[0].1 = Ty::Ignored,
        4 => f[0].1 = Ty::Bool,
        5 => f.reverse(),
        _ => {}
    }
    if r.pct(8) {
        let i = r.below(out.len());
        out[i].insert(0, ' ');
        // only strict decoding is sure to agree here, and only by rejecting
    }
    (out.join("\n"), Ty::Struct(f))
}
/// The same calls in every feature build; "slot" names each so that builds can be matched up.
fn features(r: &mut Rng) -> Vec<Value> {
    let mut out: Vec<Value> = vec![];
    let mut put = |slot: &str, mut ob: Value| {
        ob["slot"] = json!(slot);
        out.push(ob);
    };
    let o = O { d: any_delim(r), n: *r.pick(&[2, 2, 4, 1]), fold: r.pct(15), fd: *r.pick(&[-1, -1, 2, 3]), ..O::std() };
    let od = O { strict: r.pct(60), ex: r.pct(25), n: *r.pick(&[2, 2, 2, 4]), d: any_delim(r), ..O::std() };
    let kind = r.below(10);
    match kind {
        9 => {
            // readers and writers; recorded by builds that have them
            let seed = r.next();
            let mut q = Rng::new(seed, r.1);
            for (i, mut ob) in crate::io::session(&mut q).into_iter().enumerate() {
                if ob["k"] != "seen" {
                    let slot = format!("io{}", ob["by"].as_str().map(String::from).unwrap_or(i.to_string()));
                    ob["slot"] = json!(slot);
                    put(&slot, ob);
                }
            }
            put("seen", json!({"k":"seen"}));
        }
        0..=2 => {
            let v = if kind == 0 { wide(r) } else { let c = cfg(r); gen::root(r, &c) };
            let noise = *r.pick(&[0, 0, 20]);
            let st = doc::style(r, noise);
            let mut l = doc::render(r, &st, &v);
            if r.pct(25) {
                doc::damage(r, &mut l, st.n);
            }
            if obs::FOLDS || !o.fold {
                put("enc", obs::enc("enc", &v, &o, "stream").0);
                if obs::ENCODERS.len() > 1 {
                    put("value", obs::enc("enc", &v, &o, "value").0);
                }
            }
            put("dec", obs::dec("dec", &l.join("\n"), &O { n: st.n, ..od }).0);
        }
        3 => {
            let t = token(r);
            let text = match r.below(4) { 0 => t.clone(), 1 => format!("a: {t}"), 2 => format!("a[2]: {t},{t}"), _ => format!("a[1]{{x,y}}:\n  {t},1") };
            put("dec", obs::dec("dec", &text, &O { n: 2, ..od }).0);
        }
        4 | 5 => {
            let (t, n) = any_text(r);
            put("dec", obs::dec("dec", &t, &O { n, ..od }).0);
        }
        6 => {
            let d = r.range(1, 4);
            let t = if r.pct(50) { let ty = typegen::ty(r, d); typegen::of(r, &ty) } else { typegen::wild(r, d) };
            if obs::FOLDS || !o.fold {
                put("ser", derived::ser(&t, &t, &o, "stream").0);
                if obs::ENCODERS.len() > 1 {
                    put("servalue", derived::ser(&t, &t, &o, "value").0);
                }
            }
            put("seen", json!({"k":"seen"}));
        }
        7 => {
            let c = doc_cfg(r);
            let v = gen::root(r, &c);
            let st = doc::style(r, 10);
            let l = doc::render(r, &st, &v);
            let ty = typegen::ty_of(r, &v, 4);
            if !obs::DIRECT {
                put("typed", typed::typed(&l.join("\n"), &ty, &O { n: st.n, ..od }));
            }
            put("seen", json!({"k":"seen"}));
        }
        _ => {
            let (t, ty) = direct_doc(r);
            let strict = od.strict || t.lines().any(|l| l.bytes().take_while(|b| *b == b' ').count() % 2 == 1);
            put("direct", typed::typed(&t, &ty, &O { strict, n: 2, ex: false, ..od }));
        }
    }
    out
}

/// Documents on which the direct deserializer departs from the default path (KNOWN_FINDINGS, C15).
fn direct_known(i: u64) -> Vec<Value> {
    let b = Box::new;
    let s = |k: &str, t: Ty| Ty::Struct(vec![(k.to_string(), t)]);
    let int = || Ty::Int("i64");
    let (text, ty) = match i {
        0 => ("a: 1", s("a", Ty::Option(b(int())))),
        1 => ("a: 1", s("a", Ty::Newtype(b(int())))),
        2 => ("a: Red", s("a", Ty::Enum(vec![("Red".into(), typed::Var::Unit)]))),
        3 => ("a[2]{x,y}:\n  1,2\n  3,4", s("a", Ty::Vec(b(s("x", int()))))),
        4 => ("[2]: 1,2", Ty::Vec(b(int()))),
        5 => ("[1]:\n  - k[2]: 1,2", Ty::Vec(b(s("k", Ty::Vec(b(int())))))),
        6 => ("a[1]:\n  - k[2]: 1,2", s("a", Ty::Vec(b(s("k", Ty::Vec(b(int()))))))),
        7 => ("a: \"x\\q\"", s("a", Ty::Str)),
        8 => ("a: 007", s("a", Ty::Str)),
        9 => ("a: inf", s("a", Ty::Str)),
        10 => ("a.b: 1", s("a", s("b", int()))),
        11 => ("a[2]: x,", s("a", Ty::Vec(b(Ty::Str)))),
        12 => ("a: 1\na: 2", s("a", int())),
        13 => ("a[3]: 1,2", s("a", Ty::Vec(b(int())))),
        14 => ("a:\n    b: 1", s("a", s("b", int()))),
        _ => ("a[1]:\n  - [2]: 1,2", s("a", Ty::Vec(b(Ty::Vec(b(int())))))),
    };
    let o = O { n: if i == 14 { 4 } else { 2 }, ex: i == 10, ..O::std() };
    let mut ob = typed::typed(text, &ty, &o);
    ob["slot"] = json!("direct");
    vec![ob]
}
