//! Replays behaviours generated from the specification (TLC's output) into the library.
use crate::obs::{self, text_of, O};
use crate::tree::Tree;
use crate::tool;
use crate::typed::{self, Ty};
use serde_json::{json, Value};
use std::io::{BufRead, Write};

pub struct Tally {
    pub cases: u64,
    pub checks: u64,
    pub open: u64,
    pub nontrivial: u64,
    pub bad: Vec<Value>,
    pub nbad: u64,
    pub sample: Vec<Value>,
}
impl Tally {
    fn bad(&mut self, case: u64, what: &str, detail: Value) {
        self.nbad += 1;
        if self.bad.len() < 20 {
            self.bad.push(json!({"case": case, "what": what, "detail": detail}));
        }
    }
}
fn text(lines: &Value) -> String {
    lines.as_array().unwrap().iter().map(text_of).collect::<Vec<_>>().join("\n")
}
fn opt(v: &Value) -> O {
    O {
        d: char::from_u32(v["d"].as_u64().unwrap() as u32).unwrap(),
        n: v["n"].as_u64().unwrap() as usize,
        fold: v["fold"].as_bool().unwrap(),
        fd: v["fd"].as_i64().unwrap(),
        ..O::std()
    }
}
/// Expected outcome of decoding against the observed one.
fn judge(t: &mut Tally, case: u64, text: &str, o: &O, exp: &Value) {
    let (ob, v) = obs::dec("dec", text, o);
    t.checks += 1;
    let total = ob["res"] != "panic" && (ob["el"] == -1 || ob["res"] == "ok" || {
        let n = if text.is_empty() { 0 } else { text.split('\n').count() as i64 };
        let l = ob["el"].as_i64().unwrap();
        l >= 1 && l <= n
    });
    let ok = match exp["r"].as_str().unwrap() {
        "ok" => v.is_some() && ob["v"] == exp["v"],
        "bad" => ob["res"] == "err",
        _ => {
            t.open += 1;
            true
        }
    };
    if !(ok && total) {
        t.bad(case, "decode", json!({"text": text, "options": format!("{:?}", o), "expected": readable(exp), "got": if let Some(v) = v { v } else { ob["msg"].clone() }}));
    }
}
fn readable(exp: &Value) -> Value {
    if exp["r"] == "ok" { obs::unval(&exp["v"]) } else { exp["r"].clone() }
}
/// The cases a model printed.
pub fn generated(path: &str) -> Vec<Value> {
    let f = std::io::BufReader::new(std::fs::File::open(path).unwrap());
    f.lines()
        .map(|l| l.unwrap())
        .filter(|l| l.starts_with("\"@G "))
        .map(|l| serde_json::from_str(&serde_json::from_str::<String>(&l).unwrap()[3..]).unwrap())
        .collect()
}
/// `what` says which comparisons this run is about.
pub fn run(kind: &str, cfg: &Value, path: &str, what: &[&str], out: &str) {
    let mut t = Tally { cases: 0, checks: 0, open: 0, nontrivial: 0, bad: vec![], nbad: 0, sample: vec![] };
    let has = |w: &str| what.contains(&w);
    let f = std::io::BufReader::new(std::fs::File::open(path).unwrap());
    for line in f.lines() {
        let line = line.unwrap();
        if !line.starts_with("\"@G ") {
            continue;
        }
        let s: String = serde_json::from_str(&line).unwrap();
        let g: Value = serde_json::from_str(&s[3..]).unwrap();
        t.cases += 1;
        let c = t.cases;
        if t.sample.len() < 3 && c % 997 == 500 && g["r"] != "err" && g["r"] != "dup" {
            t.sample.push(match kind {
                "lines" | "doc" => json!({"text": text(&g["lines"]), "strict": readable(&g["s"]), "lenient": readable(&g["l"])}),
                "bump" => json!({"rejected": g["b"][0].as_array().unwrap().iter().map(text).collect::<Vec<_>>()}),
                "values" => json!({"value": obs::unval(&g["v"]), "text": text(&g["e"][0])}),
                "json" => json!({"json": text_of(&g["text"]), "means": g["r"]}),
                "tok" => json!({"text": text(&g["d"][1]["lines"]), "strict": readable(&g["d"][1]["s"])}),
                "serde" => json!({"tree": g["tree"], "text": text(&g["e"][0])}),
                "str" => json!({"value": obs::unval(&g["e"][1]["v"]), "text": text(&g["e"][1]["e"][0])}),
                _ => json!({"number": text_of(&g["text"])}),
            });
        }
        match kind {
            "lines" | "doc" => {
                let tx = text(&g["lines"]);
                let n = cfg["n"].as_u64().unwrap_or(2) as usize;
                let ex = cfg["ex"].as_bool().unwrap_or(false);
                if g["s"]["r"] == "ok" && g["s"]["v"]["k"] != json!([]) {
                    t.nontrivial += 1;
                }
                if has("dec") {
                    judge(&mut t, c, &tx, &O { strict: true, n, ex, ..O::std() }, &g["s"]);
                    judge(&mut t, c, &tx, &O { strict: false, n, ex, ..O::std() }, &g["l"]);
                }
                for tool in ["cli", "wasm"] {
                    if !has(tool) {
                        continue;
                    }
                    for (strict, e) in [(true, &g["s"]), (false, &g["l"])] {
                        if (tool == "cli" && !strict) || e["r"] == "odd" {
                            continue;
                        }
                        let v = if e["r"] == "ok" { Some(obs::unval(&e["v"])) } else { None };
                        for pretty in [false, true] {
                            if tool == "cli" && pretty != (c % 2 == 0) {
                                continue;
                            }
                            let w = v.as_ref().map(|v| if pretty { serde_json::to_string_pretty(v).unwrap() } else { v.to_string() });
                            t.checks += 1;
                            if let Err(x) = tool::agrees(tool, true, strict, pretty, [',', '|'][c as usize / 2 % 2], &tx, c, w.as_deref()) {
                                t.bad(c, "to JSON", json!({"tool": tool, "text": tx, "strict": strict, "expected": w, "got": x}));
                            }
                        }
                    }
                }
                if has("modes") {
                    let (a, _) = obs::dec("seen", &tx, &O { strict: true, n, ex, ..O::std() });
                    let (b, _) = obs::dec("seen", &tx, &O { strict: false, n, ex, ..O::std() });
                    t.checks += 1;
                    if a["res"] == "ok" && (b["res"] != "ok" || a["v"] != b["v"]) {
                        t.bad(c, "strict value differs from lenient", json!({"text": tx, "strict": obs::unval(&a["v"]), "lenient": b["res"]}));
                    }
                }
                if has("delims") {
                    for strict in [true, false] {
                        let r: Vec<Value> = [',', '\t', '|'].iter().map(|d| obs::dec("seen", &tx, &O { strict, n, ex, d: *d, ..O::std() }).0).collect();
                        t.checks += 1;
                        for x in &r[1..] {
                            if x["res"] != r[0]["res"] || x["v"] != r[0]["v"] {
                                t.bad(c, "depends on the option's delimiter", json!({"text": tx, "strict": strict}));
                            }
                        }
                    }
                }
                if has("fix") {
                    for strict in [true, false] {
                        let Some(v) = obs::dec("seen", &tx, &O { strict, n, ex, ..O::std() }).1 else { continue };
                        t.checks += 1;
                        let o = O { n, ..O::std() };
                        let Some(t1) = obs::enc("seen", &v, &o, "stream").1 else {
                            t.bad(c, "re-encoding failed", json!({"text": tx}));
                            continue;
                        };
                        let v1 = obs::dec("seen", &t1, &o).1;
                        // object order may change once (table columns), so compare as sets of fields
                        if v1.as_ref() != Some(&v) {
                            t.bad(c, "re-encoding changes the value", json!({"text": tx, "value": v, "again": t1, "value2": v1}));
                            continue;
                        }
                        if obs::enc("seen", &v1.unwrap(), &o, "stream").1.as_ref() != Some(&t1) {
                            t.bad(c, "re-encoding is not idempotent", json!({"text": tx, "again": t1}));
                        }
                    }
                }
            }
            "json" => {
                let tx = text_of(&g["text"]);
                if g["r"] == "odd" {
                    t.open += 1;
                    continue;
                }
                if g["r"] == "ok" {
                    t.nontrivial += 1;
                }
                for tool in ["cli", "wasm"] {
                    if !has(tool) {
                        continue;
                    }
                    for (j, oj) in cfg["opts"].as_array().unwrap().iter().enumerate() {
                        if tool == "cli" && j != (c % 3) as usize {
                            continue;
                        }
                        let d = opt(oj).d;
                        if tool == "wasm" && d == '\t' {
                            continue;
                        }
                        let w = if g["r"] == "ok" { Some(text(&g["e"][j])) } else { None };
                        t.checks += 1;
                        if let Err(x) = tool::agrees(tool, false, c % 2 == 0, false, d, &tx, c, w.as_deref()) {
                            t.bad(c, "from JSON", json!({"tool": tool, "text": tx, "delimiter": d, "expected": w, "got": x}));
                        }
                        // and back
                        if let (Some(w), 0) = (&w, j) {
                            for p in [false, true] {
                                t.checks += 1;
                                let back = text_of(&g["back"][p as usize]);
                                if let Err(x) = tool::agrees(tool, true, true, p, d, w, c, Some(&back)) {
                                    t.bad(c, "back to JSON", json!({"tool": tool, "text": w, "expected": back, "got": x}));
                                }
                            }
                        }
                    }
                }
            }
            "values" => {
                let v = obs::unval(&g["v"]);
                if v.as_object().is_some_and(|m| !m.is_empty()) || v.as_array().is_some_and(|m| !m.is_empty()) {
                    t.nontrivial += 1;
                }
                for (j, oj) in cfg["opts"].as_array().unwrap().iter().enumerate() {
                    let o = opt(oj);
                    one_value(&mut t, c, &v, &o, &text(&g["e"][j]), &g["rt"][j], &has);
                }
            }
            "bump" => {
                for (j, oj) in cfg["opts"].as_array().unwrap().iter().enumerate() {
                    let o = opt(oj);
                    for b in g["b"][j].as_array().unwrap() {
                        t.nontrivial += 1;
                        let tx = text(b);
                        for strict in [true, false] {
                            judge(&mut t, c, &tx, &O { strict, fold: false, ..o.clone() }, &json!({"r": "bad"}));
                        }
                    }
                }
            }
            "str" => {
                for p in g["e"].as_array().unwrap() {
                    let v = obs::unval(&p["v"]);
                    for (j, d) in cfg["delims"].as_array().unwrap().iter().enumerate() {
                        let o = O { d: char::from_u32(d.as_u64().unwrap() as u32).unwrap(), ..O::std() };
                        one_value(&mut t, c, &v, &o, &text(&p["e"][j]), &p["v"], &has);
                    }
                }
                t.nontrivial += 1;
            }
            "tok" => {
                for p in g["d"].as_array().unwrap() {
                    let tx = text(&p["lines"]);
                    judge(&mut t, c, &tx, &O::std(), &p["s"]);
                    judge(&mut t, c, &tx, &O { strict: false, ..O::std() }, &p["l"]);
                }
                t.nontrivial += 1;
            }
            "nums" => {
                let tx = text_of(&g["text"]);
                let v = obs::unval(&g["v"]);
                let mut vs = vec![v.clone()];
                if let Some(f) = v.as_f64() {
                    if obs::norm_f64(f) == g["v"] {
                        vs.push(json!(f));
                    }
                }
                if v != json!(0) {
                    t.nontrivial += 1;
                }
                for x in vs {
                    let docs = [
                        (x.clone(), tx.clone()),
                        (json!({"a": x}), format!("a: {tx}")),
                        (json!([x, x]), format!("[2]: {tx},{tx}")),
                        (json!({"a": [{"b": x}]}), format!("a[1]{{b}}:\n  {tx}")),
                        (json!({"a": [[], x, {"b": x, "c": [x]}]}), format!("a[3]:\n  - [0]:\n  - {tx}\n  - b: {tx}\n    c[1]: {tx}")),
                    ];
                    for (d, e) in docs {
                        one_value(&mut t, c, &d, &O::std(), &e, &obs::val(&d), &has);
                    }
                }
            }
            "serde" => serde_case(&mut t, c, cfg, &g, &has),
            k => panic!("replay {k}"),
        }
    }
    let mut w = std::fs::File::create(out).unwrap();
    writeln!(w, "{}", json!({"cases": t.cases, "checks": t.checks, "open": t.open, "nontrivial": t.nontrivial, "nbad": t.nbad, "bad": t.bad, "sample": t.sample})).unwrap();
}
fn serde_case(t: &mut Tally, c: u64, cfg: &Value, g: &Value, has: &dyn Fn(&str) -> bool) {
    let tree = Tree::parse(&g["tree"]);
    if !matches!(tree, Tree::Int(..) | Tree::Str(_) | Tree::Bool(_)) {
        t.nontrivial += 1;
    }
    for (j, oj) in cfg["opts"].as_array().unwrap().iter().enumerate() {
        let o = opt(oj);
        if !has("enc") {
            break;
        }
        for by in obs::ENCODERS {
            for v in [tree.clone(), tree.loosened()] {
                t.checks += 1;
                let (res, s) = obs::encode_raw(&v, &o, by, || format!("{v:?} {o:?} {by}"));
                let ok = match g["r"].as_str().unwrap() {
                    "ok" => res == "ok" && s == text(&g["e"][j]),
                    "err" => res == "err",
                    _ => res != "panic",
                };
                if g["r"] == "dup" {
                    t.open += 1;
                }
                if !ok {
                    let want = if g["r"] == "ok" { text(&g["e"][j]) } else { String::new() };
                    t.bad(c, "serialize", json!({"value": v.js(), "options": format!("{:?}", o), "by": by, "expected": want, "got": s, "res": res}));
                }
            }
        }
    }
    if !has("typed") || g["r"] != "ok" {
        return;
    }
    let o = opt(&cfg["opts"][0]);
    let tx = text(&g["e"][0]);
    let own = g["own"].as_array().unwrap().iter().zip(g["ownr"].as_array().unwrap());
    let other = cfg["types"].as_array().unwrap().iter().zip(g["other"].as_array().unwrap());
    for (ty, want) in own.chain(other) {
        for strict in [true, false] {
            t.checks += 1;
            let ob = typed::typed(&tx, &Ty::parse(ty), &O { strict, fold: false, ..o.clone() });
            let ok = match want["r"].as_str().unwrap() {
                "ok" => ob["res"] == "ok" && ob["x"] == want["x"],
                "no" => ob["res"] == "err",
                _ => {
                    t.open += 1;
                    ob["res"] != "panic"
                }
            } && (ob["cres"] != "ok" || (ob["res"] == "ok" && ob["x"] == ob["cx"]));
            if !ok {
                t.bad(c, "typed decode", json!({"text": tx, "type": ty, "expected": want, "got": ob["x"], "msg": ob["msg"]}));
            }
        }
    }
}
fn one_value(t: &mut Tally, c: u64, v: &Value, o: &O, want: &str, rt: &Value, has: &dyn Fn(&str) -> bool) {
    for by in obs::ENCODERS {
        let (res, s) = obs::encode_raw(v, o, by, || format!("{v} {o:?} {by}"));
        if has("enc") {
            t.checks += 1;
            if res != "ok" || s != want {
                t.bad(c, "encode", json!({"value": v, "options": format!("{:?}", o), "by": by, "expected": want, "got": s, "res": res}));
                continue;
            }
        }
        if has("rt") {
            for strict in [true, false] {
                let od = O { strict, fold: false, ..o.clone() };
                t.checks += 1;
                let (ob, got) = obs::dec("seen", &s, &od);
                if res != "ok" || got.is_none() || ob["v"] != *rt {
                    t.bad(c, "round trip", json!({"value": v, "options": format!("{:?}", o), "by": by, "text": s, "decoded": got, "msg": ob["msg"]}));
                }
            }
        }
        if has("expand") && o.fold {
            for strict in [true, false] {
                let od = O { strict, ex: true, ..o.clone() };
                t.checks += 1;
                let (ob, got) = obs::dec("seen", &s, &od);
                // serde_json's equality ignores the order of keys; the specification's text fixes it
                if res != "ok" || got.as_ref() != Some(v) {
                    t.bad(c, "fold and expand", json!({"value": v, "options": format!("{:?}", o), "by": by, "text": s, "decoded": got, "msg": ob["msg"]}));
                }
            }
        }
    }
}
