//! TOON texts: well-formed ones written in many layouts, damaged ones, and line soup.
use crate::gen;
use crate::rng::Rng;
use serde_json::{Map, Value};

#[derive(Clone)]
pub struct Style {
    pub n: usize,       // indent unit
    pub d: char,        // usual delimiter
    pub mixed: usize,   // % of arrays choosing their own delimiter
    pub noise: usize,   // % of optional freedom taken at each point
    pub blanks: usize,  // % of blank lines after a line that is not inside an array
    pub legacy: usize,  // % of headerless lists
}
pub struct Out {
    pub lines: Vec<String>,
}
fn esc(r: &mut Rng, s: &str, fancy: bool) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c if fancy && (c as u32) < 0x10000 && r.pct(20) => o.push_str(&format!("\\u{:04X}", c as u32)),
            '/' if fancy => o.push_str("\\/"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn plain_ok(s: &str, d: char) -> bool {
    !s.is_empty()
        && !s.contains(|c: char| c == ':' || c == '"' || c == '\\' || c == d || c.is_control())
        && !s.starts_with(' ')
        && !s.ends_with(' ')
        && !s.starts_with('-')
        && !["true", "false", "null"].contains(&s)
        && !s.starts_with(|c: char| c.is_ascii_digit() || c == '[' || c == '@')
}
pub fn key(r: &mut Rng, st: &Style, k: &str) -> String {
    let ident = !k.is_empty()
        && k.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_')
        && k.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '.');
    let fancy = r.pct(st.noise);
    if ident && !(fancy && r.pct(40)) {
        k.to_string()
    } else if !ident && fancy && plain_ok(k, ' ') && !k.contains(['[', ']', '{', '}', '@', ',', '|']) && r.pct(50) {
        k.to_string()
    } else {
        esc(r, k, fancy)
    }
}
/// `d`: a character that may not appear bare.
pub fn scalar(r: &mut Rng, st: &Style, v: &Value, d: char) -> String {
    let fancy = r.pct(st.noise);
    match v {
        Value::Null => "null".into(),
        Value::Bool(b) => b.to_string(),
        Value::Number(n) => {
            if !fancy {
                return n.to_string();
            }
            match r.below(5) {
                0 => n.as_f64().map(|f| format!("{:e}", f)).unwrap_or_default(),
                1 => format!("{}.0", n.as_i64().unwrap_or(3)),
                2 => format!("{}e2", n.as_i64().unwrap_or(3)),
                3 => format!("{}E-1", n.as_i64().unwrap_or(3)),
                _ => n.as_f64().map(|f| format!("{:.3}", f)).unwrap_or_default(),
            }
        }
        Value::String(s) => {
            if plain_ok(s, d) && !(fancy && r.pct(50)) {
                s.clone()
            } else {
                esc(r, s, fancy)
            }
        }
        _ => String::new(),
    }
}
fn pad(r: &mut Rng, st: &Style) -> &'static str {
    if r.pct(st.noise) { r.pick(&["", "  ", "   "]) } else { " " }
}
/// Blanks at the end of a line are not part of anything.
fn blank_end(r: &mut Rng, st: &Style) -> &'static str {
    if r.pct(st.noise / 5) { r.pick(&[" ", "  "]) } else { "" }
}
fn delim(r: &mut Rng, st: &Style) -> char {
    if r.pct(st.mixed) { *r.pick(&[',', '\t', '|']) } else { st.d }
}
fn sym(d: char) -> String {
    if d == ',' { String::new() } else { d.to_string() }
}
fn cells(r: &mut Rng, st: &Style, vs: &[&Value], d: char) -> String {
    let mut o = String::new();
    for (i, v) in vs.iter().enumerate() {
        if i > 0 {
            o.push(d);
            if d != '\t' && r.pct(st.noise / 2) {
                o.push(' ');
            }
        }
        // an empty token is the empty string
        let empty = vs.len() > 1 && v.as_str() == Some("") && r.pct(50);
        if !empty {
            o.push_str(&scalar(r, st, v, d));
        }
        if d != '\t' && r.pct(st.noise / 4) && i + 1 < vs.len() {
            o.push(' ');
        }
    }
    o
}
fn prim(v: &Value) -> bool {
    !v.is_array() && !v.is_object()
}
fn uniform(a: &[Value]) -> Option<Vec<String>> {
    let first = a.first()?.as_object()?;
    if first.is_empty() {
        return None;
    }
    let ks: Vec<String> = first.keys().cloned().collect();
    for x in a {
        let o = x.as_object()?;
        if o.len() != ks.len() || !ks.iter().all(|k| o.get(k).is_some_and(prim)) {
            return None;
        }
    }
    Some(ks)
}
impl Out {
    fn line(&mut self, ind: usize, s: String) {
        self.lines.push(format!("{}{}", " ".repeat(ind), s));
    }
    fn blank(&mut self, r: &mut Rng, st: &Style, in_arr: bool) {
        if !in_arr && r.pct(st.blanks) {
            for _ in 0..r.range(1, 2) {
                self.lines.push(if r.pct(70) { String::new() } else { " ".repeat(r.below(2) * st.n) });
            }
        }
    }
    fn deeper(&self, r: &mut Rng, st: &Style, ind: usize) -> usize {
        ind + st.n * if r.pct(st.noise / 5) { 2 } else { 1 }
    }
    pub fn fields(&mut self, r: &mut Rng, st: &Style, ind: usize, m: &Map<String, Value>, in_arr: bool) {
        for (k, v) in m {
            let kt = key(r, st, k);
            self.field(r, st, ind, &kt, v, ind, in_arr);
            self.blank(r, st, in_arr);
        }
        if !m.is_empty() && r.pct(st.noise / 6) {
            // a duplicate key
            let k = m.keys().nth(r.below(m.len())).unwrap().clone();
            let kt = key(r, st, &k);
            let c = gen::Cfg::std();
            let v = gen::value(r, &c, 1);
            self.field(r, st, ind, &kt, &v, ind, in_arr);
        }
    }
    /// `pre`: the key text, or "- " + key on a list item line.  Children stand deeper than `own`.
    fn field(&mut self, r: &mut Rng, st: &Style, ind: usize, pre: &str, v: &Value, own: usize, in_arr: bool) {
        match v {
            Value::Object(m) => {
                let b = blank_end(r, st);
                self.line(ind, format!("{pre}:{b}"));
                if !m.is_empty() {
                    let c = self.deeper(r, st, own);
                    self.fields(r, st, c, m, in_arr);
                }
            }
            Value::Array(a) => {
                if r.pct(st.legacy) && !a.is_empty() && !pre.is_empty() {
                    let b = blank_end(r, st);
                    self.line(ind, format!("{pre}:{b}"));
                    let c = self.deeper(r, st, own);
                    self.items(r, st, c, a);
                } else {
                    self.array(r, st, ind, pre, a, own)
                }
            }
            _ => {
                let p = pad(r, st);
                let mut t = scalar(r, st, v, '\0');
                if r.pct(st.noise / 4) {
                    t.push(' ');
                }
                self.line(ind, format!("{pre}:{p}{t}"));
            }
        }
    }
    pub fn array(&mut self, r: &mut Rng, st: &Style, ind: usize, pre: &str, a: &[Value], own: usize) {
        let d = delim(r, st);
        let h = format!("{pre}[{}{}]", a.len(), sym(d));
        if a.is_empty() {
            let b = blank_end(r, st);
            self.line(ind, if r.pct(st.noise / 4) { format!("{h}{{x{d}y}}:{b}") } else { format!("{h}:{b}") });
            return;
        }
        if let Some(ks) = uniform(a) {
            if !r.pct(st.noise / 2) {
                let hdr: Vec<String> = ks.iter().map(|k| key(r, st, k)).collect();
                let b = blank_end(r, st);
                self.line(ind, format!("{h}{{{}}}:{b}", hdr.join(&d.to_string())));
                let c = self.deeper(r, st, own);
                for x in a {
                    let vs: Vec<&Value> = ks.iter().map(|k| &x[k.as_str()]).collect();
                    let row = cells(r, st, &vs, d);
                    self.line(c, row);
                }
                return;
            }
        }
        if a.iter().all(prim) && !r.pct(st.noise / 2) {
            let p = pad(r, st);
            let vs: Vec<&Value> = a.iter().collect();
            let row = cells(r, st, &vs, d);
            self.line(ind, format!("{h}:{p}{row}"));
            return;
        }
        let b = blank_end(r, st);
        self.line(ind, format!("{h}:{b}"));
        let c = self.deeper(r, st, own);
        self.items(r, st, c, a);
    }
    pub fn items(&mut self, r: &mut Rng, st: &Style, l: usize, a: &[Value]) {
        for v in a {
            match v {
                Value::Object(m) if m.is_empty() => self.line(l, "-".into()),
                Value::Object(m) => {
                    let mut it = m.iter();
                    let (k, v) = it.next().unwrap();
                    let pre = format!("- {}", key(r, st, k));
                    self.field(r, st, l, &pre, v, l + st.n, true);
                    let rest: Map<String, Value> = it.map(|(k, v)| (k.clone(), v.clone())).collect();
                    self.fields(r, st, l + st.n, &rest, true);
                }
                Value::Array(a) => self.array(r, st, l, "- ", a, l),
                v => {
                    let t = scalar(r, st, v, '\0');
                    let (a, b) = (if r.pct(st.noise / 6) { " " } else { "" }, blank_end(r, st));
                    self.line(l, format!("- {a}{t}{b}"));
                }
            }
        }
    }
}
pub fn render(r: &mut Rng, st: &Style, v: &Value) -> Vec<String> {
    let mut o = Out { lines: vec![] };
    match v {
        Value::Object(m) => o.fields(r, st, 0, m, false),
        Value::Array(a) => {
            if r.pct(st.legacy) && !a.is_empty() {
                o.items(r, st, 0, a)
            } else {
                o.array(r, st, 0, "", a, 0)
            }
        }
        v => {
            let t = scalar(r, st, v, '\0');
            o.line(0, t)
        }
    }
    o.lines
}
pub fn style(r: &mut Rng, noise: usize) -> Style {
    Style {
        n: *r.pick(&[2, 2, 2, 4, 1, 3]),
        d: *r.pick(&[',', ',', '|', '\t']),
        mixed: if r.pct(50) { 0 } else { 50 },
        noise,
        blanks: if r.pct(50) { 0 } else { noise },
        legacy: if r.pct(80) { 0 } else { 30 },
    }
}

pub const SOUP: &[&str] = &[
    "a: 1", "b: x", "a:", "b:", "- 1", "-", "- a: 1", "- a:", "- b: 2", "a[2]: 1,2", "a[2]:", "a[1]:", "b[2]{x,y}:", "b[1]{x}:",
    "1,2", "1", "x", "x,y", "[2]:", "[2]: 1,2", "[1]{x}:", "[2]{x,y}:", "- [2]: 1,2", "- [1]:", "- [0]:", "- a[1]:", "- a[2]{x,y}:",
    "- a[1]: 5", "- [1]{x}:", "\"q\"", "\"q\": 1", "b: \"x", "b: \"\\x\"", "b: \"\\u12\"", "a[2|]: 1|2", "a[1|]{x|y}:", "1|2", "a[2\t]: 1\t2", "",
    "", "a.b: 1", "a.b.c: 2", "\"a.b\": 3", "a.c:", "@", "@,", "@,x", "- - 1", "a[0]:", "[0]:", "a: [1]: 2", "a: b: c", "a:b", ": x", ":",
    "a[3]: 1,,2", "a[2]: \"x,y\",z", "a[1]: \"", "- \"a\": 1", "- \"x\"", "a[2]{x,y}: z", "a[-1]:", "a[x]:", "a[1", "a]1[:", "a{x}:", "a[1]x:", "- ", "--", "-a",
    "a: \"b\" c", "\"a\"b: 1", "a : 1", "é: ü", "漢[1]: 字", "😀", "a[1]: 😀", "a: \\u0041", "a: \"\\u00e9\"", "a: \"\\ud800\"", "a: \u{a0}x",
    "a[1]:\t1", "a: 1 ", "a: 1\r", "a[01]: 1", "a[ 1 ]: 1", "a[1 ]:", "a[1,]: 1", "a[1#]: 1", "a[2]:1,2", "a:1", "a[1]{}:", "a[1]{x,y|z}:", "a[1]{x}",
    "a[1]: 1,", "b[2]: ,", "key[1]: \"a\"b", "99999999999999999999[1]: 1", "a[18446744073709551616]:", "a[99999999]: 1", "a: 1e400", "a: -0", "a: 01", "a: 1.", "null: null", "true",
    "a[1]{x}:x", "a[1]{\"x,y\"}:", "a[1]{\"x:y\",z}:", "\"k:[\"[1]: 1", "a[1]: [2]: 3", "- \"[1]\": 2", "- [1]: [2]",
];
pub fn soup_line(r: &mut Rng) -> String {
    if r.pct(80) {
        r.pick(SOUP).to_string()
    } else {
        (0..r.range(1, 6)).map(|_| *r.pick(gen::FRAGS)).collect::<String>().replace('\n', "")
    }
}
pub fn soup(r: &mut Rng, n: usize, unit: usize) -> Vec<String> {
    let mut ind = 0usize;
    (0..n)
        .map(|_| {
            match r.below(10) {
                0..=3 => {}
                4..=6 => ind += unit,
                7 => ind = ind.saturating_sub(unit),
                8 => ind = 0,
                _ => ind = ind.saturating_sub(2 * unit),
            }
            if ind > 5 * unit {
                ind = 0;
            }
            let x = if r.pct(3) { 1 } else { 0 };
            format!("{}{}", " ".repeat(ind + x), soup_line(r))
        })
        .collect()
}
fn indent_of(l: &str) -> usize {
    l.len() - l.trim_start_matches(' ').len()
}
/// One damaging edit.
pub fn damage(r: &mut Rng, lines: &mut Vec<String>, n: usize) {
    if lines.is_empty() {
        lines.push(soup_line(r));
        return;
    }
    let i = r.below(lines.len());
    match r.below(17) {
        0 => {
            lines.remove(i);
        }
        1 => {
            let l = lines[i].clone();
            lines.insert(i, l);
        }
        2 => {
            let j = r.below(lines.len());
            lines.swap(i, j);
        }
        3 => lines[i].insert_str(0, &" ".repeat(r.range(1, n))),
        4 => {
            let k = indent_of(&lines[i]).min(r.range(1, n));
            lines[i].drain(..k);
        }
        5 => lines.insert(i, if r.pct(70) { String::new() } else { " ".repeat(r.below(5)) }),
        6 => lines[i].insert(0, '\t'),
        7 => {
            let k = indent_of(&lines[i]);
            lines[i].insert(k, '\t');
        }
        8 => {
            // drop a character
            let cs: Vec<char> = lines[i].chars().collect();
            if !cs.is_empty() {
                let k = r.below(cs.len());
                lines[i] = cs.iter().enumerate().filter(|(j, _)| *j != k).map(|(_, c)| *c).collect();
            }
        }
        9 | 10 => {
            // insert one
            let mut cs: Vec<char> = lines[i].chars().collect();
            let k = r.below(cs.len() + 1);
            cs.insert(k, *r.pick(&['"', '\\', ':', ',', '|', '[', ']', '{', '}', '-', ' ', '1', 'a', '.', '\t', 'é', '#']));
            lines[i] = cs.into_iter().collect();
        }
        11 => {
            let ind = indent_of(&lines[i]);
            let s = soup_line(r);
            lines.insert(i, format!("{}{}", " ".repeat(ind + if r.pct(30) { n } else { 0 }), s));
        }
        12 => {
            if let Some(p) = lines[i].rfind('"') {
                lines[i].remove(p);
            } else {
                lines[i].push('"');
            }
        }
        13 => {
            if let Some(p) = lines[i].find('"') {
                lines[i].insert_str(p + 1, r.pick(&["\\x", "\\", "\\u12", "\\u00zz", "\\'", "\\U0041", "\\0"]));
            }
        }
        14 => count(r, lines),
        15 => {
            lines.truncate(i);
        }
        _ => {
            let k = indent_of(&lines[i]);
            lines[i].insert_str(0, &" ".repeat(n));
            let _ = k;
        }
    }
}
/// Change one declared length, or the number of elements it counts.
pub fn count(r: &mut Rng, lines: &mut Vec<String>) {
    let hs: Vec<usize> = (0..lines.len()).filter(|&i| lines[i].contains('[')).collect();
    if hs.is_empty() {
        return;
    }
    let i = *r.pick(&hs);
    let l = lines[i].clone();
    let b = l.find('[').unwrap();
    let digits: String = l[b + 1..].chars().take_while(|c| c.is_ascii_digit()).collect();
    let Ok(k) = digits.parse::<usize>() else { return };
    let nk = match r.below(6) {
        0 => k + 1,
        1 => k.saturating_sub(1),
        2 => 0,
        3 => k + r.range(2, 9),
        4 => k + r.range(1, 3) * (1usize << *r.pick(&[4, 7, 8, 8, 10, 12, 15, 16, 16, 24, 31, 32, 32, 48, 53])),
        _ => k * *r.pick(&[10, 100, 1000, 1_000_000]) + r.below(2),
    };
    lines[i] = format!("{}{}{}", &l[..b + 1], nk, &l[b + 1 + digits.len()..]);
}
/// Add or remove one element: a cell, a row, an item.
pub fn elements(r: &mut Rng, lines: &mut Vec<String>) {
    if lines.is_empty() {
        return;
    }
    let i = r.below(lines.len());
    match r.below(4) {
        0 => {
            lines.remove(i);
        }
        1 => {
            let l = lines[i].clone();
            lines.insert(i + 1, l);
        }
        2 => lines[i].push_str(r.pick(&[",1", "|1", "\t1", ",", ",x"])),
        _ => {
            if let Some(p) = lines[i].rfind([',', '|', '\t']) {
                lines[i].truncate(p);
            }
        }
    }
}
