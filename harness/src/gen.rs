//! Random JSON values, biased towards the shapes and texts TOON treats specially.
use crate::rng::Rng;
use serde_json::{Map, Number, Value};

pub const FRAGS: &[&str] = &[
    "a", "b", "x", "-", " ", ":", "[", "]", "{", "}", "\"", "\\", "\n", "\t", "|", ",", "true", "false", "null", "1",
    "0", "e", "E", ".", "#", "é", "漢", "😀", "\u{0}", "\u{7f}", "\u{a0}", "\u{2028}", "@", "+", "_", "\r", "inf",
    "nan", "\u{85}", "/", "\u{feff}", "\u{200b}", "\u{8}", "\u{c}", "\u{1b}", "n", "u", "'", "- ", "[2]", "k: v", "5", "~", "\u{3000}",
];
pub const WORDS: &[&str] = &[
    "a", "b", "hello", "x y", "true", "false", "null", "True", "1", "-1", "1.5", "05", "-05", "1e3", "+1", ".5", "5.",
    "0x1", "-", "--", "- a", "-a", "", " ", " a", "a ", "a:b", "a: b", "a,b", "a|b", "a\tb", "[1]", "[2]: x", "{a}",
    "k[1]: v", "\"", "\"q\"", "\\", "a\\nb", "a\nb", "a\rb", "\u{0}", "\u{1f}", "é", "漢字", "😀", "@", "@,", "@ a",
    "a@b", "#", "//", "a.b", "a.b.c", ".a", "inf", "-inf", "nan", "NaN", "infinity", "1e", "1e+", "e1", "0", "-0",
    "00", "0.0", "1_000", "１", "\u{a0}a", "a\u{a0}", "\u{2003}", "\u{feff}x", "\u{200b}", "~", "'a'", "a\"b", "a b  c",
    "1 2", "1,2", "18446744073709551616", "9223372036854775808", "null ", "nul", "nullx", "[", "]", "{", "}", "()",
    "a[b", "x]y", ":", "::", ":a", "a:", "\t", "\ta", "a\t", "\u{85}x", "+-1", "-+inf", "++1", "1.", "1.e5", "E5", "\u{7f}",
];
pub const KEYS: &[&str] = &["a", "b", "c", "d", "id", "name", "_x", "A1"];
pub const ODDKEYS: &[&str] = &[
    "", " ", "a b", "1", "1a", "-", "-a", "a-b", "a.b", "a.b.c", ".a", "a.", "a..b", "x:y", "k[1]", "k]", "{a}", "\"", "\\",
    "é", "漢", "😀", "a,b", "a|b", "\t", "a\nb", "true", "null", "@", "@,", "a@b", "- a", " a", "a ", "\u{200b}a", "\u{feff}",
    "\u{0}", "~", "[2]", "a/b", "_", "_1.x", "\u{a0}",
];

#[derive(Clone)]
pub struct Cfg {
    pub depth: usize,
    pub width: usize,
    pub odd_keys: usize,   // % of unusual keys
    pub dotted: bool,      // keys may contain dots
    pub word: usize,       // % of unusual strings
    pub chain: usize,      // % of objects being single-key chains
    pub table: usize,      // % of arrays being uniform objects
    pub big: bool,         // occasional large arrays
    pub bignum: usize,     // % of hard numbers
}
impl Cfg {
    pub fn std() -> Self {
        Cfg { depth: 4, width: 4, odd_keys: 15, dotted: true, word: 40, chain: 10, table: 25, big: false, bignum: 15 }
    }
}

pub fn string(r: &mut Rng) -> String {
    if r.pct(2) {
        return long_string(r);
    }
    match r.below(10) {
        0..=3 => r.pick(WORDS).to_string(),
        4..=7 => (0..r.range(1, 4)).map(|_| *r.pick(FRAGS)).collect(),
        8 => (0..r.range(1, 6))
            .map(|_| loop {
                let hi = *r.pick(&[0x80u32, 0x100, 0x800, 0x3000, 0x10000, 0x110000]);
                if let Some(c) = char::from_u32(r.below(hi as usize) as u32) {
                    break c;
                }
            })
            .collect(),
        _ => {
            // near-numbers
            (0..r.range(1, 7)).map(|_| *r.pick(&["0", "1", "9", ".", "e", "E", "-", "+", "00", "5"])).collect()
        }
    }
}
pub fn any_string(r: &mut Rng, c: &Cfg) -> String {
    if r.pct(c.word) {
        string(r)
    } else {
        r.pick(&["a", "b", "hello", "foo bar", "x1", "z"]).to_string()
    }
}
pub fn key(r: &mut Rng, c: &Cfg) -> String {
    let k = if r.pct(c.odd_keys) {
        if r.pct(70) {
            r.pick(ODDKEYS).to_string()
        } else {
            string(r)
        }
    } else {
        r.pick(KEYS).to_string()
    };
    if !c.dotted && k.contains('.') {
        k.replace('.', "_")
    } else {
        k
    }
}
/// Some doubles have two equally short, equally near decimals; either is right, so they are not used.
pub fn one_shortest(f: f64) -> bool {
    let s = format!("{:e}", f);
    let k = s.bytes().take_while(|b| *b != b'e').filter(|b| b.is_ascii_digit()).count();
    let digits = |s: &str| {
        let m: String = s.split('e').next().unwrap().chars().filter(|c| c.is_ascii_digit()).collect();
        m.trim_start_matches('0').trim_end_matches('0').to_string()
    };
    digits(&s) == digits(&format!("{:.*e}", k - 1, f)) && digits(&s) == digits(&Number::from_f64(f).unwrap().to_string())
}
pub fn float(r: &mut Rng) -> f64 {
    loop {
        let f = match r.below(8) {
            0 => f64::from_bits(r.next()),
            1 => (r.below(2_000_001) as f64 - 1_000_000.0) / *r.pick(&[1.0, 10.0, 100.0, 1000.0, 8.0, 3.0]),
            2 => *r.pick(&[0.0, -0.0, 0.1, 1e-7, 1e-6, 1e15, 1e16, 1e17, 1e20, 1e21, 1e22, 1e23, 5e-324, f64::MAX,
                f64::MIN_POSITIVE, 9007199254740992.0, 9007199254740993.0, 1.8446744073709552e19, 9.223372036854775807e18,
                -9.223372036854775808e18, 0.5, 1.5, -1.5, 100.0, 1e300, 123456789.0, 0.000001234, 1.0, -1.0, 4294967296.0, 1e10, 2.5e-3]),
            3 => (r.range(1, 9999) as f64) * 10f64.powi(r.below(40) as i32 - 20),
            4 => f32::from_bits(r.next() as u32) as f64,
            5 => (r.next() >> r.below(64)) as f64,
            6 => 10f64.powi(r.below(600) as i32 - 300),
            _ => r.next() as f64 / r.next().max(1) as f64,
        };
        if f.is_finite() && one_shortest(f) {
            return f;
        }
    }
}
pub fn number(r: &mut Rng, hard: bool) -> Number {
    if !hard {
        return match r.below(3) {
            0 => Number::from(r.below(10) as u64),
            1 => Number::from(r.below(2000) as i64 - 1000),
            _ => Number::from_f64((r.below(2000) as f64 - 1000.0) / 8.0).unwrap(),
        };
    }
    match r.below(6) {
        0 => Number::from(r.next() as i64 >> r.below(64)),
        1 => Number::from(r.next() >> r.below(64)),
        2 => Number::from(*r.pick(&[i64::MIN, i64::MIN + 1, -1, 0, 1, i64::MAX, 9007199254740993, -9007199254740993])),
        3 => Number::from(*r.pick(&[u64::MAX, u64::MAX - 1, 9223372036854775808, 10000000000000000000, 9007199254740993])),
        _ => Number::from_f64(float(r)).unwrap(),
    }
}
pub fn scalar(r: &mut Rng, c: &Cfg) -> Value {
    match r.below(10) {
        0 => Value::Null,
        1 => Value::Bool(r.pct(50)),
        2..=4 => {
            let h = r.pct(c.bignum);
            Value::Number(number(r, h))
        }
        _ => Value::String(any_string(r, c)),
    }
}
fn len(r: &mut Rng, c: &Cfg) -> usize {
    if c.big && r.pct(4) {
        return r.range(9, 40);
    }
    match r.below(8) {
        0 => 0,
        1 | 2 => 1,
        _ => r.range(1, c.width),
    }
}
pub fn value(r: &mut Rng, c: &Cfg, depth: usize) -> Value {
    if depth == 0 || r.pct(30) {
        return scalar(r, c);
    }
    if r.pct(50) { array(r, c, depth) } else { object(r, c, depth) }
}
pub fn object(r: &mut Rng, c: &Cfg, depth: usize) -> Value {
    let n = if r.pct(c.chain) { 1 } else { len(r, c) };
    let mut m = Map::new();
    for _ in 0..n {
        let k = key(r, c);
        let v = if n == 1 && r.pct(c.chain) && depth > 0 { object(r, c, depth - 1) } else { value(r, c, depth.saturating_sub(1)) };
        m.insert(k, v);
    }
    Value::Object(m)
}
pub fn array(r: &mut Rng, c: &Cfg, depth: usize) -> Value {
    let n = len(r, c);
    let d = depth.saturating_sub(1);
    if r.pct(c.table) {
        return table(r, c, n);
    }
    match r.below(6) {
        0 | 1 => Value::Array((0..n).map(|_| scalar(r, c)).collect()),
        2 => Value::Array((0..n).map(|_| object(r, c, d)).collect()),
        3 => Value::Array((0..n).map(|_| array(r, c, d)).collect()),
        _ => Value::Array((0..n).map(|_| value(r, c, d)).collect()),
    }
}
/// Uniform objects, sometimes not quite.
pub fn table(r: &mut Rng, c: &Cfg, n: usize) -> Value {
    let w = if r.pct(6) { 0 } else if c.big && r.pct(10) { r.range(7, 12) } else { r.range(1, 3) };
    let mut ks: Vec<String> = (0..w).map(|_| key(r, c)).collect();
    ks.dedup();
    let spoil = if r.pct(25) { r.below(n.max(1)) } else { usize::MAX };
    let rows = (0..n)
        .map(|i| {
            let mut m = Map::new();
            let mut ord: Vec<&String> = ks.iter().collect();
            if r.pct(30) && ord.len() > 1 {
                ord.rotate_left(1);
            }
            for k in ord {
                m.insert(k.clone(), scalar(r, c));
            }
            if i == spoil {
                match r.below(6) {
                    5 if !ks.is_empty() => {
                        let k = r.pick(&ks).clone();
                        m.shift_remove(&k);
                        m.insert("zz".into(), scalar(r, c));
                    }
                    0 => {
                        m.insert("zz".into(), scalar(r, c));
                    }
                    1 => {
                        if let Some(k) = ks.first() {
                            m.shift_remove(k);
                        }
                    }
                    2 => {
                        if let Some(k) = ks.last() {
                            m.insert(k.clone(), Value::Array(vec![]));
                        }
                    }
                    3 => {
                        if let Some(k) = ks.last() {
                            m.insert(k.clone(), Value::Object(Map::new()));
                        }
                    }
                    _ => return scalar(r, c),
                }
            }
            Value::Object(m)
        })
        .collect();
    Value::Array(rows)
}
/// Sizes at which implementations change strategy.
pub const SIZES: &[usize] = &[9, 10, 11, 15, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300];
pub fn long_string(r: &mut Rng) -> String {
    let n = *r.pick(SIZES);
    long_string_n(r, n)
}
pub fn long_string_n(r: &mut Rng, n: usize) -> String {
    let mut s: String = (0..n).map(|_| *r.pick(&["a", "b", "c", "x", "1", "é", "-", "z"])).collect();
    for _ in 0..r.below(3) {
        let i = match r.below(4) { 0 => 0, 1 => s.len(), _ => r.below(s.len()) };
        if s.is_char_boundary(i) {
            let f = r.pick(FRAGS);
            s.insert_str(i, f);
        }
    }
    s
}
/// Often makes one of the rows, usually a late one, unlike the others (or only look so).
fn spoil(r: &mut Rng, c: &Cfg, rows: &mut Vec<Value>) {
    if r.pct(35) {
        return;
    }
    let i = if r.pct(60) { rows.len() - 1 } else { r.below(rows.len()) };
    let Some(Value::Object(m)) = rows.get_mut(i) else { return };
    let at = if r.pct(60) { m.len() - 1 } else { r.below(m.len()) };
    let key = m.keys().nth(at).unwrap().clone();
    match r.below(10) {
        0..=4 => {
            let k = r.pick(KEYS).to_string();
            let x = match r.below(4) {
                0 => Value::Array(vec![]),
                1 => Value::Object(Map::new()),
                2 => Value::Array(vec![scalar(r, c), scalar(r, c)]),
                _ => Value::Object([(k, scalar(r, c))].into_iter().collect()),
            };
            m.insert(key, x);
        }
        5 => {
            m.shift_remove(&key);
        }
        6 => {
            m.insert("zz".into(), scalar(r, c));
        }
        7 => {
            let x = m.shift_remove(&key).unwrap();
            m.insert("zz".into(), x);
        }
        8 => {
            let x = m.shift_remove(&key).unwrap();
            m.shift_insert(0, key, x);
        }
        _ => rows[i] = scalar(r, c),
    }
}
/// Values that are large in one dimension: length, width, columns, depth or text.
pub fn large(r: &mut Rng, c: &Cfg) -> Value {
    let n = *r.pick(SIZES);
    large_n(r, c, n)
}
pub const HUGE: &[usize] = &[500, 511, 512, 513, 600, 768, 999, 1000, 1001, 1023, 1024, 1025, 1100, 1500, 2047, 2048, 2049, 2500, 4095, 4096, 4097, 5000];
pub fn large_n(r: &mut Rng, c: &Cfg, n: usize) -> Value {
    let many = n.min(1100);
    let small = Cfg { depth: 2, width: 2, big: false, ..c.clone() };
    let k = r.pick(KEYS).to_string();
    match if n > 300 { r.below(9) } else { *r.pick(&[0, 1, 1, 2, 2, 2, 3, 4, 5, 6, 7, 8]) } {
        0 => Value::Array((0..n).map(|_| scalar(r, c)).collect()),
        1 => {
            let w = r.range(1, 3);
            let many = many.min(520);
            let mut rows = (0..many).map(|_| Value::Object((0..w).map(|i| (format!("c{i}"), scalar(r, c))).collect())).collect();
            spoil(r, c, &mut rows);
            two(&k, Value::Array(rows), "zz", scalar(r, c))
        }
        2 => {
            let m = r.range(1, 3);
            let n = if n > 300 { n.min(300) } else { n.min(70) };
            let m = if n > 100 { m.min(2) } else { m };
            let mut rows = (0..m).map(|_| Value::Object((0..n).map(|i| (format!("c{i}"), scalar(r, c))).collect())).collect();
            spoil(r, c, &mut rows);
            if r.pct(60) { two(&k, Value::Array(rows), "zz", scalar(r, c)) } else { Value::Array(rows) }
        }
        3 => Value::Object((0..many).map(|i| (format!("k{i}"), if r.pct(10) { value(r, &small, 2) } else { scalar(r, c) })).collect()),
        4 | 5 => {
            // deep
            let mut v = value(r, &small, 2);
            let way = r.below(4);
            for i in 0..n.min(70) {
                let key = if r.pct(80) { r.pick(KEYS).to_string() } else { format!("k{i}") };
                v = match if way == 3 { r.below(3) } else { way } {
                    0 => Value::Object([(key, v)].into_iter().collect()),
                    1 => Value::Array(vec![v]),
                    _ => if r.pct(50) { Value::Array(vec![two(&key, v, "s", scalar(r, c))]) } else { two("p", scalar(r, c), &key, v) },
                };
            }
            v
        }
        6 => {
            let s = Value::String(long_string_n(r, n));
            positions(r, c, &s)
        }
        7 => {
            let s = long_string_n(r, n);
            key_positions(r, c, &s)
        }
        _ => two(&k, Value::Array((0..many).map(|_| value(r, &small, 2)).collect()), "zz", scalar(r, c)),
    }
}
pub fn root(r: &mut Rng, c: &Cfg) -> Value {
    if r.pct(5) {
        let v = large(r, c);
        return if c.dotted { v } else { undotted(v) };
    }
    let d = r.range(1, c.depth);
    match r.below(12) {
        0 => scalar(r, c),
        1 | 2 => array(r, c, d),
        _ => object(r, c, d),
    }
}
/// The value placed in one of the positions a scalar can take.
pub fn positions(r: &mut Rng, c: &Cfg, s: &Value) -> Value {
    let one = |k: &str, v: Value| Value::Object([(k.to_string(), v)].into_iter().collect());
    let o = scalar(r, c);
    match r.below(13) {
        0 => s.clone(),
        1 => one("a", s.clone()),
        2 => one("a", one("b", s.clone())),
        3 => one("a", Value::Array(vec![s.clone(), o])),
        4 => one("a", Value::Array(vec![o, s.clone()])),
        5 => Value::Array(vec![s.clone()]),
        6 => one("a", Value::Array(vec![s.clone(), Value::Array(vec![])])),
        7 => one("a", Value::Array(vec![two("x", s.clone(), "y", o.clone()), two("x", o, "y", s.clone())])),
        8 => one("a", Value::Array(vec![one("x", s.clone())])),
        9 => one("a", Value::Array(vec![two("x", s.clone(), "y", one("w", s.clone()))])),
        10 => one("a", Value::Array(vec![two("x", one("w", s.clone()), "y", s.clone())])),
        11 => Value::Array(vec![one("x", Value::Array(vec![one("q", s.clone())])), Value::Array(vec![s.clone()])]),
        _ => Value::Array(vec![Value::Array(vec![s.clone(), o]), s.clone()]),
    }
}
fn undotted(v: Value) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.into_iter().map(undotted).collect()),
        Value::Object(m) => Value::Object(m.into_iter().map(|(k, v)| (k.replace('.', "_"), undotted(v))).collect()),
        v => v,
    }
}
pub fn two(a: &str, x: Value, b: &str, y: Value) -> Value {
    let mut m = Map::new();
    m.insert(a.to_string(), x);
    m.insert(b.to_string(), y);
    Value::Object(m)
}
/// The text as a key, in the positions a key can take.
pub fn key_positions(r: &mut Rng, c: &Cfg, k: &str) -> Value {
    let one = |k: &str, v: Value| Value::Object([(k.to_string(), v)].into_iter().collect());
    let o = scalar(r, c);
    match r.below(8) {
        0 => one(k, o),
        1 => one(k, one(k, o)),
        2 => one(k, Value::Array(vec![o])),
        3 => one("t", Value::Array(vec![two(k, o.clone(), "y", o)])),
        4 => one("t", Value::Array(vec![two(k, o.clone(), "y", Value::Array(vec![]))])),
        5 => one("t", Value::Array(vec![two("y", Value::Array(vec![]), k, o)])),
        6 => one(k, Value::Array(vec![two("y", o.clone(), k, o)])),
        _ => Value::Array(vec![one(k, Value::Array(vec![one(k, o)]))]),
    }
}
