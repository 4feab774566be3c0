//! Random types, values of a type, and call trees of no type in particular.
use crate::gen;
use crate::rng::Rng;
use crate::tree::Tree;
use crate::typed::{Ty, Var, INTS};
use serde_json::Value;

const FIELDS: &[&str] = &["a", "b", "c", "id", "name", "_x", "A1", "a b", "a.b", "", "é", "1", "x-y", "type"];
const VARIANTS: &[&str] = &["A", "B", "V", "a", "Null", "null", "x y", "1", "true"];
fn distinct(r: &mut Rng, pool: &[&str], n: usize, plain: usize) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for _ in 0..n * 3 {
        let k = if r.pct(plain) { pool[r.below(4)] } else { *r.pick(pool) }.to_string();
        if out.len() < n && !out.contains(&k) {
            out.push(k);
        }
    }
    out
}
pub fn scalar_ty(r: &mut Rng) -> Ty {
    match r.below(10) {
        0 => Ty::Bool,
        1..=3 => Ty::Int(r.pick(&INTS[..8])),
        4 => Ty::F64,
        5 => Ty::F32,
        6 => Ty::Char,
        _ => Ty::Str,
    }
}
pub fn key_ty(r: &mut Rng) -> Ty {
    match r.below(12) {
        0..=5 => Ty::Str,
        6 | 7 => Ty::Int(r.pick(INTS)),
        8 => Ty::Bool,
        9 => Ty::Char,
        10 => Ty::Newtype(Box::new(Ty::Str)),
        _ => Ty::Enum(distinct(r, VARIANTS, 3, 60).into_iter().map(|k| (k, Var::Unit)).collect()),
    }
}
fn fields(r: &mut Rng, depth: usize, max: usize) -> Vec<(String, Ty)> {
    let n = r.range(0, max);
    distinct(r, FIELDS, n, 70).into_iter().map(|k| { let t = ty(r, depth); (k, t) }).collect()
}
pub fn ty(r: &mut Rng, depth: usize) -> Ty {
    if depth == 0 || r.pct(25) {
        return match r.below(14) {
            0 => Ty::Unit,
            1 => Ty::UnitStruct,
            2 => Ty::Option(Box::new(scalar_ty(r))),
            3 => Ty::Int(r.pick(INTS)),
            _ => scalar_ty(r),
        };
    }
    let d = depth - 1;
    match r.below(16) {
        0 => Ty::Option(Box::new(ty(r, d))),
        1..=3 => Ty::Vec(Box::new(ty(r, d))),
        4 => Ty::Tuple((0..r.range(1, 3)).map(|_| ty(r, d)).collect()),
        5 => Ty::TupleStruct((0..r.range(0, 3)).map(|_| ty(r, d)).collect()),
        6 => Ty::Newtype(Box::new(ty(r, d))),
        7 | 8 => { let k = key_ty(r); Ty::Map(Box::new(k), Box::new(ty(r, d))) }
        9..=11 => Ty::Struct(fields(r, d, 4)),
        12 => Ty::Vec(Box::new(Ty::Struct({ let n = r.range(1, 3); distinct(r, FIELDS, n, 70).into_iter().map(|k| (k, scalar_ty(r))).collect() }))),
        _ => { let n = r.range(1, 4); Ty::Enum(distinct(r, VARIANTS, n, 60).into_iter().map(|k| {
            let v = match r.below(5) {
                0 | 1 => Var::Unit,
                2 => Var::New(ty(r, d)),
                3 => Var::Tuple((0..r.range(0, 3)).map(|_| ty(r, d)).collect()),
                _ => Var::Struct(fields(r, d, 3)),
            };
            (k, v)
        }).collect()) }
    }
}
fn int(r: &mut Rng, w: &'static str) -> Tree {
    let x = if r.pct(50) { (r.below(10)) as i128 } else { r.next() as i128 };
    macro_rules! cut { ($t:ty) => { if r.pct(15) { *r.pick(&[<$t>::MIN, <$t>::MAX, 0, 1]) as i128 } else { (x as $t >> r.below(<$t>::BITS as usize)) as i128 } } }
    let v = match w {
        "i8" => cut!(i8), "i16" => cut!(i16), "i32" => cut!(i32), "i64" => cut!(i64),
        "u8" => cut!(u8), "u16" => cut!(u16), "u32" => cut!(u32), "u64" => cut!(u64),
        "i128" => cut!(i64), _ => cut!(u64),
    };
    Tree::Int(v, match w { "i128" => "i64", "u128" => "u64", w => w })
}
fn chr(r: &mut Rng) -> char {
    let s = gen::string(r);
    s.chars().next().unwrap_or('a')
}
fn text(r: &mut Rng) -> String {
    let c = gen::Cfg { word: 30, ..gen::Cfg::std() };
    gen::any_string(r, &c)
}
fn f32s(r: &mut Rng) -> f32 {
    loop {
        let f = match r.below(4) {
            0 => f32::from_bits(r.next() as u32),
            1 => (r.below(2001) as f32 - 1000.0) / 8.0,
            2 => *r.pick(&[0.0, -0.0, 1.0, 0.1, 3.4028235e38, 1e-40, 16777216.0, 0.3, 1.5]),
            _ => gen::float(r) as f32,
        };
        if f.is_finite() && (f == 0.0 || f.abs() > 1e-36) && gen::one_shortest(f as f64) { return f; }
    }
}
pub fn of(r: &mut Rng, t: &Ty) -> Tree {
    match t {
        Ty::Bool => Tree::Bool(r.pct(50)),
        Ty::Int(w) => int(r, w),
        Ty::F64 => Tree::F64(gen::float(r)),
        Ty::F32 => Tree::F32(f32s(r)),
        Ty::Char => Tree::Char(chr(r)),
        Ty::Str => Tree::Str(text(r)),
        Ty::Unit => Tree::Unit,
        Ty::UnitStruct => Tree::UnitStruct,
        Ty::Option(x) => if r.pct(35) { Tree::Nil } else { Tree::Opt(Box::new(of(r, x))) },
        Ty::Vec(x) => { let n = *r.pick(&[0, 1, 2, 2, 3, 4, 9]); Tree::Seq((0..n).map(|_| of(r, x)).collect(), r.pct(70)) }
        Ty::Tuple(a) => Tree::Tuple(a.iter().map(|x| of(r, x)).collect()),
        Ty::TupleStruct(a) => Tree::TupleStruct(a.iter().map(|x| of(r, x)).collect()),
        Ty::Newtype(x) => Tree::NewStruct(Box::new(of(r, x))),
        Ty::Map(k, x) => {
            let mut m: Vec<(Tree, Tree)> = vec![];
            for _ in 0..*r.pick(&[0, 1, 1, 2, 3]) {
                let key = match &**k { Ty::Str if r.pct(60) => Tree::Str(r.pick(gen::KEYS).to_string()), k => of(r, k) };
                if m.iter().all(|(q, _)| *q != key) { m.push((key, of(r, x))); }
            }
            Tree::Map(m, r.pct(70))
        }
        Ty::Struct(f) => Tree::Struct(f.iter().map(|(k, x)| (k.clone(), of(r, x))).collect(), r.pct(20)),
        Ty::Enum(v) => {
            let i = r.below(v.len());
            let n = v[i].0.clone();
            match &v[i].1 {
                Var::Unit => Tree::UnitVar(n, i as u32),
                Var::New(x) => Tree::NewVar(n, Box::new(of(r, x))),
                Var::Tuple(a) => Tree::TupleVar(n, a.iter().map(|x| of(r, x)).collect()),
                Var::Struct(f) => Tree::StructVar(n, f.iter().map(|(k, x)| (k.clone(), of(r, x))).collect()),
            }
        }
        Ty::Any | Ty::Ignored => Tree::Str("any".into()),
    }
}
/// Trees no single Rust type need have: mixed elements, failing values, unusual map keys.
pub fn wild(r: &mut Rng, depth: usize) -> Tree {
    if depth == 0 || r.pct(30) {
        return match r.below(24) {
            0 => Tree::Nil,
            1 => Tree::Unit,
            2 => Tree::UnitStruct,
            3 => Tree::Bytes((0..r.below(5)).map(|_| r.below(256) as u8).collect()),
            4 => Tree::F64(*r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])),
            5 => Tree::F32(*r.pick(&[f32::NAN, f32::INFINITY])),
            6 => Tree::UnitVar(r.pick(VARIANTS).to_string(), r.below(3) as u32),
            7 => if r.pct(12) { Tree::Fail } else { Tree::Bool(true) },
            _ => { let t = scalar_ty(r); of(r, &t) }
        };
    }
    let d = depth - 1;
    let list = |r: &mut Rng| (0..r.range(0, 3)).map(|_| wild(r, d)).collect::<Vec<_>>();
    match r.below(14) {
        0 => Tree::Opt(Box::new(wild(r, d))),
        1 => Tree::NewStruct(Box::new(wild(r, d))),
        2 => Tree::NewVar(r.pick(VARIANTS).to_string(), Box::new(wild(r, d))),
        3 | 4 => Tree::Seq(list(r), r.pct(60)),
        5 => Tree::Tuple(list(r)),
        6 => Tree::TupleStruct(list(r)),
        7 => Tree::TupleVar(r.pick(VARIANTS).to_string(), list(r)),
        8 | 9 => {
            let mut m: Vec<(Tree, Tree)> = vec![];
            for _ in 0..r.range(0, 3) {
                let k = map_key(r);
                m.push((k, wild(r, d)));
            }
            Tree::Map(m, r.pct(60))
        }
        10 | 11 => { let n = r.range(0, 4); Tree::Struct(distinct(r, FIELDS, n, 60).into_iter().map(|k| (k, wild(r, d))).collect(), r.pct(20)) }
        12 => { let n = r.range(0, 3); Tree::StructVar(r.pick(VARIANTS).to_string(), distinct(r, FIELDS, n, 60).into_iter().map(|k| (k, wild(r, d))).collect()) }
        // rows of a table, as maps, structs or a mix
        _ => {
            let n = r.range(1, 3);
            let ks = distinct(r, FIELDS, n, 70);
            let spoil = r.pct(20);
            Tree::Seq((0..r.range(1, 4)).map(|_| {
                let mut f: Vec<(String, Tree)> = ks.iter().map(|k| (k.clone(), if spoil && r.pct(30) { wild(r, d.min(1)) } else { wild(r, 0) })).collect();
                if r.pct(30) { f.rotate_left(1); }
                if spoil && r.pct(15) { f.pop(); }
                if r.pct(50) { Tree::Struct(f, false) } else { Tree::Map(f.into_iter().map(|(k, x)| (Tree::Str(k), x)).collect(), r.pct(50)) }
            }).collect(), r.pct(60))
        }
    }
}
fn map_key(r: &mut Rng) -> Tree {
    match r.below(20) {
        0..=9 => Tree::Str(if r.pct(80) { r.pick(gen::KEYS).to_string() } else { r.pick(gen::ODDKEYS).to_string() }),
        10 | 11 => { let w = *r.pick(&INTS[..8]); int(r, w) }
        12 => Tree::Bool(r.pct(50)),
        13 => Tree::Char(chr(r)),
        14 => Tree::F64(gen::float(r)),
        15 => Tree::F32(f32s(r)),
        16 => Tree::UnitVar(r.pick(VARIANTS).to_string(), 0),
        17 => { let k = map_key(r); if r.pct(50) { Tree::NewStruct(Box::new(k)) } else { Tree::Opt(Box::new(k)) } }
        18 => r.pick(&[Tree::Nil, Tree::Unit, Tree::UnitStruct, Tree::F64(f64::NAN)]).clone(),
        _ => r.pick(&[Tree::Seq(vec![], true), Tree::Tuple(vec![Tree::Bool(true)]), Tree::Fail, Tree::Bytes(vec![1]), Tree::Struct(vec![], false), Tree::NewVar("A".into(), Box::new(Tree::Unit)), Tree::Map(vec![], true)]).clone(),
    }
}
/// A type that a JSON value might be read as.
pub fn ty_of(r: &mut Rng, v: &Value, depth: usize) -> Ty {
    if r.pct(4) { return ty(r, 1); }
    if r.pct(5) { return Ty::Option(Box::new(ty_of(r, v, depth))); }
    if r.pct(3) { return Ty::Newtype(Box::new(ty_of(r, v, depth))); }
    if depth == 0 || r.pct(4) { return if r.pct(80) { Ty::Any } else { Ty::Ignored }; }
    match v {
        Value::Null => if r.pct(60) { Ty::Option(Box::new(scalar_ty(r))) } else { r.pick(&[Ty::Unit, Ty::UnitStruct]).clone() },
        Value::Bool(_) => Ty::Bool,
        Value::Number(n) => if n.is_f64() { r.pick(&[Ty::F64, Ty::F64, Ty::F32]).clone() } else { r.pick(&[Ty::Int("i64"), Ty::Int("u64"), Ty::Int("u8"), Ty::Int("i8"), Ty::Int("i16"), Ty::Int("u16"), Ty::Int("i32"), Ty::Int("u32"), Ty::Int("i128"), Ty::Int("u128"), Ty::F64, Ty::F32]).clone() },
        Value::String(s) => match r.below(6) { 0 => Ty::Char, 1 => Ty::Enum(vec![(s.clone(), Var::Unit), ("zz".into(), Var::Unit)]), _ => Ty::Str },
        Value::Array(a) => match r.below(4) {
            0 => { let mut t: Vec<Ty> = a.iter().map(|x| ty_of(r, x, depth - 1)).collect(); if r.pct(15) { t.pop(); } else if r.pct(15) { t.push(Ty::Any); } if r.pct(70) { Ty::Tuple(t) } else { Ty::TupleStruct(t) } }
            1 => Ty::Vec(Box::new(Ty::Any)),
            2 if !a.is_empty() && a.len() < 4 && r.pct(30) => Ty::Struct(a.iter().enumerate().map(|(i, x)| (format!("f{i}"), ty_of(r, x, depth - 1))).collect()),
            _ => Ty::Vec(Box::new(a.first().map(|x| ty_of(r, x, depth - 1)).unwrap_or(Ty::Any))),
        },
        Value::Object(m) => match r.below(5) {
            0 => { let k = key_ty(r); Ty::Map(Box::new(k), Box::new(m.values().next().map(|x| ty_of(r, x, depth - 1)).unwrap_or(Ty::Any))) }
            1 if m.len() == 1 => {
                let (k, x) = m.iter().next().unwrap();
                let v = match (x, r.below(3)) {
                    (Value::Object(f), 0 | 1) => Var::Struct(f.iter().map(|(k, x)| (k.clone(), ty_of(r, x, depth - 1))).collect()),
                    (Value::Array(a), 0 | 1) => Var::Tuple(a.iter().map(|x| ty_of(r, x, depth - 1)).collect()),
                    (Value::Null, 0) => Var::Unit,
                    (x, _) => Var::New(ty_of(r, x, depth - 1)),
                };
                Ty::Enum(vec![("Other".into(), Var::Unit), (k.clone(), v)])
            }
            _ => {
                let mut f: Vec<(String, Ty)> = m.iter().filter(|_| r.below(100) < 88).map(|(k, _)| (k.clone(), Ty::Any)).collect();
                for (k, t) in f.iter_mut() { *t = ty_of(r, &m[k], depth - 1); }
                if r.pct(15) { f.push(("extra".into(), if r.pct(70) { Ty::Option(Box::new(Ty::Str)) } else { Ty::Str })); }
                if r.pct(30) { f.reverse(); }
                Ty::Struct(f)
            }
        },
    }
}
/// The type with one thing changed.
pub fn mutate(r: &mut Rng, t: &Ty) -> Ty {
    if r.pct(25) { return ty(r, 1); }
    match t {
        Ty::Int(_) => Ty::Int(r.pick(INTS)),
        Ty::Option(x) => if r.pct(40) { (**x).clone() } else { Ty::Option(Box::new(mutate(r, x))) },
        Ty::Vec(x) => Ty::Vec(Box::new(mutate(r, x))),
        Ty::Newtype(x) => Ty::Newtype(Box::new(mutate(r, x))),
        Ty::Map(k, x) => if r.pct(30) { Ty::Map(Box::new(key_ty(r)), x.clone()) } else { Ty::Map(k.clone(), Box::new(mutate(r, x))) },
        Ty::Tuple(a) if !a.is_empty() => { let mut a = a.clone(); match r.below(4) { 0 => { a.pop(); } 1 => a.push(Ty::Any), _ => { let i = r.below(a.len()); a[i] = mutate(r, &a[i]); } } Ty::Tuple(a) }
        Ty::Struct(f) if !f.is_empty() => { let mut f = f.clone(); let i = r.below(f.len()); match r.below(5) {
            0 => { f.remove(i); } 1 => f.push(("extra".into(), Ty::Str)), 2 => f[i].0 = "renamed".into(), 3 => f.reverse(), _ => f[i].1 = mutate(r, &f[i].1) } Ty::Struct(f) }
        Ty::Enum(v) => { let mut v = v.clone(); let i = r.below(v.len()); match r.below(3) { 0 => v[i].0 = "Other".into(), 1 => v[i].1 = Var::Unit, _ => v.rotate_left(1) } Ty::Enum(v) }
        x => if r.pct(40) { Ty::Option(Box::new(x.clone())) } else { scalar_ty(r) },
    }
}
