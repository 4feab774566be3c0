//! Values of arbitrary Rust types as the tree of calls their Serialize makes:
//! replayed into a serializer, or captured from a real type.
use crate::obs;
use serde::ser::{self, Error as _, Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::Mutex;

/// serde wants names that live forever; each distinct one is leaked once.
pub fn name(s: &str) -> &'static str {
    static POOL: Mutex<Option<HashMap<String, &'static str>>> = Mutex::new(None);
    let mut g = POOL.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    if let Some(x) = m.get(s) {
        return x;
    }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    m.insert(s.to_string(), l);
    l
}
pub fn names(v: &[String]) -> &'static [&'static str] {
    static POOL: Mutex<Option<HashMap<Vec<String>, &'static [&'static str]>>> = Mutex::new(None);
    let mut g = POOL.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    if let Some(x) = m.get(v) {
        return x;
    }
    let l: &'static [&'static str] = Box::leak(v.iter().map(|s| name(s)).collect::<Vec<_>>().into_boxed_slice());
    m.insert(v.to_vec(), l);
    l
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tree {
    Bool(bool),
    Int(i128, &'static str),
    F64(f64),
    F32(f32),
    Str(String),
    Char(char),
    Bytes(Vec<u8>),
    Nil,
    Opt(Box<Tree>),
    Unit,
    UnitStruct,
    UnitVar(String, u32),
    NewStruct(Box<Tree>),
    NewVar(String, Box<Tree>),
    Seq(Vec<Tree>, bool), // length announced?
    Tuple(Vec<Tree>),
    TupleStruct(Vec<Tree>),
    TupleVar(String, Vec<Tree>),
    Map(Vec<(Tree, Tree)>, bool),
    Struct(Vec<(String, Tree)>, bool), // announces skipped fields?
    StructVar(String, Vec<(String, Tree)>),
    Fail,
    Json(Value), // only as a result of reading "any"
}
use Tree::*;

fn ks(v: &[(String, Tree)]) -> Value {
    Value::Array(v.iter().map(|(k, _)| obs::cps(k)).collect())
}
fn vs(v: &[(String, Tree)]) -> Value {
    Value::Array(v.iter().map(|(_, x)| x.js()).collect())
}
fn all(v: &[Tree]) -> Value {
    Value::Array(v.iter().map(|x| x.js()).collect())
}
pub fn norm_f32(f: f32) -> Value {
    let s = format!("{:e}", f.abs());
    let (m, e) = s.split_once('e').unwrap();
    let (i, fr) = m.split_once('.').unwrap_or((m, ""));
    obs::norm(f < 0.0, &format!("{i}{fr}"), e.parse::<i64>().unwrap() - fr.len() as i64)
}
impl Tree {
    /// As the specification sees it.
    pub fn js(&self) -> Value {
        match self {
            Bool(b) => json!({"c":"bool","b":b}),
            Int(i, _) => json!({"c":"num","n":obs::norm(*i < 0, &i.unsigned_abs().to_string(), 0)}),
            F64(f) if !f.is_finite() => json!({"c":"nan"}),
            F64(f) => json!({"c":"f64","n":obs::norm_f64(*f)}),
            F32(f) if !f.is_finite() => json!({"c":"nan"}),
            F32(f) => json!({"c":"f32","n":obs::norm_f64(*f as f64),"m":norm_f32(*f)}),
            Str(s) => json!({"c":"str","s":obs::cps(s)}),
            Char(c) => json!({"c":"char","s":[*c as u32]}),
            Bytes(b) => json!({"c":"bytes","x":b}),
            Nil => json!({"c":"none"}),
            Opt(x) => json!({"c":"some","x":x.js()}),
            Unit => json!({"c":"unit"}),
            UnitStruct => json!({"c":"unitstruct"}),
            UnitVar(s, _) => json!({"c":"unitvar","s":obs::cps(s)}),
            NewStruct(x) => json!({"c":"newstruct","x":x.js()}),
            NewVar(s, x) => json!({"c":"newvar","s":obs::cps(s),"x":x.js()}),
            Seq(a, _) => json!({"c":"seq","a":all(a)}),
            Tuple(a) => json!({"c":"tuple","a":all(a)}),
            TupleStruct(a) => json!({"c":"tuplestruct","a":all(a)}),
            TupleVar(s, a) => json!({"c":"tuplevar","s":obs::cps(s),"a":all(a)}),
            Map(m, _) => json!({"c":"map","kk":m.iter().map(|(k, _)| k.js()).collect::<Vec<_>>(),"a":m.iter().map(|(_, v)| v.js()).collect::<Vec<_>>()}),
            Struct(m, _) => json!({"c":"struct","k":ks(m),"a":vs(m)}),
            StructVar(s, m) => json!({"c":"structvar","s":obs::cps(s),"k":ks(m),"a":vs(m)}),
            Fail => json!({"c":"fail"}),
            Json(v) => json!({"c":"json","v":obs::nested(v)}),
        }
    }
    /// A typed result: a float read as f32 is known only as that.
    pub fn res_js(&self) -> Value {
        fn strip(v: Value) -> Value {
            match v {
                Value::Object(mut m) => {
                    if m.get("c") == Some(&json!("f32")) {
                        m.shift_remove("n");
                    }
                    Value::Object(m.into_iter().map(|(k, x)| (k, strip(x))).collect())
                }
                Value::Array(a) => Value::Array(a.into_iter().map(strip).collect()),
                x => x,
            }
        }
        strip(self.js())
    }
    pub fn parse(v: &Value) -> Tree {
        let s = || obs::text_of(&v["s"]);
        let a = || v["a"].as_array().unwrap().iter().map(Tree::parse).collect::<Vec<_>>();
        let x = || Box::new(Tree::parse(&v["x"]));
        let named = || v["k"].as_array().unwrap().iter().map(obs::text_of).zip(a()).collect::<Vec<_>>();
        match v["c"].as_str().unwrap() {
            "bool" => Bool(v["b"].as_bool().unwrap()),
            "num" => {
                let n = obs::unval(&v["n"]);
                match n.as_i64() {
                    Some(i) => Int(i as i128, "i64"),
                    None => Int(n.as_u64().unwrap() as i128, "u64"),
                }
            }
            "f64" => F64(obs::unval(&v["n"]).as_f64().unwrap()),
            "f32" => F32(obs::unval(&v["n"]).as_f64().unwrap() as f32),
            "nan" => F64(f64::NAN),
            "str" => Str(s()),
            "char" => Char(s().chars().next().unwrap()),
            "bytes" => Bytes(v["x"].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect()),
            "none" => Nil,
            "some" => Opt(x()),
            "unit" => Unit,
            "unitstruct" => UnitStruct,
            "unitvar" => UnitVar(s(), 0),
            "newstruct" => NewStruct(x()),
            "newvar" => NewVar(s(), x()),
            "seq" => Seq(a(), true),
            "tuple" => Tuple(a()),
            "tuplestruct" => TupleStruct(a()),
            "tuplevar" => TupleVar(s(), a()),
            "map" => Map(v["kk"].as_array().unwrap().iter().map(Tree::parse).zip(a()).collect(), true),
            "struct" => Struct(named(), false),
            "structvar" => StructVar(s(), named()),
            "fail" => Fail,
            c => panic!("tree {c}"),
        }
    }
    /// The same tree with lengths unannounced, skipped fields and other freedoms of the protocol toggled.
    pub fn loosened(&self) -> Tree {
        let b = |x: &Tree| Box::new(x.loosened());
        let l = |a: &[Tree]| a.iter().map(|x| x.loosened()).collect::<Vec<_>>();
        let f = |m: &[(String, Tree)]| m.iter().map(|(k, x)| (k.clone(), x.loosened())).collect::<Vec<_>>();
        match self {
            Opt(x) => Opt(b(x)),
            NewStruct(x) => NewStruct(b(x)),
            NewVar(s, x) => NewVar(s.clone(), b(x)),
            Seq(a, z) => Seq(l(a), !z),
            Tuple(a) => Tuple(l(a)),
            TupleStruct(a) => TupleStruct(l(a)),
            TupleVar(s, a) => TupleVar(s.clone(), l(a)),
            Map(m, z) => Map(m.iter().map(|(k, x)| (k.loosened(), x.loosened())).collect(), !z),
            Struct(m, z) => Struct(f(m), !z),
            StructVar(s, m) => StructVar(s.clone(), f(m)),
            x => x.clone(),
        }
    }
}

impl Serialize for Tree {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Bool(b) => s.serialize_bool(*b),
            Int(i, w) => match *w {
                "i8" => s.serialize_i8(*i as i8),
                "i16" => s.serialize_i16(*i as i16),
                "i32" => s.serialize_i32(*i as i32),
                "u8" => s.serialize_u8(*i as u8),
                "u16" => s.serialize_u16(*i as u16),
                "u32" => s.serialize_u32(*i as u32),
                "u64" => s.serialize_u64(*i as u64),
                _ => s.serialize_i64(*i as i64),
            },
            F64(f) => s.serialize_f64(*f),
            F32(f) => s.serialize_f32(*f),
            Str(x) => s.serialize_str(x),
            Char(c) => s.serialize_char(*c),
            Bytes(b) => s.serialize_bytes(b),
            Nil => s.serialize_none(),
            Opt(x) => s.serialize_some(x),
            Unit => s.serialize_unit(),
            UnitStruct => s.serialize_unit_struct("U"),
            UnitVar(v, i) => s.serialize_unit_variant("E", *i, name(v)),
            NewStruct(x) => s.serialize_newtype_struct("N", x),
            NewVar(v, x) => s.serialize_newtype_variant("E", 1, name(v), x),
            Seq(a, sized) => {
                let mut q = s.serialize_seq(if *sized { Some(a.len()) } else { None })?;
                for x in a {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            Tuple(a) => {
                let mut q = s.serialize_tuple(a.len())?;
                for x in a {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            TupleStruct(a) => {
                let mut q = s.serialize_tuple_struct("T", a.len())?;
                for x in a {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            TupleVar(v, a) => {
                let mut q = s.serialize_tuple_variant("E", 2, name(v), a.len())?;
                for x in a {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            Map(m, sized) => {
                let mut q = s.serialize_map(if *sized { Some(m.len()) } else { None })?;
                for (k, x) in m {
                    if *sized {
                        q.serialize_entry(k, x)?;
                    } else {
                        q.serialize_key(k)?;
                        q.serialize_value(x)?;
                    }
                }
                q.end()
            }
            Struct(m, skips) => {
                let mut q = s.serialize_struct("S", m.len())?;
                for (i, (k, x)) in m.iter().enumerate() {
                    if *skips && i % 2 == 0 {
                        q.skip_field("skipped")?;
                    }
                    q.serialize_field(name(k), x)?;
                }
                q.end()
            }
            StructVar(v, m) => {
                let mut q = s.serialize_struct_variant("E", 3, name(v), m.len())?;
                for (k, x) in m {
                    q.serialize_field(name(k), x)?;
                }
                q.end()
            }
            Fail => Err(S::Error::custom("refused by the value itself")),
            Json(v) => v.serialize(s),
        }
    }
}

/* ------------------------- capturing a real type -------------------------- */
#[derive(Debug)]
pub struct E(String);
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}
pub fn capture<T: Serialize + ?Sized>(x: &T) -> Tree {
    x.serialize(Cap).unwrap_or(Fail)
}
struct Cap;
struct CapSeq(Vec<Tree>, u8, &'static str);
struct CapMap(Vec<(Tree, Tree)>, Option<Tree>);
struct CapStruct(Vec<(String, Tree)>, Option<&'static str>);
impl Serializer for Cap {
    type Ok = Tree;
    type Error = E;
    type SerializeSeq = CapSeq;
    type SerializeTuple = CapSeq;
    type SerializeTupleStruct = CapSeq;
    type SerializeTupleVariant = CapSeq;
    type SerializeMap = CapMap;
    type SerializeStruct = CapStruct;
    type SerializeStructVariant = CapStruct;
    fn serialize_bool(self, v: bool) -> Result<Tree, E> { Ok(Bool(v)) }
    fn serialize_i8(self, v: i8) -> Result<Tree, E> { Ok(Int(v as i128, "i8")) }
    fn serialize_i16(self, v: i16) -> Result<Tree, E> { Ok(Int(v as i128, "i16")) }
    fn serialize_i32(self, v: i32) -> Result<Tree, E> { Ok(Int(v as i128, "i32")) }
    fn serialize_i64(self, v: i64) -> Result<Tree, E> { Ok(Int(v as i128, "i64")) }
    fn serialize_u8(self, v: u8) -> Result<Tree, E> { Ok(Int(v as i128, "u8")) }
    fn serialize_u16(self, v: u16) -> Result<Tree, E> { Ok(Int(v as i128, "u16")) }
    fn serialize_u32(self, v: u32) -> Result<Tree, E> { Ok(Int(v as i128, "u32")) }
    fn serialize_u64(self, v: u64) -> Result<Tree, E> { Ok(Int(v as i128, "u64")) }
    fn serialize_f32(self, v: f32) -> Result<Tree, E> { Ok(F32(v)) }
    fn serialize_f64(self, v: f64) -> Result<Tree, E> { Ok(F64(v)) }
    fn serialize_char(self, v: char) -> Result<Tree, E> { Ok(Char(v)) }
    fn serialize_str(self, v: &str) -> Result<Tree, E> { Ok(Str(v.into())) }
    fn serialize_bytes(self, v: &[u8]) -> Result<Tree, E> { Ok(Bytes(v.into())) }
    fn serialize_none(self) -> Result<Tree, E> { Ok(Nil) }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Tree, E> { Ok(Opt(Box::new(v.serialize(Cap)?))) }
    fn serialize_unit(self) -> Result<Tree, E> { Ok(Unit) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Tree, E> { Ok(UnitStruct) }
    fn serialize_unit_variant(self, _: &'static str, i: u32, v: &'static str) -> Result<Tree, E> { Ok(UnitVar(v.into(), i)) }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<Tree, E> { Ok(NewStruct(Box::new(v.serialize(Cap)?))) }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<Tree, E> {
        Ok(NewVar(n.into(), Box::new(v.serialize(Cap)?)))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<CapSeq, E> { Ok(CapSeq(vec![], 0, "")) }
    fn serialize_tuple(self, _: usize) -> Result<CapSeq, E> { Ok(CapSeq(vec![], 1, "")) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<CapSeq, E> { Ok(CapSeq(vec![], 2, "")) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, v: &'static str, _: usize) -> Result<CapSeq, E> { Ok(CapSeq(vec![], 3, v)) }
    fn serialize_map(self, _: Option<usize>) -> Result<CapMap, E> { Ok(CapMap(vec![], None)) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<CapStruct, E> { Ok(CapStruct(vec![], None)) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, v: &'static str, _: usize) -> Result<CapStruct, E> { Ok(CapStruct(vec![], Some(v))) }
}
impl CapSeq {
    fn push<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        self.0.push(v.serialize(Cap)?);
        Ok(())
    }
    fn done(self) -> Result<Tree, E> {
        Ok(match self.1 {
            0 => Seq(self.0, true),
            1 => Tuple(self.0),
            2 => TupleStruct(self.0),
            _ => TupleVar(self.2.into(), self.0),
        })
    }
}
impl SerializeSeq for CapSeq {
    type Ok = Tree;
    type Error = E;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> { self.push(v) }
    fn end(self) -> Result<Tree, E> { self.done() }
}
impl SerializeTuple for CapSeq {
    type Ok = Tree;
    type Error = E;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> { self.push(v) }
    fn end(self) -> Result<Tree, E> { self.done() }
}
impl SerializeTupleStruct for CapSeq {
    type Ok = Tree;
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> { self.push(v) }
    fn end(self) -> Result<Tree, E> { self.done() }
}
impl SerializeTupleVariant for CapSeq {
    type Ok = Tree;
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> { self.push(v) }
    fn end(self) -> Result<Tree, E> { self.done() }
}
impl SerializeMap for CapMap {
    type Ok = Tree;
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        self.1 = Some(v.serialize(Cap)?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        let k = self.1.take().unwrap();
        self.0.push((k, v.serialize(Cap)?));
        Ok(())
    }
    fn end(self) -> Result<Tree, E> { Ok(Map(self.0, true)) }
}
impl CapStruct {
    fn done(self) -> Result<Tree, E> {
        Ok(match self.1 {
            None => Struct(self.0, false),
            Some(v) => StructVar(v.into(), self.0),
        })
    }
}
impl SerializeStruct for CapStruct {
    type Ok = Tree;
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
        self.0.push((k.into(), v.serialize(Cap)?));
        Ok(())
    }
    fn end(self) -> Result<Tree, E> { self.done() }
}
impl SerializeStructVariant for CapStruct {
    type Ok = Tree;
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
        self.0.push((k.into(), v.serialize(Cap)?));
        Ok(())
    }
    fn end(self) -> Result<Tree, E> { self.done() }
}
