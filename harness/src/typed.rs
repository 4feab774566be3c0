//! Target types described at run time: a Deserialize that behaves like the derived one for that type.
use crate::obs;
use crate::tree::{name, names, Tree};
use serde::de::{self, Deserialize, DeserializeSeed, Deserializer, EnumAccess, Error as _, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Bool,
    Int(&'static str),
    F64,
    F32,
    Char,
    Str,
    Unit,
    UnitStruct,
    Option(Box<Ty>),
    Vec(Box<Ty>),
    Tuple(Vec<Ty>),
    TupleStruct(Vec<Ty>),
    Newtype(Box<Ty>),
    Map(Box<Ty>, Box<Ty>),
    Struct(Vec<(String, Ty)>),
    Enum(Vec<(String, Var)>),
    Any,
    Ignored,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Var {
    Unit,
    New(Ty),
    Tuple(Vec<Ty>),
    Struct(Vec<(String, Ty)>),
}
pub const INTS: &[&str] = &["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "i128", "u128"];

fn fields_js(f: &[(String, Ty)]) -> (Value, Value) {
    (f.iter().map(|(k, _)| obs::cps(k)).collect(), f.iter().map(|(_, t)| t.js()).collect())
}
impl Ty {
    pub fn js(&self) -> Value {
        let all = |a: &[Ty]| a.iter().map(|t| t.js()).collect::<Value>();
        match self {
            Ty::Bool => json!({"y":"bool"}),
            Ty::Int(w) => json!({"y":"int","w":w}),
            Ty::F64 => json!({"y":"f64"}),
            Ty::F32 => json!({"y":"f32"}),
            Ty::Char => json!({"y":"char"}),
            Ty::Str => json!({"y":"string"}),
            Ty::Unit => json!({"y":"unit"}),
            Ty::UnitStruct => json!({"y":"unitstruct"}),
            Ty::Option(t) => json!({"y":"option","x":t.js()}),
            Ty::Vec(t) => json!({"y":"vec","x":t.js()}),
            Ty::Tuple(a) => json!({"y":"tuple","a":all(a)}),
            Ty::TupleStruct(a) => json!({"y":"tuplestruct","a":all(a)}),
            Ty::Newtype(t) => json!({"y":"newtype","x":t.js()}),
            Ty::Map(k, t) => json!({"y":"map","kt":k.js(),"x":t.js()}),
            Ty::Struct(f) => {
                let (k, a) = fields_js(f);
                json!({"y":"struct","k":k,"a":a})
            }
            Ty::Enum(v) => json!({"y":"enum","k":v.iter().map(|(k,_)| obs::cps(k)).collect::<Vec<_>>(),"a":v.iter().map(|(_, x)| match x {
                Var::Unit => json!({"y":"vunit"}),
                Var::New(t) => json!({"y":"vnew","x":t.js()}),
                Var::Tuple(a) => json!({"y":"vtuple","a":all(a)}),
                Var::Struct(f) => { let (k, a) = fields_js(f); json!({"y":"vstruct","k":k,"a":a}) }
            }).collect::<Vec<_>>()}),
            Ty::Any => json!({"y":"any"}),
            Ty::Ignored => json!({"y":"ignored"}),
        }
    }
    pub fn parse(v: &Value) -> Ty {
        let x = || Box::new(Ty::parse(&v["x"]));
        let a = |v: &Value| v["a"].as_array().unwrap().iter().map(Ty::parse).collect::<Vec<_>>();
        let f = |v: &Value| v["k"].as_array().unwrap().iter().map(obs::text_of).zip(a(v)).collect::<Vec<_>>();
        match v["y"].as_str().unwrap() {
            "bool" => Ty::Bool,
            "int" => Ty::Int(INTS.iter().find(|w| **w == v["w"].as_str().unwrap()).unwrap()),
            "f64" => Ty::F64,
            "f32" => Ty::F32,
            "char" => Ty::Char,
            "string" => Ty::Str,
            "unit" => Ty::Unit,
            "unitstruct" => Ty::UnitStruct,
            "option" => Ty::Option(x()),
            "vec" => Ty::Vec(x()),
            "tuple" => Ty::Tuple(a(v)),
            "tuplestruct" => Ty::TupleStruct(a(v)),
            "newtype" => Ty::Newtype(x()),
            "map" => Ty::Map(Box::new(Ty::parse(&v["kt"])), x()),
            "struct" => Ty::Struct(f(v)),
            "enum" => Ty::Enum(
                v["k"].as_array().unwrap().iter().map(obs::text_of).zip(v["a"].as_array().unwrap().iter().map(|q| match q["y"].as_str().unwrap() {
                    "vunit" => Var::Unit,
                    "vnew" => Var::New(Ty::parse(&q["x"])),
                    "vtuple" => Var::Tuple(a(q)),
                    _ => Var::Struct(f(q)),
                })).collect(),
            ),
            "any" => Ty::Any,
            "ignored" => Ty::Ignored,
            y => panic!("type {y}"),
        }
    }
}

thread_local! { static TARGET: RefCell<Ty> = const { RefCell::new(Ty::Any) } }
/// A value of the type set by `with_type`.
pub struct Dyn(pub Tree);
pub fn with_type<T>(t: &Ty, f: impl FnOnce() -> T) -> T {
    TARGET.with(|x| *x.borrow_mut() = t.clone());
    f()
}
impl<'de> Deserialize<'de> for Dyn {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let t = TARGET.with(|x| x.borrow().clone());
        Seed(&t).deserialize(d).map(Dyn)
    }
}
#[derive(Clone, Copy)]
struct Seed<'a>(&'a Ty);
impl<'de> DeserializeSeed<'de> for Seed<'_> {
    type Value = Tree;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Tree, D::Error> {
        macro_rules! int {
            ($t:ty) => {{
                let x = <$t>::deserialize(d)?;
                Tree::Int(i128::try_from(x).map_err(|_| D::Error::custom("beyond the harness"))?, stringify!($t))
            }};
        }
        Ok(match self.0 {
            Ty::Bool => Tree::Bool(bool::deserialize(d)?),
            Ty::Int(w) => match *w {
                "i8" => int!(i8),
                "i16" => int!(i16),
                "i32" => int!(i32),
                "i64" => int!(i64),
                "i128" => int!(i128),
                "u8" => int!(u8),
                "u16" => int!(u16),
                "u32" => int!(u32),
                "u64" => int!(u64),
                _ => int!(u128),
            },
            Ty::F64 => Tree::F64(f64::deserialize(d)?),
            Ty::F32 => Tree::F32(f32::deserialize(d)?),
            Ty::Char => Tree::Char(char::deserialize(d)?),
            Ty::Str => Tree::Str(String::deserialize(d)?),
            Ty::Unit => {
                <()>::deserialize(d)?;
                Tree::Unit
            }
            Ty::UnitStruct => d.deserialize_unit_struct("U", V(self.0))?,
            Ty::Option(_) => d.deserialize_option(V(self.0))?,
            Ty::Vec(_) => d.deserialize_seq(V(self.0))?,
            Ty::Tuple(a) => d.deserialize_tuple(a.len(), V(self.0))?,
            Ty::TupleStruct(a) => d.deserialize_tuple_struct("T", a.len(), V(self.0))?,
            Ty::Newtype(_) => d.deserialize_newtype_struct("N", V(self.0))?,
            Ty::Map(..) => d.deserialize_map(V(self.0))?,
            Ty::Struct(f) => {
                let ks: Vec<String> = f.iter().map(|(k, _)| k.clone()).collect();
                d.deserialize_struct("S", names(&ks), V(self.0))?
            }
            Ty::Enum(v) => {
                let ks: Vec<String> = v.iter().map(|(k, _)| k.clone()).collect();
                d.deserialize_enum("E", names(&ks), V(self.0))?
            }
            Ty::Any => Tree::Json(Value::deserialize(d)?),
            Ty::Ignored => {
                IgnoredAny::deserialize(d)?;
                Tree::Unit
            }
        })
    }
}
/// Which of the names this is (as derived code asks).
struct Ident<'a>(&'a [String]);
impl<'de> DeserializeSeed<'de> for Ident<'_> {
    type Value = Option<usize>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Option<usize>, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for Ident<'_> {
    type Value = Option<usize>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a name")
    }
    fn visit_u64<E: de::Error>(self, i: u64) -> Result<Option<usize>, E> {
        Ok(if (i as usize) < self.0.len() { Some(i as usize) } else { None })
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<Option<usize>, E> {
        Ok(self.0.iter().position(|x| x == s))
    }
    fn visit_bytes<E: de::Error>(self, s: &[u8]) -> Result<Option<usize>, E> {
        Ok(self.0.iter().position(|x| x.as_bytes() == s))
    }
}
struct V<'a>(&'a Ty);
fn exactly<'de, A: SeqAccess<'de>>(a: &mut A, tys: &[Ty]) -> Result<Vec<Tree>, A::Error> {
    let mut out = vec![];
    for (i, t) in tys.iter().enumerate() {
        match a.next_element_seed(Seed(t))? {
            Some(x) => out.push(x),
            None => return Err(A::Error::invalid_length(i, &"more elements")),
        }
    }
    Ok(out)
}
fn named<'de, A: MapAccess<'de>>(a: &mut A, f: &[(String, Ty)]) -> Result<Vec<(String, Tree)>, A::Error> {
    let ks: Vec<String> = f.iter().map(|(k, _)| k.clone()).collect();
    let mut got: Vec<Option<Tree>> = vec![None; f.len()];
    while let Some(i) = a.next_key_seed(Ident(&ks))? {
        match i {
            None => {
                a.next_value::<IgnoredAny>()?;
            }
            Some(i) => {
                if got[i].is_some() {
                    return Err(A::Error::duplicate_field(name(&ks[i])));
                }
                got[i] = Some(a.next_value_seed(Seed(&f[i].1))?);
            }
        }
    }
    f.iter()
        .zip(got)
        .map(|((k, t), g)| match (g, t) {
            (Some(x), _) => Ok((k.clone(), x)),
            (None, Ty::Option(_)) => Ok((k.clone(), Tree::Nil)),
            (None, _) => Err(A::Error::missing_field(name(k))),
        })
        .collect()
}
impl<'de> Visitor<'de> for V<'_> {
    type Value = Tree;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
    fn visit_unit<E: de::Error>(self) -> Result<Tree, E> {
        match self.0 {
            Ty::Option(_) => Ok(Tree::Nil),
            Ty::UnitStruct => Ok(Tree::UnitStruct),
            _ => Err(E::invalid_type(de::Unexpected::Unit, &self)),
        }
    }
    fn visit_none<E: de::Error>(self) -> Result<Tree, E> {
        match self.0 {
            Ty::Option(_) => Ok(Tree::Nil),
            _ => Err(E::invalid_type(de::Unexpected::Option, &self)),
        }
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Tree, D::Error> {
        match self.0 {
            Ty::Option(t) => Ok(Tree::Opt(Box::new(Seed(t).deserialize(d)?))),
            _ => Err(D::Error::invalid_type(de::Unexpected::Option, &self)),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Tree, D::Error> {
        match self.0 {
            Ty::Newtype(t) => Ok(Tree::NewStruct(Box::new(Seed(t).deserialize(d)?))),
            _ => Err(D::Error::invalid_type(de::Unexpected::NewtypeStruct, &self)),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Tree, A::Error> {
        match self.0 {
            Ty::Vec(t) => {
                let mut out = vec![];
                while let Some(x) = a.next_element_seed(Seed(t))? {
                    out.push(x);
                }
                Ok(Tree::Seq(out, true))
            }
            Ty::Tuple(tys) => Ok(Tree::Tuple(exactly(&mut a, tys)?)),
            Ty::TupleStruct(tys) => Ok(Tree::TupleStruct(exactly(&mut a, tys)?)),
            Ty::Newtype(t) => match a.next_element_seed(Seed(t))? {
                Some(x) => Ok(Tree::NewStruct(Box::new(x))),
                None => Err(A::Error::invalid_length(0, &self)),
            },
            Ty::Struct(f) => {
                let tys: Vec<Ty> = f.iter().map(|(_, t)| t.clone()).collect();
                let xs = exactly(&mut a, &tys)?;
                Ok(Tree::Struct(f.iter().map(|(k, _)| k.clone()).zip(xs).collect(), false))
            }
            _ => Err(A::Error::invalid_type(de::Unexpected::Seq, &self)),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Tree, A::Error> {
        match self.0 {
            Ty::Map(k, t) => {
                let mut out = vec![];
                while let Some(key) = a.next_key_seed(Seed(k))? {
                    out.push((key, a.next_value_seed(Seed(t))?));
                }
                Ok(Tree::Map(out, true))
            }
            Ty::Struct(f) => Ok(Tree::Struct(named(&mut a, f)?, false)),
            _ => Err(A::Error::invalid_type(de::Unexpected::Map, &self)),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Tree, A::Error> {
        let Ty::Enum(vars) = self.0 else { return Err(A::Error::invalid_type(de::Unexpected::Enum, &self)) };
        let ks: Vec<String> = vars.iter().map(|(k, _)| k.clone()).collect();
        let (i, x) = a.variant_seed(Ident(&ks))?;
        let Some(i) = i else { return Err(A::Error::unknown_variant("?", names(&ks))) };
        let n = ks[i].clone();
        Ok(match &vars[i].1 {
            Var::Unit => {
                x.unit_variant()?;
                Tree::UnitVar(n, i as u32)
            }
            Var::New(t) => Tree::NewVar(n, Box::new(x.newtype_variant_seed(Seed(t))?)),
            Var::Tuple(tys) => match x.tuple_variant(tys.len(), V(&Ty::Tuple(tys.clone())))? {
                Tree::Tuple(a) => Tree::TupleVar(n, a),
                t => t,
            },
            Var::Struct(f) => {
                let fk: Vec<String> = f.iter().map(|(k, _)| k.clone()).collect();
                match x.struct_variant(names(&fk), V(&Ty::Struct(f.clone())))? {
                    Tree::Struct(m, _) => Tree::StructVar(n, m),
                    t => t,
                }
            }
        })
    }
}

/// A JSON value with, for every number, whether it is held as a float.
pub fn held(v: &Value) -> Value {
    match v {
        Value::Number(n) => {
            let mut x = obs::norm_num(n);
            x["f"] = json!(n.is_f64());
            x
        }
        Value::Array(a) => json!({"t":"arr","a":a.iter().map(held).collect::<Vec<_>>()}),
        Value::Object(m) => json!({"t":"obj","k":m.keys().map(|k| obs::cps(k)).collect::<Vec<_>>(),"v":m.values().map(held).collect::<Vec<_>>()}),
        x => obs::val(x),
    }
}
/// Decode as JSON, convert that with serde_json, and decode as the type.
pub fn typed(text: &str, ty: &Ty, o: &obs::O) -> Value {
    let opt = o.options();
    let note = || json!({"typed": text, "ty": ty.js(), "o": format!("{:?}", o)}).to_string();
    let jv = obs::guard(note, || toon_rs::decode_from_str::<Value>(text, &opt));
    let r = obs::guard(note, || with_type(ty, || toon_rs::decode_from_str::<Dyn>(text, &opt)));
    let (jres, jv) = match jv {
        Ok(Ok(v)) => ("ok", Some(v)),
        Ok(Err(_)) => ("err", None),
        Err(_) => ("panic", None),
    };
    let c = jv.as_ref().map(|v| with_type(ty, || serde_json::from_value::<Dyn>(v.clone())));
    let (cres, cx) = match c {
        Some(Ok(t)) => ("ok", t.0.res_js()),
        _ => ("err", json!({"c":"none"})),
    };
    let (res, x, msg) = match r {
        Ok(Ok(t)) => ("ok", t.0.res_js(), String::new()),
        Ok(Err(e)) => ("err", json!({"c":"none"}), e.to_string()),
        Err(p) => ("panic", json!({"c":"none"}), p),
    };
    json!({"k":"typed","is":"typed","ty":ty.js(),"o":o.dec_json(text),"lines":obs::lines_of(text),"jres":jres,
        "jv":jv.as_ref().map(held).unwrap_or(json!({"t":"null"})),"cres":cres,"cx":cx,"res":res,"x":x,"msg":msg})
}
