//! The harness's own value type, independent of figment's, with generation, rendering and parsing.
use std::collections::BTreeMap;

use figment::value::{Dict, Empty, Num, Tag, Value};
use serde::de::{self, MapAccess, SeqAccess, Visitor};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use simrt::rng::Rng;

pub type D = BTreeMap<String, V>;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum V {
    S(String),
    C(char),
    B(bool),
    /// Integer: its width (see `INT`) and its decimal digits.
    I(u8, String),
    /// Float: whether 32 bit, and the bits of its 64 bit value.
    F(bool, u64),
    /// Empty: whether `none` (else `unit`).
    E(bool),
    D(D),
    A(Vec<V>),
}

pub const INT: [&str; 12] = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"];

impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (V::S(a), V::S(b)) => a == b,
            (V::C(a), V::C(b)) => a == b,
            (V::B(a), V::B(b)) => a == b,
            (V::I(_, a), V::I(_, b)) => a == b,
            (V::F(_, a), V::F(_, b)) => a == b,
            (V::E(a), V::E(b)) => a == b,
            (V::D(a), V::D(b)) => a == b,
            (V::A(a), V::A(b)) => a == b,
            _ => false,
        }
    }
}

fn int<T: std::fmt::Display>(k: u8, v: T) -> V { V::I(k, v.to_string()) }

impl V {
    pub fn s(s: &str) -> V { V::S(s.into()) }
    pub fn i(i: i64) -> V { V::I(9, i.to_string()) }

    pub fn of(v: &Value) -> V {
        match v {
            Value::String(_, s) => V::S(s.clone()),
            Value::Char(_, c) => V::C(*c),
            Value::Bool(_, b) => V::B(*b),
            Value::Num(_, n) => match *n {
                Num::U8(x) => int(0, x), Num::U16(x) => int(1, x), Num::U32(x) => int(2, x), Num::U64(x) => int(3, x),
                Num::U128(x) => int(4, x), Num::USize(x) => int(5, x), Num::I8(x) => int(6, x), Num::I16(x) => int(7, x),
                Num::I32(x) => int(8, x), Num::I64(x) => int(9, x), Num::I128(x) => int(10, x), Num::ISize(x) => int(11, x),
                Num::F32(x) => V::F(true, (x as f64).to_bits()), Num::F64(x) => V::F(false, x.to_bits()),
            },
            Value::Empty(_, e) => V::E(matches!(e, Empty::None)),
            Value::Dict(_, d) => V::D(V::of_dict(d)),
            Value::Array(_, a) => V::A(a.iter().map(V::of).collect()),
        }
    }

    pub fn of_dict(d: &Dict) -> D { d.iter().map(|(k, v)| (k.clone(), V::of(v))).collect() }

    pub fn to_value(&self) -> Value {
        let t = Tag::Default;
        match self {
            V::S(s) => Value::String(t, s.clone()),
            V::C(c) => Value::Char(t, *c),
            V::B(b) => Value::Bool(t, *b),
            V::I(k, s) => Value::Num(t, match k {
                0 => Num::U8(s.parse().unwrap()), 1 => Num::U16(s.parse().unwrap()), 2 => Num::U32(s.parse().unwrap()),
                3 => Num::U64(s.parse().unwrap()), 4 => Num::U128(s.parse().unwrap()), 5 => Num::USize(s.parse().unwrap()),
                6 => Num::I8(s.parse().unwrap()), 7 => Num::I16(s.parse().unwrap()), 8 => Num::I32(s.parse().unwrap()),
                9 => Num::I64(s.parse().unwrap()), 10 => Num::I128(s.parse().unwrap()), _ => Num::ISize(s.parse().unwrap()),
            }),
            V::F(true, b) => Value::Num(t, Num::F32(f64::from_bits(*b) as f32)),
            V::F(false, b) => Value::Num(t, Num::F64(f64::from_bits(*b))),
            V::E(n) => Value::Empty(t, if *n { Empty::None } else { Empty::Unit }),
            V::D(d) => Value::Dict(t, to_dict(d)),
            V::A(a) => Value::Array(t, a.iter().map(|v| v.to_value()).collect()),
        }
    }

    /// Follows a dotted path: stops at its first empty component.
    pub fn size(&self) -> usize {
        match self { V::D(d) => 1 + d.values().map(|v| v.size()).sum::<usize>(), V::A(a) => 1 + a.iter().map(|v| v.size()).sum::<usize>(), _ => 1 }
    }
}

pub fn to_dict(d: &D) -> Dict { d.iter().map(|(k, v)| (k.clone(), v.to_value())).collect() }

/// Serializes as the value itself, so that it can be handed to a serializing provider.
#[derive(Clone, Debug)]
pub struct Ser { pub v: V, pub fail: Option<String> }

struct SerV<'a>(&'a V);
impl Serialize for SerV<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.0 {
            V::S(x) => s.serialize_str(x),
            V::C(c) => s.serialize_char(*c),
            V::B(b) => s.serialize_bool(*b),
            V::I(k, x) => match k {
                0 => s.serialize_u8(x.parse().unwrap()), 1 => s.serialize_u16(x.parse().unwrap()), 2 => s.serialize_u32(x.parse().unwrap()),
                3 | 5 => s.serialize_u64(x.parse().unwrap()), 4 => s.serialize_u128(x.parse().unwrap()),
                6 => s.serialize_i8(x.parse().unwrap()), 7 => s.serialize_i16(x.parse().unwrap()), 8 => s.serialize_i32(x.parse().unwrap()),
                9 | 11 => s.serialize_i64(x.parse().unwrap()), _ => s.serialize_i128(x.parse().unwrap()),
            },
            V::F(true, b) => s.serialize_f32(f64::from_bits(*b) as f32),
            V::F(false, b) => s.serialize_f64(f64::from_bits(*b)),
            V::E(true) => s.serialize_none(),
            V::E(false) => s.serialize_unit(),
            V::D(d) => s.collect_map(d.iter().map(|(k, v)| (k, SerV(v)))),
            V::A(a) => s.collect_seq(a.iter().map(SerV)),
        }
    }
}
impl Serialize for Ser {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if let Some(m) = &self.fail { return Err(serde::ser::Error::custom(m)) }
        SerV(&self.v).serialize(s)
    }
}

/// Deserializes anything self-describing: how the oracle reads text, using the same parsers.
#[derive(Clone, Debug)]
pub struct DeV(pub V);
impl<'de> Deserialize<'de> for DeV {
    fn deserialize<X: Deserializer<'de>>(d: X) -> Result<DeV, X::Error> {
        struct Vis;
        impl<'de> Visitor<'de> for Vis {
            type Value = V;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("any value") }
            fn visit_bool<E: de::Error>(self, v: bool) -> Result<V, E> { Ok(V::B(v)) }
            fn visit_i64<E: de::Error>(self, v: i64) -> Result<V, E> { Ok(int(9, v)) }
            fn visit_u64<E: de::Error>(self, v: u64) -> Result<V, E> { Ok(int(3, v)) }
            fn visit_i128<E: de::Error>(self, v: i128) -> Result<V, E> { Ok(int(10, v)) }
            fn visit_u128<E: de::Error>(self, v: u128) -> Result<V, E> { Ok(int(4, v)) }
            fn visit_f32<E: de::Error>(self, v: f32) -> Result<V, E> { Ok(V::F(true, (v as f64).to_bits())) }
            fn visit_f64<E: de::Error>(self, v: f64) -> Result<V, E> { Ok(V::F(false, v.to_bits())) }
            fn visit_char<E: de::Error>(self, v: char) -> Result<V, E> { Ok(V::C(v)) }
            fn visit_str<E: de::Error>(self, v: &str) -> Result<V, E> { Ok(V::S(v.into())) }
            fn visit_unit<E: de::Error>(self) -> Result<V, E> { Ok(V::E(false)) }
            fn visit_none<E: de::Error>(self) -> Result<V, E> { Ok(V::E(true)) }
            fn visit_some<X: Deserializer<'de>>(self, d: X) -> Result<V, X::Error> { d.deserialize_any(self) }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
                let mut out = vec![];
                while let Some(DeV(v)) = a.next_element()? { out.push(v) }
                Ok(V::A(out))
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
                let mut out = D::new();
                while let Some(k) = a.next_key::<String>()? { out.insert(k, a.next_value::<DeV>()?.0); }
                Ok(V::D(out))
            }
        }
        d.deserialize_any(Vis).map(DeV)
    }
}

pub const FMT: [&str; 4] = ["TOML", "JSON", "YAML", "YAML Extended"];

/// What the format's own parser makes of `text`: per profile if `nested`.
pub fn parse_text(fmt: u8, text: &str, nested: bool) -> Result<Vec<(Option<String>, D)>, ()> {
    type Flat = BTreeMap<String, DeV>;
    type Nest = BTreeMap<String, Flat>;
    fn ext<T: de::DeserializeOwned>(s: &str) -> Result<T, ()> {
        let mut v: serde_yaml::Value = serde_yaml::from_str(s).map_err(|_| ())?;
        v.apply_merge().map_err(|_| ())?;
        T::deserialize(v).map_err(|_| ())
    }
    fn any<T: de::DeserializeOwned>(fmt: u8, s: &str) -> Result<T, ()> {
        match fmt {
            0 => toml_edit::de::from_str(s).map_err(|_| ()),
            1 => serde_json::from_str(s).map_err(|_| ()),
            2 => serde_yaml::from_str(s).map_err(|_| ()),
            _ => ext(s),
        }
    }
    let un = |f: Flat| f.into_iter().map(|(k, v)| (k, v.0)).collect::<D>();
    if nested {
        any::<Nest>(fmt, text).map(|n| n.into_iter().map(|(p, f)| (Some(p), un(f))).collect())
    } else {
        any::<Flat>(fmt, text).map(|f| vec![(None, un(f))])
    }
}

// ---- rendering ----

pub fn jstr(s: &str) -> String { serde_json::to_string(s).unwrap() }

fn tstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}

fn num(v: &V) -> String {
    match v { V::I(_, s) => s.clone(), V::F(_, b) => { let f = f64::from_bits(*b); let s = format!("{:?}", f); if s.contains('.') || s.contains('e') { s } else { format!("{}.0", s) } } _ => unreachable!() }
}

pub fn json(v: &V) -> String {
    match v {
        V::S(s) => jstr(s),
        V::C(c) => jstr(&c.to_string()),
        V::B(b) => b.to_string(),
        V::I(..) | V::F(..) => num(v),
        V::E(_) => "null".into(),
        V::D(d) => format!("{{{}}}", d.iter().map(|(k, v)| format!("{}: {}", jstr(k), json(v))).collect::<Vec<_>>().join(", ")),
        V::A(a) => format!("[{}]", a.iter().map(json).collect::<Vec<_>>().join(", ")),
    }
}

pub fn toml_val(v: &V) -> String {
    match v {
        V::S(s) => tstr(s),
        V::C(c) => tstr(&c.to_string()),
        V::B(b) => b.to_string(),
        V::I(..) | V::F(..) => num(v),
        V::E(_) => "\"null\"".into(),
        V::D(d) => format!("{{{}}}", d.iter().map(|(k, v)| format!("{} = {}", tstr(k), toml_val(v))).collect::<Vec<_>>().join(", ")),
        V::A(a) => format!("[{}]", a.iter().map(toml_val).collect::<Vec<_>>().join(", ")),
    }
}

pub fn toml_doc(d: &D) -> String {
    let mut o = String::new();
    let mut tables = vec![];
    for (k, v) in d {
        match v { V::D(t) => tables.push((k, t)), v => o.push_str(&format!("{} = {}\n", tstr(k), toml_val(v))) }
    }
    for (k, t) in tables {
        o.push_str(&format!("[{}]\n", tstr(k)));
        for (k, v) in t { o.push_str(&format!("{} = {}\n", tstr(k), toml_val(v))) }
    }
    o
}

pub fn yaml_doc(d: &D) -> String {
    let mut o = String::new();
    for (k, v) in d {
        match v {
            V::D(t) if !t.is_empty() => {
                o.push_str(&format!("{}:\n", jstr(k)));
                for (k, v) in t { o.push_str(&format!("  {}: {}\n", jstr(k), json(v))) }
            }
            V::A(a) if !a.is_empty() => {
                o.push_str(&format!("{}:\n", jstr(k)));
                for v in a { o.push_str(&format!("  - {}\n", json(v))) }
            }
            v => o.push_str(&format!("{}: {}\n", jstr(k), json(v))),
        }
    }
    if o.is_empty() { o.push_str("{}\n") }
    o
}

pub fn render(fmt: u8, d: &D) -> String {
    match fmt { 0 => toml_doc(d), 1 => json(&V::D(d.clone())), _ => yaml_doc(d) }
}

// ---- generation ----

#[derive(Clone)]
pub struct GenCfg { pub keys: Vec<String>, pub depth: u32, pub width: usize, pub text: bool, pub rich: bool, pub arr: u32, pub dict: u32, pub big: usize }

pub const KEYS: [&str; 22] = ["a", "b", "c", "d", "e", "key", "name", "port", "x1", "A", "Key", "x-y", "x_y", "0", "10", "ключ", "名", "with space", "q\"t", "default", "global", "debug"];
pub const ODD: [&str; 6] = ["", "a.b", "..", "line\nbreak", "___figment_like", "\u{1F980}"];

pub fn gen_keys(r: &mut Rng, n: usize, odd: bool) -> Vec<String> {
    let mut k: Vec<String> = vec![];
    while k.len() < n {
        let s = if odd && r.chance(1, 5) { r.pick(&ODD).to_string() }
            else if r.chance(3, 5) { KEYS[r.below(6)].to_string() }
            else if odd && r.chance(1, 30) { "k".repeat(r.range(60, 300)) }
            else { r.pick(&KEYS).to_string() };
        if !k.contains(&s) { k.push(s) }
    }
    k
}

pub const STRS: [&str; 14] = ["", "hi", "hello world", "true", "5", "1.5", "  padded ", "ünïcode ☃", "a.b.c", "[1]", "{a=1}", "null", "line1\nline2", "\"q\" \\ '"];

pub fn gen_scalar(r: &mut Rng, c: &GenCfg, uniq: &mut u64) -> V {
    *uniq += 1;
    if c.text {
        return match r.below(if c.rich { 6 } else { 3 }) {
            0 | 5 => V::i(*uniq as i64),
            1 => V::S(format!("v{}", uniq)),
            2 => V::B(r.chance(1, 2)),
            3 => V::F(false, ((*uniq as f64) + 0.5).to_bits()),
            _ => if r.chance(1, 2) { V::s(r.pick(&STRS)) } else { V::i(*r.pick(&[0, -1, 1, 255, 256, 65536, i64::MAX, i64::MIN, 1 << 53])) },
        };
    }
    match r.below(if c.rich { 11 } else { 4 }) {
        0 | 4 => V::I(3, uniq.to_string()),
        1 | 5 => V::S(format!("v{}", uniq)),
        2 => V::B(r.chance(1, 2)),
        3 => V::I(8, uniq.to_string()),
        6 => V::F(r.chance(1, 3), ((*uniq as f64) + 0.5).to_bits()),
        7 => V::C(*r.pick(&['c', ' ', '☃', '\0', '"'])),
        8 => V::E(r.chance(1, 2)),
        9 => {
            let k = r.below(12) as u8;
            let s = match k {
                0 => "255".into(), 1 => "65535".into(), 2 => u32::MAX.to_string(), 3 | 5 => u64::MAX.to_string(), 4 => u128::MAX.to_string(),
                6 => "-128".into(), 7 => "-32768".into(), 8 => i32::MIN.to_string(), 9 | 11 => i64::MIN.to_string(), _ => i128::MIN.to_string(),
            };
            V::I(k, if r.chance(1, 3) { "0".into() } else { s })
        }
        _ => if r.chance(1, 2) { V::s(r.pick(&STRS)) } else { V::F(false, *r.pick(&[0f64.to_bits(), (-0f64).to_bits(), 1e300f64.to_bits(), f64::INFINITY.to_bits(), 0.1f64.to_bits()])) },
    }
}

pub fn gen_v(r: &mut Rng, c: &GenCfg, depth: u32, uniq: &mut u64) -> V {
    if depth > 0 {
        let x = r.below(100) as u32;
        if x < c.dict { return V::D(gen_d(r, c, depth - 1, uniq)) }
        if x < c.dict + c.arr {
            if r.chance(1, 400) { let n = if r.chance(1, 4) { r.range(c.big / 3, c.big) } else { r.range(100, 1100.min(c.big)) }; return V::A((0..n).map(|_| gen_scalar(r, c, uniq)).collect()) }
            let n = if r.chance(1, 40) { r.range(20, 60) } else { r.below(4) };
            return V::A((0..n).map(|_| gen_v(r, c, depth - 1, uniq)).collect());
        }
    }
    gen_scalar(r, c, uniq)
}

pub fn gen_d(r: &mut Rng, c: &GenCfg, depth: u32, uniq: &mut u64) -> D {
    let n = r.below(c.width + 1);
    let mut d = D::new();
    for _ in 0..n {
        let k = r.pick(&c.keys).clone();
        let v = gen_v(r, c, depth, uniq);
        d.insert(k, v);
    }
    if r.chance(1, 60) { for i in 0..r.range(20, 80) { *uniq += 1; d.insert(format!("w{}", i), V::i(*uniq as i64)); } }
    d
}
