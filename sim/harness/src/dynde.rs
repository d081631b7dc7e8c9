//! A consumer driven by a schema: accepts everything except at one chosen place, where it rejects.
use std::cell::RefCell;
use std::fmt;

use figment::value::magic::Tagged;
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::Deserialize;

use crate::scen::{Fail, Sch};

thread_local! { static SCH: RefCell<Option<Sch>> = const { RefCell::new(None) }; }

pub const MSG: &str = "rejected by the consumer";
pub const WANTED: &str = "a better value";
static FIELDS: [&str; 2] = ["expected_one", "expected_two"];

pub struct Dyn;
impl Dyn { pub fn arm(s: &Sch) { SCH.with(|c| *c.borrow_mut() = Some(s.clone())) } }
impl<'de> Deserialize<'de> for Dyn {
    fn deserialize<X: Deserializer<'de>>(d: X) -> Result<Dyn, X::Error> {
        let s = SCH.with(|c| c.borrow().clone()).expect("armed");
        Seed(Some(&s)).deserialize(d)
    }
}

struct Seed<'a>(Option<&'a Sch>);
struct Vis<'a>(&'a Sch);

impl<'a, 'de> DeserializeSeed<'de> for Seed<'a> {
    type Value = Dyn;
    fn deserialize<X: Deserializer<'de>>(self, d: X) -> Result<Dyn, X::Error> {
        let s = match self.0 { None => return IgnoredAny::deserialize(d).map(|_| Dyn), Some(s) => s };
        match s {
            Sch::Fail(Fail::After) => { IgnoredAny::deserialize(d)?; Err(de::Error::custom(MSG)) }
            Sch::Fail(Fail::Type) => Err(match d.deserialize_any(Reject) { Err(e) => e, Ok(()) => de::Error::custom("harness: accepted") }),
            Sch::Fail(Fail::Length) => d.deserialize_tuple(1_000_000, Vis(s)),
            Sch::Fail(Fail::Variant) => d.deserialize_enum("E", &FIELDS, Vis(s)),
            Sch::Fail(_) | Sch::Key(..) | Sch::Idx(..) => d.deserialize_any(Vis(s)),
            Sch::Struct(_) => d.deserialize_struct("S", &FIELDS, Vis(s)),
            Sch::Opt(_) => d.deserialize_option(Vis(s)),
            Sch::New(_) => d.deserialize_newtype_struct("N", Vis(s)),
            Sch::Enum(..) => d.deserialize_enum("E", &FIELDS, Vis(s)),
            Sch::Tagged(i) => {
                let old = SCH.with(|c| c.borrow_mut().replace((**i).clone()));
                let r = Tagged::<Dyn>::deserialize(d);
                SCH.with(|c| *c.borrow_mut() = old);
                r.map(|t| t.into_inner())
            }
        }
    }
}

/// Rejects whatever it is given with a type error.
struct Reject;
impl<'de> Visitor<'de> for Reject {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("something else") }
}

/// An element of an enum's variant name, whatever it is.
struct Name;
impl<'de> Visitor<'de> for Name {
    type Value = String;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a variant") }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<String, E> { Ok(v.into()) }
    fn visit_u32<E: de::Error>(self, v: u32) -> Result<String, E> { Ok(v.to_string()) }
}
struct NameSeed;
impl<'de> DeserializeSeed<'de> for NameSeed {
    type Value = String;
    fn deserialize<X: Deserializer<'de>>(self, d: X) -> Result<String, X::Error> { d.deserialize_identifier(Name) }
}
/// Rejects a key as an unknown field or variant.
struct Unknown { field: bool }
impl<'de> Visitor<'de> for Unknown {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a known name") }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<(), E> {
        Err(if self.field { E::unknown_field(v, &FIELDS) } else { E::unknown_variant(v, &FIELDS) })
    }
    fn visit_u32<E: de::Error>(self, v: u32) -> Result<(), E> { Err(E::unknown_variant(&v.to_string(), &FIELDS)) }
}
struct UnknownSeed { field: bool }
impl<'de> DeserializeSeed<'de> for UnknownSeed {
    type Value = ();
    fn deserialize<X: Deserializer<'de>>(self, d: X) -> Result<(), X::Error> { d.deserialize_identifier(Unknown { field: self.field }) }
}

impl<'a> Vis<'a> {
    fn visit_fail(&self) -> bool { matches!(self.0, Sch::Fail(Fail::Visit)) }
    fn scalar<E: de::Error>(self) -> Result<Dyn, E> { if self.visit_fail() { Err(E::custom(MSG)) } else if matches!(self.0, Sch::Fail(Fail::Value)) { Err(E::invalid_value(de::Unexpected::Other("this"), &WANTED)) } else { Ok(Dyn) } }
    fn inner(&self) -> Option<&'a Sch> { match self.0 { Sch::Opt(i) | Sch::New(i) | Sch::Struct(i) => Some(i), _ => None } }
}

impl<'a, 'de> Visitor<'de> for Vis<'a> {
    type Value = Dyn;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("the expected value") }
    fn visit_bool<E: de::Error>(self, _: bool) -> Result<Dyn, E> { self.scalar() }
    fn visit_i64<E: de::Error>(self, _: i64) -> Result<Dyn, E> { self.scalar() }
    fn visit_i128<E: de::Error>(self, _: i128) -> Result<Dyn, E> { self.scalar() }
    fn visit_u64<E: de::Error>(self, _: u64) -> Result<Dyn, E> { self.scalar() }
    fn visit_u128<E: de::Error>(self, _: u128) -> Result<Dyn, E> { self.scalar() }
    fn visit_f64<E: de::Error>(self, _: f64) -> Result<Dyn, E> { self.scalar() }
    fn visit_char<E: de::Error>(self, _: char) -> Result<Dyn, E> { self.scalar() }
    fn visit_str<E: de::Error>(self, _: &str) -> Result<Dyn, E> { self.scalar() }
    fn visit_unit<E: de::Error>(self) -> Result<Dyn, E> { self.scalar() }
    fn visit_none<E: de::Error>(self) -> Result<Dyn, E> { self.scalar() }
    fn visit_some<X: Deserializer<'de>>(self, d: X) -> Result<Dyn, X::Error> { Seed(self.inner()).deserialize(d) }
    fn visit_newtype_struct<X: Deserializer<'de>>(self, d: X) -> Result<Dyn, X::Error> { Seed(self.inner()).deserialize(d) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Dyn, A::Error> {
        let s = match self.0 { Sch::Struct(i) => &**i, s => s };
        let mut i = 0;
        loop {
            let child = match s { Sch::Idx(n, c) if *n == i => Some(&**c), _ => None };
            if a.next_element_seed(Seed(child))?.is_none() { break }
            i += 1;
        }
        match s {
            Sch::Fail(Fail::Visit) => Err(de::Error::custom(MSG)),
            Sch::Fail(Fail::Value) => Err(de::Error::invalid_value(de::Unexpected::Seq, &WANTED)),
            Sch::Fail(Fail::Length) => Err(de::Error::invalid_length(i, &"more elements")),
            _ => Ok(Dyn),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Dyn, A::Error> {
        let s = match self.0 { Sch::Struct(i) => &**i, s => s };
        if let Sch::Key(_, c) = s {
            if let Sch::Fail(Fail::Unknown) = **c { return keyed(s, a) }
        }
        while let Some(k) = a.next_key::<String>()? {
            let child = match s { Sch::Key(n, c) if *n == k => Some(&**c), _ => None };
            a.next_value_seed(Seed(child))?;
        }
        match s {
            Sch::Fail(Fail::Visit) => Err(de::Error::custom(MSG)),
            Sch::Fail(Fail::Value) => Err(de::Error::invalid_value(de::Unexpected::Map, &WANTED)),
            Sch::Fail(Fail::Duplicate) => Err(de::Error::duplicate_field("present_field")),
            Sch::Fail(Fail::Missing) => Err(de::Error::missing_field("absent_field")),
            _ => Ok(Dyn),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Dyn, A::Error> {
        match self.0 {
            Sch::Fail(Fail::Variant) => { a.variant_seed(UnknownSeed { field: false })?; Ok(Dyn) }
            Sch::Enum(_, c) => { let (_, v) = a.variant_seed(NameSeed)?; v.newtype_variant_seed(Seed(Some(c))) }
            _ => Err(de::Error::custom("harness: enum")),
        }
    }
}

/// Rejects exactly the named key, as a struct that denies unknown fields does.
fn keyed<'de, A: MapAccess<'de>>(s: &Sch, mut a: A) -> Result<Dyn, A::Error> {
    let want = match s { Sch::Key(n, _) => n.clone(), _ => unreachable!() };
    struct K(String);
    impl<'de> DeserializeSeed<'de> for K {
        type Value = ();
        fn deserialize<X: Deserializer<'de>>(self, d: X) -> Result<(), X::Error> { d.deserialize_identifier(self) }
    }
    impl<'de> Visitor<'de> for K {
        type Value = ();
        fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a field") }
        fn visit_str<E: de::Error>(self, v: &str) -> Result<(), E> { if v == self.0 { Err(E::unknown_field(v, &FIELDS)) } else { Ok(()) } }
    }
    while a.next_key_seed(K(want.clone()))?.is_some() { a.next_value::<IgnoredAny>()?; }
    Err(de::Error::custom("harness: key not met"))
}

thread_local! { static AT: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) }; }

/// The value of type `T` that a whole configuration holds at an armed path of keys.
pub struct At<T>(pub Option<T>);
impl<T> At<T> { pub fn arm(p: &[&str]) { AT.with(|a| *a.borrow_mut() = p.iter().map(|s| s.to_string()).collect()) } }
impl<'de, T: Deserialize<'de>> Deserialize<'de> for At<T> {
    fn deserialize<X: Deserializer<'de>>(d: X) -> Result<At<T>, X::Error> {
        let p = AT.with(|a| a.borrow().clone());
        AtSeed(&p, std::marker::PhantomData).deserialize(d).map(At)
    }
}
struct AtSeed<'a, T>(&'a [String], std::marker::PhantomData<T>);
impl<'a, 'de, T: Deserialize<'de>> DeserializeSeed<'de> for AtSeed<'a, T> {
    type Value = Option<T>;
    fn deserialize<X: Deserializer<'de>>(self, d: X) -> Result<Option<T>, X::Error> {
        if self.0.is_empty() { T::deserialize(d).map(Some) } else { d.deserialize_map(self) }
    }
}
impl<'a, 'de, T: Deserialize<'de>> Visitor<'de> for AtSeed<'a, T> {
    type Value = Option<T>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a map") }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Option<T>, A::Error> {
        let mut out = None;
        while let Some(k) = a.next_key::<String>()? {
            if k == self.0[0] { out = a.next_value_seed(AtSeed(&self.0[1..], std::marker::PhantomData))? } else { a.next_value::<IgnoredAny>()?; }
        }
        Ok(out)
    }
}

/// A configuration extracted with the identity of every value.
#[derive(Debug)]
pub enum TT { Leaf, D(std::collections::BTreeMap<String, Tagged<TT>>), A(Vec<Tagged<TT>>) }
impl<'de> Deserialize<'de> for TT {
    fn deserialize<X: Deserializer<'de>>(d: X) -> Result<TT, X::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = TT;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("anything") }
            fn visit_bool<E>(self, _: bool) -> Result<TT, E> { Ok(TT::Leaf) }
            fn visit_i64<E>(self, _: i64) -> Result<TT, E> { Ok(TT::Leaf) }
            fn visit_i128<E>(self, _: i128) -> Result<TT, E> { Ok(TT::Leaf) }
            fn visit_u64<E>(self, _: u64) -> Result<TT, E> { Ok(TT::Leaf) }
            fn visit_u128<E>(self, _: u128) -> Result<TT, E> { Ok(TT::Leaf) }
            fn visit_f64<E>(self, _: f64) -> Result<TT, E> { Ok(TT::Leaf) }
            fn visit_char<E>(self, _: char) -> Result<TT, E> { Ok(TT::Leaf) }
            fn visit_str<E>(self, _: &str) -> Result<TT, E> { Ok(TT::Leaf) }
            fn visit_unit<E>(self) -> Result<TT, E> { Ok(TT::Leaf) }
            fn visit_none<E>(self) -> Result<TT, E> { Ok(TT::Leaf) }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<TT, A::Error> {
                let mut o = vec![];
                while let Some(x) = a.next_element()? { o.push(x) }
                Ok(TT::A(o))
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<TT, A::Error> {
                let mut o = std::collections::BTreeMap::new();
                while let Some(k) = a.next_key::<String>()? { o.insert(k, a.next_value()?); }
                Ok(TT::D(o))
            }
        }
        d.deserialize_any(V)
    }
}
