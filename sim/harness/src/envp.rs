//! Environment providers: how they are built, and independently what they should yield.
use std::collections::BTreeMap;

use figment::providers::Env;
use uncased::{Uncased, UncasedStr};

use crate::scen::{EStep, EnvP};
use crate::val::{D, V};

pub const NFILTER: u8 = 4;
pub const NMAP: u8 = 5;
pub const NFMAP: u8 = 3;

fn pred(i: u8, k: &str) -> bool {
    match i {
        0 => k.len() % 2 == 0,
        1 => k.to_ascii_lowercase().contains('a'),
        2 => k.to_ascii_uppercase().starts_with('D') || k.len() > 3,
        _ => true,
    }
}
fn mapped(i: u8, k: &str) -> String {
    match i {
        0 => format!("x{}", k),
        1 => k.replace("__", "."),
        2 => k.to_ascii_uppercase(),
        3 => k.chars().rev().collect(),
        _ => k.replace('-', "_"),
    }
}
fn fmapped(i: u8, k: &str) -> Option<String> {
    match i {
        0 => if k.len() < 6 { Some(format!("s.{}", k)) } else { None },
        1 => k.get(1..).map(|s| s.to_string()),
        _ => if k.to_ascii_lowercase().starts_with("db") { Some(k[2..].to_string()) } else { Some(k.to_string()) },
    }
}
/// A step of user code is a place where other threads may run.
fn user() { simrt::sched::point(simrt::sched::Kind::Op) }

pub fn build(p: &EnvP) -> Env {
    let mut e = match &p.prefix { Some(x) => Env::prefixed(x), None => Env::raw() };
    for s in &p.steps {
        e = match s.clone() {
            EStep::Filter(i) => e.filter(move |k| { user(); pred(i, k.as_str()) }),
            EStep::Map(i) => e.map(move |k: &UncasedStr| { user(); Uncased::from_owned(mapped(i, k.as_str())) }),
            EStep::FilterMap(i) => e.filter_map(move |k: &UncasedStr| { user(); fmapped(i, k.as_str()).map(Uncased::from_owned) }),
            EStep::Split(x) => e.split(x),
            EStep::Only(x) => e.only(&x.iter().map(|s| s.as_str()).collect::<Vec<_>>()),
            EStep::Ignore(x) => e.ignore(&x.iter().map(|s| s.as_str()).collect::<Vec<_>>()),
            EStep::Lower(b) => e.lowercase(b),
            EStep::Profile(x) => e.profile(x),
            EStep::Global => e.global(),
        };
    }
    e
}

pub fn profile(p: &EnvP) -> String {
    p.steps.iter().rev().find_map(|s| match s { EStep::Profile(x) => Some(x.clone()), EStep::Global => Some("global".into()), _ => None }).unwrap_or_else(|| "default".into())
}

/// The name a variable gets, if it passes every step.
pub fn key_of(p: &EnvP, name: &str) -> Option<String> {
    let mut k = name.trim().to_string();
    if let Some(x) = &p.prefix {
        if k.len() < x.len() || !k.is_char_boundary(x.len()) || !k[..x.len()].eq_ignore_ascii_case(x) { return None }
        k = k[x.len()..].to_string();
    }
    let mut lower = true;
    for s in &p.steps {
        match s {
            EStep::Filter(i) => if !pred(*i, &k) { return None },
            EStep::Map(i) => k = mapped(*i, &k),
            EStep::FilterMap(i) => k = fmapped(*i, &k)?,
            EStep::Split(x) => k = k.replace(x.as_str(), "."),
            EStep::Only(x) => if !x.iter().any(|y| y.eq_ignore_ascii_case(&k)) { return None },
            EStep::Ignore(x) => if x.iter().any(|y| y.eq_ignore_ascii_case(&k)) { return None },
            EStep::Lower(b) => lower = *b,
            EStep::Profile(_) | EStep::Global => {}
        }
    }
    let k = k.trim();
    if k.split('.').any(|s| s.is_empty()) { return None }
    Some(if lower { k.to_ascii_lowercase() } else { k.to_string() })
}

/// Texts whose meaning as a value is fixed by the documented grammar.
pub fn table() -> Vec<(&'static str, V)> {
    let n = |s: &str| V::I(3, s.into());
    let d = |v: Vec<(&str, V)>| V::D(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect());
    vec![
        ("1", n("1")), ("42", n("42")), ("-7", n("-7")), ("0", n("0")), ("18446744073709551615", n("18446744073709551615")),
        ("true", V::B(true)), ("false", V::B(false)), ("hello", V::s("hello")), ("two words", V::s("two words")), ("  spaced ", V::s("spaced")),
        ("1.5", V::F(false, 1.5f64.to_bits())), ("-0.25", V::F(false, (-0.25f64).to_bits())), ("\"quoted\"", V::s("quoted")), ("\"5\"", V::s("5")), ("'c'", V::C('c')),
        ("", V::E(false)), ("[]", V::A(vec![])), ("[1, 2,3]", V::A(vec![n("1"), n("2"), n("3")])), ("[a, [b], true]", V::A(vec![V::s("a"), V::A(vec![V::s("b")]), V::B(true)])),
        ("{}", d(vec![])), ("{a=1, b=two}", d(vec![("a", n("1")), ("b", V::s("two"))])), ("{x={y=[1]}}", d(vec![("x", d(vec![("y", V::A(vec![n("1")]))]))])),
        ("[unclosed", V::s("[unclosed")), ("{a}", V::s("{a}")), ("/usr/bin:/bin", V::s("/usr/bin:/bin")), ("ünï", V::s("ünï")), ("a=b", V::s("a=b")),
    ]
}

pub fn value_of(text: &str) -> V {
    if let Some((_, v)) = table().into_iter().find(|(t, _)| *t == text) { return v }
    // generated texts are unique words or numbers
    if !text.is_empty() && text.bytes().all(|b| b.is_ascii_digit()) && text.len() < 18 { return V::I(3, text.trim_start_matches('0').to_string().max("0".into())) }
    if let Some(x) = text.strip_prefix("[v").and_then(|t| t.strip_suffix(", v1]")) { return V::A(vec![V::S(format!("v{}", x)), V::s("v1")]) }
    V::S(text.trim().to_string())
}

pub type Snap = Vec<(Vec<u8>, Vec<u8>)>;

/// Every variable that passes, in the order of the environment: key and value.
pub fn selected(p: &EnvP, snap: &Snap) -> Vec<(String, V)> {
    snap.iter().filter(|(k, _)| !k.is_empty()).filter_map(|(k, v)| {
        let k = key_of(p, &String::from_utf8_lossy(k))?;
        Some((k, value_of(&String::from_utf8_lossy(v))))
    }).collect()
}

/// The dictionary for a snapshot. None when names collide in a way that leaves it open.
pub fn data(p: &EnvP, snap: &Snap) -> Vec<Option<D>> {
    let sel = selected(p, snap);
    let mut out = vec![];
    for rev in [false, true] {
        let mut m: BTreeMap<String, V> = BTreeMap::new();
        let it: Vec<_> = if rev { sel.iter().rev().cloned().collect() } else { sel.clone() };
        for (k, v) in it { m.insert(k, v); }
        for a in m.keys() { let below = format!("{}.", a); if m.range(below.clone()..).next().map_or(false, |(b, _)| b.starts_with(&below)) { return vec![None] } }
        let mut d = D::new();
        for (k, v) in &m {
            let parts: Vec<&str> = k.split('.').collect();
            let mut cur = &mut d;
            for x in &parts[..parts.len() - 1] {
                let e = cur.entry(x.to_string()).or_insert_with(|| V::D(D::new()));
                cur = match e { V::D(d) => d, _ => return vec![None] };
            }
            cur.insert(parts[parts.len() - 1].to_string(), v.clone());
        }
        // two variables under one name: either may win
        let collide = sel.len() != m.len();
        out.push(Some(d));
        if !collide { break }
        // with dictionaries involved a collision could also unite them
        if sel.iter().any(|(_, v)| matches!(v, V::D(_) | V::A(_))) { return vec![None] }
        if sel.len() > m.len() + 1 { return vec![None] }
    }
    out
}
