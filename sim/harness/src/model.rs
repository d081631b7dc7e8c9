//! The reference model: what a figment should hold, as plain data.
use std::collections::{BTreeMap, BTreeSet};

use crate::val::{D, V};

/// Which combine supplied a value, and to which kind of profile (0 default, 1 global, 2 custom).
pub type Src = (u32, u8);

#[derive(Clone, Debug)]
pub enum M { L(V, Src), D(BTreeMap<String, M>, BTreeSet<Src>), A(Vec<M>, BTreeSet<Src>) }

pub type MD = BTreeMap<String, M>;

pub fn kind_of(profile: &str) -> u8 {
    match profile.to_ascii_lowercase().as_str() { "default" => 0, "global" => 1, _ => 2 }
}

impl M {
    pub fn of(v: &V, s: Src) -> M {
        match v {
            V::D(d) => M::D(M::of_d(d, s), [s].into()),
            V::A(a) => M::A(a.iter().map(|v| M::of(v, s)).collect(), [s].into()),
            v => M::L(v.clone(), s),
        }
    }
    pub fn of_d(d: &D, s: Src) -> MD { d.iter().map(|(k, v)| (k.clone(), M::of(v, s))).collect() }
    pub fn v(&self) -> V {
        match self {
            M::L(v, _) => v.clone(),
            M::D(d, _) => V::D(vd(d)),
            M::A(a, _) => V::A(a.iter().map(|m| m.v()).collect()),
        }
    }
    pub fn srcs(&self) -> BTreeSet<Src> { match self { M::L(_, s) => [*s].into(), M::D(_, s) | M::A(_, s) => s.clone() } }
}

pub fn vd(d: &MD) -> D { d.iter().map(|(k, m)| (k.clone(), m.v())).collect() }

/// The documented conflict rules. how: 0 merge, 1 join, 2 admerge, 3 adjoin.
pub fn fold(a: M, b: M, how: u8) -> M {
    match (a, b) {
        (M::D(x, mut s), M::D(y, t)) => { s.extend(t); M::D(fold_d(x, y, how), s) }
        (M::A(mut x, mut s), M::A(y, t)) if how >= 2 => { x.extend(y); s.extend(t); M::A(x, s) }
        (a, b) => if how % 2 == 0 { b } else { a },
    }
}

pub fn fold_d(mut a: MD, b: MD, how: u8) -> MD {
    for (k, v) in b {
        match a.remove(&k) { Some(o) => { a.insert(k, fold(o, v, how)); } None => { a.insert(k, v); } }
    }
    a
}

#[derive(Clone, Debug)]
pub struct MErr { pub uid: u32, pub msg: Option<String> }

#[derive(Clone, Debug)]
pub struct MFig {
    pub profile: String,
    pub value: Result<BTreeMap<String, MD>, Vec<MErr>>,
    pub provs: BTreeSet<u32>,
}

impl MFig {
    /// The number of values in it.
    pub fn size(&self) -> usize {
        fn of(m: &M) -> usize { 1 + match m { M::L(..) => 0, M::D(d, _) => d.values().map(of).sum(), M::A(a, _) => a.iter().map(of).sum() } }
        match &self.value { Ok(v) => v.values().flat_map(|d| d.values()).map(of).sum(), Err(e) => e.len() }
    }

    pub fn new() -> MFig { MFig { profile: "default".into(), value: Ok(BTreeMap::new()), provs: BTreeSet::new() } }

    /// `data` per profile, already attributed.
    pub fn combine(&self, how: u8, uid: u32, profile: Option<&str>, data: Result<BTreeMap<String, MD>, Vec<MErr>>, also: &BTreeSet<u32>) -> MFig {
        let mut m = self.clone();
        m.provs.insert(uid);
        m.provs.extend(also);
        if let (Some(p), true) = (profile, how % 2 == 0) { m.profile = p.into() }
        m.value = match (m.value, data) {
            (Ok(mut a), Ok(b)) => {
                for (p, d) in b {
                    match a.remove(&p) { Some(o) => { a.insert(p, fold_d(o, d, how)); } None => { a.insert(p, d); } }
                }
                Ok(a)
            }
            (Err(mut e), Err(f)) => { e.extend(f); Err(e) }
            (Err(e), _) | (_, Err(e)) => Err(e),
        };
        m
    }

    pub fn merged(&self) -> Option<MD> {
        let v = self.value.as_ref().ok()?;
        let get = |p: &str| v.get(&p.to_ascii_lowercase()).cloned().unwrap_or_default();
        let mut m = get("default");
        if kind_of(&self.profile) == 2 { m = fold_d(m, get(&self.profile), 0) }
        Some(fold_d(m, get("global"), 0))
    }

    pub fn focus(&self, key: &str) -> MFig {
        let mut m = self.clone();
        if let Ok(v) = &self.value {
            m.value = Ok(v.iter().filter_map(|(p, d)| match find_d(d, key) { Some(Found::Root(d)) => Some((p.clone(), d.clone())), Some(Found::M(M::D(d, _))) => Some((p.clone(), d.clone())), _ => None }).collect());
        }
        m
    }
}

pub enum Found<'a> { Root(&'a MD), M(&'a M) }

/// Follows a dotted path, which stops at its first empty component.
pub fn find_d<'a>(d: &'a MD, path: &str) -> Option<Found<'a>> {
    let mut cur = Found::Root(d);
    for k in path.split('.').take_while(|k| !k.is_empty()) {
        let next = match cur { Found::Root(d) => d.get(k)?, Found::M(M::D(d, _)) => d.get(k)?, _ => return None };
        cur = Found::M(next);
    }
    Some(cur)
}
