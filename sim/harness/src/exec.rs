//! Executes the operations of a scenario against the real code and judges every outcome.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::rc::Rc;

use figment::error::Kind as EKind;
use figment::providers::{Data, Format, Json, Serialized, Toml, Yaml, YamlExtended};
use figment::value::magic::{Either, RelativePathBuf, Tagged};
use figment::value::{Dict, Map, Tag, Value};
use figment::{Error, Figment, Metadata, Profile, Provider, Source};
use simrt::sched::{self, point, quiet, sim, target, Kind};
use simrt::vfs::{self, Ev, Node, Tree};

use crate::dynde::{At, Dyn, MSG, TT, WANTED};
use crate::envp;
use crate::jail;
use crate::model::*;
use crate::scen::*;
use crate::val::*;

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Viol { pub props: Vec<String>, pub msg: String }

#[derive(Clone, Debug)]
pub enum SrcExp { None, Custom(String), Code(u32), Files(Vec<String>), Any }

#[derive(Clone, Debug)]
pub struct PI {
    pub uid: u32,
    pub name: String,
    pub src: SrcExp,
    /// The recorded file, once known.
    pub file: Option<PathBuf>,
    pub line: u32,
    pub interp: u8,
    pub env: bool,
    pub start: u64,
    pub end: u64,
}

pub struct Slot { pub fig: Figment, pub m: MFig, pub snap: String }

pub struct Ctx {
    pub scen: Scen,
    pub slots: Vec<Option<Rc<Slot>>>,
    pub all: Vec<Rc<Slot>>,
    pub provs: BTreeMap<u32, PI>,
    pub tags: HashMap<u64, u32>,
    pub by_hash: HashMap<Tag, u32>,
    pub by_order: BTreeMap<Tag, u32>,
    /// the identity of each provider, and what was learnt of them since the last candidate
    pub ids: HashMap<u32, u64>,
    pub fresh: Vec<(u32, u64, Tag)>,
    pub viols: Vec<Viol>,
    pub probes: BTreeMap<&'static str, u64>,
    pub uid: u32,
    pub epoch: usize,
    pub stop: bool,
    pub skip: bool,
    pub seq: u64,
    pub done: usize,
    pub changed: bool,
    pub j: jail::JState,
}

static mut CTX: *mut Ctx = std::ptr::null_mut();
pub fn install(c: Ctx) { unsafe { CTX = Box::into_raw(Box::new(c)) } }
#[allow(static_mut_refs)]
pub fn ctx() -> &'static mut Ctx { unsafe { &mut *CTX } }

impl Ctx {
    pub fn new(scen: Scen) -> Ctx {
        let n = scen.slots;
        Ctx { scen, slots: vec![None; n], all: vec![], provs: BTreeMap::new(), tags: HashMap::new(), by_hash: HashMap::new(), by_order: BTreeMap::new(), ids: HashMap::new(), fresh: vec![], viols: vec![], probes: BTreeMap::new(), uid: 0, epoch: 0, stop: false, skip: false, seq: 0, done: 0, changed: false, j: Default::default() }
    }
    pub fn viol(&mut self, props: &[&str], msg: String) {
        if self.stop { return }
        // what breaks another property only does not end the run, which may go on to break this one
        if props.iter().any(|p| *p == "*" || *p == self.scen.prop) || self.viols.len() >= 30 { self.stop = true }
        self.viols.push(Viol { props: props.iter().map(|s| s.to_string()).collect(), msg });
    }
    pub fn probe(&mut self, k: &'static str) { *self.probes.entry(k).or_insert(0) += 1 }
    pub fn known(&self, id: &str) -> bool { crate::driver::findings(&self.scen.prop).iter().any(|(i, _)| i == id) }
    pub fn tick(&mut self) -> u64 { self.seq += 1; self.seq }
}

pub fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into())
}

/// Everything a figment yields, as text, without scheduling points.
pub fn fingerprint(f: &Figment) -> String {
    fn val(v: &Value, o: &mut String) {
        o.push_str(&format!("#{}", tag_bits(v.tag())));
        match v {
            Value::Dict(_, d) => { o.push('{'); for (k, v) in d { o.push_str(&format!("{:?}:", k)); val(v, o); o.push(',') } o.push('}') }
            Value::Array(_, a) => { o.push('['); for v in a { val(v, o); o.push(',') } o.push(']') }
            v => o.push_str(&format!("{:?}", V::of(v))),
        }
    }
    let mut o = format!("profile={}\n", f.profile());
    match f.data() {
        Ok(m) => for (p, d) in &m { o.push_str(&format!("{}: ", p)); val(&Value::Dict(Tag::Default, d.clone()), &mut o); o.push('\n') },
        Err(e) => o.push_str(&format!("error {:?}\n", e)),
    }
    match f.find_value("") { Ok(v) => { o.push_str("merged "); val(&v, &mut o) } Err(e) => o.push_str(&format!("merged error {:?}", e)) }
    for m in f.metadata() { o.push_str(&format!("\nmd {:?} {:?} {:?}", m.name, m.source, m.provide_location.map(|l| l.line()))) }
    o
}

pub fn tag_bits(t: Tag) -> u64 { match V::of(&Value::from(t)) { V::I(_, s) => s.parse().unwrap_or(0), _ => 0 } }
pub fn tag_id(t: Tag) -> u64 { tag_bits(t) & !(3 << 62) }

// ---- comparing a figment with its model ----

/// A mismatch: the properties it contradicts, how far the comparison got, and what differs.
pub struct Mis { props: Vec<&'static str>, rank: u32, msg: String }
fn mis(props: &[&'static str], rank: u32, msg: String) -> Mis { Mis { props: props.to_vec(), rank, msg } }

pub fn short(s: String) -> String { if s.chars().count() > 600 { format!("{}…", s.chars().take(600).collect::<String>()) } else { s } }

fn src_ok(pi: &PI, md: &Metadata) -> bool {
    match (&pi.src, &md.source) {
        (SrcExp::Any, _) => true,
        (SrcExp::None, None) => true,
        (SrcExp::Custom(a), Some(Source::Custom(b))) => a == b,
        (SrcExp::Code(l), Some(Source::Code(c))) => c.line() == *l && c.file().ends_with("exec.rs"),
        (SrcExp::Files(v), Some(Source::File(p))) => v.iter().any(|x| pp(x) == *p),
        _ => false,
    }
}
fn md_ok(pi: &PI, md: &Metadata) -> bool {
    md.name == pi.name && src_ok(pi, md) && md.provide_location.map_or(false, |l| l.line() == pi.line && l.file().ends_with("exec.rs"))
}
fn md_str(md: Option<&Metadata>) -> String { md.map_or("none".into(), |m| format!("{:?} source {:?} at {:?}", m.name, m.source, m.provide_location.map(|l| format!("{}:{}", l.file(), l.line())))) }
fn pi_str(pi: &PI) -> String { format!("{:?} source {:?} at line {}", pi.name, pi.src, pi.line) }

/// Remembers whose identity a tag is: it must be nobody else's, however tags are compared.
fn same_tag(t: Tag, uid: u32, extra: Option<&PI>) -> Result<(), Mis> {
    let c = ctx();
    let id = tag_id(t);
    // one act of combining has one identity
    if let Some(k) = c.ids.get(&uid) { if *k != id { return Err(mis(&["C06"], 4, format!("provider {} has both identity {} and {}", uid, k, id))) } }
    else if !c.tags.contains_key(&id) { c.ids.insert(uid, id); c.fresh.push((uid, id, t)); }
    let olds = [*c.tags.entry(id).or_insert(uid), *c.by_hash.entry(t).or_insert(uid), *c.by_order.entry(t).or_insert(uid)];
    let who = |u: u32| extra.filter(|p| p.uid == u).or_else(|| c.provs.get(&u)).map_or(format!("provider {}", u), pi_str);
    for old in olds { if old != uid { return Err(mis(&["C06"], 4, format!("identity {} belongs both to {} and to {}", id, who(old), who(uid)))) } }
    if c.by_hash.len() != c.tags.len() || c.by_order.len() != c.tags.len() { return Err(mis(&["C06"], 4, format!("identity {} of {} does not compare equal to itself", id, who(uid)))) }
    Ok(())
}

fn check_tag(f: &Figment, tag: Tag, srcs: &BTreeSet<Src>, extra: Option<&PI>, leaf: bool, at: &str) -> Result<(), Mis> {
    let c = ctx();
    let md = f.get_metadata(tag);
    let pk = match tag.profile() { Some(p) if p == Profile::Default => 0u8, Some(_) => 1, None => 2 };
    let pi = |u: u32| extra.filter(|p| p.uid == u).or_else(|| c.provs.get(&u));
    let fit: Vec<Src> = srcs.iter().copied().filter(|(u, _)| pi(*u).map_or(false, |p| md.map_or(false, |m| md_ok(p, m)))).collect();
    if fit.is_empty() {
        // a container may be attributed to nobody (a focused root, say); a value may not
        let want: Vec<String> = srcs.iter().filter_map(|(u, _)| pi(*u)).map(pi_str).collect();
        let mut props = vec!["C05"];
        if md.is_none() || c.tags.get(&tag_id(tag)).map_or(false, |u| !srcs.iter().any(|s| s.0 == *u)) { props.push("C06") }
        return Err(mis(&props, 3, format!("value at `{}` is attributed to {} but was supplied by {}", at, md_str(md), want.join(" or "))));
    }
    if !fit.iter().any(|(_, k)| *k == pk) {
        return Err(mis(&["C05"], 3, format!("value at `{}` is attributed to profile kind {} but was supplied to kind {}", at, pk, fit[0].1)));
    }
    if leaf && srcs.len() == 1 {
        let uid = srcs.iter().next().unwrap().0;
        same_tag(tag, uid, extra)?;
    }
    Ok(())
}

pub fn check_tags(f: &Figment, v: &Value, m: &M, extra: Option<&PI>, at: &str) -> Result<(), Mis> {
    match (v, m) {
        (Value::Dict(t, d), M::D(e, s)) => {
            check_tag(f, *t, s, extra, false, at)?;
            for (k, v) in d { if let Some(m) = e.get(k) { check_tags(f, v, m, extra, &format!("{}.{}", at, k))? } }
            Ok(())
        }
        (Value::Array(t, a), M::A(e, s)) => {
            check_tag(f, *t, s, extra, false, at)?;
            for (i, (v, m)) in a.iter().zip(e).enumerate() { check_tags(f, v, m, extra, &format!("{}[{}]", at, i))? }
            Ok(())
        }
        (v, M::L(_, s)) => check_tag(f, v.tag(), &[*s].into(), extra, true, at),
        _ => Ok(()),
    }
}

fn diff(a: &V, b: &V, at: &str) -> Option<String> {
    match (a, b) {
        (V::D(x), V::D(y)) => {
            for (k, v) in x { match y.get(k) { None => return Some(format!("`{}.{}` is {:?} but should not exist", at, k, v)), Some(w) => if let Some(d) = diff(v, w, &format!("{}.{}", at, k)) { return Some(d) } } }
            for (k, w) in y { if !x.contains_key(k) { return Some(format!("`{}.{}` is missing (should be {:?})", at, k, w)) } }
            None
        }
        (a, b) => if a == b { None } else { Some(format!("`{}` is {:?} but should be {:?}", at, a, b)) },
    }
}

fn cmp_data(data: &Map<Profile, Dict>, want: &BTreeMap<String, MD>) -> Option<(bool, String)> {
    let mut got: BTreeMap<String, V> = BTreeMap::new();
    for (p, d) in data {
        if got.insert(p.as_str().as_str().to_ascii_lowercase(), V::D(V::of_dict(d))).is_some() { return Some((true, format!("profile `{}` is present twice in different spellings", p))) }
    }
    for (p, d) in &got {
        let e = V::D(want.get(p).map(vd).unwrap_or_default());
        if let Some(s) = diff(d, &e, p) { return Some((false, s)) }
    }
    for (p, d) in want { if !got.contains_key(p) && !d.is_empty() { return Some((true, format!("profile `{}` is missing", p))) } }
    None
}

fn cmp_errs(f: &Figment, e: &Error, want: &[MErr], extra: Option<&PI>) -> Option<String> {
    let c = ctx();
    let got: Vec<Error> = e.clone().into_iter().collect();
    let pi = |u: u32| extra.filter(|p| p.uid == u).or_else(|| c.provs.get(&u));
    let twice = { let mut s = BTreeSet::new(); want.iter().any(|w| !s.insert((w.uid, w.msg.clone()))) };
    let show = |g: &[Error]| g.iter().map(|e| format!("{:?} of {:?}", e.kind.to_string(), e.metadata.as_ref().map(|m| m.name.to_string()))).collect::<Vec<_>>().join("; ");
    let one = |g: &Error, w: &MErr| {
        let p = match pi(w.uid) { Some(p) => p, None => return false };
        let md = g.metadata.as_ref();
        md.map_or(false, |m| md_ok(p, m)) && w.msg.as_ref().map_or(true, |m| { let x = own_err(m); g.kind == x.kind && g.path == x.path })
    };
    let whole = || format!("errors are [{}] but should be [{}]", show(&got), want.iter().map(|w| format!("{:?} of {:?}", w.msg, pi(w.uid).map(|p| p.name.clone()))).collect::<Vec<_>>().join("; "));
    if twice {
        // one failed provider reached this figment along two ways: how often it appears is open
        for w in want { if !got.iter().any(|g| one(g, w)) { return Some(whole()) } }
        for g in &got { if !want.iter().any(|w| one(g, w)) { return Some(whole()) } }
    } else {
        if got.len() != want.len() || got.iter().zip(want).any(|(g, w)| !one(g, w)) { return Some(whole()) }
    }
    if e.count() != got.len() { return Some(format!("error count is {} for {} errors", e.count(), got.len())) }
    let text = e.to_string();
    for w in want {
        if let (Some(m), Some(p)) = (&w.msg, pi(w.uid)) { let x = own_err(m); if !text.contains(&x.kind.to_string()) || !x.path.iter().filter(|k| k.is_ascii()).all(|k| text.to_lowercase().contains(&format!("{:?}", k).trim_matches('"').to_lowercase())) || !text.contains(&p.name) { return Some(format!("the displayed error {:?} does not carry {:?} of {:?}", text, m, p.name)) } }
    }
    let _ = f;
    None
}

/// Compares a figment with a model. `extra` is a provider not registered yet.
pub fn compare(f: &Figment, m: &MFig, extra: Option<&PI>, data_props: &[&'static str]) -> Result<(), Mis> {
    let c = ctx();
    if !f.profile().as_str().as_str().eq_ignore_ascii_case(&m.profile) {
        return Err(mis(&["C02"], 5, format!("selected profile is `{}` but should be `{}`", f.profile(), m.profile)));
    }
    let data = f.data();
    match (&data, &m.value) {
        (Ok(d), Ok(w)) => {
            if let Some((prof, s)) = cmp_data(d, w) {
                let mut p = data_props.to_vec();
                if prof { p.push("C02") }
                return Err(mis(&p, 1, s));
            }
            for (p, d) in d {
                let w = match w.get(&p.as_str().as_str().to_ascii_lowercase()) { Some(w) => w, None => continue };
                for (k, v) in d { if let Some(m) = w.get(k) { check_tags(f, v, m, extra, &format!("{}.{}", p, k))? } }
            }
        }
        (Err(_), Err(w)) => {
            match f.extract::<Value>() {
                Err(e) => if let Some(s) = cmp_errs(f, &e, w, extra) { return Err(mis(&["C04"], 2, s)) },
                Ok(_) => return Err(mis(&["C04"], 2, "a figment with a failed provider was extracted".into())),
            }
        }
        (Ok(_), Err(w)) => {
            let mut p = data_props.to_vec(); p.push("C04");
            return Err(mis(&p, 0, format!("no error is reported but should be: {:?}", w.iter().map(|w| w.msg.clone()).collect::<Vec<_>>())));
        }
        (Err(e), Ok(_)) => {
            let mut p = data_props.to_vec(); p.push("C04");
            return Err(mis(&p, 0, format!("an error is reported though no provider failed: {}", short(e.to_string()))));
        }
    }
    // the provider listing
    let got: Vec<&Metadata> = f.metadata().collect();
    let mut left: Vec<&PI> = m.provs.iter().filter_map(|u| extra.filter(|p| p.uid == *u).or_else(|| c.provs.get(u))).collect();
    if got.len() != left.len() { return Err(mis(&["C06"], 6, format!("the provider listing has {} entries for {} combined providers", got.len(), left.len()))) }
    for g in got {
        // Several may look alike: of those that may come next (nobody left was combined before
        // them), the one combined first stands for it; any other choice allows less later.
        let due = left.iter().map(|p| p.end).min().unwrap_or(0);
        let fit: Vec<usize> = (0..left.len()).filter(|i| md_ok(left[*i], g)).collect();
        match fit.iter().copied().filter(|i| left[*i].start <= due).min_by_key(|i| left[*i].end) {
            Some(i) => { left.remove(i); }
            None if fit.is_empty() => return Err(mis(&["C06", "C05"], 6, format!("the provider listing names {} which is none of the remaining providers {:?}", md_str(Some(g)), left.iter().map(|p| pi_str(p)).collect::<Vec<_>>()))),
            None => {
                let q = left.iter().min_by_key(|p| p.end).unwrap();
                return Err(mis(&["C06"], 6, format!("the provider listing has {} before {} which was combined earlier", md_str(Some(g)), pi_str(q))));
            }
        }
    }
    Ok(())
}

fn to_m(d: &Dict) -> MD { M::of_d(&V::of_dict(d), (0, 0)) }

/// What every query of `f` should see, from the data it actually holds.
fn overlay(f: &Figment, data: &Map<Profile, Dict>) -> V {
    let get = |n: &str| data.iter().filter(|(p, _)| p.as_str().as_str().eq_ignore_ascii_case(n)).map(|(_, d)| to_m(d)).next().unwrap_or_default();
    let sel = f.profile().as_str().as_str().to_string();
    let mut m = get("default");
    if kind_of(&sel) == 2 { m = fold_d(m, get(&sel), 0) }
    V::D(vd(&fold_d(m, get("global"), 0)))
}

// ---- providers ----

#[track_caller]
fn place_of() -> &'static std::panic::Location<'static> { std::panic::Location::caller() }
fn here() -> &'static std::panic::Location<'static> { place_of() }

/// What a provider does that uses a figment itself.
fn own_figment() {
    let n = quiet(|| { ctx().uid += 1; ctx().uid });
    let f = Figment::from(("own", n)).join(("other", n));
    let v = f.find_value("own");
    let w = f.find_value("other");
    quiet(|| {
        let c = ctx();
        let (v, w) = match (v, w) { (Ok(v), Ok(w)) => (v, w), (Err(e), _) | (_, Err(e)) => return c.viol(&["C04"], format!("a figment built while another is being built fails: {}", e)) };
        for (t, x) in [("own", v), ("other", w)] {
            if V::of(&x) != V::I(2, n.to_string()) { return c.viol(&["C01"], format!("a figment built while another is being built holds {:?}", x)) }
            c.uid += 1;
            if let Err(m) = same_tag(x.tag(), c.uid, None) { return c.viol(&m.props, format!("{} (`{}`)", m.msg, t)) }
        }
        c.probe("figment_inside_a_provider");
    })
}

/// The fields that own errors name as duplicates.
pub const KINDS: [&str; 4] = ["alpha", "beta", "gamma", "delta"];

/// The error of a provider that a message stands for.
fn own_err(m: &str) -> Error {
    if let Some(x) = m.strip_prefix("missing field `").and_then(|x| x.strip_suffix('`')) { return EKind::MissingField(x.to_string().into()).into() }
    if let Some(x) = m.strip_prefix("duplicate field `").and_then(|x| KINDS.iter().find(|k| x.strip_suffix('`') == Some(k))) { return EKind::DuplicateField(x).into() }
    if let Some((n, x)) = m.strip_prefix("invalid length ").and_then(|x| x.split_once(", expected ")) { if let Ok(n) = n.parse() { return EKind::InvalidLength(n, x.into()).into() } }
    if let Some((p, x)) = m.strip_prefix("at ").and_then(|x| x.split_once(": ")) { return Error::from(x.to_string()).with_path(p) }
    Error::from(m.to_string())
}

#[derive(Clone)]
struct SProv(Script);
impl SProv {
    fn pause(&self) { for _ in 0..self.0.yields { point(Kind::Op) } }
}
impl Provider for SProv {
    fn metadata(&self) -> Metadata {
        self.pause();
        let s = &self.0;
        let mut m = Metadata::named(s.name.clone());
        m = match &s.src { Some((0, t)) => m.source(pp(t).as_path()), Some((_, t)) => m.source(t.clone()), None => m };
        if s.loc { m.provide_location = Some(here()) }
        if s.interp == 1 {
            let n = s.name.clone();
            m = m.interpolater(move |p: &Profile, k: &[&str]| format!("{}/{}/{}", n, p, k.join("/")));
        }
        m
    }
    fn data(&self) -> figment::error::Result<Map<Profile, Dict>> {
        self.pause();
        let s = &self.0;
        if s.inner { own_figment() }
        if s.panic { panic!("provider {} panics", s.name) }
        if !s.err.is_empty() {
            let mut it = s.err.iter();
            let mut e = own_err(it.next().unwrap());
            for m in it { e = own_err(m).chain(e) }
            return Err(e);
        }
        let a = &s.alts[ctx().epoch % s.alts.len()];
        Ok(a.iter().map(|(p, d)| (Profile::new(p), to_dict(d))).collect())
    }
    fn profile(&self) -> Option<Profile> { self.pause(); self.0.profile.as_ref().map(|p| Profile::new(p)) }
}

macro_rules! at { ($e:expr) => { ($e, line!()) } }

fn call<P: Provider>(f: Figment, how: u8, site: u8, p: P) -> (Figment, u32) {
    match (how, site % 2) {
        (0, 0) => at!(f.merge(p)),
        (1, 0) => at!(f.join(p)),
        (2, 0) => at!(f.admerge(p)),
        (3, 0) => at!(f.adjoin(p)),
        (4, 0) => at!(Figment::from(p)),
        (0, _) => at!(f.merge(p)),
        (1, _) => at!(f.join(p)),
        (2, _) => at!(f.admerge(p)),
        (3, _) => at!(f.adjoin(p)),
        (_, _) => at!(Figment::from(p)),
    }
}

fn ser(ctor: u8, profile: &str, key: &Option<String>, s: Ser, then: &[Then]) -> (Serialized<Ser>, u32) {
    let (mut x, l) = match ctor {
        0 => at!(Serialized::from(s, profile)),
        1 => at!(Serialized::defaults(s)),
        2 => at!(Serialized::globals(s)),
        3 => at!(Serialized::default(key.as_deref().unwrap_or("k"), s)),
        _ => at!(Serialized::global(key.as_deref().unwrap_or("k"), s)),
    };
    if let (Some(k), true) = (key, ctor < 3) { x = x.key(k) }
    for t in then { x = match t { Then::Key(k) => x.key(k), Then::Profile(p) => x.profile(p.as_str()) } }
    (x, l)
}

type DProv = Result<Vec<(String, D)>, Vec<Option<String>>>;

/// One acceptable outcome of combining a provider.
#[derive(Clone, Debug)]
pub struct Cand { pub data: DProv, pub src: SrcExp }

struct Window { task: usize, s0: usize, s1: usize, e0: usize, e1: usize, v0: usize, v1: usize, ep0: usize, ep1: usize }

fn window_start() -> Window {
    let s = sim();
    Window { task: s.cur, s0: s.vfs.now(), s1: 0, e0: s.vfs.ev.len(), e1: 0, v0: s.env_hist.len().max(1) - 1, v1: 0, ep0: ctx().epoch, ep1: 0 }
}
fn window_end(mut w: Window) -> Window {
    let s = sim();
    w.s1 = s.vfs.now(); w.e1 = s.vfs.ev.len(); w.v1 = s.env_hist.len().max(1) - 1; w.ep1 = ctx().epoch;
    w
}
impl Window {
    fn events(&self) -> Vec<&'static Ev> { sim().vfs.ev[self.e0..self.e1].iter().filter(|e| e.task == self.task).collect() }
    fn tree(&self, i: usize) -> &'static Tree { &sim().vfs.hist[i] }
}

pub fn norm_join(dir: &[u8], p: &str) -> Vec<u8> {
    if p.starts_with('/') { return pb(p) }
    let mut d = dir.to_vec();
    if d != b"/" { d.push(b'/') }
    d.extend(pb(p));
    d
}
fn parent_of(dir: &[u8]) -> Option<Vec<u8>> {
    if dir == b"/" { return None }
    let i = dir.iter().rposition(|c| *c == b'/')?;
    Some(if i == 0 { b"/".to_vec() } else { dir[..i].to_vec() })
}

/// Paths a search starting in `dir` looks at, in order.
fn levels(dir: &[u8], p: &str) -> Vec<Vec<u8>> {
    let mut out = vec![norm_join(dir, p)];
    let mut d = dir.to_vec();
    while let Some(u) = parent_of(&d) { out.push(norm_join(&u, p)); d = u }
    out
}

/// Whether a search could have passed over every level below `k` and then ended at `k` (or found
/// nothing, if `k` is past the end), looking at each level at some moment, one after another.
fn selectable(w: &Window, lv: &[Vec<u8>], k: usize, from: usize, stat_fault: bool) -> bool {
    let mut t = from;
    for (j, p) in lv.iter().enumerate() {
        if j == k { return (t..=w.s1).any(|s| w.tree(s).is_file(p)) }
        if stat_fault { continue }
        match (t..=w.s1).find(|s| !w.tree(*s).is_file(p)) { Some(s) => t = s, None => return false }
    }
    k >= lv.len()
}

/// Configures whether a text or file is nested, and its profile: the later setting counts.
fn shape<F: Format>(mut p: figment::providers::Data<F>, nested: bool, profile: &Option<String>, order: u8) -> figment::providers::Data<F> {
    match order {
        0 => if nested { p = p.nested() } else if let Some(q) = profile { p = p.profile(q) },
        1 => { if let Some(q) = profile { p = p.profile(q) } if nested { p = p.nested() } }
        _ => { if nested { p = p.nested() } if let Some(q) = profile { p = p.profile(q) } }
    }
    p
}
fn nests(nested: bool, profile: &Option<String>, order: u8) -> bool { nested && !(order == 2 && profile.is_some()) }

#[allow(deprecated)]
fn exact<F: Format>(path: &str) -> figment::providers::Data<F> { F::file_exact(pp(path)) }

/// A provider object.
enum Obj { Script(SProv), Ser(Serialized<Ser>, u32), Tuple((String, Ser)), Env(figment::providers::Env), Toml(Data<Toml>), Json(Data<Json>), Yaml(Data<Yaml>), YamlE(Data<YamlExtended>) }

thread_local! { static HELD: std::cell::RefCell<HashMap<usize, std::rc::Rc<(Prov, Obj)>>> = Default::default(); }

fn make(prov: &Prov, site: u8) -> Obj {
    fn file<F: Format>(prov: &Prov, site: u8) -> Data<F> {
        match prov {
            Prov::Text { text, nested, profile, order, .. } => shape(F::string(text), *nested, profile, *order),
            Prov::File { path, nested, profile, required, search, swap, order, .. } => {
                let mut p = if *search || site % 4 < 2 { F::file(pp(path)) } else { exact::<F>(path) };
                let as_made = !*search && site % 4 >= 2;
                if *swap { p = p.required(*required); if !as_made { p = p.search(*search) } }
                p = shape(p, *nested, profile, *order);
                if !*swap { if !as_made { p = p.search(*search) } p = p.required(*required) }
                p
            }
            _ => unreachable!(),
        }
    }
    match prov {
        Prov::Script(s) => Obj::Script(SProv(s.clone())),
        Prov::Ser { ctor, profile, key, v, fail, then } => { let (p, l) = ser(*ctor, profile, key, Ser { v: v.clone(), fail: fail.clone() }, then); Obj::Ser(p, l) }
        Prov::Tuple { key, v, fail } => Obj::Tuple((key.clone(), Ser { v: v.clone(), fail: fail.clone() })),
        Prov::Env(e) => Obj::Env(envp::build(e)),
        Prov::Text { fmt, .. } | Prov::File { fmt, .. } => match fmt { 0 => Obj::Toml(file(prov, site)), 1 => Obj::Json(file(prov, site)), 2 => Obj::Yaml(file(prov, site)), _ => Obj::YamlE(file(prov, site)) },
        Prov::Fig(_) | Prov::Held(_) => unreachable!(),
    }
}

fn hold(k: usize, prov: &Prov) {
    if let Prov::Fig(_) | Prov::Held(_) = prov { return }
    match catch_unwind(AssertUnwindSafe(|| target(|| make(prov, k as u8)))) {
        Ok(o) => { HELD.with(|h| h.borrow_mut().insert(k, std::rc::Rc::new((prov.clone(), o)))); }
        Err(p) => ctx().viol(&["*"], format!("making a provider panicked: {}", panic_text(&*p))),
    }
}

pub struct FileP<'a> { fmt: u8, path: &'a str, nested: bool, profile: Option<&'a str>, required: bool, search: bool }

fn parsed(p: &FileP, bytes: &[u8]) -> DProv {
    let r = std::str::from_utf8(bytes).map_err(|_| ()).and_then(|t| parse_text(p.fmt, t, p.nested));
    match r {
        Ok(v) => {
            let v: Vec<(String, D)> = v.into_iter().map(|(q, d)| (q.unwrap_or_else(|| p.profile.unwrap_or("default").to_string()), d)).collect();
            Ok(v)
        }
        Err(()) => Err(vec![None]),
    }
}

/// The ways the search could have gone: (recorded path, path from the root), and whether it could
/// have found nothing.
fn file_ends(p: &FileP, w: &Window) -> (Vec<(String, Vec<u8>)>, bool) {
    let ev = w.events();
    let stat_fault = ev.iter().any(|e| e.call == "stat" && e.fault.is_some());
    let cwd_fault = ev.iter().any(|e| e.call == "getcwd" && e.errno != 0);
    let mut ends: Vec<(String, Vec<u8>)> = vec![];
    let mut none = false;
    let searching = p.search && !p.path.starts_with('/');
    if searching {
        let mut seen = BTreeSet::new();
        for s in w.s0..=w.s1 {
            let t = w.tree(s);
            let dir = match t.path_of(t.cwd) { Some(d) => d, None => { none = true; continue } };
            let lv = levels(&dir, p.path);
            for k in 0..lv.len() {
                if selectable(w, &lv, k, s, stat_fault) && seen.insert((s, k)) {
                    ends.push((ps(&lv[k]), lv[k].clone()));
                }
            }
            if selectable(w, &lv, lv.len(), s, stat_fault) { none = true }
        }
    } else {
        if (w.s0..=w.s1).any(|s| w.tree(s).is_file(&pb(p.path))) { ends.push((p.path.to_string(), pb(p.path))) }
        if stat_fault || (w.s0..=w.s1).any(|s| !w.tree(s).is_file(&pb(p.path))) { none = true }
    }
    ends.sort(); ends.dedup();
    if cwd_fault { none = true }
    (ends, none)
}

fn file_cands(p: &FileP, w: &Window) -> Vec<Cand> {
    let c = ctx();
    let ev = w.events();
    let mut out: Vec<Cand> = vec![];
    let (ends, none) = file_ends(p, w);
    if none {
        let data = if p.required { Err(vec![None]) } else { Ok(vec![]) };
        out.push(Cand { data, src: SrcExp::Any });
        c.probe("file_not_found");
    }
    // what was actually opened and read
    let opens: Vec<&&Ev> = ev.iter().filter(|e| e.call == "open").collect();
    let mut read_any = false;
    for o in &opens {
        if o.fd < 0 {
            if o.errno == libc::EINTR { continue }
            let names: Vec<String> = ends.iter().filter(|(_, a)| same_file_name(w, o, a)).map(|e| e.0.clone()).collect();
            if !names.is_empty() { out.push(Cand { data: Err(vec![None]), src: SrcExp::Files(names) }); c.probe("file_open_failed"); }
            continue;
        }
        let t = w.tree(o.state);
        if t.file(o.ino).is_none() {
            // something else than a regular file was there by then: an error
            let names: Vec<String> = ends.iter().filter(|(_, a)| same_file_name(w, o, a)).map(|e| e.0.clone()).collect();
            if !names.is_empty() { out.push(Cand { data: Err(vec![None]), src: SrcExp::Files(names) }) }
            continue;
        }
        let names: Vec<String> = ends.iter().filter(|(_, a)| t.lookup(a) == Ok(o.ino)).map(|e| e.0.clone()).collect();
        let mut bytes = vec![];
        let (mut eof, mut hard) = (false, false);
        for e in ev.iter().filter(|e| e.call == "read" && e.fd == o.fd) {
            read_any = true;
            if e.errno != 0 { if e.errno != libc::EINTR { hard = true } continue }
            if e.ret == 0 { eof = true } else { bytes.extend(&e.data) }
        }
        if names.is_empty() { continue }
        if hard { out.push(Cand { data: Err(vec![None]), src: SrcExp::Files(names.clone()) }); c.probe("file_read_failed"); }
        if eof {
            let d = parsed(p, &bytes);
            if d.is_err() { c.probe("file_malformed") } else { c.probe("file_read") }
            out.push(Cand { data: d, src: SrcExp::Files(names) });
        }
    }
    if !read_any {
        // nothing was read through the interface: then only the present content is acceptable
        for (n, a) in &ends { for s in w.s0..=w.s1 {
            let t = w.tree(s);
            if let Ok(i) = t.lookup(a) { if let Some(b) = t.file(i) { out.push(Cand { data: parsed(p, b), src: SrcExp::Files(vec![n.clone()]) }) } }
        } }
    }
    out
}

/// Whether the path opened is the path `a`, as spelled or from the working directory then.
fn same_file_name(w: &Window, o: &Ev, a: &[u8]) -> bool {
    if o.path == a { return true }
    let t = w.tree(o.state);
    match t.path_of(t.cwd) { Some(d) => norm_join(&d, &ps(&o.path)) == norm_join(&d, &ps(a)), None => false }
}

fn scalar_root(v: &V, key: &Option<String>) -> Option<D> {
    let mut v = v.clone();
    if let Some(k) = key { for part in k.split('.').take_while(|k| !k.is_empty()).collect::<Vec<_>>().into_iter().rev() { v = V::D([(part.to_string(), v)].into()) } }
    match v { V::D(d) => Some(d), _ => None }
}

/// The properties a wrong result of a provider of this kind contradicts.
fn props_of(p: &Prov) -> &'static [&'static str] {
    match p { Prov::File { .. } => &["F01"], Prov::Env(_) => &["E01"], _ => &["C01"] }
}

fn combine(src: usize, dst: usize, how: u8, site: u8, by_ref: bool, prov: &Prov) {
    let c = ctx();
    let base = if how == 4 { None } else { c.slots[src].clone() };
    let bm = base.as_ref().map(|b| b.m.clone()).unwrap_or_else(MFig::new);
    let held = match prov { Prov::Held(k) => match HELD.with(|h| h.borrow().get(k).cloned()) { Some(x) => Some(x), None => return }, _ => None };
    let prov = held.as_ref().map_or(prov, |h| &h.0);
    if held.is_some() { c.probe("held_provider_combined") }
    let inner = match prov { Prov::Fig(i) => match c.slots[*i].clone() { Some(s) => Some(s), None => return }, _ => None };
    // figments of figments grow exponentially
    if let Some(i) = &inner { if bm.size() + i.m.size() > if c.scen.prop == "M01" { 1_000 } else { 10_000 } { c.probe("too_large_to_combine"); return } }
    c.uid += 1;
    let uid = c.uid;
    let w = window_start();
    let start = c.tick();
    // the call itself
    let name: std::cell::RefCell<String> = Default::default();
    let env_profile;
    let mut srcx = SrcExp::None;
    let r = {
        let srcx = &mut srcx;
        catch_unwind(AssertUnwindSafe(|| target(|| {
            let f = match &base { Some(b) => b.fig.clone(), None => Figment::new() };
            let set = |s: String| *name.borrow_mut() = s;
            if let Prov::Fig(_) = prov { set("Default".into()); let g = &inner.as_ref().unwrap().fig; return if by_ref { call(f, how, site, g) } else { call(f, how, site, g.clone()) } }
            let made;
            let o = match &held { Some(h) => &h.1, None => { made = make(prov, site); &made } };
            match prov {
                Prov::Script(s) => {
                    set(s.name.clone());
                    *srcx = match &s.src { Some((0, t)) => SrcExp::Files(vec![t.clone()]), Some((_, t)) => SrcExp::Custom(t.clone()), None => SrcExp::None };
                }
                Prov::Ser { .. } => { set(std::any::type_name::<Ser>().into()); if let Obj::Ser(_, l) = o { *srcx = SrcExp::Code(*l) } }
                Prov::Tuple { .. } => set(format!("({}, {})", std::any::type_name::<String>(), std::any::type_name::<Ser>())),
                Prov::Text { fmt, .. } => set(format!("{} source string", FMT[*fmt as usize])),
                Prov::File { fmt, .. } => set(format!("{} file", FMT[*fmt as usize])),
                Prov::Env(e) => set(match &e.prefix { Some(x) => format!("`{}` environment variable(s)", x.to_ascii_uppercase()), None => "environment variable(s)".into() }),
                Prov::Fig(_) | Prov::Held(_) => {}
            }
            macro_rules! g { ($p:expr) => { if by_ref { call(f, how, site, $p) } else { let p = $p.clone(); call(f, how, site, p) } } }
            match o {
                Obj::Script(p) => g!(p), Obj::Ser(p, _) => g!(p), Obj::Tuple(p) => g!(p), Obj::Env(p) => g!(p),
                Obj::Toml(p) => g!(p), Obj::Json(p) => g!(p), Obj::Yaml(p) => g!(p), Obj::YamlE(p) => g!(p),
            }
        })))
    };
    let c = ctx();
    let end = c.tick();
    let w = window_end(w);
    let (fig, line) = match r {
        Ok(x) => x,
        Err(p) => {
            if matches!(prov, Prov::Script(s) if s.panic) { c.probe("provider_panicked"); return }
            return c.viol(&["*"], format!("combining panicked: {}", panic_text(&*p)));
        }
    };
    if matches!(prov, Prov::Script(s) if s.panic) { return c.viol(&["*", "C03", "C04"], "a provider's panic was swallowed".into()) }
    // what it may have yielded
    let cands: Vec<Cand> = match prov {
        Prov::Script(s) => {
            if !s.err.is_empty() { vec![Cand { data: Err(s.err.iter().map(|m| Some(m.clone())).collect()), src: srcx }] }
            else {
                let mut v: Vec<Cand> = (w.ep0..=w.ep1).map(|e| Cand { data: Ok(s.alts[e % s.alts.len()].clone()), src: srcx.clone() }).collect();
                v.truncate(4); v
            }
        }
        Prov::Ser { ctor, profile, key, v, fail, then } => {
            let mut prof = match ctor { 0 => profile.as_str(), 1 | 3 => "default", _ => "global" };
            let mut key = if *ctor >= 3 { Some(key.clone().unwrap_or_else(|| "k".into())) } else { key.clone() };
            for t in then { match t { Then::Key(k) => key = Some(k.clone()), Then::Profile(p) => prof = p } }
            vec![Cand { data: match fail { Some(m) => Err(vec![Some(m.clone())]), None => scalar_root(v, &key).map(|d| vec![(prof.to_string(), d)]).ok_or(vec![None]) }, src: srcx }]
        }
        Prov::Tuple { key, v, fail } => vec![Cand { data: match fail { Some(m) => Err(vec![Some(m.clone())]), None => scalar_root(v, &Some(key.clone())).map(|d| vec![("global".to_string(), d)]).ok_or(vec![None]) }, src: SrcExp::None }],
        Prov::Text { fmt, text, nested, profile, order } => {
            let p = FileP { fmt: *fmt, path: "", nested: nests(*nested, profile, *order), profile: profile.as_deref(), required: false, search: false };
            vec![Cand { data: parsed(&p, text.as_bytes()), src: SrcExp::None }]
        }
        Prov::File { fmt, path, nested, profile, required, search, order, .. } => {
            let p = FileP { fmt: *fmt, path, nested: nests(*nested, profile, *order), profile: profile.as_deref(), required: *required, search: *search };
            let v = file_cands(&p, &w);
            if *required && !check_names_file(&fig, &bm, path, &w, v.as_slice()) { return }
            v
        }
        Prov::Env(e) => {
            env_profile = envp::profile(e);
            let mut v = vec![];
            for i in w.v0..=w.v1 {
                for d in envp::data(e, &sim().env_hist[i].1) {
                    match d { Some(d) => v.push(Cand { data: Ok(vec![(env_profile.clone(), d)]), src: SrcExp::None }), None => { c.skip = true; return } }
                }
            }
            if w.v1 > w.v0 { c.probe("env_changed_during_combine") }
            v
        }
        Prov::Fig(_) | Prov::Held(_) => vec![],
    };
    let mut pi = PI { uid, name: name.into_inner(), src: SrcExp::Any, file: None, line, interp: match prov { Prov::Script(s) => s.interp, _ => 0 }, env: matches!(prov, Prov::Env(_)), start, end };
    let hw = if how == 4 { 0 } else { how };
    // the candidate that is what happened
    let mut best: Option<Mis> = None;
    let mut chosen = None;
    let mut nc = 0;
    if let Some(inn) = &inner {
        pi.src = SrcExp::None;
        let m = bm.combine(hw, uid, Some(&inn.m.profile), inn.m.value.clone(), &inn.m.provs);
        match compare(&fig, &m, Some(&pi), &["C01"]) { Ok(()) => chosen = Some((m, SrcExp::None)), Err(e) => best = Some(e) }
    } else {
        let sel = match prov { Prov::Script(s) => s.profile.clone(), _ => None };
        // where one failed provider is there along two ways, a further failure may be told neither from it nor from none
        let doubled = cands.iter().any(|x| x.data.is_err()) && cands.iter().any(|x| x.data.is_ok()) && match &bm.value { Err(w) => { let mut s = BTreeSet::new(); w.iter().any(|w| !s.insert((w.uid, w.msg.clone()))) } Ok(_) => false };
        for cand in &cands {
            nc += 1;
            if ambiguous(&cand.data) { c.skip = true; return }
            let data = match &cand.data {
                Ok(v) => {
                    let mut m: BTreeMap<String, MD> = BTreeMap::new();
                    for (p, d) in v { m.insert(p.to_ascii_lowercase(), M::of_d(d, (uid, kind_of(p)))); }
                    Ok(m)
                }
                Err(v) => Err(v.iter().map(|m| MErr { uid, msg: m.clone() }).collect()),
            };
            pi.src = cand.src.clone();
            let m = bm.combine(hw, uid, sel.as_deref(), data, &BTreeSet::new());
            c.fresh.clear();
            let fits = compare(&fig, &m, Some(&pi), props_of(prov));
            // what a candidate that does not fit seemed to tell about identities is forgotten
            if fits.is_err() { for (u, id, t) in std::mem::take(&mut c.fresh) { c.ids.remove(&u); c.tags.remove(&id); c.by_hash.remove(&t); c.by_order.remove(&t); } }
            match fits {
                Ok(()) if chosen.is_some() => { c.skip = true; return }
                Ok(()) => { chosen = Some((m, pi.src.clone())); if !doubled { break } }
                Err(e) => if best.as_ref().map_or(true, |b| e.rank > b.rank) { best = Some(e) },
            }
        }
    }
    let m = match chosen {
        Some((m, src)) => { pi.src = src; m }
        None => return mismatch(prov, &fig, best, nc, &w, &bm, hw),
    };
    // a source left open is from now on the one recorded
    if matches!(pi.src, SrcExp::Any) {
        let old: Vec<&Metadata> = base.iter().flat_map(|b| b.fig.metadata()).collect();
        let mut new: Vec<&Metadata> = fig.metadata().collect();
        for o in old { if let Some(i) = new.iter().position(|n| *n == o && n.provide_location == o.provide_location) { new.remove(i); } }
        if let [m] = new[..] {
            match &m.source {
                Some(Source::File(p)) => pi.src = SrcExp::Files(vec![po(p)]),
                None => pi.src = SrcExp::None,
                _ => {}
            }
        }
    }
    // which file it was
    if let SrcExp::Files(v) = &pi.src {
        pi.file = fig.metadata().filter_map(|m| m.source.as_ref()?.file_path()).find(|p| v.iter().any(|x| pp(x) == *p)).map(|p| p.to_path_buf());
    }
    c.provs.insert(uid, pi);
    let snap = fingerprint(&fig);
    let s = Rc::new(Slot { fig, m, snap });
    c.all.push(s.clone());
    c.slots[dst] = Some(s);
    c.probe("combined");
}

fn ambiguous(d: &DProv) -> bool {
    match d { Ok(v) => { let mut s = BTreeSet::new(); v.iter().any(|(p, _)| !s.insert(p.to_ascii_lowercase())) } Err(_) => false }
}

/// A required file that is missing must be reported by name.
fn check_names_file(fig: &Figment, bm: &MFig, path: &str, w: &Window, cands: &[Cand]) -> bool {
    let c = ctx();
    if bm.value.is_err() || !matches!(cands, [Cand { data: Err(_), src: SrcExp::Any }]) { return true }
    let _ = w;
    match fig.find_value("") {
        Err(e) if e.to_string().contains(&pp(path).display().to_string()) => true,
        Err(e) => { c.viol(&["F01"], format!("the error for the missing required file `{}` does not name it: {}", path, e)); false }
        Ok(_) => { c.viol(&["F01", "F02", "C04"], format!("the required file `{}` is missing but no error is reported", path)); false }
    }
}

/// No acceptable outcome fits: works out which properties that contradicts.
fn mismatch(prov: &Prov, fig: &Figment, best: Option<Mis>, nc: usize, w: &Window, bm: &MFig, how: u8) {
    let c = ctx();
    let b = best.unwrap_or_else(|| mis(props_of(prov), 0, "no outcome is possible here".into()));
    let mut props: Vec<&str> = b.props.clone();
    let mut msg = b.msg.clone();
    // the result with the base model and candidate data, ignoring everything but data
    let fits = |d: &DProv, props: &mut Vec<&str>| -> bool {
        let data = match d { Ok(v) => Ok(v.iter().map(|(p, d)| (p.to_ascii_lowercase(), M::of_d(d, (0, 0)))).collect()), Err(_) => return false };
        let m = bm.combine(how, 0, None, data, &BTreeSet::new());
        let _ = props;
        match (fig.data(), &m.value) { (Ok(a), Ok(b)) => cmp_data(&a, b).is_none(), _ => false }
    };
    match prov {
        Prov::File { fmt, path, nested, profile, required, search, order, .. } => {
            let p = FileP { fmt: *fmt, path, nested: nests(*nested, profile, *order), profile: profile.as_deref(), required: *required, search: *search };
            if b.rank <= 2 {
                let base = pb(path.rsplit('/').next().unwrap_or(path));
                let mut stale = false;
                let mut other = None;
                for s in 0..=w.s1 {
                    for (q, n) in w.tree(s).listing(&[]) {
                        if let Node::File { data, .. } = n {
                            let d = parsed(&p, &data);
                            if matches!(&d, Ok(v) if v.iter().all(|(_, d)| d.is_empty())) { continue }
                            if fits(&d, &mut props) {
                                if s < w.s0 { stale = true } else if q.ends_with(&base) { other = Some(q) }
                            }
                        }
                    }
                }
                match fig.data() {
                    Err(e) if bm.value.is_ok() && e.to_string().contains("not found") => { props = vec!["F01", "F02"] }
                    // it fails as it should but with another error, or fails though it should not
                    Err(_) if b.rank == 2 => props = vec!["C04", "F01", "F03"],
                    Err(_) => props = if b.props.contains(&"C04") && bm.value.is_err() { vec!["C04"] } else { vec!["F01"] },
                    Ok(_) if fits(&Ok(vec![]), &mut vec![]) => props = if b.props.contains(&"C04") { vec!["F01", "F02", "C04"] } else { vec!["F01", "F02"] },
                    Ok(_) => {
                        props = match other { Some(ref q) => { msg = format!("{} (it is what `{}` holds)", msg, String::from_utf8_lossy(q)); vec!["F02"] } None => vec!["F01"] };
                    }
                }
                if stale && other.is_none() { props.push("C03"); props.push("F01"); msg += " (it is what the file held earlier)" }
            } else if b.props.contains(&"C05") {
                props.push("F03");
            }
        }
        Prov::Env(e) => {
            if b.rank <= 2 {
                let prof = envp::profile(e);
                if (0..w.v0).any(|i| envp::data(e, &sim().env_hist[i].1).into_iter().flatten().any(|d| fits(&Ok(vec![(prof.clone(), d)]), &mut vec![]))) { props.push("C03"); msg += " (it is what the environment held earlier)" }
            }
        }
        Prov::Script(_) => if b.rank <= 1 && w.ep0 > 0 { props.push("C03") },
        _ => {}
    }
    c.viol(&props, format!("combining {} ({} acceptable outcomes): {}", short(format!("{:?}", prov)), nc, msg));
}

fn store(dst: usize, fig: Figment, m: MFig) -> Rc<Slot> {
    let c = ctx();
    let snap = fingerprint(&fig);
    let s = Rc::new(Slot { fig, m, snap });
    c.all.push(s.clone());
    c.slots[dst] = Some(s.clone());
    s
}

fn judge(r: Result<(), Mis>, what: &str) {
    if let Err(e) = r { ctx().viol(&e.props, format!("{}: {}", what, e.msg)) }
}

fn unchanged(s: &Slot, what: &str) -> bool {
    let now = fingerprint(&s.fig);
    if now == s.snap { return true }
    let d = now.lines().zip(s.snap.lines()).find(|(a, b)| a != b).map(|(a, b)| format!("now {:?}, when built {:?}", short(a.into()), short(b.into()))).unwrap_or_else(|| "a different number of entries".into());
    ctx().viol(&["C03"], format!("{}: a figment changed after it was built: {}", what, d));
    false
}

fn check(s: &Slot) {
    let c = ctx();
    // the queries run as code under test, other threads in between
    let r = catch_unwind(AssertUnwindSafe(|| target(|| {
        let d = s.fig.data();
        let m = s.fig.find_value("");
        let e = s.fig.extract::<Value>();
        let l = s.fig.extract_lossy::<Value>();
        let n = s.fig.metadata().count();
        (d, m, e, l, n)
    })));
    let (d, m, e, l, n) = match r { Ok(x) => x, Err(p) => return c.viol(&["*"], format!("a query panicked: {}", panic_text(&*p))) };
    if !unchanged(s, "check") { return }
    if n != s.fig.metadata().count() { return c.viol(&["C03"], "the provider listing changed".into()) }
    judge(compare(&s.fig, &s.m, None, &["C01"]), "check");
    if c.stop { return }
    identities(s);
    if c.stop { return }
    match (&d, &m) {
        (Ok(d), Ok(m)) => {
            let want = overlay(&s.fig, d);
            for (what, got) in [("find_value(\"\")", Ok(m)), ("extract", e.as_ref()), ("extract_lossy", l.as_ref())] {
                match got {
                    Ok(v) => if let Some(x) = diff(&V::of(v), &want, "") { return c.viol(if what.starts_with("find") && [&e, &l].iter().all(|r| r.as_ref().map_or(true, |r| diff(&V::of(r), &V::of(m), "").is_none())) { &["C02"] } else { &["C02", "C08"] }, format!("{} with profile `{}`: {}", what, s.fig.profile(), x)) },
                    Err(e) => return c.viol(&["C02", "C08", "C04"], format!("{} failed: {}", what, e)),
                }
            }
            let (wm, mv) = (s.m.merged().unwrap(), m);
            if let Value::Dict(_, d) = mv {
                for (k, v) in d { if let Some(x) = wm.get(k) { let r = check_tags(&s.fig, v, x, None, k); if r.is_err() { return judge(r, "merged view") } } }
            }
        }
        (Err(_), Err(_)) => {
            if e.is_ok() || l.is_ok() { return c.viol(&["C04", "C08"], "extraction of a failed figment succeeds".into()) }
            if s.fig.profiles().count() > 0 { c.probe("failed_figment_lists_profiles") }
        }
        _ => return c.viol(&["C04", "C08"], "data and queries disagree on whether the figment failed".into()),
    }
    // the profiles it lists are those it holds data for
    if let Ok(d) = &d {
        let a: BTreeSet<String> = s.fig.profiles().map(|p| p.as_str().as_str().to_ascii_lowercase()).collect();
        let b: BTreeSet<String> = d.keys().map(|p| p.as_str().as_str().to_ascii_lowercase()).collect();
        if a != b { c.viol(&["C02"], format!("lists profiles {:?} but holds {:?}", a, b)) }
        if c.scen.prop == "C02" && !c.stop {
            let all: Vec<Profile> = s.fig.profiles().cloned().chain([s.fig.profile().clone()]).collect();
            for p in &all { for q in &all { if let Some(x) = target(|| compare_names(p, q, d)) { return c.viol(&["C02"], format!("profiles `{}` and `{}`: {}", p, q, x)) } } }
        }
    }
}

/// The names of two profiles compared in every form there is.
fn compare_names(p: &Profile, q: &Profile, d: &figment::value::Map<Profile, figment::value::Dict>) -> Option<String> {
    let (a, b) = (p.as_str().as_str().to_string(), q.as_str().as_str().to_string());
    let want = a.eq_ignore_ascii_case(&b);
    for x in [b.clone(), b.to_ascii_uppercase(), b.to_ascii_lowercase()] {
        let r = Profile::new(&x);
        let forms = [*p == r, r == *p, p == r, r == p, *p == x.as_str(), x.as_str() == *p, *p == *x.as_str(), *x.as_str() == *p, p.cmp(&r) == std::cmp::Ordering::Equal, Profile::from(x.as_str()) == *p, Profile::from(x.clone()) == *p];
        if forms.iter().any(|f| *f != want) { return Some(format!("whether `{}` is the same as `{}` depends on how one asks: {:?}", a, x, forms)) }
        if (*p != r) == want || (want && !p.starts_with(&x)) || r.is_custom() == (x.eq_ignore_ascii_case("default") || x.eq_ignore_ascii_case("global")) { return Some(format!("`{}` is {}custom", x, if r.is_custom() { "" } else { "not " })) }
        if d.contains_key(&r) != d.keys().any(|k| k.as_str().as_str().eq_ignore_ascii_case(&x)) { return Some(format!("the data is held or not, depending on how `{}` is spelled", x)) }
        match serde_json::to_string(&r).ok().and_then(|t| serde_json::from_str::<Profile>(&t).ok()) { Some(y) if y == r && y.as_str().as_str() == x => {} y => return Some(format!("`{}` read back is {:?}", x, y)) }
    }
    None
}

/// Looks up some of all the identities seen so far: they are known here exactly if their provider is part of this figment.
fn identities(s: &Slot) {
    let c = ctx();
    let all: Vec<(Tag, u32)> = c.by_order.iter().map(|(t, u)| (*t, *u)).collect();
    for (t, u) in all.into_iter().step_by(c.by_order.len() / 24 + 1) {
        let md = target(|| s.fig.get_metadata(t));
        // other threads may have combined in the meantime
        let pi = match ctx().provs.get(&u) { Some(p) => p, None => continue };
        match (s.m.provs.contains(&u), md) {
            (true, Some(m)) if md_ok(pi, m) => {}
            (false, None) => c.probe("foreign_identity_unknown"),
            (have, _) => return c.viol(&["C06"], format!("the identity {} of {}, {} part of the figment, is looked up as {}", tag_id(t), pi_str(pi), if have { "a" } else { "no" }, md_str(md))),
        }
    }
}

/// The path of some value held in any profile, visible or overridden.
fn held(m: &MFig, salt: &str) -> Option<String> {
    fn walk(d: &MD, at: &str, out: &mut Vec<String>) {
        for (k, m) in d {
            if out.len() > 400 { return }
            if k.is_empty() || k.contains('.') { continue }
            let p = if at.is_empty() { k.clone() } else { format!("{}.{}", at, k) };
            if let M::D(d, _) = m { walk(d, &p, out) }
            out.push(p);
        }
    }
    let mut all = vec![];
    for d in m.value.as_ref().ok()?.values() { walk(d, "", &mut all) }
    if all.is_empty() { return None }
    let h = salt.bytes().fold(all.len() * 31 + m.provs.len(), |h, b| h.wrapping_mul(16777619) ^ b as usize);
    Some(all.swap_remove((h >> 3) % all.len()))
}

fn query(s: &Slot, path: &str) {
    let c = ctx();
    let f = &s.fig;
    let r = catch_unwind(AssertUnwindSafe(|| target(|| {
        let find = f.find_value(path);
        let has = f.contains(path);
        let inner = f.extract_inner::<Value>(path);
        let lossy = f.extract_inner_lossy::<Value>(path);
        let md = f.find_metadata(path).cloned();
        let whole = f.extract::<Value>();
        let tag = f.extract_inner::<Tagged<TT>>(path).map(|t| t.tag());
        (find, has, inner, lossy, md, whole, tag)
    })));
    let (find, has, inner, lossy, md, whole, tag) = match r { Ok(x) => x, Err(p) => return c.viol(&["*"], format!("a query panicked: {}", panic_text(&*p))) };
    let bad = |m: String| ctx().viol(&["C08"], format!("queries of `{}` disagree: {}", path, m));
    let wrong = |m: String| ctx().viol(&["C08", "C02"], format!("queries of `{}` are wrong: {}", path, m));
    let keys: Vec<&str> = path.split('.').take_while(|k| !k.is_empty()).collect();
    // what breaks another property only does not keep the rest from being looked at
    macro_rules! chk { ($e:expr) => {{ $e; if ctx().stop { return } }} }
    match &find {
        Ok(v) => {
            let w = V::of(v);
            // the value is what the model says it is
            match s.m.merged() {
                Some(mm) => match find_d(&mm, path) {
                    Some(Found::M(x)) => { if let Some(d) = diff(&w, &x.v(), path) { chk!(wrong(format!("value differs from the data: {}", d))) } judge(check_tags(f, v, x, None, path), "query"); }
                    Some(Found::Root(d)) => if let Some(x) = diff(&w, &V::D(vd(d)), path) { chk!(wrong(format!("value differs from the data: {}", x))) },
                    None => chk!(wrong(format!("finds {:?} which the data does not hold", w))),
                },
                None => return ctx().viol(&["C04", "C08"], "a query of a failed figment succeeds".into()),
            }
            if !has { chk!(bad("find_value finds it, contains does not".into())) }
            for (n, r) in [("extract_inner", &inner), ("extract_inner_lossy", &lossy)] {
                match r { Ok(x) => if let Some(d) = diff(&V::of(x), &w, path) { chk!(bad(format!("{} gives another value than find_value: {}", n, d))) }, Err(e) => chk!(bad(format!("{} fails though the value exists: {}", n, e))) }
            }
            match &tag { Ok(t) => if tag_bits(*t) != tag_bits(v.tag()) { return ctx().viol(&["C05", "C08"], format!("extracting `{}` tagged gives identity {:?}, find_value gives {:?}", path, t, v.tag())) }, Err(e) => chk!(bad(format!("tagged extraction fails: {}", e))) }
            let m = f.get_metadata(v.tag());
            match (&md, m) {
                (Some(a), Some(b)) => if a != b || a.provide_location != b.provide_location { return ctx().viol(&["C08", "C05", "C06"], format!("find_metadata of `{}` gives {} but the value's is {}", path, md_str(Some(a)), md_str(Some(b)))) },
                (None, None) => {}
                (a, b) => return ctx().viol(&["C08", "C05", "C06"], format!("find_metadata of `{}` gives {} but the value's is {}", path, md_str(a.as_ref()), md_str(b))),
            }
            match &whole {
                Ok(Value::Dict(_, _)) => {
                    let x = V::of(whole.as_ref().unwrap());
                    let mut cur = Some(&x);
                    for k in &keys { cur = match cur { Some(V::D(d)) => d.get(*k), _ => None } }
                    match cur { Some(x) => if let Some(d) = diff(x, &w, path) { chk!(bad(format!("extracting everything gives another value: {}", d))) }, None => chk!(bad("extracting everything does not include it".into())) }
                }
                _ => chk!(bad("extracting everything fails".into())),
            }
            c.probe("query_found");
            if !c.stop && !keys.is_empty() { typed(s, path, &keys, v) }
        }
        Err(e) => {
            if s.m.merged().map_or(false, |m| find_d(&m, path).is_some()) { chk!(wrong("not found though the data holds it".into())) }
            if has { return bad("contains says it exists, find_value fails".into()) }
            if inner.is_ok() || lossy.is_ok() || tag.is_ok() { return bad("an extraction succeeds where find_value fails".into()) }
            if md.is_some() { return bad("find_metadata gives a provider for a missing value".into()) }
            if let Some(mm) = s.m.merged() {
                for (n, e) in [("find_value", e), ("extract_inner", inner.as_ref().unwrap_err()), ("extract_inner_lossy", lossy.as_ref().unwrap_err())] {
                    if !e.missing() { return ctx().viol(&["C07"], format!("{} of the missing key `{}` fails with another error: {}", n, path, e)) }
                    if !matches!(&e.kind, EKind::MissingField(k) if k == path) { return ctx().viol(&["C07"], format!("{} of the missing key `{}` names another key: {}", n, path, e)) }
                }
                c.probe("query_missing");
            } else {
                if whole.is_ok() { return bad("extracting everything from a failed figment succeeds".into()) }
                for e in [e, inner.as_ref().unwrap_err(), lossy.as_ref().unwrap_err()] {
                    if let Some(x) = cmp_errs(f, e, s.m.value.as_ref().unwrap_err(), None) { return ctx().viol(&["C04"], format!("query of a failed figment: {}", x)) }
                }
                c.probe("query_failed_figment");
            }
        }
    }
}

type Typed = Result<String, (Vec<String>, String, Option<Metadata>, Option<Profile>)>;

/// A value asked for as one type: all ways of asking agree on it.
fn typed(s: &Slot, path: &str, keys: &[&str], v: &Value) {
    let c = ctx();
    let f = &s.fig;
    let pick = c.tick();
    fn show<T: std::fmt::Debug>(r: Result<T, Error>) -> Typed { r.map(|x| format!("{:?}", x)).map_err(|e| (e.path.clone(), e.kind.to_string(), e.metadata.clone(), e.profile.clone())) }
    macro_rules! ask { ($T:ty) => {{
        let r = catch_unwind(AssertUnwindSafe(|| target(|| {
            At::<$T>::arm(keys);
            (show(f.extract_inner::<$T>(path)), show(f.extract_inner_lossy::<$T>(path)), show(f.find_value(path).and_then(|v| v.deserialize::<$T>())), show(f.extract::<At<$T>>().map(|a| a.0.expect("present"))))
        })));
        (std::any::type_name::<$T>(), r)
    }} }
    let natural = match v { Value::String(..) => 0, Value::Bool(..) => 1, Value::Num(..) => 2, Value::Char(..) => 4, Value::Empty(..) => 5, Value::Array(..) => 8, Value::Dict(..) => 9 };
    for k in [natural, pick % 18] {
        let (ty, r) = match k {
            0 => ask!(String), 1 => ask!(bool), 2 => ask!(i64), 3 => ask!(u64), 4 => ask!(char), 5 => ask!(Option<String>), 6 => ask!(f64), 7 => ask!(Option<Option<u8>>),
            8 => ask!(Vec<DeV>), 9 => ask!(BTreeMap<String, DeV>), 10 => ask!(()), 11 => ask!(Vec<i64>), 12 => ask!(BTreeMap<String, i32>), 13 => ask!((String, bool)),
            14 => ask!(Either<Tagged<i64>, bool>), 15 => ask!(Either<Tagged<String>, Vec<i64>>), 16 => ask!(Tagged<i64>), _ => ask!(Option<Either<RelativePathBuf, u8>>),
        };
        let (a, l, b, w) = match r { Ok(x) => x, Err(p) => return c.viol(&["*"], format!("a query panicked: {}", panic_text(&*p))) };
        let bad = |p: &[&str], m: String| ctx().viol(p, format!("`{}` as {}: {}", path, ty, m));
        // what it must be
        let n = |s: &str, min: i128, max: u128| s.parse::<i128>().map_or(s.parse::<u128>().map_or(false, |u| u <= max), |i| i >= min && (i < 0 || i as u128 <= max));
        let exp: Option<Option<String>> = match (k, V::of(v)) {
            (0, V::S(x)) => Some(Some(format!("{:?}", x))),
            (1, V::B(x)) => Some(Some(format!("{:?}", x))),
            (4, V::C(x)) => Some(Some(format!("{:?}", x))),
            (5, V::S(x)) => Some(Some(format!("{:?}", Some(x)))),
            (5, V::E(_)) => Some(Some("None".into())),
            (2, V::I(t, x)) if t != 4 && t != 10 => Some(if n(&x, i64::MIN as i128, i64::MAX as u128) { Some(x) } else { None }),
            (3, V::I(t, x)) if t != 4 && t != 10 => Some(if n(&x, 0, u64::MAX as u128) { Some(x) } else { None }),
            (0 | 1 | 2 | 3 | 6, V::A(_) | V::D(_)) | (8 | 11, V::D(_)) | (9 | 12, V::A(_)) | (1 | 2 | 3, V::S(_)) => Some(None),
            _ => None,
        };
        if let Some(x) = exp { if a.as_ref().ok() != x.as_ref() { return bad(&["C08", "C02"], format!("gives {:?} though the value is {:?}", a, V::of(v))) } }
        match (&a, &w) {
            (Ok(x), Ok(y)) if x == y => {}
            (Err(x), Err(y)) => {
                if x != y { return bad(&["C07"], format!("extracted alone it fails with {:?}, within everything with {:?}", x, y)) }
                let at = match x.0.get(keys.len()) { None => Some(v), Some(n) => match v { Value::Array(_, a) => n.parse::<usize>().ok().and_then(|n| a.get(n)), Value::Dict(_, d) => d.get(n), _ => None } };
                if !x.0.iter().take(keys.len()).eq(keys.iter()) || x.0.len() > keys.len() + 1 || at.is_none() { return bad(&["C07"], format!("the error's path is {:?}", x.0)) }
                let at = at.unwrap();
                if !matches!(at, Value::Array(..) | Value::Dict(..)) {
                    match (&x.2, f.get_metadata(at.tag())) { (Some(p), Some(q)) if p == q && p.provide_location == q.provide_location => {} (p, q) => return bad(&["C07"], format!("the error names {} but the value is from {}", md_str(p.as_ref()), md_str(q))) }
                }
                ctx().probe("typed_error");
            }
            _ => return bad(&["C08"], format!("extracted alone gives {:?}, within everything {:?}", a, w)),
        }
        // a value by itself knows no figment, which these need
        if k >= 14 { ctx().probe("typed_magic") } else { match (&a, &b) {
            (Ok(x), Ok(y)) if x == y => {}
            (Err(x), Err(y)) => if x.1 != y.1 || !x.0.iter().eq(keys.iter().map(|k| k.to_string()).collect::<Vec<_>>().iter().chain(&y.0)) { return bad(&["C07"], format!("extracted it fails with {:?}, found and then deserialized with {:?}", x, y)) },
            _ => return bad(&["C08"], format!("extracted gives {:?}, found and then deserialized {:?}", a, b)),
        } }
        match (&a, &l) { (Ok(x), y) if y.as_ref().ok() != Some(x) => return bad(&["C08"], format!("strictly gives {:?}, lossily {:?}", a, l)), _ => {} }
        ctx().probe("typed");
    }
}

fn tagged(s: &Slot) {
    let c = ctx();
    let r = catch_unwind(AssertUnwindSafe(|| target(|| (s.fig.extract::<BTreeMap<String, Tagged<TT>>>(), s.fig.find_value("")))));
    let (t, v) = match r { Ok(x) => x, Err(p) => return c.viol(&["*"], format!("tagged extraction panicked: {}", panic_text(&*p))) };
    fn walk(at: &str, t: &Tagged<TT>, v: &Value) -> Option<String> {
        if tag_bits(t.tag()) != tag_bits(v.tag()) { return Some(format!("`{}` extracted tagged has identity {:?} but the value's is {:?}", at, t.tag(), v.tag())) }
        match (&**t, v) {
            (TT::D(d), Value::Dict(_, e)) => { if d.len() != e.len() { return Some(format!("`{}` has another size", at)) } for (k, x) in d { if let Some(s) = walk(&format!("{}.{}", at, k), x, e.get(k)?) { return Some(s) } } None }
            (TT::A(a), Value::Array(_, b)) => { if a.len() != b.len() { return Some(format!("`{}` has another length", at)) } for (i, (x, y)) in a.iter().zip(b).enumerate() { if let Some(s) = walk(&format!("{}[{}]", at, i), x, y) { return Some(s) } } None }
            _ => None,
        }
    }
    match (t, v) {
        (Ok(t), Ok(Value::Dict(_, d))) => {
            for (k, x) in &t { if let Some(v) = d.get(k) { if let Some(m) = walk(k, x, v) { return c.viol(&["C05"], m) } } }
            c.probe("tagged");
        }
        (Err(_), Err(_)) => {}
        (Err(e), Ok(_)) => c.viol(&["C05"], format!("tagged extraction fails: {}", e)),
        _ => c.viol(&["C04"], "tagged extraction succeeds on a failed figment".into()),
    }
}

/// The model's value at a schema's place of rejection, with the path to it.
fn place<'a>(m: Found<'a>, s: &Sch, path: &mut Vec<String>) -> Option<(Found<'a>, Fail)> {
    match s {
        Sch::Fail(f) => Some((m, f.clone())),
        Sch::Opt(i) | Sch::New(i) | Sch::Tagged(i) | Sch::Struct(i) => place(m, i, path),
        Sch::Key(k, i) | Sch::Enum(k, i) => {
            let d: &'a MD = match m { Found::Root(d) => d, Found::M(M::D(d, _)) => d, _ => return None };
            if matches!(s, Sch::Enum(..)) && d.len() != 1 { return None }
            let x = d.get(k)?;
            path.push(k.clone());
            place(Found::M(x), i, path)
        }
        Sch::Idx(n, i) => {
            let a: &'a Vec<M> = match m { Found::M(M::A(a, _)) => a, _ => return None };
            path.push(n.to_string());
            place(Found::M(a.get(*n)?), i, path)
        }
    }
}

fn wraps_ok(m: &Found, s: &Sch) -> bool {
    // an option around an empty value never reaches what is inside
    match s {
        Sch::Fail(Fail::Length) => matches!(m, Found::M(M::A(..))),
        Sch::Fail(Fail::Missing | Fail::Duplicate) => matches!(m, Found::Root(_) | Found::M(M::D(..))),
        Sch::Fail(Fail::Variant) => matches!(m, Found::M(M::L(V::S(_), _))),
        Sch::Fail(Fail::Unknown) => true,
        Sch::Fail(_) => true,
        Sch::Opt(i) => !matches!(m, Found::M(M::L(V::E(_), _))) && wraps_ok(m, i),
        Sch::New(i) | Sch::Tagged(i) => wraps_ok(m, i),
        Sch::Struct(i) => matches!(m, Found::Root(_) | Found::M(M::D(..)) | Found::M(M::A(..))) && matches!(**i, Sch::Key(..) | Sch::Idx(..) | Sch::Fail(Fail::Missing | Fail::Duplicate)) && wraps_ok(m, i),
        Sch::Key(k, i) | Sch::Enum(k, i) => {
            let d: &MD = match m { Found::Root(d) => d, Found::M(M::D(d, _)) => d, _ => return false };
            if matches!(s, Sch::Enum(..)) && (d.len() != 1 || matches!(**i, Sch::Fail(Fail::Unknown))) { return false }
            d.get(k).map_or(false, |x| wraps_ok(&Found::M(x), i))
        }
        Sch::Idx(n, i) => match m { Found::M(M::A(a, _)) => !matches!(**i, Sch::Fail(Fail::Unknown)) && a.get(*n).map_or(false, |x| wraps_ok(&Found::M(x), i)), _ => false },
    }
}

fn error(s: &Slot, entry: u8, at: &str, sch: &Sch) {
    let c = ctx();
    let mm = match s.m.merged() { Some(m) => m, None => return };
    let inner = entry >= 2;
    let start = if inner { match find_d(&mm, at) { Some(f) => f, None => return } } else { Found::Root(&mm) };
    if !wraps_ok(&start, sch) { return }
    let mut path: Vec<String> = if inner { at.split('.').take_while(|k| !k.is_empty()).map(|k| k.to_string()).collect() } else { vec![] };
    let (found, fail) = match place(start, sch, &mut path) { Some(x) => x, None => return };
    if matches!(fail, Fail::Unknown) && path.is_empty() { return }
    Dyn::arm(sch);
    let r = catch_unwind(AssertUnwindSafe(|| target(|| {
        let e = match entry { 0 => s.fig.extract::<Dyn>().err(), 1 => s.fig.extract_lossy::<Dyn>().err(), 2 => s.fig.extract_inner::<Dyn>(at).err(), _ => s.fig.extract_inner_lossy::<Dyn>(at).err() };
        e.map(|e| { let t = e.to_string(); (e, t) })
    })));
    let (e, text) = match r { Ok(Some(x)) => x, Ok(None) => return c.viol(&["C07"], format!("the consumer rejected `{}` but extraction succeeded", path.join("."))), Err(p) => return c.viol(&["*"], format!("extraction panicked: {}", panic_text(&*p))) };
    let bad = |m: String| ctx().viol(&["C07"], format!("{} after rejecting `{}` ({:?}, entry {}): {}", text, path.join("."), fail, entry, m));
    if e.path != path { return bad(format!("the path is {:?} but should be {:?}", e.path, path)) }
    let kind_ok = match fail {
        Fail::After | Fail::Visit => matches!(&e.kind, EKind::Message(m) if m == MSG),
        Fail::Type => matches!(e.kind, EKind::InvalidType(..)),
        Fail::Missing => matches!(&e.kind, EKind::MissingField(k) if k == "absent_field"),
        Fail::Unknown => matches!(&e.kind, EKind::UnknownField(k, _) if Some(k) == path.last()),
        Fail::Length => matches!(e.kind, EKind::InvalidLength(..)),
        Fail::Value => matches!(&e.kind, EKind::InvalidValue(_, w) if w == WANTED),
        Fail::Duplicate => matches!(e.kind, EKind::DuplicateField("present_field")),
        Fail::Variant => matches!(e.kind, EKind::UnknownVariant(..)),
    };
    if !kind_ok { return bad(format!("the kind of failure is {:?}", e.kind)) }
    c.probe("error_checked");
    let srcs = match &found { Found::Root(_) => return, Found::M(m) => m.srcs() };
    let md = match &e.metadata { Some(m) => m, None => return bad("it names no provider".into()) };
    let fit: Vec<&Src> = srcs.iter().filter(|(u, _)| c.provs.get(u).map_or(false, |p| md_ok(p, md))).collect();
    if fit.is_empty() { return bad(format!("it names the provider {} but the value is from {}", md_str(Some(md)), srcs.iter().filter_map(|(u, _)| c.provs.get(u)).map(pi_str).collect::<Vec<_>>().join(" or "))) }
    let sel = s.fig.profile().as_str().as_str().to_string();
    let profs: Vec<String> = fit.iter().map(|(_, k)| match k { 0 => "default".into(), 1 => "global".into(), _ => sel.clone() }).collect();
    match &e.profile { Some(p) if profs.iter().any(|q| p.as_str().as_str().eq_ignore_ascii_case(q)) => {} p => return bad(format!("it names the profile {:?} but the value is from {:?}", p.as_ref().map(|p| p.to_string()), profs)) }
    let ok = fit.iter().any(|(u, k)| {
        let p = &c.provs[u];
        let prof = match k { 0 => "default".to_string(), 1 => "global".into(), _ => sel.clone() };
        let key = if p.env { path.iter().map(|k| k.to_ascii_uppercase()).collect::<Vec<_>>().join(".") }
            else if p.interp == 1 { format!("{}/{}/{}", p.name, prof, path.join("/")) }
            else { format!("{}.{}", prof, path.join(".")) };
        text.contains(&format!("for key {:?}", key)) && text.contains(&p.name)
    });
    if !ok { bad("the displayed error does not carry the key in the provider's notation and the provider's name".into()) }
}

// ---- paths and sources ----

fn lexical(p: &[u8]) -> Vec<Vec<u8>> {
    let mut o: Vec<Vec<u8>> = vec![];
    for c in p.split(|c| *c == b'/').filter(|c| !c.is_empty() && *c != b".") { if c == b".." { o.pop(); } else { o.push(c.to_vec()) } }
    o
}

fn expected_path(pi: &PI, orig: &str) -> PathBuf {
    let o = Path::new(orig);
    if o.has_root() { return o.into() }
    match (&pi.file, &pi.src) {
        (Some(f), _) => f.parent().map(|d| d.join(o)).unwrap_or_else(|| o.into()),
        _ => o.into(),
    }
}

fn paths(s: &Slot) {
    let c = ctx();
    let mm = match s.m.merged() { Some(m) => m, None => return };
    let mut todo: Vec<(String, &M)> = mm.iter().filter(|(k, _)| !k.is_empty() && !k.contains('.')).map(|(k, m)| (k.clone(), m)).collect();
    while let Some((at, m)) = todo.pop() {
        if c.stop { return }
        let mut want: Vec<(&String, PI)> = vec![];
        match m {
            M::D(d, _) => { for (k, m) in d { if !k.is_empty() && !k.contains('.') { todo.push((format!("{}.{}", at, k), m)) } } continue }
            M::L(V::S(x), (u, _)) => want.push((x, c.provs[u].clone())),
            M::A(a, _) if !a.is_empty() && a.iter().all(|m| matches!(m, M::L(V::S(_), _))) => for m in a { if let M::L(V::S(x), (u, _)) = m { want.push((x, c.provs[u].clone())) } },
            _ => continue,
        }
        let arr = matches!(m, M::A(..));
        let r = catch_unwind(AssertUnwindSafe(|| target(|| {
            let v: Result<Vec<RelativePathBuf>, Error> = if arr { s.fig.extract_inner(&at) } else { s.fig.extract_inner::<RelativePathBuf>(&at).map(|r| vec![r]) };
            v.map(|v| v.into_iter().map(|r| { let rel = r.relative(); (r, rel) }).collect::<Vec<_>>())
        })));
        let v = match r { Ok(Ok(v)) => v, Ok(Err(e)) => return c.viol(&["M01"], format!("`{}` cannot be extracted as a path: {}", at, e)), Err(p) => return c.viol(&["*"], format!("extracting a path panicked: {}", panic_text(&*p))) };
        other_ways(s, &at, arr, &v);
        if c.stop { return }
        if v.len() != want.len() { return c.viol(&["M01"], format!("`{}` has another number of paths", at)) }
        for ((r, rel), (orig, pi)) in v.iter().zip(&want) {
            if r.original() != Path::new(orig) { return c.viol(&["M01"], format!("`{}` as written is {:?} but {:?} is kept", at, orig, r.original())) }
            let exp = expected_path(pi, orig);
            // the declaring file's path is no text: a listed finding
            if let (Some(f), true) = (&pi.file, c.known("paths-in-non-text-directory")) {
                if f.to_str().is_none() && rel.as_os_str() == PathBuf::from(f.display().to_string()).parent().map(|d| d.join(orig)).unwrap_or_default().as_os_str() && *rel != exp { c.probe("known_finding_paths_in_non_text_directory"); continue }
            }
            if rel.as_os_str() != exp.as_os_str() { return c.viol(&["M01"], format!("{:?} at `{}` resolves to {:?} but should to {:?} (from {})", orig, at, rel, exp, pi_str(pi))) }
            ctx().probe("path_resolved");
            // written back and read from elsewhere
            let again = catch_unwind(AssertUnwindSafe(|| target(|| {
                let m: BTreeMap<String, RelativePathBuf> = [("p".to_string(), r.clone())].into();
                let f = Figment::from(Serialized::defaults(m));
                f.extract_inner::<RelativePathBuf>("p").map(|r| (r.relative(), r.original().to_path_buf()))
            })));
            match again {
                Ok(Ok((a, o))) => {
                    if a.as_os_str() != exp.as_os_str() { return c.viol(&["M01"], format!("{:?} at `{}` read back resolves to {:?} but should to {:?}", orig, at, a, exp)) }
                    if o != Path::new(orig) { return c.viol(&["M01"], format!("{:?} at `{}` read back is kept as {:?}", orig, at, o)) }
                }
                Ok(Err(e)) => return c.viol(&["M01"], format!("a path cannot be read back: {}", e)),
                Err(p) => return c.viol(&["*"], format!("reading a path back panicked: {}", panic_text(&*p))),
            }
        }
    }
}

type Rel = Vec<(RelativePathBuf, PathBuf)>;

/// The same paths extracted in every other way and written by the serializers must be the same.
fn other_ways(s: &Slot, at: &str, arr: bool, v: &Rel) {
    type E = Either<RelativePathBuf, i32>;
    let c = ctx();
    let pair = |r: RelativePathBuf| { let rel = r.relative(); (r, rel) };
    let left = |e: E| match e { Either::Left(r) => Some(r), _ => None };
    let same = |a: &Rel| a.len() == v.len() && a.iter().zip(v).all(|((a, x), (b, y))| a.original().as_os_str() == b.original().as_os_str() && x.as_os_str() == y.as_os_str());
    let f = &s.fig;
    let r = catch_unwind(AssertUnwindSafe(|| target(|| {
        let mut out: Vec<(&str, Result<Rel, Error>)> = vec![];
        if arr {
            out.push(("lossily", f.extract_inner_lossy::<Vec<RelativePathBuf>>(at).map(|v| v.into_iter().map(pair).collect())));
            out.push(("tagged", f.extract_inner::<Vec<Tagged<RelativePathBuf>>>(at).map(|v| v.into_iter().map(|t| pair(t.into_inner())).collect())));
            out.push(("as options", f.extract_inner::<Option<Vec<Option<RelativePathBuf>>>>(at).map(|v| v.into_iter().flatten().flatten().map(pair).collect())));
            out.push(("as alternatives", f.extract_inner::<Vec<E>>(at).map(|v| v.into_iter().filter_map(left).map(pair).collect())));
        } else {
            out.push(("lossily", f.extract_inner_lossy::<RelativePathBuf>(at).map(|r| vec![pair(r)])));
            out.push(("tagged", f.extract_inner::<Tagged<RelativePathBuf>>(at).map(|t| vec![pair(t.into_inner())])));
            out.push(("as an option", f.extract_inner::<Option<RelativePathBuf>>(at).map(|v| v.into_iter().map(pair).collect())));
            out.push(("as an alternative", f.extract_inner::<E>(at).map(|v| left(v).into_iter().map(pair).collect())));
        }
        out
    })));
    let r = match r { Ok(r) => r, Err(p) => return c.viol(&["*"], format!("extracting a path panicked: {}", panic_text(&*p))) };
    for (how, r) in r {
        match r {
            Ok(a) if same(&a) => {}
            Ok(a) => return c.viol(&["M01"], format!("`{}` extracted {} gives {:?} but plainly {:?}", at, how, a, v)),
            Err(e) => return c.viol(&["M01"], format!("`{}` cannot be extracted as a path {}: {}", at, how, e)),
        }
    }
    // what the serializers write
    #[derive(serde::Serialize)]
    struct W(#[serde(serialize_with = "RelativePathBuf::serialize_original")] RelativePathBuf);
    #[derive(serde::Serialize)]
    struct X(#[serde(serialize_with = "RelativePathBuf::serialize_relative")] RelativePathBuf);
    for (r, rel) in v {
        let (a, b) = (serde_json::to_value(W(r.clone())), serde_json::to_value(X(r.clone())));
        if a.as_ref().ok().and_then(|a| a.as_str()).map(Path::new).map(|p| p.as_os_str()) != Some(r.original().as_os_str()) { return c.viol(&["M01"], format!("the path at `{}` serialized as written is {:?}", at, a)) }
        if b.as_ref().ok().and_then(|a| a.as_str()).map(Path::new).map(|p| p.as_os_str()) != Some(rel.as_os_str()) { return c.viol(&["M01"], format!("the path at `{}` serialized as resolved is {:?} but should be {:?}", at, b, rel)) }
    }
    // written into a text or a file somewhere else and read from there
    if v.is_empty() { return }
    let text = match serde_json::to_string(&BTreeMap::from([("p", v.iter().map(|(r, _)| r.clone()).collect::<Vec<_>>())])) { Ok(t) => t, Err(e) => return c.viol(&["M01"], format!("the path at `{}` cannot be serialized: {}", at, e)) };
    c.uid += 1;
    let yaml = c.uid % 2 == 0;
    let file = format!("/roundtrip{}.x", c.uid);
    sim().vfs.change(|t| { let _ = t.put(file.as_bytes(), text.as_bytes(), true); });
    let nf = sim().vfs.ev.len();
    let me = sim().cur;
    let r = catch_unwind(AssertUnwindSafe(|| target(|| {
        let a = if yaml { Figment::from(Yaml::string(&text)) } else { Figment::from(Json::string(&text)) };
        let b = if yaml { Figment::from(Yaml::file(&file)) } else { Figment::from(Json::file(&file)) };
        [a, b].map(|f| f.extract_inner::<Vec<RelativePathBuf>>("p").map(|v| v.into_iter().map(pair).collect::<Rel>()))
    })));
    let faulted = sim().vfs.ev[nf..].iter().any(|e| e.task == me && e.fault.is_some());
    sim().vfs.change(|t| { let _ = t.remove(file.as_bytes()); });
    match r {
        Ok(r) => for (what, r) in [("a text", &r[0]), ("another file", &r[1])] {
            match r {
                Ok(a) if same(a) => c.probe("path_read_back"),
                // one that has no file of its own takes the one it is now read from
                Ok(a) if *what == *"another file" && a.len() == v.len() && a.iter().zip(v).all(|((a, x), (b, y))| a.original().as_os_str() == b.original().as_os_str() && (x.as_os_str() == y.as_os_str() || b.metadata_path().is_none())) => {}
                Ok(a) => return c.viol(&["M01"], format!("the paths at `{}` written to and read back from {} are {:?} but were {:?}", at, what, a, v)),
                Err(_) if faulted => {}
                Err(e) => return c.viol(&["M01"], format!("the paths at `{}` cannot be read back from {}: {}", at, what, e)),
            }
        },
        Err(p) => c.viol(&["*"], format!("reading a path back panicked: {}", panic_text(&*p))),
    }
}

/// The sources that displayed errors carry are what displaying the sources by themselves gives.
fn shown(s: &Slot) {
    let c = ctx();
    let keys: Vec<String> = match s.m.merged() { Some(m) => m.keys().filter(|k| !k.is_empty() && !k.contains('.')).take(3).cloned().collect(), None => vec![String::new()] };
    for k in keys {
        let w = window_start();
        let r = catch_unwind(AssertUnwindSafe(|| target(|| {
            let e = match s.fig.extract_inner::<()>(&k) { Err(e) => e, Ok(_) => return None };
            let all: Vec<Error> = e.clone().into_iter().collect();
            let list = || all.iter().filter_map(|e| e.metadata.as_ref()?.source.as_ref()).filter(|s| s.file_path().is_some()).map(|s| s.to_string()).collect::<Vec<_>>();
            let a = list();
            let t = e.to_string();
            let b = list();
            Some((a, t, b))
        })));
        match r {
            Ok(Some((a, t, b))) => {
                let w = window_end(w);
                if a != b || w.s0 != w.s1 || w.events().iter().any(|e| e.errno != 0) { continue }
                for x in &a { if !t.contains(x.as_str()) { return c.viol(&["S01", "C07"], format!("the displayed error {:?} does not carry its source {:?}", t, x)) } c.probe("error_source_displayed") }
            }
            Ok(None) => {}
            Err(p) => return c.viol(&["S01"], format!("displaying an error panicked: {}", panic_text(&*p))),
        }
    }
}

fn display(s: &Slot) {
    let c = ctx();
    shown(s);
    if c.stop { return }
    let list: Vec<Source> = s.fig.metadata().filter_map(|m| m.source.clone()).collect();
    for src in list {
        if c.stop { return }
        let w = window_start();
        let r = catch_unwind(AssertUnwindSafe(|| target(|| { use std::fmt::Write; let mut o = String::new(); let r = write!(o, "{}", src); (o, r.is_ok()) })));
        let w = window_end(w);
        let (out, ok) = match r { Ok(x) => x, Err(p) => return c.viol(&["S01"], format!("displaying a source panicked: {}", panic_text(&*p))) };
        if !ok { return c.viol(&["S01"], "displaying a source failed".into()) }
        let p = match &src { Source::File(p) => po(p), Source::Custom(t) => { if out != *t { c.viol(&["S01"], format!("custom source {:?} displayed as {:?}", t, out)) } continue } _ => continue };
        if std::str::from_utf8(src.file_path().unwrap().as_os_str().as_encoded_bytes()).is_err() { continue }
        c.probe("source_displayed");
        if out == p { continue }
        let good = (w.s0..=w.s1).any(|i| {
            let t = w.tree(i);
            let cwd = match t.path_of(t.cwd) { Some(d) => d, None => return false };
            let full = norm_join(&cwd, &out);
            match t.lookup(&pb(&p)) {
                Ok(ino) => t.lookup(&full) == Ok(ino),
                Err(_) => lexical(&full) == lexical(&norm_join(&cwd, &p)),
            }
        });
        if !good {
            let t = w.tree(w.s1);
            return c.viol(&["S01"], format!("source {:?} is displayed as {:?} in {:?}, which is another file", p, out, t.path_of(t.cwd).map(|d| String::from_utf8_lossy(&d).into_owned())));
        }
        c.probe("source_displayed_relative");
    }
}

// ---- providers asked directly ----

fn read(api: u8, prov: &Prov) {
    let c = ctx();
    let as_v = |m: Map<Profile, Dict>| m.into_iter().map(|(p, d)| (p.as_str().as_str().to_ascii_lowercase(), V::D(V::of_dict(&d)))).collect::<BTreeMap<String, V>>();
    let want_v = |v: &[(String, D)]| v.iter().map(|(p, d)| (p.to_ascii_lowercase(), V::D(d.clone()))).collect::<BTreeMap<String, V>>();
    match prov {
        Prov::File { fmt, path, nested, profile, required, search, order, .. } => {
            // a format's own reader takes one file as named, into whatever it is asked for
            let p = FileP { fmt: *fmt, path, nested: nests(*nested, profile, *order) || api == 1, profile: profile.as_deref(), required: *required || api == 1, search: *search && api != 1 };
            let w = window_start();
            macro_rules! t { ($F:ty) => {{
                if api == 1 { return (<$F as Format>::from_path::<Map<Profile, Dict>>(&pp(path)).map_err(|e| e.to_string()), None) }
                let p = shape(<$F>::file(pp(path)).required(*required).search(*search), *nested, profile, *order);
                match api { 0 => (p.data().map_err(|e| e.to_string()), None), 2 => (Ok(Map::new()), Some(p.metadata())), 3 => (Provider::data(&&p).map_err(|e| e.to_string()), None), _ => (Ok(Map::new()), Some(Provider::metadata(&&p))) }
            }} }
            let r = catch_unwind(AssertUnwindSafe(|| target(|| match fmt { 0 => t!(Toml), 1 => t!(Json), 2 => t!(Yaml), _ => t!(YamlExtended) })));
            let w = window_end(w);
            let (r, md) = match r { Ok(r) => r, Err(p) => return c.viol(&["*"], format!("reading a file panicked: {}", panic_text(&*p))) };
            if let Some(md) = md {
                let (ends, none) = file_ends(&p, &w);
                let mut names: Vec<&str> = ends.iter().map(|e| e.0.as_str()).collect();
                if none { names.push(path) }
                if md.name != format!("{} file", FMT[*fmt as usize]) || !matches!(&md.source, Some(Source::File(q)) if names.iter().any(|n| pp(n) == *q)) {
                    return c.viol(&["F03", "F02"], format!("asked for its source, {} names {} but should name one of {:?}", short(format!("{:?}", prov)), md_str(Some(&md)), names));
                }
                return c.probe("file_metadata_directly");
            }
            let mut cands = file_cands(&p, &w);
            // something that is no regular file, or is not there, may also be opened and fail
            if api == 1 && w.events().iter().any(|e| e.call == "open" || e.call == "read") && cands.iter().all(|c| c.data.is_ok()) && w.events().iter().any(|e| e.errno != 0 && e.errno != libc::EINTR) { cands.push(Cand { data: Err(vec![None]), src: SrcExp::Any }) }
            if cands.iter().any(|x| ambiguous(&x.data)) { return }
            let r = r.map(as_v);
            if !cands.iter().any(|x| match (&x.data, &r) { (Ok(v), Ok(m)) => want_v(v) == *m, (Err(_), Err(_)) => true, _ => false }) {
                return c.viol(&["F01", "F02"], format!("reading {} directly (api {}) gives {} but should give one of {}", short(format!("{:?}", prov)), api, short(format!("{:?}", r)), short(format!("{:?}", cands))));
            }
            c.probe("file_read_directly");
        }
        Prov::Env(e) => {
            let w = window_start();
            let p = envp::build(e);
            let r = catch_unwind(AssertUnwindSafe(|| target(|| if api == 0 { (Some(p.data()), vec![]) } else { (None, p.iter().map(|(k, v)| (k.as_str().to_string(), v)).collect::<Vec<_>>()) })));
            let w = window_end(w);
            let (data, list) = match r { Ok(r) => r, Err(p) => return c.viol(&["*"], format!("reading the environment panicked: {}", panic_text(&*p))) };
            let prof = envp::profile(e).to_ascii_lowercase();
            let mut list: Vec<(String, String)> = list;
            list.sort();
            let mut ok = false;
            for i in w.v0..=w.v1 {
                let snap = &sim().env_hist[i].1;
                if let Some(d) = &data {
                    for x in envp::data(e, snap) {
                        let x = match x { Some(x) => x, None => { c.skip = true; return } };
                        ok |= matches!(d, Ok(m) if as_v(m.clone()) == want_v(&[(prof.clone(), x)]));
                    }
                } else {
                    let mut x: Vec<(String, String)> = snap.iter().filter(|(k, _)| !k.is_empty()).filter_map(|(k, v)| Some((envp::key_of(e, &String::from_utf8_lossy(k))?, String::from_utf8_lossy(v).into_owned()))).collect();
                    x.sort();
                    ok |= x == list;
                }
            }
            if !ok { return c.viol(&["E01"], format!("reading {} directly (api {}) gives {} which the environment did not hold", short(format!("{:?}", prov)), api, short(format!("{:?} {:?}", data, list)))) }
            c.probe("env_read_directly");
        }
        _ => {}
    }
}

// ---- single variables ----

fn var(name: &str, api: u8, default: &str) {
    use figment::providers::Env;
    let c = ctx();
    let w = window_start();
    let r = catch_unwind(AssertUnwindSafe(|| target(|| match api {
        0 => Env::var(name),
        1 => Some(Env::var_or(name, default)),
        2 => Profile::from_env(name).map(|p| p.to_string()),
        _ => Some(Profile::from_env_or(name, default).to_string()),
    })));
    let w = window_end(w);
    let got = match r { Ok(x) => x, Err(p) => return c.viol(&["*"], format!("looking up a variable panicked: {}", panic_text(&*p))) };
    let mut want = vec![];
    for i in w.v0..=w.v1 {
        let snap = &sim().env_hist[i].1;
        let vals: Vec<String> = snap.iter().filter(|(k, _)| k.eq_ignore_ascii_case(name.as_bytes())).map(|(_, v)| String::from_utf8_lossy(v).into_owned()).collect();
        if vals.is_empty() { want.push(if api % 2 == 1 { Some(default.to_string()) } else { None }) }
        for v in vals { want.push(Some(v.trim().to_string())); want.push(Some(v)) }
    }
    if w.v1 > w.v0 { c.probe("env_changed_during_lookup") }
    if want.iter().any(|x| x.is_some()) { c.probe("var_present") }
    if !want.contains(&got) {
        let ever = (0..=w.v1).any(|i| sim().env_hist[i].1.iter().any(|(k, v)| k.eq_ignore_ascii_case(name.as_bytes()) && got.as_deref().map_or(false, |g| String::from_utf8_lossy(v).trim() == g)));
        c.viol(if ever { &["E02", "C03"] } else { &["E02"] }, format!("looking up `{}` (api {}) gives {:?} but should give one of {:?}", name, api, got, want));
    }
}

// ---- the operations ----

pub fn set_env(k: &[u8], v: Option<&[u8]>) {
    use std::os::unix::ffi::OsStrExt;
    let k = std::ffi::OsStr::from_bytes(k);
    quiet(|| match v { Some(v) => std::env::set_var(k, std::ffi::OsStr::from_bytes(v)), None => std::env::remove_var(k) });
}

pub fn run_op(op: &Op) {
    let c = ctx();
    match op {
        Op::New { dst } => { store(*dst, target(Figment::new), MFig::new()); }
        Op::Hold { k, prov } => hold(*k, prov),
        Op::Combine { src, dst, how, site, by_ref, prov } => combine(*src, *dst, *how, *site, *by_ref, prov),
        Op::Select { src, dst, profile } => {
            let b = c.slots[*src].clone();
            let m = b.as_ref().map(|b| b.m.clone()).unwrap_or_else(MFig::new);
            let f = target(|| b.as_ref().map(|b| b.fig.clone()).unwrap_or_default().select(profile.as_str()));
            let s = store(*dst, f, MFig { profile: profile.clone(), ..m });
            judge(compare(&s.fig, &s.m, None, &["C01"]), "select");
        }
        Op::Focus { src, dst, key } => {
            let b = match c.slots[*src].clone() { Some(b) => b, None => return };
            let f = target(|| b.fig.focus(key));
            let m = b.m.focus(key);
            if !f.profile().as_str().as_str().eq_ignore_ascii_case(&m.profile) { return c.viol(&["C08", "C02"], format!("focusing changed the profile to {}", f.profile())) }
            match (f.data(), b.fig.data(), &m.value) {
                (Ok(d), Ok(orig), Ok(w)) => {
                    // narrowing, from the data actually held
                    let narrow: BTreeMap<String, V> = orig.iter().filter_map(|(p, d)| {
                        let md = to_m(d);
                        let r = match find_d(&md, key)? { Found::Root(d) => Some(V::D(vd(d))), Found::M(M::D(d, _)) => Some(V::D(vd(d))), _ => None };
                        r.map(|v| (p.as_str().as_str().to_ascii_lowercase(), v))
                    }).collect();
                    let got: BTreeMap<String, V> = d.iter().map(|(p, d)| (p.as_str().as_str().to_ascii_lowercase(), V::D(V::of_dict(d)))).collect();
                    if got != narrow { return c.viol(&["C08"], format!("focusing on `{}` gives {} but should give {}", key, short(format!("{:?}", got)), short(format!("{:?}", narrow)))) }
                    let _ = w;
                }
                (Err(_), Err(_), Err(_)) => {}
                _ => return c.viol(&["C04", "C08"], format!("focusing on `{}` changed whether the figment failed", key)),
            }
            let a: Vec<String> = f.metadata().map(|m| md_str(Some(m))).collect();
            let e: Vec<String> = b.fig.metadata().map(|m| md_str(Some(m))).collect();
            if a != e { c.viol(&["C08", "C06"], format!("focusing on `{}` changed the provider listing", key)) }
            if c.stop { return }
            let s = store(*dst, f, m);
            judge(compare(&s.fig, &s.m, None, &["C08"]), "focus");
            c.probe("focused");
        }
        Op::Clone { src, dst } => {
            let b = match c.slots[*src].clone() { Some(b) => b, None => return };
            let f = target(|| b.fig.clone());
            let s = store(*dst, f, b.m.clone());
            if s.snap != b.snap { c.viol(&["C03"], "a clone differs from its original".into()) }
        }
        Op::Drop { slot } => { let s = c.slots[*slot].take(); drop(s) }
        Op::Check { slot } => if let Some(s) = c.slots[*slot].clone() { check(&s) },
        Op::Query { slot, path } => if let Some(s) = c.slots[*slot].clone() {
            query(&s, path);
            if let (Some(p), false) = (held(&s.m, path), ctx().stop) { ctx().probe(match s.m.merged().map(|m| find_d(&m, &p).is_some()) { Some(true) => "query_of_a_held_value", Some(false) => "query_of_an_overridden_value", None => "query_held_by_a_failed_figment" }); query(&s, &p) }
        },
        Op::Tagged { slot } => if let Some(s) = c.slots[*slot].clone() { tagged(&s) },
        Op::Error { slot, entry, at, schema } => if let Some(s) = c.slots[*slot].clone() { error(&s, *entry, at, schema) },
        Op::Paths { slot } => if let Some(s) = c.slots[*slot].clone() { paths(&s) },
        Op::Display { slot } => if let Some(s) = c.slots[*slot].clone() { display(&s) },
        Op::Read { api, prov } => read(*api, prov),
        Op::Epoch => { c.epoch += 1; c.changed = true }
        Op::SetEnv { k, v } => { set_env(&k.0, Some(&v.0)); c.changed = true }
        Op::UnsetEnv { k } => { set_env(&k.0, None); c.changed = true }
        Op::Var { name, api, default } => var(name, *api, default),
        Op::Put { path, data, fresh } => { fs(|t| { let _ = t.put(&pb(path), &data.0, *fresh); }) }
        Op::Remove { path } => fs(|t| { let _ = t.remove(&pb(path)); }),
        Op::Mkdir { path } => fs(|t| { let at = t.cwd; let _ = t.mkdir(at, &pb(path)); }),
        Op::Rename { a, b } => fs(|t| { let at = t.cwd; let _ = t.rename(at, &pb(a), at, &pb(b)); }),
        Op::Symlink { target: x, path } => fs(|t| { let _ = t.put_node(&pb(path), Node::Link(pb(x))); }),
        Op::Chdir { path } => fs(|t| { if let Ok(i) = t.lookup(&pb(path)) { if t.dir(i).is_some() { t.cwd = i } } }),
        Op::Jail { body, end, expect } => jail::run(body, end, *expect),
        Op::Yield => {}
        Op::Sleep { us } => target(|| std::thread::sleep(std::time::Duration::from_micros(*us as u64))),
    }
}

fn fs(f: impl FnOnce(&mut Tree)) { ctx().changed = true; sim().vfs.change(f); }

pub static AGED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Makes the process look as if `n` providers had been combined before: the counter that combining advances, if there is
/// one, is advanced.
pub fn age(n: u64) {
    if n == 0 { return }
    let a = simrt::tsan::learn(4, &|| std::mem::drop(Figment::from(("w", 1))));
    if let Some(a) = a { a.advance(n); AGED.store(true, std::sync::atomic::Ordering::Relaxed) }
}

pub fn warmup(n: u32) {
    // providers combined before anything else in the process
    for _ in 0..n { let f = Figment::from(("w", 1)); std::mem::drop(f) }
}

pub fn run_task(i: usize) {
    if i == 0 && AGED.load(std::sync::atomic::Ordering::Relaxed) { ctx().probe("aged_process") }
    let ops = ctx().scen.tasks[i].clone();
    for (k, op) in ops.iter().enumerate() {
        if ctx().stop || ctx().skip { break }
        unsafe { (*sim().shm).cur_op[i] = k as u32 + 1 }
        target(|| point(Kind::Op));
        if let Err(p) = catch_unwind(AssertUnwindSafe(|| quiet(|| run_op(op)))) {
            ctx().viol(&["*"], format!("panic in {}: {}", short(format!("{:?}", op)), panic_text(&*p)));
        }
    }
    let c = ctx();
    c.done += 1;
    if c.done == c.scen.tasks.len() && !c.stop && !c.skip {
        quiet(|| {
            for s in c.all.clone() {
                if !unchanged(&s, "at the end") { return }
                judge(compare(&s.fig, &s.m, None, &["C01"]), "at the end");
                if c.stop { return }
            }
            jail::finish();
        });
    }
    let _ = sched::TASK.with(|t| t.get());
    let _ = vfs::NFAULT;
}
