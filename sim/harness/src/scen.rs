//! A scenario: everything one simulated run depends on besides the code under test.
use serde::{Deserialize, Deserializer, Serialize, Serializer};

use crate::val::{D, V};

/// Bytes, written as text with one character per byte.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct B(pub Vec<u8>);
impl std::fmt::Debug for B { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", String::from_utf8_lossy(&self.0)) } }
impl From<&str> for B { fn from(s: &str) -> B { B(s.as_bytes().to_vec()) } }
impl From<String> for B { fn from(s: String) -> B { B(s.into_bytes()) } }
impl Serialize for B {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&self.0.iter().map(|b| *b as char).collect::<String>()) }
}
impl<'de> Deserialize<'de> for B {
    fn deserialize<X: Deserializer<'de>>(d: X) -> Result<B, X::Error> { Ok(B(String::deserialize(d)?.chars().map(|c| c as u32 as u8).collect())) }
}

/// Reads JSON nested however deep.
pub fn unjson<'a, T: Deserialize<'a>>(t: &'a [u8]) -> Result<T, String> {
    let mut d = serde_json::Deserializer::from_slice(t);
    d.disable_recursion_limit();
    T::deserialize(&mut d).map_err(|e| e.to_string())
}

/// Stands in a path for a byte that is no text.
pub const RAW: char = '\u{F8FF}';
pub fn pb(p: &str) -> Vec<u8> {
    let mut o = vec![];
    for c in p.chars() { if c == RAW { o.push(0xff) } else { o.extend(c.encode_utf8(&mut [0; 4]).as_bytes()) } }
    o
}
pub fn ps(b: &[u8]) -> String { b.split(|b| *b == 0xff).map(|s| String::from_utf8_lossy(s).into_owned()).collect::<Vec<_>>().join(&RAW.to_string()) }
pub fn pp(p: &str) -> std::path::PathBuf { use std::os::unix::ffi::OsStringExt; std::ffi::OsString::from_vec(pb(p)).into() }
pub fn po(p: &std::path::Path) -> String { ps(p.as_os_str().as_encoded_bytes()) }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Init { Dir, File(B), Unreadable(B), Link(B), Special, NoSearchDir }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Script {
    pub name: String,
    /// Kind of source (0 file, 1 custom) and its text.
    pub src: Option<(u8, String)>,
    pub interp: u8,
    pub profile: Option<String>,
    /// Data per state of the provider object.
    pub alts: Vec<Vec<(String, D)>>,
    /// Messages of the error chain it returns, if it fails.
    pub err: Vec<String>,
    pub yields: u8,
    pub panic: bool,
    /// Its metadata already names a place in the code.
    #[serde(default)]
    pub loc: bool,
    /// It builds a figment of its own while it is read.
    #[serde(default)]
    pub inner: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum EStep {
    /// Filter by a predicate, map or filter-map by index into the fixed menus of `envp`.
    Filter(u8),
    Map(u8),
    FilterMap(u8),
    Split(String),
    Only(Vec<String>),
    Ignore(Vec<String>),
    Lower(bool),
    Profile(String),
    Global,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EnvP { pub prefix: Option<String>, pub steps: Vec<EStep> }

/// Set on a serializing provider after it was made.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Then { Key(String), Profile(String) }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Prov {
    Script(Script),
    /// Constructor: 0 from, 1 defaults, 2 globals, 3 default, 4 global.
    Ser { ctor: u8, profile: String, key: Option<String>, v: V, fail: Option<String>, #[serde(default)] then: Vec<Then> },
    Tuple { key: String, v: V, fail: Option<String> },
    /// Order: 0 nested or else profile, 1 profile then nested, 2 nested then profile.
    Text { fmt: u8, text: String, nested: bool, profile: Option<String>, #[serde(default)] order: u8 },
    File { fmt: u8, path: String, nested: bool, profile: Option<String>, required: bool, search: bool, swap: bool, #[serde(default)] order: u8 },
    Env(EnvP),
    Fig(usize),
    /// A provider object made earlier by this thread.
    Held(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Fail { After, Visit, Type, Missing, Unknown, Length, Variant, Value, Duplicate }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Sch {
    Fail(Fail),
    Key(String, Box<Sch>),
    Idx(usize, Box<Sch>),
    Opt(Box<Sch>),
    New(Box<Sch>),
    Tagged(Box<Sch>),
    Struct(Box<Sch>),
    Enum(String, Box<Sch>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum JOp {
    SetEnv(String, String),
    ClearEnv,
    File(String, String),
    Bin(String, B),
    Dir(String),
    Cd(String),
    Check,
    Yield,
    Sleep(u32),
    /// The body changes directory by itself.
    Leave(String),
    /// The body removes the directory it is in (0) or the jail's (1).
    Raze(u8),
    /// Any operation, in a jail that is only the place where it happens.
    Op(Box<Op>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum End { Ok, Err(String), Panic(String) }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    New { dst: usize },
    /// how: 0 merge, 1 join, 2 admerge, 3 adjoin, 4 Figment::from
    Combine { src: usize, dst: usize, how: u8, site: u8, by_ref: bool, prov: Prov },
    /// Makes a provider object, to be combined later.
    Hold { k: usize, prov: Prov },
    Select { src: usize, dst: usize, profile: String },
    Focus { src: usize, dst: usize, key: String },
    Clone { src: usize, dst: usize },
    Drop { slot: usize },
    /// Compares a figment with the model and with what it was when built.
    Check { slot: usize },
    Query { slot: usize, path: String },
    Tagged { slot: usize },
    Error { slot: usize, entry: u8, at: String, schema: Sch },
    Paths { slot: usize },
    Display { slot: usize },
    /// Asks a provider directly: 0 its data, 1 what it iterates over or its format's reader.
    Read { api: u8, prov: Prov },
    Epoch,
    SetEnv { k: B, v: B },
    UnsetEnv { k: B },
    Var { name: String, api: u8, default: String },
    Put { path: String, data: B, fresh: bool },
    Remove { path: String },
    Mkdir { path: String },
    Rename { a: String, b: String },
    Symlink { target: String, path: String },
    Chdir { path: String },
    Jail { body: Vec<JOp>, end: End, expect: bool },
    Yield,
    Sleep { us: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Knobs {
    pub p: [u32; 5],
    pub clock_jump: u32,
    pub rates: Vec<(usize, u32)>,
    pub fault_max: u32,
    pub max_read: usize,
    pub max_write: usize,
    pub space: Option<usize>,
    pub dir_seed: u64,
    pub teardown_faults: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scen {
    pub prop: String,
    pub seed: u64,
    pub env: Vec<(B, B)>,
    pub tree: Vec<(String, Init)>,
    pub cwd: String,
    pub warmup: u32,
    /// As many providers have been combined before, if not 0.
    #[serde(default)]
    pub age: u64,
    pub slots: usize,
    pub tasks: Vec<Vec<Op>>,
    pub knobs: Knobs,
    /// An explicit schedule and fault trace; chosen from the seed when absent.
    pub sched: Option<Vec<[u32; 3]>>,
    pub faults: Option<Vec<[u32; 4]>>,
}
