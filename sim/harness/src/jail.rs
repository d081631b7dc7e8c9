//! Jails: their bodies, and what must hold before, during and after each.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

use figment::providers::{Env, Format, Toml};
use figment::{Figment, Jail, Provider};
use simrt::sched::{point, quiet, sim, target, Kind};
use simrt::vfs::Node;

use crate::exec::{ctx, panic_text, short};
use crate::scen::{End, JOp};

pub type EnvMap = BTreeMap<Vec<u8>, Vec<u8>>;

#[derive(Default)]
pub struct JState {
    /// State of the process before any jail.
    base: Option<(EnvMap, u32, BTreeMap<Vec<u8>, Node>)>,
    /// The task whose jail's body is running.
    active: Option<usize>,
    entered: u64,
    inflight: usize,
    /// Jail directories so far.
    dirs: BTreeSet<Vec<u8>>,
    /// Directories whose removal was hit by a fault.
    excused: BTreeSet<Vec<u8>>,
    /// A fault may have kept a jail from putting the working directory back.
    cwd_excused: bool,
    leak_excused: bool,
    /// Per thread whose jail is ending: where its events begin, and its directory.
    ending: BTreeMap<usize, (usize, Vec<u8>)>,
}

fn env() -> EnvMap { simrt::sys::env_now().into_iter().collect() }

pub fn env_diff(now: &EnvMap, want: &EnvMap) -> Option<String> {
    let s = |b: &Vec<u8>| String::from_utf8_lossy(b).into_owned();
    for (k, v) in want { match now.get(k) { None => return Some(format!("{:?} is unset but should be {:?}", s(k), s(v))), Some(w) if w != v => return Some(format!("{:?} is {:?} but should be {:?}", s(k), s(w), s(v))), _ => {} } }
    for k in now.keys() { if !want.contains_key(k) { return Some(format!("{:?} is set to {:?} but should be unset", s(k), s(&now[k]))) } }
    None
}

fn base() -> &'static (EnvMap, u32, BTreeMap<Vec<u8>, Node>) {
    let c = ctx();
    if c.j.base.is_none() { let t = sim().vfs.cur(); c.j.base = Some((env(), t.cwd, t.listing(&[]))) }
    c.j.base.as_ref().unwrap()
}

fn show(p: &[u8]) -> String { String::from_utf8_lossy(p).into_owned() }
fn cwd_path() -> Vec<u8> { let t = sim().vfs.cur(); t.path_of(t.cwd).unwrap_or_else(|| b"(removed)".to_vec()) }
fn faults_of(me: usize, from: usize) -> Vec<&'static str> { sim().vfs.ev[from..].iter().filter(|e| e.task == me && e.fault.is_some()).map(|e| e.call).collect() }

/// Takes note of the faults that struck jails which are ending just now.
fn absorb() {
    let c = ctx();
    for (t, (from, dir)) in c.j.ending.clone() {
        for call in faults_of(t, from) {
            if call == "chdir" || call == "fchdir" { c.j.cwd_excused = true } else { c.j.leak_excused = true; c.j.excused.insert(dir.clone()); }
        }
    }
}

fn tmp_dir_ok() -> bool {
    let t = sim().vfs.cur();
    let d = env().get(&b"TMPDIR"[..]).cloned().unwrap_or_else(|| b"/tmp".to_vec());
    t.lookup(&d).map_or(false, |i| t.dir(i).is_some())
}

/// The path with dot and parent components resolved by spelling, never leaving `base`'s root.
fn lexical(p: &str) -> String {
    let mut o: Vec<&str> = vec![];
    for c in p.split('/') { match c { "" | "." => {} ".." => { o.pop(); } c => o.push(c) } }
    format!("{}{}", if p.starts_with('/') { "/" } else { "" }, o.join("/"))
}

struct Body { dir: Vec<u8>, env: EnvMap, files: BTreeMap<String, i64>, left: bool, razed: bool }

fn enter(j: &Jail) -> Option<Body> {
    let c = ctx();
    let me = sim().cur;
    let dir = j.directory().as_os_str().as_encoded_bytes().to_vec();
    if let Some(t) = c.j.active { c.viol(&["J01"], format!("the jail of thread {} starts while the jail of thread {} is running", me, t)); if c.stop { return None } }
    c.j.active = Some(me);
    c.j.entered += 1;
    c.probe("jail_entered");
    if c.j.entered > 1 { c.probe("jail_after_jail") }
    let b = base();
    let t = sim().vfs.cur();
    absorb();
    if let Some(d) = env_diff(&env(), &b.0) { c.viol(&["J01", "J02"], format!("a jail starts with another environment than before any jail: {}", d)); if c.stop { return None } }
    match t.lookup(&dir) {
        Ok(i) if t.dir(i).is_some() => {
            if t.dir(i).map_or(false, |d| !d.is_empty()) { c.viol(&["J01", "J03"], format!("the fresh directory {} of a jail is not empty", show(&dir))); if c.stop { return None } }
            if t.cwd != i { c.viol(&["J01", "J03"], format!("a jail with the directory {} starts in {}", show(&dir), show(&cwd_path()))); if c.stop { return None } }
        }
        _ => { c.viol(&["J03", "J01"], format!("the directory {} of a jail does not exist when it starts", show(&dir))); if c.stop { return None } }
    }
    for d in c.j.dirs.clone().iter() {
        if *d == dir { c.viol(&["J03", "J01"], format!("two jails have the same directory {}", show(d))); if c.stop { return None } }
        if t.lookup(d).is_ok() && !c.j.excused.contains(d) { c.viol(&["J01", "J03"], format!("a jail starts though the directory {} of an earlier one is still there", show(d))); if c.stop { return None } }
    }
    c.j.dirs.insert(dir.clone());
    Some(Body { dir, env: b.0.clone(), files: BTreeMap::new(), left: false, razed: false })
}

fn inside(dir: &[u8], p: &[u8]) -> bool { p == dir || (p.starts_with(dir) && p[dir.len()] == b'/') }

/// What must hold at every moment of a jail's body.
fn steady(b: &Body, what: &str) {
    let c = ctx();
    if c.stop { return }
    let me = sim().cur;
    if c.j.active != Some(me) { c.viol(&["J01"], format!("{}: another jail started while this one was running", what)) }
    if let Some(d) = env_diff(&env(), &b.env) { c.viol(&["J01", "J02"], format!("{}: inside a jail {}", what, d)) }
    let t = sim().vfs.cur();
    if b.razed { return }
    if t.lookup(&b.dir).is_err() { c.viol(&["J01", "J03"], format!("{}: the jail's directory is gone while it runs", what)) }
    if b.left { return }
    let w = cwd_path();
    if !inside(&b.dir, &w) { c.viol(&["J01", "J04"], format!("{}: the working directory is {}, outside of the jail's {}", what, show(&w), show(&b.dir))) }
}

fn create(j: &Jail, b: &mut Body, path: &str, bytes: &[u8], text: Option<&str>) {
    let c = ctx();
    let cwd = sim().vfs.cur().cwd;
    let ev = sim().vfs.ev.len();
    let me = sim().cur;
    let space = sim().vfs.space;
    let r = target(|| { let r = match text { Some(t) => j.create_file(path, t), None => j.create_binary(path, bytes) }; r.map(drop).map_err(|e| e.to_string()) });
    let t = sim().vfs.cur();
    match r {
        Ok(()) => {
            let at = |p: &str| t.lookup_at(if p.starts_with('/') { 1 } else { cwd }, p.as_bytes(), true).ok().and_then(|i| t.file(i)).map(|d| d.to_vec());
            let (a, l) = (at(path), at(&lexical(path)));
            if a.as_deref() != Some(bytes) && l.as_deref() != Some(bytes) {
                let got = a.or(l);
                return c.viol(&["J05"], format!("creating `{}` with {} bytes succeeded but the file {}", short(path.into()), bytes.len(), got.map_or("does not exist".into(), |g| format!("holds {} bytes{}", g.len(), g.iter().zip(bytes).position(|(x, y)| x != y).map_or(String::new(), |i| format!(" differing from {}", i))))));
            }
            if !faults_of(me, ev).is_empty() { c.probe("create_despite_fault") }
            c.probe("file_created");
        }
        Err(_) => {
            if faults_of(me, ev).iter().any(|c| *c == "write") { c.probe("create_failed_by_write") }
            else if space.is_none() && faults_of(me, ev).is_empty() && plain(path) && parent_is_dir(b, cwd, path) { c.probe("create_refused") }
        }
    }
}

fn plain(p: &str) -> bool { !p.starts_with('/') && !p.is_empty() && p.split('/').all(|c| !c.is_empty() && c != "." && c != "..") }
fn parent_is_dir(b: &Body, cwd: u32, p: &str) -> bool {
    let _ = b;
    let t = sim().vfs.cur();
    match p.rfind('/') { Some(i) => t.lookup_at(cwd, p[..i].as_bytes(), true).map_or(false, |i| t.dir(i).is_some()), None => true }
}

fn subst(p: &str, dir: &[u8]) -> String { let d = show(dir); p.replace("{B}", d.rsplit('/').next().unwrap_or("")).replace("{J}", &d) }

fn step(j: &mut Jail, b: &mut Body, op: &JOp, bad: &Cell<bool>) {
    let c = ctx();
    // once the body has left or removed its directory, the jail's promises about paths are off
    if (b.left || b.razed) && matches!(op, JOp::File(..) | JOp::Bin(..) | JOp::Dir(_) | JOp::Cd(_) | JOp::Check | JOp::Leave(_) | JOp::Raze(_)) { return }
    match op {
        JOp::Leave(p) => { if std::env::set_current_dir(crate::scen::pp(p)).is_ok() { b.left = true; c.probe("jail_body_left") } }
        JOp::Raze(k) => {
            let w = cwd_path();
            if *k == 0 && w != b.dir { if std::fs::remove_dir_all(&show(&w)).is_ok() { b.left = true; c.probe("jail_body_removed_cwd") } }
            else if std::fs::remove_dir_all(j.directory()).is_ok() { b.razed = true; c.probe("jail_body_removed_jail") }
        }
        JOp::SetEnv(k, v) => {
            bad.set(k.is_empty() || k.contains('=') || k.contains('\0') || v.contains('\0'));
            target(|| j.set_env(k, v));
            bad.set(false);
            b.env.insert(k.clone().into_bytes(), v.clone().into_bytes());
            c.probe("jail_set_env");
        }
        JOp::ClearEnv => { target(|| j.clear_env()); b.env.clear(); c.probe("jail_clear_env") }
        JOp::Op(o) => crate::exec::run_op(o),
        JOp::Yield => target(|| for _ in 0..3 { point(Kind::Op) }),
        JOp::Sleep(us) => target(|| std::thread::sleep(std::time::Duration::from_micros(*us as u64))),
        JOp::Check => {
            // the jailed code configures itself
            let f = match b.files.iter().next() { Some((f, n)) => Some((f.clone(), *n)), None => None };
            let ev = sim().vfs.ev.len();
            let r = target(|| {
                let mut g = Figment::from(Env::raw());
                if let Some((f, _)) = &f { g = g.merge(Toml::file(f)) }
                g.data().map_err(|e| e.to_string())
            });
            if !faults_of(sim().cur, ev).is_empty() { return }
            let r = match r { Ok(d) => d, Err(e) => return c.viol(&["J01", "E01"], format!("a configuration inside a jail fails: {}", e)) };
            let d = r.get(&figment::Profile::Default).cloned().unwrap_or_default();
            if let Some((_, n)) = &f {
                if d.get("jail_file_value").and_then(|v| v.to_i128()) != Some(*n as i128) { return c.viol(&["J01", "F01"], "a configuration inside a jail does not see the jail's file".into()) }
            }
            c.probe("jail_configured");
        }
        JOp::File(..) | JOp::Bin(..) | JOp::Dir(_) | JOp::Cd(_) => {
            let skip = vec![b.dir.clone()];
            let before = sim().vfs.cur().listing(&skip);
            let ev = sim().vfs.ev.len();
            let me = sim().cur;
            match op {
                JOp::File(p, t) => {
                    let p = subst(p, &b.dir);
                    create(j, b, &p, t.as_bytes(), Some(t));
                }
                JOp::Bin(p, x) => { let p = subst(p, &b.dir); create(j, b, &p, &x.0, None) }
                JOp::Dir(p) => { let p = subst(p, &b.dir); if target(|| j.create_dir(&p).is_ok()) { c.probe("jail_dir_created") } else { c.probe("jail_dir_refused") } }
                JOp::Cd(p) => { let p = subst(p, &b.dir); if target(|| j.change_dir(&p).is_ok()) { c.probe("jail_dir_changed") } else { c.probe("jail_dir_change_refused") } }
                _ => {}
            }
            if c.stop { return }
            let t = sim().vfs.cur();
            let after = t.listing(&skip);
            if before != after && sim().vfs.ev[ev..].iter().all(|e| e.task == me) {
                let d: Vec<String> = after.iter().filter(|(k, v)| before.get(*k) != Some(v)).map(|(k, _)| k).chain(before.keys().filter(|k| !after.contains_key(*k))).map(|k| show(k)).collect();
                c.viol(&["J04"], format!("{:?} in the jail {} changed {:?} outside of it", op, show(&b.dir), d));
            }
            if !inside(&b.dir, &cwd_path()) { return c.viol(&["J04"], format!("{:?} in the jail {} entered {}", op, show(&b.dir), show(&cwd_path()))) }
        }
    }
    if c.stop { return }
    if let JOp::File(p, t) = op {
        // remember plain files by content, for the jail's own configuration
        b.files.clear();
        if let (Some(n), true) = (t.strip_prefix("jail_file_value = ").and_then(|s| s.trim().parse::<i64>().ok()), plain(p)) {
            let tr = sim().vfs.cur();
            if tr.lookup(p.as_bytes()).ok().and_then(|i| tr.file(i)).map_or(false, |d| d.as_slice() == t.as_bytes()) { b.files.insert(p.clone(), n); }
        }
    } else if !matches!(op, JOp::Check | JOp::Yield | JOp::Sleep(_) | JOp::SetEnv(..)) { b.files.clear() }
}

/// A jail whose own promises are not under check: other threads may do to the process what they like meanwhile.
fn host(body: &[JOp], end: &End, expect: bool) {
    let f = |j: &mut Jail| -> figment::error::Result<()> {
        quiet(|| {
            let c = ctx();
            c.probe("jail_hosts_operations");
            c.changed = true;
            for op in body {
                if c.stop || c.skip { break }
                match op {
                    JOp::Op(o) => crate::exec::run_op(o),
                    JOp::SetEnv(k, v) => target(|| j.set_env(k, v)),
                    JOp::ClearEnv => target(|| j.clear_env()),
                    JOp::File(p, t) => { target(|| { let _ = j.create_file(crate::scen::pp(p), t); }) }
                    JOp::Bin(p, x) => { target(|| { let _ = j.create_binary(crate::scen::pp(p), &x.0); }) }
                    JOp::Dir(p) => { target(|| { let _ = j.create_dir(crate::scen::pp(p)); }) }
                    JOp::Cd(p) => { target(|| { let _ = j.change_dir(crate::scen::pp(p)); }) }
                    _ => target(|| point(Kind::Op)),
                }
            }
            if !c.scen.knobs.teardown_faults { sim().nofault[sim().cur] = true }
            match end { End::Ok => Ok(()), End::Err(m) => Err(m.clone().into()), End::Panic(m) => std::panic::panic_any(m.clone()) }
        })
    };
    let _ = catch_unwind(AssertUnwindSafe(|| target(|| if expect { Jail::expect_with(f); Ok(()) } else { Jail::try_with(f) })));
    sim().nofault[sim().cur] = false;
}

/// A panic of something that is no text.
struct Odd(String);

/// The error a body ends by: one or several, plain or with everything an error can carry.
fn failure(m: &str) -> figment::Error {
    use figment::error::{Actual, Error, Kind};
    let e = Error::from(m.to_string());
    match odds(m, 5) {
        1 => e.with_path("some.key"),
        2 => {
            let mut x = Error::from(Kind::InvalidType(Actual::Bool(true), "a number".into())).with_path("other").with_path("key");
            x.profile = Some("odd".into());
            x.metadata = Some(figment::Metadata::from("a provider", figment::Source::Custom("nowhere".into())));
            x
        }
        3 => Error::from(Kind::MissingField("port".into())).chain(e.with_path("a.b")).chain(Error::from("third".to_string())),
        4 => Error::from(Kind::UnknownVariant("x".into(), &["y", "z"])).chain(e),
        _ => e,
    }
}

fn same_error(a: &figment::Error, b: &figment::Error) -> bool {
    let all = |e: &figment::Error| e.clone().into_iter().map(|e| (e.to_string(), format!("{:?}", e.kind), e.path.clone(), e.profile.clone(), e.metadata.clone())).collect::<Vec<_>>();
    a.count() == b.count() && all(a) == all(b)
}

pub fn run(body: &[JOp], end: &End, expect: bool) {
    let c = ctx();
    if !c.scen.prop.starts_with('J') { return host(body, end, expect) }
    base();
    let me = sim().cur;
    let ev0 = sim().vfs.ev.len();
    let before = sim().vfs.cur().listing(&[]);
    c.j.inflight += 1;
    let ran = Cell::new(false);
    let bad = Cell::new(false);
    let mine: RefCell<Vec<u8>> = Default::default();
    let gen = Cell::new(0);
    let ev_end = Cell::new(usize::MAX);
    let ev_start = Cell::new(usize::MAX);
    let teardown_faults = c.scen.knobs.teardown_faults;
    let leave = |bad_end: bool| {
        let c = ctx();
        if !teardown_faults { sim().nofault[me] = true }
        c.j.active = None;
        ev_end.set(sim().vfs.ev.len());
        c.j.ending.insert(me, (sim().vfs.ev.len(), mine.borrow().clone()));
        let _ = bad_end;
    };
    let f = |jail: &mut Jail| -> figment::error::Result<()> {
        quiet(|| {
            ran.set(true);
            ev_start.set(sim().vfs.ev.len());
            let mut b = match enter(jail) { Some(b) => b, None => return Ok(()) };
            *mine.borrow_mut() = b.dir.clone();
            gen.set(ctx().j.entered);
            for op in body {
                let r = catch_unwind(AssertUnwindSafe(|| step(jail, &mut b, op, &bad)));
                if let Err(p) = r {
                    // an invalid variable panics: the body ends by that panic
                    if !bad.get() { ctx().viol(&["*"], format!("{:?} in a jail panicked: {}", op, panic_text(&*p))) }
                    leave(true);
                    std::panic::resume_unwind(p);
                }
                steady(&b, &format!("after {}", short(format!("{:?}", op))));
                if ctx().stop { break }
            }
            steady(&b, "at its end");
            leave(false);
            match end {
                End::Ok => Ok(()),
                End::Err(m) => Err(failure(m)),
                End::Panic(m) => match odds(m, 4) {
                    1 => std::panic::panic_any(Odd(m.clone())),
                    2 => std::panic::panic_any(failure(m)),
                    _ => std::panic::panic_any(m.clone()),
                }
            }
        })
    };
    let r = catch_unwind(AssertUnwindSafe(|| target(|| if expect { Jail::expect_with(f); Ok(()) } else { Jail::try_with(f) })));
    let c = ctx();
    sim().nofault[me] = false;
    c.j.inflight -= 1;
    absorb();
    c.j.ending.remove(&me);
    if c.stop { return }
    let r = r.map_err(|p| match p.downcast::<Odd>() {
        Ok(o) => if matches!(end, End::Panic(m) if odds(m, 4) == 1) { o.0 } else { format!("payload {}", o.0) },
        Err(p) => match p.downcast::<figment::Error>() {
            Ok(e) => match end { End::Panic(m) if odds(m, 4) == 2 && same_error(&e, &failure(m)) => m.clone(), _ => format!("payload {:?}", e) },
            Err(p) => match end { End::Panic(m) if odds(m, 4) == 1 || odds(m, 4) == 2 => format!("a text: {}", panic_text(&*p)), _ => panic_text(&*p) },
        }
    });
    let outcome = format!("{:?}", r.as_ref().map(|r| r.as_ref().map_err(|e| e.to_string())));
    // J06: the outcome
    let faults = faults_of(me, ev0);
    if !ran.get() {
        let ok = match (&r, expect) { (Ok(Err(_)), false) => true, (Err(m), true) => m.contains("jail failed"), _ => false };
        if !ok { c.viol(&["J06"], format!("a jail that could not be set up (faults {:?}) ended with {}", faults, outcome)) }
        let lost = c.j.cwd_excused;
        if faults.is_empty() && sim().vfs.space.is_none() && !lost && tmp_dir_ok() { c.viol(&["J06"], format!("a jail could not be set up though nothing failed: {}", outcome)) }
        c.probe("jail_setup_failed");
    } else {
        let ok = if bad.get() { c.probe("jail_invalid_variable"); r.is_err() } else { match (end, &r, expect) {
            (End::Ok, Ok(Ok(())), _) => true,
            (End::Err(m), Ok(Err(e)), false) => same_error(e, &failure(m)),
            (End::Err(m), Err(p), true) => failure(m).into_iter().all(|e| p.contains(&e.to_string())),
            (End::Panic(m), Err(p), _) => p == m,
            _ => false,
        } };
        if !ok { c.viol(&["J06"], format!("a jail whose body ended with {:?} ended with {}", end, outcome)) }
        c.probe(match (bad.get(), end) { (true, _) | (_, End::Panic(_)) => "jail_panicked", (_, End::Ok) => "jail_ok", _ => "jail_err" });
    }
    // J03: its directory
    let mine = mine.into_inner();
    let t = sim().vfs.cur();
    let late: Vec<&str> = if ran.get() { faults_of(me, ev_end.get().min(sim().vfs.ev.len())) } else { if faults.len() > 1 || teardown_faults { faults.clone() } else { vec![] } };
    if late.contains(&"chdir") || late.contains(&"fchdir") { c.j.cwd_excused = true }
    if late.iter().any(|c| *c != "chdir" && *c != "fchdir") { c.j.leak_excused = true; c.j.excused.insert(mine.clone()); c.probe("jail_teardown_fault"); }
    if ran.get() {
        if t.lookup(&mine).is_ok() && !c.j.excused.contains(&mine) { c.viol(&["J03"], format!("the directory {} is still there after its jail ended ({})", show(&mine), outcome)) }
    }
    // J02, J03: the process as it was, unless another jail has it now
    if c.j.inflight == 0 {
        let b = base();
        if let Some(d) = env_diff(&env(), &b.0) { c.viol(&["J02", "J01"], format!("after a jail ({}): {}", outcome, d)) }
        let unset = if ev_start.get() != usize::MAX && sim().vfs.ev[ev0..ev_start.get()].iter().any(|e| e.task == me && e.fault.is_some()) { "J06" } else { "J03" };
        if sim().vfs.cur().cwd != b.1 && !c.j.cwd_excused { c.viol(&["J03", "J01", unset], format!("after a jail ({}) the working directory is {}", outcome, show(&cwd_path()))) }
        if !c.j.leak_excused {
            let l = sim().vfs.cur().listing(&[]);
            if l != b.2 { let d = l.keys().find(|k| !b.2.contains_key(*k)); c.viol(&["J03"], format!("after a jail ({}) there is {:?}", outcome, d.map(|d| show(d)))) }
        }
        c.probe("jail_fully_checked");
    } else if c.j.active.is_none() && gen.get() == c.j.entered && ran.get() {
        if let Some(d) = env_diff(&env(), &base().0) { c.viol(&["J02", "J01"], format!("after a jail ({}): {}", outcome, d)) }
    }
    let _ = before;
}

pub fn finish() {
    let c = ctx();
    if c.j.base.is_none() || c.stop { return }
    let b = base();
    if let Some(d) = env_diff(&env(), &b.0) { c.viol(&["J02", "J01"], format!("after all jails: {}", d)) }
    if sim().vfs.cur().cwd != b.1 && !c.j.cwd_excused { c.viol(&["J03", "J01"], format!("after all jails the working directory is {}", show(&cwd_path()))) }
    let l = sim().vfs.cur().listing(&[]);
    if l != b.2 && !c.j.leak_excused { c.viol(&["J03"], "after all jails the file system is not as before".into()) }
}

fn odds(m: &str, n: u32) -> u32 { m.bytes().map(u32::from).sum::<u32>() % n }
