//! The simulated file system: an in-memory tree, its history, its descriptors and its faults.
use std::collections::BTreeMap;
use std::rc::Rc;

use crate::rng::mix;
use crate::sched::{in_target, sim, Mode};

pub const NFAULT: usize = 22;
pub const F_OPEN_ERR: usize = 0;
pub const F_OPEN_EINTR: usize = 1;
pub const F_READ_ERR: usize = 2;
pub const F_SHORT_READ: usize = 3;
pub const F_READ_EINTR: usize = 4;
pub const F_STAT_ERR: usize = 5;
pub const F_SIZE_LIE: usize = 6;
pub const F_WRITE_ERR: usize = 7;
pub const F_SHORT_WRITE: usize = 8;
pub const F_WRITE_EINTR: usize = 9;
pub const F_WRITE_ZERO: usize = 10;
pub const F_MKDIR_ERR: usize = 11;
pub const F_MKDIR_EXIST: usize = 12;
pub const F_GETCWD_ERR: usize = 13;
pub const F_CHDIR_ERR: usize = 14;
pub const F_UNLINK_ERR: usize = 15;
pub const F_REALPATH_ERR: usize = 16;
pub const F_SPURIOUS: usize = 17;
pub const F_CLOCK: usize = 18;
pub const F_READDIR_ERR: usize = 19;
pub const F_CLOSE_ERR: usize = 20;
pub const F_DISK_FULL: usize = 21;
pub const FAULT_NAMES: [&str; NFAULT] = [
    "open_error", "open_eintr", "read_error", "short_read", "read_eintr", "stat_error", "file_size_lie",
    "write_error", "short_write", "write_eintr", "write_zero", "mkdir_error", "mkdir_name_collision",
    "getcwd_error", "chdir_error", "unlink_error", "realpath_error", "spurious_futex_wakeup", "clock_jump",
    "readdir_error", "close_error", "disk_full",
];

pub const FD_BASE: i32 = 100_000;

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    File { data: Rc<Vec<u8>>, readable: bool },
    Dir { ents: BTreeMap<Vec<u8>, u32>, parent: u32, search: bool },
    Link(Vec<u8>),
    /// Neither a regular file nor a directory (a FIFO, say).
    Special,
}

/// One state of the tree. Cloned on every change, so that all past states stay available.
#[derive(Clone, Debug, PartialEq)]
pub struct Tree { pub nodes: BTreeMap<u32, Node>, pub cwd: u32, pub next: u32 }

pub enum Res { Ok { parent: u32, name: Vec<u8>, ino: Option<u32> }, Err(i32) }

impl Tree {
    pub fn new() -> Tree {
        let mut nodes = BTreeMap::new();
        nodes.insert(1, Node::Dir { ents: BTreeMap::new(), parent: 1, search: true });
        Tree { nodes, cwd: 1, next: 2 }
    }

    pub fn dir(&self, i: u32) -> Option<&BTreeMap<Vec<u8>, u32>> {
        match self.nodes.get(&i) { Some(Node::Dir { ents, .. }) => Some(ents), _ => None }
    }

    fn dir_mut(&mut self, i: u32) -> Option<&mut BTreeMap<Vec<u8>, u32>> {
        match self.nodes.get_mut(&i) { Some(Node::Dir { ents, .. }) => Some(ents), _ => None }
    }

    pub fn walk(&self, at: u32, path: &[u8], follow: bool) -> Res { self.walk_d(at, path, follow, 0) }

    fn walk_d(&self, at: u32, path: &[u8], follow: bool, depth: u32) -> Res {
        if path.is_empty() { return Res::Err(libc::ENOENT) }
        if path.len() >= 4096 { return Res::Err(libc::ENAMETOOLONG) }
        if depth > 20 { return Res::Err(libc::ELOOP) }
        let mut cur = if path[0] == b'/' { 1 } else { at };
        if !self.nodes.contains_key(&cur) { return Res::Err(libc::ENOENT) }
        let trailing = path.last() == Some(&b'/');
        let comps: Vec<&[u8]> = path.split(|c| *c == b'/').filter(|c| !c.is_empty()).collect();
        if comps.is_empty() { return Res::Ok { parent: cur, name: b".".to_vec(), ino: Some(cur) } }
        for (i, c) in comps.iter().enumerate() {
            let last = i + 1 == comps.len();
            let (ents, parent, search) = match self.nodes.get(&cur) {
                Some(Node::Dir { ents, parent, search }) => (ents, *parent, *search),
                _ => return Res::Err(libc::ENOTDIR),
            };
            if c.len() > 255 { return Res::Err(libc::ENAMETOOLONG) }
            if !search { return Res::Err(libc::EACCES) }
            let child = match *c { b"." => Some(cur), b".." => Some(parent), c => ents.get(c).copied() };
            let child = match child {
                Some(x) => x,
                None if last => return Res::Ok { parent: cur, name: c.to_vec(), ino: None },
                None => return Res::Err(libc::ENOENT),
            };
            if let Some(Node::Link(t)) = self.nodes.get(&child) {
                if !last || follow || trailing {
                    match self.walk_d(cur, t, true, depth + 1) {
                        Res::Ok { parent, name, ino: Some(x) } => {
                            if last { return Res::Ok { parent, name, ino: Some(x) } }
                            cur = x;
                            continue;
                        }
                        r @ Res::Ok { ino: None, .. } => { if last { return r } return Res::Err(libc::ENOENT) }
                        e => return e,
                    }
                }
            }
            if last {
                if trailing && !matches!(self.nodes.get(&child), Some(Node::Dir { .. })) { return Res::Err(libc::ENOTDIR) }
                return Res::Ok { parent: cur, name: c.to_vec(), ino: Some(child) }
            }
            cur = child;
        }
        unreachable!()
    }

    pub fn lookup(&self, path: &[u8]) -> Result<u32, i32> { self.lookup_at(self.cwd, path, true) }

    pub fn lookup_at(&self, at: u32, path: &[u8], follow: bool) -> Result<u32, i32> {
        match self.walk(at, path, follow) {
            Res::Ok { ino: Some(i), .. } => Ok(i),
            Res::Ok { .. } => Err(libc::ENOENT),
            Res::Err(e) => Err(e),
        }
    }

    pub fn is_file(&self, path: &[u8]) -> bool {
        self.lookup(path).map_or(false, |i| matches!(self.nodes.get(&i), Some(Node::File { .. })))
    }

    pub fn file(&self, i: u32) -> Option<&Rc<Vec<u8>>> {
        match self.nodes.get(&i) { Some(Node::File { data, .. }) => Some(data), _ => None }
    }

    /// Absolute path of a directory, if it is still attached to the root.
    pub fn path_of(&self, mut i: u32) -> Option<Vec<u8>> {
        let mut out: Vec<Vec<u8>> = vec![];
        while i != 1 {
            let parent = match self.nodes.get(&i) { Some(Node::Dir { parent, .. }) => *parent, _ => return None };
            let name = self.dir(parent)?.iter().find(|(_, v)| **v == i)?.0.clone();
            out.push(name);
            i = parent;
        }
        let mut p = vec![];
        for c in out.iter().rev() { p.push(b'/'); p.extend(c) }
        if p.is_empty() { p.push(b'/') }
        Some(p)
    }

    /// Every path in the tree with what is there, except below `skip`.
    pub fn listing(&self, skip: &[Vec<u8>]) -> BTreeMap<Vec<u8>, Node> {
        let mut out = BTreeMap::new();
        let mut todo = vec![(1u32, vec![])];
        while let Some((i, p)) = todo.pop() {
            if let Some(ents) = self.dir(i) {
                for (n, c) in ents {
                    let mut q: Vec<u8> = p.clone();
                    q.push(b'/'); q.extend(n);
                    if skip.iter().any(|s| *s == q) { continue }
                    let node = match &self.nodes[c] {
                        Node::Dir { search, .. } => Node::Dir { ents: BTreeMap::new(), parent: 0, search: *search },
                        n => n.clone(),
                    };
                    out.insert(q.clone(), node);
                    todo.push((*c, q));
                }
            }
        }
        out
    }

    fn add(&mut self, parent: u32, name: &[u8], n: Node) -> u32 {
        let i = self.next;
        self.next += 1;
        self.nodes.insert(i, n);
        self.dir_mut(parent).unwrap().insert(name.to_vec(), i);
        i
    }

    pub fn mkdir(&mut self, at: u32, path: &[u8]) -> Result<u32, i32> {
        match self.walk(at, path, false) {
            Res::Ok { ino: Some(_), .. } => Err(libc::EEXIST),
            Res::Ok { parent, name, .. } => Ok(self.add(parent, &name, Node::Dir { ents: BTreeMap::new(), parent, search: true })),
            Res::Err(e) => Err(e),
        }
    }

    pub fn mkdirs(&mut self, path: &[u8]) {
        let mut p = vec![];
        for c in path.split(|c| *c == b'/').filter(|c| !c.is_empty()) {
            p.push(b'/'); p.extend(c);
            let _ = self.mkdir(1, &p.clone());
        }
    }

    /// Creates or replaces the content of a file. With `fresh`, as a new inode renamed into place.
    pub fn put(&mut self, path: &[u8], bytes: &[u8], fresh: bool) -> Result<u32, i32> {
        match self.walk(self.cwd, path, true) {
            Res::Ok { parent, name, ino } => {
                match ino {
                    Some(i) if !fresh => match self.nodes.get_mut(&i) {
                        Some(Node::File { data, .. }) => { *data = Rc::new(bytes.to_vec()); Ok(i) }
                        _ => Err(libc::EISDIR),
                    },
                    Some(i) if matches!(self.nodes[&i], Node::Dir { .. }) => Err(libc::EISDIR),
                    _ => Ok(self.add(parent, &name, Node::File { data: Rc::new(bytes.to_vec()), readable: true })),
                }
            }
            Res::Err(e) => Err(e),
        }
    }

    pub fn put_node(&mut self, path: &[u8], n: Node) -> Result<u32, i32> {
        match self.walk(self.cwd, path, false) {
            Res::Ok { ino: Some(_), .. } => Err(libc::EEXIST),
            Res::Ok { parent, name, .. } => Ok(self.add(parent, &name, n)),
            Res::Err(e) => Err(e),
        }
    }

    pub fn remove(&mut self, path: &[u8]) -> Result<(), i32> {
        match self.walk(self.cwd, path, false) {
            Res::Ok { parent, name, ino: Some(i) } => {
                if i == 1 || name == b"." || name == b".." { return Err(libc::EBUSY) }
                self.dir_mut(parent).unwrap().remove(&name);
                Ok(())
            }
            Res::Ok { .. } => Err(libc::ENOENT),
            Res::Err(e) => Err(e),
        }
    }

    pub fn rename(&mut self, at_a: u32, a: &[u8], at_b: u32, b: &[u8]) -> Result<(), i32> {
        let (pa, na, i) = match self.walk(at_a, a, false) {
            Res::Ok { parent, name, ino: Some(i) } => (parent, name, i),
            Res::Ok { .. } => return Err(libc::ENOENT),
            Res::Err(e) => return Err(e),
        };
        let (pb, nb, j) = match self.walk(at_b, b, false) {
            Res::Ok { parent, name, ino } => (parent, name, ino),
            Res::Err(e) => return Err(e),
        };
        if na == b"." || na == b".." || nb == b"." || nb == b".." || i == 1 { return Err(libc::EBUSY) }
        if j == Some(i) { return Ok(()) }
        if let Some(j) = j {
            match (&self.nodes[&i], &self.nodes[&j]) {
                (Node::Dir { .. }, Node::Dir { ents, .. }) if ents.is_empty() => {}
                (Node::Dir { .. }, Node::Dir { .. }) => return Err(libc::ENOTEMPTY),
                (Node::Dir { .. }, _) => return Err(libc::ENOTDIR),
                (_, Node::Dir { .. }) => return Err(libc::EISDIR),
                _ => {}
            }
        }
        // a directory must not move below itself
        if matches!(self.nodes[&i], Node::Dir { .. }) {
            let mut k = pb;
            loop {
                if k == i { return Err(libc::EINVAL) }
                if k == 1 { break }
                k = match &self.nodes[&k] { Node::Dir { parent, .. } => *parent, _ => break };
            }
        }
        self.dir_mut(pa).unwrap().remove(&na);
        self.dir_mut(pb).unwrap().insert(nb, i);
        if let Some(Node::Dir { parent, .. }) = self.nodes.get_mut(&i) { *parent = pb }
        Ok(())
    }
}

pub struct Fd { pub ino: u32, pub pos: usize, pub flags: i32, pub path: Vec<u8> }

/// One system call made by a task, as recorded for the oracles.
#[derive(Clone, Debug)]
pub struct Ev {
    pub state: usize,
    pub task: usize,
    pub call: &'static str,
    pub path: Vec<u8>,
    pub fd: i32,
    pub ino: u32,
    pub ret: i64,
    pub errno: i32,
    pub data: Vec<u8>,
    pub fault: Option<usize>,
}

pub struct Vfs {
    /// All states of the tree so far; the last is the current one.
    pub hist: Vec<Rc<Tree>>,
    pub fds: BTreeMap<i32, Fd>,
    pub next_fd: i32,
    pub ev: Vec<Ev>,
    /// Bytes that may still be written before the disk is full.
    pub space: Option<usize>,
    /// A real limit on how much one write call takes (0: none).
    pub max_write: usize,
    pub max_read: usize,
    pub dir_seed: u64,
}

impl Vfs {
    pub fn new() -> Vfs {
        Vfs { hist: vec![Rc::new(Tree::new())], fds: BTreeMap::new(), next_fd: FD_BASE, ev: vec![], space: None, max_write: 0, max_read: 0, dir_seed: 0 }
    }
    pub fn cur(&self) -> &Tree { self.hist.last().unwrap() }
    pub fn now(&self) -> usize { self.hist.len() - 1 }
    /// Applies a change atomically, as one new state.
    pub fn change<R>(&mut self, f: impl FnOnce(&mut Tree) -> R) -> R {
        let mut t = (**self.hist.last().unwrap()).clone();
        let r = f(&mut t);
        self.hist.push(Rc::new(t));
        r
    }
    pub fn log(&mut self, call: &'static str, path: &[u8], fd: i32, ino: u32, ret: i64, errno: i32, data: &[u8], fault: Option<usize>) {
        let task = crate::sched::TASK.with(|t| t.get()).max(0) as usize;
        let mut h = mix(call.len() as u64 ^ (ret as u64) << 8 ^ (errno as u64) << 40);
        for b in call.bytes().chain(path.iter().copied()).chain(data.iter().copied()) { h = mix(h ^ b as u64) }
        sim().note(h);
        self.ev.push(Ev { state: self.now(), task, call, path: path.to_vec(), fd, ino, ret, errno, data: data.to_vec(), fault });
    }
}

/// Decides whether one of `kinds` strikes the call being made now. Returns the kind and a parameter.
pub fn fault(kinds: &[usize]) -> Option<(usize, u32)> {
    if !in_target() { return None }
    let s = sim();
    let me = s.cur;
    s.tasks[me].call += 1;
    let call = s.tasks[me].call;
    if s.nofault[me] { return None }
    let hit = match (&s.mode, &s.fault_replay) {
        (_, Some(m)) => m.get(&(me as u32, call)).copied().filter(|(k, _)| kinds.contains(&(*k as usize))).map(|(k, p)| (k as usize, p)),
        (Mode::Replay(_), None) => None,
        (Mode::Explore(_), None) => {
            let mut hit = None;
            if s.fault_max > 0 {
                for &k in kinds {
                    let rate = s.fault_rates[k];
                    if rate > 0 && s.frng.p16(rate) { hit = Some((k, s.frng.next() as u32)); break }
                }
            }
            hit
        }
    };
    if let Some((k, p)) = hit {
        s.fault_max = s.fault_max.saturating_sub(1);
        s.fault_counts[k] += 1;
        unsafe {
            let m = &mut *s.shm;
            if (m.nf as usize) < crate::sched::MAXF { m.faults[m.nf as usize] = [me as u32, call, k as u32, p] }
            m.nf += 1;
        }
        s.note((k as u64) << 32 | p as u64);
    }
    hit
}

pub fn pick_errno(param: u32, from: &[i32]) -> i32 { from[param as usize % from.len()] }
