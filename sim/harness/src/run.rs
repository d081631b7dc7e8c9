//! One simulated run in a process of its own.
use std::collections::BTreeMap;

use serde::{Deserialize, Serialize};
use simrt::sched::{self, Mode, Shm, Sim, MAXF, MAXSW};
use simrt::vfs::{Node, Tree};

use crate::exec::{self, Ctx, Viol};
use crate::scen::*;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Out {
    pub viols: Vec<Viol>,
    pub skip: bool,
    pub probes: BTreeMap<String, u64>,
    pub hash: u64,
    pub coarse: u64,
    pub steps: u64,
    pub clock: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub faults: Vec<u32>,
    pub changed: bool,
    /// How the process ended, if not by finishing.
    #[serde(default)]
    pub fatal: Option<String>,
}

pub const START: u64 = 1_700_000_000_000_000_000;

fn plant(t: &mut Tree, p: &str, i: &Init) {
    let b = &pb(p)[..];
    match i {
        Init::Dir => t.mkdirs(b),
        Init::NoSearchDir => { t.mkdirs(b); if let Ok(i) = t.lookup(b) { if let Some(Node::Dir { search, .. }) = t.nodes.get_mut(&i) { *search = false } } }
        Init::File(d) => { let _ = t.put(b, &d.0, false); }
        Init::Unreadable(d) => if let Ok(i) = t.put(b, &d.0, false) { if let Some(Node::File { readable, .. }) = t.nodes.get_mut(&i) { *readable = false } },
        Init::Link(x) => { let _ = t.put_node(b, Node::Link(x.0.clone())); }
        Init::Special => { let _ = t.put_node(b, Node::Special); }
    }
}

fn prepare(s: &Scen, shm: *mut Shm) {
    let env: Vec<(Vec<u8>, Vec<u8>)> = s.env.iter().map(|(k, v)| (k.0.clone(), v.0.clone())).collect();
    simrt::sys::env_reset(&env);
    simrt::silence_panics();
    exec::warmup(s.warmup);
    exec::age(s.age);
    let m = Sim::install(s.seed, s.tasks.len(), shm);
    let mut t = Tree::new();
    for (p, i) in &s.tree { plant(&mut t, p, i) }
    t.mkdirs(&pb(&s.cwd));
    if let Ok(i) = t.lookup(&pb(&s.cwd)) { t.cwd = i }
    m.vfs.hist = vec![std::rc::Rc::new(t)];
    m.vfs.space = s.knobs.space;
    m.vfs.max_read = s.knobs.max_read;
    m.vfs.max_write = s.knobs.max_write;
    m.vfs.dir_seed = s.knobs.dir_seed;
    m.probs.p = s.knobs.p;
    m.probs.clock_jump = s.knobs.clock_jump;
    for (k, r) in &s.knobs.rates { m.fault_rates[*k] = *r }
    m.fault_max = s.knobs.fault_max;
    m.track_env = true;
    simrt::sys::env_mark();
    if let Some(sw) = &s.sched { m.mode = Mode::Replay(sw.iter().map(|x| ((x[0], x[1]), x[2])).collect()) }
    if let Some(f) = &s.faults { m.fault_max = u32::MAX; m.fault_replay = Some(f.iter().map(|x| ((x[0], x[1]), (x[2], x[3]))).collect()) }
    exec::install(Ctx::new(s.clone()));
}

fn go(s: &Scen, shm: *mut Shm) -> Out {
    prepare(s, shm);
    let th: Vec<_> = (0..s.tasks.len()).map(|i| std::thread::Builder::new().stack_size(4 << 20).spawn(move || sched::run_task(i, || exec::run_task(i))).expect("thread")).collect();
    sched::run_all();
    for t in th { let _ = t.join(); }
    let (m, c) = (sched::sim(), exec::ctx());
    Out {
        viols: std::mem::take(&mut c.viols), skip: c.skip, probes: c.probes.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
        hash: m.hash, coarse: m.coarse, steps: m.steps, clock: m.clock - START, switches: m.switches, preemptions: m.preemptions,
        faults: m.fault_counts.to_vec(), changed: c.changed, fatal: None,
    }
}

pub fn shared<T>() -> *mut T {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<T>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        p.cast()
    }
}

pub fn trace(shm: *mut Shm) -> (Vec<[u32; 3]>, Vec<[u32; 4]>) {
    unsafe { let m = &*shm; (m.sw[..(m.nsw as usize).min(MAXSW)].to_vec(), m.faults[..(m.nf as usize).min(MAXF)].to_vec()) }
}

/// Bounds on one run in real terms, for code that never reaches a scheduling point: seconds of processor time, and
/// of any time (a machine with much else to do must not make a difference).
const CPU_S: i64 = 30;
const WALL_S: u32 = 150;

fn cpu_seconds(pid: i32) -> i64 {
    unsafe {
        let (mut id, mut t): (libc::clockid_t, libc::timespec) = (0, std::mem::zeroed());
        if libc::clock_getcpuclockid(pid, &mut id) != 0 || libc::clock_gettime(id, &mut t) != 0 { return 0 }
        t.tv_sec
    }
}

/// Runs a scenario in a child process. The schedule and the faults are left in `shm`.
pub fn run(s: &Scen, shm: *mut Shm) -> Out {
    unsafe {
        let m = &mut *shm;
        m.nsw = 0; m.nf = 0; m.steps = 0; m.clock = 0; m.fatal = 0; m.cur_task = 0; m.cur_op = [0; sched::MAXT];
        let mut fd = [0i32; 2];
        assert!(libc::pipe(fd.as_mut_ptr()) == 0, "pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fd[0]);
            let o = serde_json::to_vec(&go(s, shm)).unwrap();
            let mut at = 0;
            while at < o.len() {
                let n = libc::write(fd[1], o[at..].as_ptr().cast(), o.len() - at);
                if n <= 0 { break }
                at += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fd[1]);
        let mut buf = vec![];
        let mut chunk = [0u8; 65536];
        let mut late = false;
        let mut waited = 0;
        loop {
            let mut p = libc::pollfd { fd: fd[0], events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut p, 1, 1000);
            if r < 0 { continue }
            if r == 0 {
                waited += 1;
                if cpu_seconds(pid) < CPU_S && waited < WALL_S { continue }
                late = true; libc::kill(pid, libc::SIGKILL); break
            }
            let n = libc::read(fd[0], chunk.as_mut_ptr().cast(), chunk.len());
            if n <= 0 { break }
            buf.extend_from_slice(&chunk[..n as usize]);
        }
        libc::close(fd[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if let Ok(o) = serde_json::from_slice::<Out>(&buf) { return o }
        let what = if late { "the run does not end (no progress in real time)".to_string() }
            else if libc::WIFSIGNALED(st) { format!("the process was ended by signal {}", libc::WTERMSIG(st)) }
            else { match libc::WEXITSTATUS(st) {
                71 => "deadlock: every unfinished thread waits forever".into(),
                72 => "no progress: the step limit was reached".into(),
                73 => "harness: internal error".into(),
                101 => "harness: the controlling thread panicked".into(),
                n => format!("the process exited with {}", n),
            } };
        let t = m.cur_task as usize;
        let op = s.tasks.get(t).and_then(|v| v.get((m.cur_op[t] as usize).wrapping_sub(1)));
        let what = format!("{} during {}", what, exec::short(format!("{:?} of thread {}", op, t)));
        Out { viols: vec![Viol { props: vec!["*".into()], msg: what.clone() }], fatal: Some(what), steps: m.steps, ..Default::default() }
    }
}
