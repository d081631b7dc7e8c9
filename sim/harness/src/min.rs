//! Makes a failing scenario small.
use std::time::Instant;

use simrt::rng::{mix, Rng};
use simrt::sched::Shm;

use crate::run::{self, Out};
use crate::scen::*;

pub fn hits(o: &Out, prop: &str) -> Option<String> {
    o.viols.iter().find(|v| v.props.iter().any(|p| p == prop || p == "*")).map(|v| v.msg.clone())
}

pub struct Min { pub prop: String, pub shm: *mut Shm, pub until: Instant, pub tries: u64 }

impl Min {
    fn fails(&mut self, s: &Scen) -> Option<Scen> {
        if Instant::now() > self.until { return None }
        self.tries += 1;
        let o = run::run(s, self.shm);
        hits(&o, &self.prop)?;
        let (sw, f) = run::trace(self.shm);
        let mut r = s.clone();
        r.sched = Some(sw); r.faults = Some(f);
        Some(r)
    }

    /// The scenario with its present schedule, or else with some other one.
    fn some(&mut self, s: &Scen) -> Option<Scen> {
        if let Some(x) = self.fails(s) { return Some(x) }
        let mut r = Rng::new(mix(s.seed ^ self.tries));
        for i in 0..10 {
            let mut c = s.clone();
            c.sched = None; c.faults = None;
            c.seed = r.next();
            if i % 3 == 1 { c.knobs.p = [3000, 20000, 30000, 30000, 0] }
            if let Some(x) = self.fails(&c) { return Some(x) }
        }
        None
    }

    pub fn run(&mut self, s: Scen) -> Scen {
        let mut best = s;
        for _ in 0..3 {
            let before = size(&best);
            // whole tasks, then operations, then what is inside them
            let mut t = 0;
            while t < best.tasks.len() {
                if !best.tasks[t].is_empty() { let mut c = best.clone(); c.tasks[t].clear(); if let Some(x) = self.some(&c) { best = x } }
                t += 1;
            }
            for t in 0..best.tasks.len() {
                let mut n = best.tasks[t].len().next_power_of_two().max(1);
                while n >= 1 {
                    let mut i = 0;
                    while i < best.tasks[t].len() {
                        let mut c = best.clone();
                        let e = (i + n).min(c.tasks[t].len());
                        c.tasks[t].drain(i..e);
                        match self.some(&c) { Some(x) => best = x, None => i += n }
                    }
                    if n == 1 { break }
                    n /= 2;
                }
                for i in 0..best.tasks[t].len() {
                    let mut k = 0;
                    while let Op::Jail { body, .. } = &best.tasks[t][i] {
                        if k >= body.len() { break }
                        let mut c = best.clone();
                        if let Op::Jail { body, .. } = &mut c.tasks[t][i] { body.remove(k); }
                        match self.some(&c) { Some(x) => best = x, None => k += 1 }
                    }
                    if let Op::Jail { body, .. } = &best.tasks[t][i] {
                        // what happens in it may happen without it
                        let inner: Vec<Op> = body.iter().filter_map(|o| if let crate::scen::JOp::Op(o) = o { Some((**o).clone()) } else { None }).collect();
                        let mut c = best.clone();
                        if !inner.is_empty() { c.tasks[t].splice(i..=i, inner); if let Some(x) = self.some(&c) { best = x } }
                    }
                    for c in smaller(&best.tasks[t][i]) {
                        let mut s = best.clone();
                        s.tasks[t][i] = c;
                        if let Some(x) = self.some(&s) { best = x }
                    }
                }
            }
            for part in 0..2 {
                let mut i = 0;
                loop {
                    let mut c = best.clone();
                    if part == 0 { if i >= c.env.len() { break } c.env.remove(i); } else { if i >= c.tree.len() { break } c.tree.remove(i); }
                    match self.some(&c) { Some(x) => best = x, None => i += 1 }
                }
            }
            if best.age > 0 { let mut c = best.clone(); c.age = 0; if let Some(x) = self.some(&c) { best = x } }
            if best.warmup > 0 { let mut c = best.clone(); c.warmup = 0; if let Some(x) = self.some(&c) { best = x } }
            // faults and switches of the schedule
            let mut i = 0;
            while i < best.faults.as_ref().map_or(0, |f| f.len()) {
                let mut c = best.clone();
                c.faults.as_mut().unwrap().remove(i);
                match self.fails(&c) { Some(x) if x.faults.as_ref().unwrap().len() < best.faults.as_ref().unwrap().len() => best = x, _ => i += 1 }
            }
            let mut n = best.sched.as_ref().map_or(0, |f| f.len()).next_power_of_two().max(1);
            loop {
                let mut i = 1;
                while i < best.sched.as_ref().map_or(0, |f| f.len()) {
                    let mut c = best.clone();
                    let v = c.sched.as_mut().unwrap();
                    let e = (i + n).min(v.len());
                    v.drain(i..e);
                    match self.fails(&c) { Some(x) if x.sched.as_ref().unwrap().len() < best.sched.as_ref().unwrap().len() => best = x, _ => i += n }
                }
                if n == 1 { break }
                n /= 2;
            }
            if size(&best) >= before || Instant::now() > self.until { break }
        }
        best
    }
}

fn smaller(o: &Op) -> Vec<Op> {
    let mut out = vec![];
    match o {
        Op::Combine { src, dst, how, site, by_ref, prov } => {
            let put = |p: Prov| Op::Combine { src: *src, dst: *dst, how: *how, site: *site, by_ref: *by_ref, prov: p };
            match prov {
                Prov::Script(s) => {
                    for (i, a) in s.alts.iter().enumerate() {
                        for (j, (_, d)) in a.iter().enumerate() {
                            let mut x = s.clone(); x.alts[i].remove(j); out.push(put(Prov::Script(x)));
                            for k in d.keys() { let mut x = s.clone(); x.alts[i][j].1.remove(k); out.push(put(Prov::Script(x))) }
                        }
                    }
                    if s.yields > 0 { let mut x = s.clone(); x.yields = 0; out.push(put(Prov::Script(x))) }
                }
                Prov::Env(e) => for i in 0..e.steps.len() { let mut x = e.clone(); x.steps.remove(i); out.push(put(Prov::Env(x))) },
                _ => {}
            }
        }
        _ => {}
    }
    out
}

fn size(s: &Scen) -> usize {
    s.tasks.iter().flatten().map(|o| format!("{:?}", o).len()).sum::<usize>() + s.sched.as_ref().map_or(0, |x| x.len()) + s.faults.as_ref().map_or(0, |x| x.len()) * 3 + s.env.len() + s.tree.len()
}
