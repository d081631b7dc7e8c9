//! Generates scenarios: one seed, one scenario.
use crate::exec::KINDS;
use simrt::rng::{mix, Rng};
use simrt::vfs::*;

use crate::envp::{self, NFILTER, NFMAP, NMAP};
use crate::scen::*;
use crate::val::*;

#[derive(Clone)]
enum El { K(String), I(usize) }

struct G {
    /// Figments of many providers.
    tall: bool,
    /// Large arrays at one key.
    bulk: bool,
    r: Rng,
    prop: String,
    uniq: u64,
    cfg: GenCfg,
    /// Places in generated data, for queries and consumers.
    pool: Vec<(Vec<El>, V)>,
    names: u32,
    nslots: usize,
    files: Vec<(String, u8)>,
    vars: Vec<String>,
    /// A long key path that several sources share.
    spine: Vec<String>,
    /// Directories from the working directory up, besides the usual ones.
    deep: Vec<String>,
    jdeep: usize,
    environ: Vec<(Vec<u8>, Vec<u8>)>,
}

const PROFS: [&str; 12] = ["default", "global", "debug", "release", "Debug", "DEBUG", "Default", "GLOBAL", "staging", "ünï", "x", "release"];

fn collect(d: &D, out: &mut Vec<(Vec<El>, V)>) {
    fn go(v: &V, p: &mut Vec<El>, out: &mut Vec<(Vec<El>, V)>) {
        if out.len() > 400 || p.len() > 40 { return }
        out.push((p.clone(), v.clone()));
        match v {
            V::D(d) => for (k, v) in d { p.push(El::K(k.clone())); go(v, p, out); p.pop(); },
            V::A(a) => for (i, v) in a.iter().enumerate() { p.push(El::I(i)); go(v, p, out); p.pop(); },
            _ => {}
        }
    }
    for (k, v) in d { go(v, &mut vec![El::K(k.clone())], out) }
}

impl G {
    /// How many providers were combined before: around where a counter could be too narrow.
    fn age(&mut self) -> u64 {
        let b = *self.r.pick(&[8u32, 16, 16, 24, 31, 32, 32, 33, 40, 48, 53, 56, 60, 61]);
        let n = (1u64 << b) - self.r.below(40) as u64;
        if self.r.chance(1, 4) { n + self.r.below(1000) as u64 } else { n }
    }
    fn is(&self, p: &[&str]) -> bool { p.contains(&self.prop.as_str()) }

    fn profile(&mut self) -> String {
        let p = self.r.pick(&PROFS).to_string();
        if self.r.chance(5, 6) { return p }
        // a name that another one is part of
        let q = *self.r.pick(&PROFS);
        match self.r.below(8) { 0 | 1 => format!("{}-{}", p, q), 2 => format!("{}.{}", p, q), 3 => format!("{}_{}", p, q), 4 => format!("{} ", p), 5 => format!("{}{}", p, q), 6 => format!("{}:{}", q, p), _ => p.chars().take(p.chars().count().saturating_sub(1).max(1)).collect() }
    }

    fn dict(&mut self, text: bool) -> D {
        let mut c = self.cfg.clone();
        c.text = text;
        if self.r.chance(1, 12) { c.depth += 3; c.dict = 60 }
        let huge = self.r.chance(1, 150);
        let depth = c.depth;
        let mut d = gen_d(&mut self.r, &c, depth, &mut self.uniq);
        if !self.spine.is_empty() && self.r.chance(1, 2) {
            let n = if self.r.chance(2, 3) { self.spine.len() } else { self.r.range(1, self.spine.len()) };
            c.depth = 1;
            let mut v = gen_v(&mut self.r, &c, 2, &mut self.uniq);
            for k in self.spine[1..n].iter().rev() {
                let mut e = D::new();
                if self.r.chance(1, 3) { let x = gen_scalar(&mut self.r, &c, &mut self.uniq); let kk = self.r.pick(&c.keys).clone(); e.insert(kk, x); }
                e.insert(k.clone(), v);
                v = V::D(e);
            }
            d.insert(self.spine[0].clone(), v);
        }
        if huge { for i in 0..self.r.range(90, 700) { self.uniq += 1; let v = if text || i % 7 != 3 { V::i(self.uniq as i64) } else { V::D([(format!("h{}", i % 5), V::i(self.uniq as i64))].into()) }; d.insert(format!("h{}", i), v); } }
        if self.bulk && self.r.chance(1, 2) {
            let n = if self.r.chance(2, 3) { self.r.range(1500, 4500) } else { self.r.range(1, 300) };
            let a = (0..n).map(|_| { self.uniq += 1; V::i(self.uniq as i64) }).collect();
            d.insert("bulk".into(), V::A(a));
        }
        if self.pool.len() < 300 { collect(&d, &mut self.pool) }
        d
    }

    fn alts(&mut self, n: usize) -> Vec<Vec<(String, D)>> {
        (0..n).map(|_| {
            let k = self.r.weighted(&[1, 10, 6, 3]);
            let mut seen: Vec<String> = vec![];
            let mut out = vec![];
            for _ in 0..k {
                let p = self.profile();
                if seen.contains(&p.to_ascii_lowercase()) { continue }
                seen.push(p.to_ascii_lowercase());
                let d = self.dict(false);
                out.push((p, d));
            }
            out
        }).collect()
    }

    fn fails(&mut self) -> bool {
        let (n, d) = if self.is(&["C04"]) { (1, 4) } else if self.is(&["C01", "C03", "C05", "C06", "C08"]) { (1, 25) } else if self.is(&["C07", "C02"]) { (1, 60) } else { (1, 30) };
        self.r.chance(n, d)
    }

    fn msg(&mut self) -> String { self.uniq += 1; format!("failure number {}", self.uniq) }

    /// A message of a provider's own error: of several kinds, or naming a key.
    fn own_msg(&mut self) -> String {
        let m = self.msg();
        let k = self.r.pick(&self.cfg.keys).clone();
        match self.r.below(8) { 0 => format!("missing field `{}{}`", k, self.uniq), 1 => format!("duplicate field `{}`", KINDS[self.r.below(KINDS.len())]), 2 => format!("invalid length {}, expected {}", self.uniq, k), 3 | 4 => format!("at {}.{}: {}", k.replace(['.', ':'], "_"), k.replace(['.', ':'], "_"), m), _ => m }
    }

    fn script(&mut self) -> Prov {
        self.names += 1;
        let name = if self.r.chance(1, 4) { "provider".to_string() } else { format!("P{}", self.names) };
        let src = match self.r.below(5) { 0 => Some((0, format!("/src/file{}.conf", self.names))), 1 => Some((1, format!("custom source {}", self.names))), _ => None };
        let n = 1 + self.r.below(3);
        let err = if self.fails() { let k = if self.r.chance(1, 25) { self.r.range(4, 70) } else { 1 + self.r.weighted(&[5, 2, 1]) }; (0..k).map(|_| self.own_msg()).collect() } else { vec![] };
        let alts = self.alts(n);
        Prov::Script(Script {
            name, src, interp: self.r.chance(1, 3) as u8,
            profile: if self.r.chance(1, 3) { Some(self.profile()) } else { None },
            alts, err, yields: self.r.below(3) as u8,
            panic: self.is(&["C03", "C04", "C06"]) && self.r.chance(1, 60),
            loc: self.r.chance(1, 6), inner: self.r.chance(1, 15),
        })
    }

    fn text(&mut self, fmt: u8, nested: bool) -> String {
        let d = if nested {
            let k = self.r.range(1, 3);
            let mut seen: Vec<String> = vec![];
            let mut o = D::new();
            for _ in 0..k { let p = self.profile(); if !seen.contains(&p.to_ascii_lowercase()) { seen.push(p.to_ascii_lowercase()); let v = self.dict(true); o.insert(p, V::D(v)); } }
            o
        } else { self.dict(true) };
        let mut t = render(fmt, &d);
        if fmt == 3 && !nested && self.r.chance(1, 3) {
            self.uniq += 2;
            t = format!("base: &b\n  one: {}\n  two: x{}\nuser:\n  <<: *b\n  two: own\n", self.uniq, self.uniq - 1);
        }
        if self.fails() || (self.is(&["F01"]) && self.r.chance(1, 8)) {
            match self.r.below(6) {
                4 => { let x = render(fmt, &d); t.push_str(&x) }
                5 => t.push_str(&format!("{}{}", self.r.pick(&["", " ", "\n", "\n---\n"]), self.r.pick(&["{}", "[]", "1", "x", "a: 1", "a = 1", "\"s\""]))),
                0 => { let mut n = self.r.below(t.len() + 1); while !t.is_char_boundary(n) { n -= 1 } t.truncate(n) }
                1 => t.push_str("\n]]] : = {"),
                2 => t = "just words".into(),
                _ => t.push('\u{0}'),
            }
        }
        t
    }

    fn ser(&mut self) -> Prov {
        let fail = if self.fails() { Some(self.msg()) } else { None };
        if self.r.chance(1, 3) {
            let key = self.key_path();
            let v = gen_v(&mut self.r, &self.cfg, 2, &mut self.uniq);
            return Prov::Tuple { key, v, fail };
        }
        let ctor = self.r.below(5) as u8;
        let mut key = if self.r.chance(1, 3) || ctor >= 3 { Some(self.key_path()) } else { None };
        let v = if self.r.chance(1, 10) { gen_scalar(&mut self.r, &self.cfg, &mut self.uniq) } else { V::D(self.dict(false)) };
        if ctor >= 3 && key.as_deref().map_or(true, |k| k.is_empty()) { key = Some("k".into()) }
        let n = self.r.weighted(&[10, 2, 1]);
        let then = (0..n).map(|_| if self.r.chance(1, 2) { Then::Key(self.key_path()) } else { Then::Profile(self.profile()) }).collect();
        Prov::Ser { ctor, profile: self.profile(), key, v, fail, then }
    }

    fn key_path(&mut self) -> String {
        let n = self.r.weighted(&[0, 6, 3, 1]);
        let v: Vec<String> = (0..n).map(|_| self.r.pick(&self.cfg.keys).clone()).filter(|k| !k.is_empty() && !k.contains('.')).collect();
        if v.is_empty() { "a".into() } else { v.join(".") }
    }

    fn var_name(&mut self) -> String { if self.vars.is_empty() { "APP_NONE".into() } else { self.r.pick(&self.vars).clone() } }

    fn recase(&mut self, s: &str) -> String {
        match self.r.below(4) { 0 => s.to_ascii_lowercase(), 1 => s.to_ascii_uppercase(), 2 => s.chars().map(|c| if self.r.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(), _ => s.to_string() }
    }

    /// A name that is almost `s`.
    fn near(&mut self, s: &str) -> String {
        let cut = |a: usize, b: usize| s.chars().skip(a).take(s.chars().count().saturating_sub(a + b)).collect::<String>();
        let t = match self.r.below(9) {
            0 => format!("_{}", s), 1 => format!("{}_", s), 2 => cut(0, 1), 3 => cut(1, 0), 4 => format!("{}{}", s, cut(0, 0).chars().last().unwrap_or('x')),
            5 => s.replace('_', "-"), 6 => s.replace("__", "_"), 7 => format!("{}0", s), _ => format!("{}{}", s, s),
        };
        if t.is_empty() || t.contains(['=', '\0']) { s.to_string() } else { t }
    }

    fn envp(&mut self) -> EnvP {
        let prefix = if self.r.chance(2, 3) { let p = *self.r.pick(&["APP_", "app_", "DB", "Db__", "", "X"]); Some(self.recase(p)) } else { None };
        let n = self.r.weighted(&[2, 4, 4, 3, 2, 1]);
        let plen = prefix.as_ref().map_or(0, |p| p.len());
        let list = |g: &mut G| -> Vec<String> { let n = g.r.range(1, 4); (0..n).map(|_| { let v = g.var_name(); let v: String = v.chars().skip(plen).collect(); g.recase(&v) }).filter(|s| !s.is_empty()).collect() };
        let steps = (0..n).map(|_| match self.r.below(12) {
            0 => EStep::Filter(self.r.below(NFILTER as usize) as u8),
            1 => EStep::Map(self.r.below(NMAP as usize) as u8),
            2 => EStep::FilterMap(self.r.below(NFMAP as usize) as u8),
            3 | 4 => EStep::Split(self.r.pick(&["__", "__", "_", "-", "x_", "."]).to_string()),
            5 | 6 => EStep::Only(list(self)),
            7 => EStep::Ignore(list(self)),
            8 | 9 => EStep::Lower(self.r.chance(1, 3)),
            10 => EStep::Profile(self.profile()),
            _ => EStep::Global,
        }).collect();
        EnvP { prefix, steps }
    }

    fn envval(&mut self) -> String {
        if self.r.chance(1, 10) {
            // as long as others
            self.uniq += 1;
            let w = *self.r.pick(&[8usize, 20, 50, 50, 100, 600, 5000]);
            return if self.r.chance(1, 4) { format!("[v{:0>w$}, v1]", self.uniq, w = w) } else { format!("v{:0>w$}", self.uniq, w = w) }
        }
        if self.r.chance(1, 12) {
            // what shells would make something else of
            let n = self.var_name();
            return match self.r.below(10) { 0 | 1 => format!("${{{}}}", n), 2 => format!("${}", n), 3 => format!("%{}%", n), 4 => "~/x".into(), 5 => "`id`".into(), 6 => "$(id)".into(), 7 => "a\\nb".into(), 8 => "@/etc/x.conf".into(), _ => "file:///etc/x.conf".into() }
        }
        if self.r.chance(1, 2) { let t = envp::table(); t[self.r.below(t.len())].0.to_string() } else { self.uniq += 1; if self.r.chance(1, 2) { format!("{}", self.uniq) } else { format!("v{}", self.uniq) } }
    }

    fn file_prov(&mut self) -> Prov {
        let (path, fmt) = if self.files.is_empty() { ("none.toml".into(), 0) } else { self.r.pick(&self.files).clone() };
        let mut path = path;
        if self.r.chance(1, 15) { path = "missing.conf".into() }
        let nested = self.r.chance(1, 8);
        let req = if self.is(&["F02"]) { 3 } else { 2 };
        Prov::File { fmt: if self.r.chance(1, 20) { self.r.below(4) as u8 } else { fmt }, path, nested, profile: if self.r.chance(1, 5) { Some(self.profile()) } else { None }, required: self.r.chance(1, req), search: !self.r.chance(1, 5), swap: self.r.chance(1, 2), order: self.r.below(3) as u8 }
    }

    fn prov(&mut self, me: usize) -> Prov {
        let w: [u32; 6] = match self.prop.as_str() {
            "C01" => [6, 5, 3, 1, 1, 4],
            "C02" => [10, 3, 2, 1, 1, 4],
            "C03" => [6, 2, 1, 5, 5, 4],
            "C04" => [8, 3, 2, 3, 1, 6],
            "C05" => [6, 3, 2, 2, 2, 5],
            "C06" => [6, 2, 1, 0, 1, 6],
            "C07" => [6, 3, 2, 1, 2, 3],
            _ => [6, 3, 2, 1, 1, 3],
        };
        match self.r.weighted(&w) {
            0 => self.script(),
            1 => self.ser(),
            2 => { let fmt = self.r.below(4) as u8; let nested = self.r.chance(1, 4); let order = self.r.below(3) as u8; let profile = if self.r.chance(1, 3) { Some(self.profile()) } else { None }; let flat = order == 2 && profile.is_some() && self.r.chance(1, 2); let text = self.text(fmt, nested && !flat); Prov::Text { fmt, text, nested, profile, order } }
            3 => self.file_prov(),
            4 => {
                let e = self.envp();
                // what it would hold is known to later queries
                for d in envp::data(&e, &self.environ).into_iter().flatten() { if self.pool.len() < 300 { collect(&d, &mut self.pool) } }
                Prov::Env(e)
            }
            _ => { let s = self.slot(me); Prov::Fig(s) }
        }
    }

    /// Mostly a slot of the task's own, so that operations build on each other.
    fn slot(&mut self, me: usize) -> usize {
        let own = 3;
        if self.tall && self.r.chance(7, 8) { return (me * own) % self.nslots }
        if self.r.chance(3, 4) { (me * own + self.r.below(own)) % self.nslots } else { self.r.below(self.nslots) }
    }

    fn combine(&mut self, me: usize) -> Op {
        let src = self.slot(me);
        let dst = if self.tall || self.r.chance(2, 3) { src } else { self.slot(me) };
        let prov = self.prov(me);
        let how = self.r.weighted(if self.is(&["C02"]) { &[5, 4, 2, 2, 1] } else { &[4, 4, 3, 3, 1] }) as u8;
        let how = if self.tall && how == 4 { 0 } else { how };
        Op::Combine { src, dst, how, site: self.r.below(4) as u8, by_ref: self.r.chance(1, 3), prov }
    }

    fn path(&mut self) -> String {
        if self.r.chance(1, 12) { return self.r.pick(&["", "zzz", "a..b", ".", "a.", "missing.deep.key"]).to_string() }
        let mut ks: Vec<String> = vec![];
        if !self.pool.is_empty() {
            let (p, _) = self.r.pick(&self.pool).clone();
            for e in p { match e { El::K(k) => ks.push(k), El::I(_) => break } }
        }
        if self.r.chance(1, 8) { let k = self.r.pick(&self.cfg.keys).clone(); ks.push(k) }
        if self.r.chance(1, 10) && !ks.is_empty() { let n = self.r.below(ks.len()); ks.truncate(n + 1) }
        ks.join(".")
    }

    fn wrap(&mut self, s: Sch, dict: bool) -> Sch {
        match self.r.below(10) {
            0 => { let i = self.wrap(s, dict); Sch::Opt(Box::new(i)) }
            1 => { let i = self.wrap(s, dict); Sch::New(Box::new(i)) }
            2 => { let i = self.wrap(s, dict); Sch::Tagged(Box::new(i)) }
            3 | 4 if dict => Sch::Struct(Box::new(s)),
            _ => s,
        }
    }

    fn error_op(&mut self, slot: usize) -> Option<Op> {
        let i = self.r.below(self.pool.len().max(1));
        let (p, v) = self.pool.get(i)?.clone();
        let fail = match &v {
            V::A(_) => match self.r.below(6) { 5 => Fail::Value, 0 => Fail::Length, 1 => Fail::Visit, 2 => Fail::Type, _ => Fail::After },
            V::D(_) => match self.r.below(8) { 6 => Fail::Value, 7 => Fail::Duplicate, 0 | 1 => Fail::Missing, 2 => Fail::Visit, 3 => Fail::Type, _ => Fail::After },
            V::S(_) => match self.r.below(7) { 6 => Fail::Value, 0 | 1 => Fail::Variant, 2 => Fail::Visit, 3 => Fail::Type, 4 => Fail::Unknown, _ => Fail::After },
            _ => match self.r.below(7) { 6 => Fail::Value, 0 => Fail::Unknown, 1 | 2 => Fail::Type, 3 => Fail::Visit, _ => Fail::After },
        };
        let entry = self.r.below(4) as u8;
        let mut cut = 0;
        let mut at = String::new();
        if entry >= 2 {
            let lead = p.iter().take_while(|e| matches!(e, El::K(k) if !k.is_empty() && !k.contains('.'))).count();
            cut = if lead == 0 { 0 } else { self.r.range(0, lead) };
            at = p[..cut].iter().map(|e| match e { El::K(k) => k.clone(), El::I(_) => String::new() }).collect::<Vec<_>>().join(".");
        }
        let rest = p[cut..].to_vec();
        if matches!(fail, Fail::Unknown) && !matches!(rest.last(), Some(El::K(_))) { return None }
        let plain = matches!(fail, Fail::Unknown);
        let mut s = Sch::Fail(fail);
        if !plain { let d = matches!(&s, Sch::Fail(Fail::Missing | Fail::Duplicate)); s = self.wrap(s, d) }
        for (n, e) in rest.iter().rev().enumerate() {
            s = match e {
                El::K(k) => if !(plain && n == 0) && self.r.chance(1, 5) { Sch::Enum(k.clone(), Box::new(s)) } else { Sch::Key(k.clone(), Box::new(s)) },
                El::I(i) => Sch::Idx(*i, Box::new(s)),
            };
            let d = !matches!(s, Sch::Enum(..));
            s = self.wrap(s, d);
        }
        Some(Op::Error { slot, entry, at, schema: s })
    }

    fn content(&mut self, fmt: u8) -> B {
        self.uniq += 1;
        let mut d = D::new();
        d.insert("id".into(), V::i(self.uniq as i64));
        if self.r.chance(1, 2) { let x = self.dict(true); for (k, v) in x { d.entry(k).or_insert(v); } }
        if self.r.chance(1, 12) { let n = self.r.range(1500, 12000); d.insert("blob".into(), V::S("z".repeat(n))); for i in 0..self.r.below(30) { d.insert(format!("f{}", i), V::i(i as i64)); } }
        if self.is(&["F01", "F02", "F03", "C03"]) && self.r.chance(1, 90) { let n = *self.r.pick(&[65_400usize, 131_072, 262_100, 1_048_500, 1_200_000]) + self.r.below(200); d.insert("blob".into(), V::S("y".repeat(n))); }
        let mut b = render(fmt, &d).into_bytes();
        if self.is(&["F01"]) && self.r.chance(1, 700) {
            // many megabytes
            let n = *self.r.pick(&[4usize << 20, 8 << 20, 16 << 20, 33 << 20]) + self.r.below(9000);
            if b.len() < n { let fill = n - b.len(); match (fmt, self.r.below(2)) { (1, 0) => { b.splice(0..0, std::iter::repeat(b' ').take(fill)); } (1, _) => b.extend(std::iter::repeat(b'\n').take(fill)), (_, x) => { let mut c = vec![b'#'; fill]; c[fill - 1] = b'\n'; if x == 0 { b.splice(0..0, c); } else { b.push(b'\n'); b.extend(c) } } } }
        }
        if self.r.chance(1, 25) { let n = self.r.below(b.len() + 1); b.truncate(n) }
        if self.r.chance(1, 30) {
            // another document, or part of one, after the first
            if self.r.chance(1, 3) { b.extend(*self.r.pick(&[&b"\n---\n"[..], b"\n...\n", b" ", b",", b"\n"])) }
            self.uniq += 1;
            let e: D = [(self.r.pick(&["id", "other"]).to_string(), V::i(self.uniq as i64))].into();
            let mut x = render(fmt, &e).into_bytes();
            if self.r.chance(1, 4) { let n = self.r.below(x.len() + 1); x.truncate(n) }
            b.extend(x);
        }
        if self.r.chance(1, 40) { b.extend([0xff, 0xfe]) }
        if self.r.chance(1, 60) { b.clear() }
        if self.is(&["F01", "F02", "F03", "C03", "M01"]) && self.r.chance(1, 15) {
            // bytes that readers of text are tempted to treat in their own way
            let odd: &[u8] = self.r.pick(&[&b"\0"[..], b"\0\0\0\0", b"\x1a", b"\xef\xbb\xbf", b"\r", b"\r\n", b"\x0c", b" ", b"\n\n", b"\t", b"\x0b", b"\xc2\x85", b"\xe2\x80\xa8", b"\xff", b"\xc3", b"#", b"\xed\xa0\x80"]);
            match self.r.below(4) {
                0 => { b.splice(0..0, odd.iter().copied()); }
                1 => { let i = self.r.below(b.len() + 1); b.splice(i..i, odd.iter().copied()); }
                2 => b = b.iter().flat_map(|c| if *c == b'\n' { vec![b'\r', b'\n'] } else { vec![*c] }).collect(),
                _ => b.extend(odd),
            }
        }
        B(b)
    }

    fn world(&mut self) -> (Vec<(String, Init)>, String) {
        let dirs = ["/w", "/w/a", "/w/a/b", "/w/a/b/c", "/w/other", "/tmp", "/etc"];
        let mut tree: Vec<(String, Init)> = dirs.iter().map(|d| (d.to_string(), Init::Dir)).collect();
        let mut cwd = self.r.pick(&["/w/a/b/c", "/w/a/b", "/w/a", "/w", "/", "/w/other"]).to_string();
        if self.r.chance(1, 5) {
            let n = self.r.range(1, 24);
            let mut d = "/w/a/b/c".to_string();
            for i in 0..n { d.push_str(&format!("/{}", if self.r.chance(1, 10) { "n".repeat(self.r.range(20, 120)) } else { format!("s{}", i) })); tree.push((d.clone(), Init::Dir)); self.deep.push(d.clone()) }
            cwd = d;
        }
        let names = ["cfg.toml", "app.json", "conf.yaml", "ext.yml"];
        let nf = self.r.range(1, 3);
        for _ in 0..nf {
            let fmt = self.r.below(4);
            let n = names[fmt];
            if self.files.iter().any(|f| f.0 == n) { continue }
            let mut spell = vec![n.to_string()];
            let mut places: Vec<String> = ["/w/a/b/c", "/w/a/b", "/w/a", "/w", "", "/w/other"].iter().map(|d| d.to_string()).collect();
            let sparse = !self.deep.is_empty() && self.r.chance(1, 2);
            if !self.deep.is_empty() { for _ in 0..2 { places.push(self.r.pick(&self.deep).clone()) } places.sort(); places.dedup(); }
            for d in places {
                if !if sparse { self.r.chance(1, 8) } else { self.r.chance(2, 5) } { continue }
                let p = format!("{}/{}", d, n);
                let b = self.content(fmt as u8);
                let init = match self.r.below(14) {
                    0 => Init::Dir,
                    1 if self.is(&["F01", "F02", "F03"]) => Init::Unreadable(b),
                    2 => { self.uniq += 1; let t = format!("/etc/t{}", self.uniq); tree.push((t.clone(), Init::File(b))); Init::Link(t.as_str().into()) }
                    3 if self.is(&["F01", "F02", "F03"]) => match self.r.below(3) { 0 => Init::Link("nowhere".into()), 1 => Init::Special, _ => Init::Link(n.into()) },
                    _ => Init::File(b),
                };
                tree.push((p.clone(), init));
                if self.r.chance(1, 5) { spell.push(p) }
            }
            if self.r.chance(1, 6) {
                // parents, also more of them than there are
                let up = "../".repeat(self.r.range(1, 8));
                let d = self.r.pick(&["", "w/", "w/a/", "w/other/", "w/a/b/../"]).to_string();
                spell.push(format!("{}{}{}", up, d, n));
            }
            if self.r.chance(1, 3) {
                tree.push(("/w/a/sub".into(), Init::Dir));
                let b = self.content(fmt as u8);
                tree.push((format!("/w/a/sub/{}", n), Init::File(b)));
                spell.push(format!("sub/{}", n));
            }
            if self.r.chance(1, 4) {
                // spelled with the names of the directories it is in, which may be those the search is in
                let d = self.r.pick(&["a", "b", "c", "w", "a/b", "b/c", "w/a", "a/b/c"]).to_string();
                spell.push(format!("{}/{}", d, n));
                for at in ["/w/a/b/c", "/w/a/b", "/w/a", "/w", ""] { if self.r.chance(1, 3) {
                    let at = format!("{}/{}", at, d);
                    if !tree.iter().any(|(p, _)| *p == at) && self.r.chance(1, 2) { let mut q = String::new(); for c in at[1..].split('/') { q.push('/'); q.push_str(c); tree.push((q.clone(), Init::Dir)) } }
                    let b = self.content(fmt as u8);
                    tree.push((format!("{}/{}", at, n), Init::File(b)));
                } }
            }
            if self.r.chance(1, 4) { spell.push(format!("./{}", n)) }
            if self.r.chance(1, 6) { spell.push(format!("../{}", n)) }
            for s in spell { self.files.push((s, fmt as u8)) }
        }
        if self.r.chance(1, 6) {
            // what marks the top of a project or user's files for other tools
            for d in ["/w/a/b/c", "/w/a/b", "/w/a", "/w", ""] { if self.r.chance(1, 3) { let n = *self.r.pick(&[".git", ".git", "Cargo.toml", ".hg", "package.json", "Rocket.toml", ".figment", "root"]); tree.push((format!("{}/{}", d, n), if n == ".git" && self.r.chance(2, 3) || n == ".hg" { Init::Dir } else { Init::File("".into()) })) } }
        }
        // a link in the list may precede what it is placed in
        tree.sort_by_key(|(p, i)| (!matches!(i, Init::Dir) || p.ends_with(".toml") || p.ends_with("json") || p.ends_with("yaml") || p.ends_with("yml"), p.clone()));
        tree.dedup_by(|a, b| a.0 == b.0);
        (tree, cwd)
    }

    /// A name of several parts.
    fn long_name(&mut self) -> String {
        let n = self.r.range(2, 8);
        let sep = self.r.pick(&["__", "__", "_", "-", ".", "x_"]).to_string();
        let parts: Vec<String> = (0..n).map(|_| self.r.pick(&["A", "B", "HOST", "name", "Tls", "x", "1", "db", "ü", ""]).to_string()).collect();
        let mut s = format!("{}{}", self.r.pick(&["APP_", "APP_", "app_", "DB", "Db__", "", "X"]), parts.join(&sep));
        if s.is_empty() { s.push('Q') }
        if self.r.chance(1, 30) { s.push_str(&"L".repeat(self.r.range(50, 400))) }
        s
    }

    fn environ(&mut self) -> Vec<(B, B)> {
        let base = ["APP_HOST", "APP_PORT", "app_port", "APP_DB__NAME", "APP_DB__USER", "App_Mixed", "DB", "DB_URL", "DATABASE", "Db__X", "PATH", "HOME", "X", "X-Y", "x_y", "APP_ÜBER", "ÜBER", "APP_ıſİ", "APP_", "APP", "APPLE", "ROCKET_PROFILE", "profile"];
        let n = if self.r.chance(1, 25) { self.r.range(30, 150) } else { self.r.range(0, 12) };
        let crowd = if self.is(&["E01", "E02"]) && self.r.chance(1, 150) { self.r.range(200, 1300) } else { 0 };
        let mut out: Vec<(B, B)> = vec![];
        for _ in 0..n {
            let k = if self.r.chance(1, 6) { self.long_name() } else { self.r.pick(&base).to_string() };
            let k = if self.r.chance(1, 4) { self.recase(&k) } else { k };
            let k = if self.r.chance(1, 12) { self.near(&k) } else { k };
            if out.iter().any(|(o, _)| o.0 == k.as_bytes()) { continue }
            self.vars.push(k.clone());
            let v = self.envval();
            out.push((k.into(), v.into()));
        }
        for i in 0..crowd {
            let k = format!("{}N{}", self.r.pick(&["APP_", "app_", "DB", "Q", ""]), i);
            if i % 50 == 0 { self.vars.push(k.clone()) }
            self.uniq += 1;
            let v = format!("v{}", self.uniq);
            let at = self.r.below(out.len() + 1);
            out.insert(at, (k.into(), v.into()));
        }
        if self.r.chance(1, 3) {
            let mut k = b"APP_".to_vec(); k.push(0xff);
            let at = self.r.below(out.len() + 1);
            out.insert(at, (B(k), "raw".into()));
        }
        if self.r.chance(1, 6) { let at = self.r.below(out.len() + 1); out.insert(at, (B(b"\xff\xfe".to_vec()), "junk".into())) }
        if self.r.chance(1, 4) && !out.is_empty() { let at = self.r.below(out.len()); out[at].1 = B(b"by\xfftes".to_vec()) }
        if self.vars.is_empty() { self.vars.push("APP_NONE".into()) }
        out
    }

    fn env_change(&mut self) -> Op {
        if self.r.chance(1, 3) && !self.environ.is_empty() {
            // what is hard to tell from what was there before: a text of the same length, or the same up to its end
            let (k, v) = self.r.pick(&self.environ).clone();
            self.uniq += 1;
            let u = self.uniq.to_string();
            if v.len() > u.len() + 1 && v.starts_with(b"v") && v[1..].iter().all(|b| b.is_ascii_digit()) {
                let w = v.len() - 1;
                return Op::SetEnv { k: B(k), v: format!("v{:0>w$}", u, w = w).into() }
            }
        }
        let mut k = self.var_name();
        if self.r.chance(1, 4) { k = self.recase(&k) }
        if self.r.chance(1, 4) { k = self.r.pick(&["APP_NEW", "APP_EXTRA", "DB_NEW", "app_host", "X"]).to_string(); self.vars.push(k.clone()) }
        if self.r.chance(1, 3) { Op::UnsetEnv { k: k.into() } } else {
            let v = if self.r.chance(1, 12) { B(b"n\xfft".to_vec()) } else { self.envval().into() };
            Op::SetEnv { k: k.into(), v }
        }
    }

    fn fs_change(&mut self) -> Op {
        let (f, fmt) = if self.files.is_empty() { ("cfg.toml".to_string(), 0) } else { self.r.pick(&self.files).clone() };
        let n = f.rsplit('/').next().unwrap().to_string();
        let dir = |g: &mut G| if !g.deep.is_empty() && g.r.chance(1, 3) { g.r.pick(&g.deep).clone() } else { g.r.pick(&["/w/a/b/c", "/w/a/b", "/w/a", "/w", ""]).to_string() };
        let d = dir(self);
        let p = format!("{}/{}", d, n);
        match self.r.below(14) {
            0..=4 => { let data = self.content(fmt); Op::Put { path: p, data, fresh: self.r.chance(1, 2) } }
            5..=7 => Op::Remove { path: p },
            8 => { let e = dir(self); Op::Rename { a: p, b: format!("{}/{}", e, n) } }
            9 => Op::Mkdir { path: p },
            10 => Op::Chdir { path: if !self.deep.is_empty() && self.r.chance(1, 3) { self.r.pick(&self.deep).clone() } else { self.r.pick(&["/w/a/b/c", "/w/a/b", "/w/a", "/w", "/", "/w/other"]).to_string() } },
            11 if self.is(&["F01", "F02", "F03", "S01"]) => match self.r.below(3) { 0 => Op::Remove { path: "/w/a/b".into() }, 1 => Op::Rename { a: "/w/a".into(), b: "/w/moved".into() }, _ => Op::Rename { a: "/w/moved".into(), b: "/w/a".into() } },
            12 => { let t = self.content(fmt); let _ = t; Op::Symlink { target: format!("/w/{}", n), path: p } }
            _ => { let data = self.content(fmt); Op::Put { path: p, data, fresh: true } }
        }
    }

    fn knobs(&mut self, rates: &[(usize, u32)]) -> Knobs {
        let mut k = Knobs::default();
        k.p = [
            *self.r.pick(&[0, 40, 200, 800, 3000, 10000]),
            *self.r.pick(&[0, 2000, 8000, 20000]),
            *self.r.pick(&[0, 4000, 12000, 30000]),
            *self.r.pick(&[0, 4000, 12000, 30000]),
            0,
        ];
        // swarm: any one kind of fault is absent from many runs
        for (f, r) in rates { if self.r.chance(1, 2) { k.rates.push((*f, (*r).min(60000))) } }
        k.fault_max = if k.rates.is_empty() { 0 } else { *self.r.pick(&[0, 1, 1, 2, 3, 8, 30]) };
        if self.r.chance(1, 6) { k.clock_jump = 600 }
        k.dir_seed = self.r.next();
        k
    }

    fn ntasks(&mut self) -> usize { 1 + self.r.weighted(&[25, 40, 22, 13]) }
}

fn layered(g: &mut G) -> Scen {
    g.tall = g.r.chance(1, 12);
    let n = if g.tall { 1 + g.r.below(2) } else if g.is(&["C06"]) { 1 + g.r.weighted(&[8, 40, 30, 22]) } else { g.ntasks() };
    g.nslots = 3 * n;
    let env = g.environ();
    g.environ = env.iter().map(|(k, v)| (k.0.clone(), v.0.clone())).collect();
    let (tree, cwd) = g.world();
    let mut tasks: Vec<Vec<Op>> = vec![];
    let p = g.prop.clone();
    let change = match p.as_str() { "C03" => 8, "C01" | "C05" => 2, _ => 1 };
    let (q, e, t, f) = match p.as_str() { "C07" => (2, 14, 1, 2), "C08" => (10, 0, 1, 5), "C05" => (2, 1, 4, 2), "C04" => (4, 0, 1, 3), "C06" => (2, 0, 2, 1), "C02" => (4, 0, 1, 1), _ => (3, 1, 1, 2) };
    for me in 0..n {
        let len = if g.tall { g.r.range(12, 26) } else { g.r.range(3, if p == "C06" { 16 } else { 13 }) };
        let mut ops = vec![];
        for i in 0..len {
            let w = if i < 2 { vec![1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0] } else { vec![12, 3, f, 3, 1, 4, q, t, e, change, change, 1] };
            let op = match g.r.weighted(&w) {
                0 => g.combine(me),
                1 => { let (src, dst) = (g.slot(me), g.slot(me)); Op::Select { src, dst, profile: g.profile() } }
                2 => { let (src, dst) = (g.slot(me), g.slot(me)); let key = g.path(); Op::Focus { src, dst, key } }
                3 => { let (src, dst) = (g.slot(me), g.slot(me)); Op::Clone { src, dst } }
                4 if g.tall => Op::Yield,
                4 => if g.r.chance(1, 2) { Op::Drop { slot: g.slot(me) } } else { Op::New { dst: g.slot(me) } },
                5 => Op::Check { slot: g.slot(me) },
                6 => { let slot = g.slot(me); Op::Query { slot, path: g.path() } }
                7 => Op::Tagged { slot: g.slot(me) },
                8 => { let s = g.slot(me); match g.error_op(s) { Some(o) => o, None => Op::Yield } }
                9 => if g.r.chance(1, 2) { Op::Epoch } else { g.env_change() },
                10 => g.fs_change(),
                _ => if g.r.chance(1, 3) { Op::Sleep { us: g.r.range(1, 50_000) as u32 } } else { Op::Yield },
            };
            // after a change the same provider is combined afresh now and then
            let again = matches!(op, Op::Epoch | Op::SetEnv { .. } | Op::UnsetEnv { .. } | Op::Put { .. } | Op::Remove { .. } | Op::Chdir { .. }) && g.r.chance(1, 2);
            ops.push(op);
            if again {
                let old: Vec<Op> = ops.iter().filter(|o| matches!(o, Op::Combine { prov: Prov::File { .. } | Prov::Env(_) | Prov::Script(_), .. })).cloned().collect();
                if !old.is_empty() { let o = g.r.pick(&old).clone(); if let Op::Combine { how, site, by_ref, prov, .. } = o { let s = g.slot(me); ops.push(Op::Combine { src: s, dst: s, how: if g.r.chance(1, 2) { 4 } else { how }, site, by_ref, prov }); ops.push(Op::Check { slot: s }) } }
            }
        }
        tasks.push(ops);
    }
    let rates: &[(usize, u32)] = match p.as_str() { "C03" | "C04" => &[(F_OPEN_ERR, 6000), (F_READ_ERR, 6000), (F_SHORT_READ, 20000), (F_STAT_ERR, 3000), (F_GETCWD_ERR, 3000), (F_READ_EINTR, 6000)], _ => &[(F_SHORT_READ, 12000), (F_OPEN_ERR, 1500), (F_READ_EINTR, 4000)] };
    let mut knobs = g.knobs(rates);
    if g.r.chance(1, 10) && p != "C03" { knobs.max_read = g.r.range(1, 40) }
    let warmup = if p == "C06" && g.r.chance(1, 40) { *g.r.pick(&[255u32, 4095, 65_530, 131_070]) } else { 0 };
    Scen { prop: p, seed: 0, env, tree, cwd, warmup, age: 0, slots: g.nslots, tasks, knobs, sched: None, faults: None }
}

fn files(g: &mut G) -> Scen {
    let n = g.ntasks();
    g.nslots = 3 * n;
    let (tree, cwd) = g.world();
    let mut tasks = vec![];
    for me in 0..n {
        let writer = me > 0 && g.r.chance(3, 4);
        let len = g.r.range(2, 8);
        let mut ops = vec![];
        for _ in 0..len {
            let w: [u32; 6] = if writer { [1, 10, 0, 0, 0, 1] } else { [10, if n == 1 { 5 } else { 2 }, 2, 2, 2, 1] };
            ops.push(match g.r.weighted(&w) {
                0 => { let s = g.slot(me); let prov = g.file_prov(); Op::Combine { src: s, dst: s, how: g.r.weighted(&[3, 2, 1, 1, 4]) as u8, site: g.r.below(4) as u8, by_ref: g.r.chance(1, 3), prov } }
                1 => g.fs_change(),
                2 => Op::Check { slot: g.slot(me) },
                3 => { let slot = g.slot(me); Op::Query { slot, path: if g.r.chance(1, 2) { "id".into() } else { g.path() } } }
                4 => { let prov = g.file_prov(); Op::Read { api: g.r.below(5) as u8, prov } }
                _ => Op::Yield,
            });
        }
        tasks.push(ops);
    }
    let rates: &[(usize, u32)] = match g.prop.as_str() {
        "F01" => &[(F_OPEN_ERR, 8000), (F_OPEN_EINTR, 8000), (F_READ_ERR, 12000), (F_SHORT_READ, 30000), (F_READ_EINTR, 16000), (F_STAT_ERR, 3000), (F_SIZE_LIE, 20000), (F_CLOSE_ERR, 6000), (F_GETCWD_ERR, 2000)],
        "F02" => &[(F_STAT_ERR, 5000), (F_GETCWD_ERR, 5000), (F_OPEN_EINTR, 4000), (F_SHORT_READ, 8000)],
        _ => &[(F_OPEN_ERR, 5000), (F_READ_ERR, 4000), (F_SHORT_READ, 10000), (F_STAT_ERR, 4000), (F_GETCWD_ERR, 4000)],
    };
    let mut knobs = g.knobs(rates);
    if g.r.chance(1, 5) {
        knobs.max_read = g.r.range(1, 64);
        let most = tree.iter().map(|(_, i)| match i { Init::File(b) | Init::Unreadable(b) => b.0.len(), _ => 0 }).chain(tasks.iter().flatten().map(|o| match o { Op::Put { data, .. } => data.0.len(), _ => 0 })).max().unwrap_or(0);
        if most > 50_000 { knobs.max_read *= 500 }
    }
    Scen { prop: g.prop.clone(), seed: 0, env: vec![], tree, cwd, warmup: 0, age: 0, slots: g.nslots, tasks, knobs, sched: None, faults: None }
}

fn envs(g: &mut G) -> Scen {
    let n = g.ntasks();
    g.nslots = 3 * n;
    let env = g.environ();
    g.environ = env.iter().map(|(k, v)| (k.0.clone(), v.0.clone())).collect();
    let lookups = g.is(&["E02"]);
    let mut tasks = vec![];
    for me in 0..n {
        let writer = me > 0 && g.r.chance(3, 4);
        let len = g.r.range(2, 9);
        let mut ops = vec![];
        for _ in 0..len {
            let w: [u32; 6] = if writer { [1, 1, 10, 0, 0, 1] } else if lookups { [1, 10, 3, 1, 0, 1] } else { [10, 1, 3, 2, 2, 1] };
            ops.push(match g.r.weighted(&w) {
                0 => { let s = g.slot(me); let p = g.envp(); Op::Combine { src: s, dst: s, how: g.r.weighted(&[2, 1, 1, 1, 6]) as u8, site: g.r.below(4) as u8, by_ref: g.r.chance(1, 3), prov: Prov::Env(p) } }
                1 => {
                    let mut name = if g.r.chance(1, 6) { g.r.pick(&["NOT_SET", "APP_NEW", "A", "", "app"]).to_string() } else { g.var_name() };
                    if g.r.chance(2, 3) { name = g.recase(&name) }
                    if g.r.chance(1, 8) { name = g.near(&name) }
                    Op::Var { name, api: g.r.below(4) as u8, default: "fallback".into() }
                }
                2 => g.env_change(),
                3 => Op::Check { slot: g.slot(me) },
                4 => { let p = g.envp(); Op::Read { api: g.r.below(2) as u8, prov: Prov::Env(p) } }
                _ => Op::Yield,
            });
        }
        tasks.push(ops);
    }
    let knobs = g.knobs(&[]);
    Scen { prop: g.prop.clone(), seed: 0, env, tree: vec![("/w".into(), Init::Dir)], cwd: "/w".into(), warmup: 0, age: 0, slots: g.nslots, tasks, knobs, sched: None, faults: None }
}

fn jail_path(g: &mut G, dir: bool) -> String {
    let n = ["f", "cfg.toml", "d", "d/f", "d/e/f", "deep/er/path", "ünï", " sp ace"];
    let b = g.r.pick(&n).to_string();
    if g.r.chance(1, 30) { return format!("{}{}", g.r.pick(&["~/", "~", "$HOME/", "${HOME}/", "~root/", "%HOME%/", "file:///w/", "C:/", "\\\\w\\", "-"]), b) }
    if g.jdeep > 0 && g.r.chance(1, 3) {
        // down into an existing chain of directories, then up, possibly past where it began
        let down = g.r.range(1, g.jdeep);
        let up = if g.prop == "J04" { (down + g.r.below(5)).saturating_sub(2) } else { g.r.below(down) };
        let mut s = g.r.pick(&["", "", "{J}/", "./"]).to_string();
        for _ in 0..down { s.push_str(if g.r.chance(1, 12) { "d/./" } else { "d/" }) }
        for _ in 0..up { s.push_str("../") }
        if g.r.chance(1, 4) { s.push_str("d/d/../../../") }
        s.push_str(&b);
        return s
    }
    if g.prop != "J04" && g.r.chance(3, 4) { return b }
    if g.r.chance(1, 5) {
        // any mixture
        let n = g.r.range(1, 16);
        let mut s = g.r.pick(&["", "", "", "{J}/", "/", "{J}/d/", "./"]).to_string();
        for i in 0..n { if i > 0 { s.push('/') } s.push_str(g.r.pick(&["d", "e", "d", "..", "..", ".", "", "f", "{B}", "w", "tmp", "..."])) }
        return s
    }
    match g.r.below(18) {
        0 => format!("../{}", b), 1 => format!("../../{}", b), 2 => format!("d/../{}", b), 3 => format!("./{}", b), 4 => format!("{{J}}/{}", b),
        5 => format!("{{J}}/../{}", b), 6 => format!("/{}", b), 7 => "/w/outside".into(), 8 => "/tmp/outside".into(), 9 => format!("d/../../../w/{}", b),
        10 => "{J}".into(), 11 => if dir { ".".into() } else { "".into() }, 12 => "..".into(), 13 => "{J}/d/../../../w/x".into(), 14 => "/".into(), 15 => "{J}x/f".into(),
        16 => "/../w".into(), _ => b,
    }
}

fn jailop(g: &mut G) -> JOp {
    let w: [u32; 11] = match g.prop.as_str() {
        "J02" => [12, 3, 1, 0, 1, 1, 1, 1, 1, 0, 0], "J03" => [1, 0, 4, 1, 4, 4, 1, 1, 1, 1, 1], "J04" => [0, 0, 6, 2, 6, 6, 0, 0, 0, 0, 0], "J05" => [0, 0, 8, 8, 2, 2, 1, 0, 0, 0, 0],
        _ => [12, 3, 9, 3, 6, 6, 6, 6, 3, 1, 1],
    };
    match g.r.weighted(&w) {
        0 => {
            let mut k = match g.r.below(5) { 0 => "PATH".to_string(), 1 => "A_NEW_ONE".into(), 2 => "ünï-var".into(), _ => g.var_name() };
            let mut v = match g.r.below(6) { 0 => String::new(), 1 => "x=y ☃\n".into(), _ => { g.uniq += 1; format!("jail{}", g.uniq) } };
            if g.is(&["J02", "J06"]) && g.r.chance(1, 25) { match g.r.below(4) { 0 => k = String::new(), 1 => k = "A=B".into(), 2 => k = "N\0UL".into(), _ => v = "v\0".into() } }
            JOp::SetEnv(k, v)
        }
        1 => JOp::ClearEnv,
        2 => {
            let p = jail_path(g, false);
            g.uniq += 1;
            let t = if g.r.chance(1, 2) { format!("jail_file_value = {}", g.uniq) } else { "line\n".repeat(g.r.below(if g.prop == "J05" { 4000 } else { 40 })) };
            JOp::File(p, t)
        }
        3 => {
            let p = jail_path(g, false);
            let n = if g.r.chance(1, 3) { *g.r.pick(&[0usize, 1, 8191, 8192, 8193, 16384, 30000, 65_535, 65_536, 65_537, 200_000]) } else { g.r.below(300) };
            let s = g.r.next();
            JOp::Bin(p, B((0..n).map(|i| mix(s ^ i as u64) as u8).collect()))
        }
        4 => JOp::Dir(jail_path(g, true)),
        5 => JOp::Cd(jail_path(g, true)),
        6 => JOp::Check,
        7 => JOp::Yield,
        8 => JOp::Sleep(g.r.range(1, 100_000) as u32),
        9 => JOp::Leave(g.r.pick(&["/", "/w", "/w/a", "/tmp", "/var/tmp", ".."]).to_string()),
        _ => JOp::Raze(g.r.below(2) as u8),
    }
}

fn jails(g: &mut G) -> Scen {
    let n = if g.is(&["J01"]) { 2 + g.r.weighted(&[5, 4, 3]) } else if g.is(&["J04", "J05"]) { 1 + g.r.weighted(&[6, 3, 1]) } else { g.ntasks() };
    let mut env = g.environ();
    if g.r.chance(1, 3) { let h = *g.r.pick(&["/w", "/w/a", "/tmp", "/"]); env.retain(|e| e.0.0 != b"HOME"); env.push(("HOME".into(), h.into())) }
    if g.r.chance(1, 6) { env.push(("TMPDIR".into(), (*g.r.pick(&["/var/tmp", "/w/tl", "/tmp/", "reltmp", "/w/./a/../a"])).into())) }
    let mut tasks = vec![];
    for _ in 0..n {
        let k = g.r.range(1, 3);
        let mut ops = vec![];
        for _ in 0..k {
            let len = g.r.below(8);
            let mut body: Vec<JOp> = vec![];
            if g.is(&["J04", "J03", "J05"]) && g.r.chance(1, 2) { body.push(JOp::Dir("d/e".into())) }
            g.jdeep = if g.is(&["J04", "J03", "J05"]) && g.r.chance(1, 3) { g.r.range(2, 20) } else { 0 };
            if g.jdeep > 0 { body.push(JOp::Dir(vec!["d"; g.jdeep].join("/"))) }
            for _ in 0..len { body.push(jailop(g)) }
            g.uniq += 1;
            let u = g.uniq;
            let end = match g.r.below(6) { 0 | 1 => End::Err(format!("body error {}", u)), 2 => End::Panic(format!("body panic {}", u)), _ => End::Ok };
            ops.push(Op::Jail { body, end, expect: g.r.chance(1, 4) });
            if g.r.chance(1, 4) { ops.push(Op::Sleep { us: g.r.range(1, 30_000) as u32 }) }
        }
        tasks.push(ops);
    }
    let rates: &[(usize, u32)] = match g.prop.as_str() {
        "J05" => &[(F_WRITE_ERR, 10000), (F_SHORT_WRITE, 30000), (F_WRITE_EINTR, 15000), (F_WRITE_ZERO, 6000), (F_OPEN_ERR, 3000), (F_CLOSE_ERR, 4000), (F_OPEN_EINTR, 4000)],
        "J06" => &[(F_MKDIR_ERR, 14000), (F_MKDIR_EXIST, 14000), (F_GETCWD_ERR, 12000), (F_CHDIR_ERR, 9000), (F_REALPATH_ERR, 12000), (F_SPURIOUS, 6000), (F_WRITE_ERR, 4000)],
        "J03" => &[(F_MKDIR_ERR, 6000), (F_MKDIR_EXIST, 25000), (F_GETCWD_ERR, 5000), (F_CHDIR_ERR, 4000), (F_REALPATH_ERR, 5000), (F_WRITE_ERR, 4000), (F_OPEN_ERR, 2000)],
        _ => &[(F_MKDIR_ERR, 4000), (F_MKDIR_EXIST, 10000), (F_GETCWD_ERR, 4000), (F_CHDIR_ERR, 3000), (F_REALPATH_ERR, 4000), (F_SPURIOUS, 8000), (F_WRITE_ERR, 2000)],
    };
    let mut knobs = g.knobs(rates);
    if g.is(&["J02", "J06", "J01"]) && g.r.chance(1, 6) {
        knobs.teardown_faults = true;
        knobs.rates.push((F_UNLINK_ERR, 12000)); knobs.rates.push((F_READDIR_ERR, 6000)); knobs.rates.push((F_CHDIR_ERR, 8000));
        knobs.fault_max = knobs.fault_max.max(2);
    }
    if g.is(&["J05"]) && g.r.chance(1, 4) { knobs.space = Some(g.r.below(20_000)) }
    if g.is(&["J05"]) && g.r.chance(1, 4) { knobs.max_write = g.r.range(1, 5000); if tasks.iter().flatten().any(|o: &Op| matches!(o, Op::Jail { body, .. } if body.iter().any(|j| matches!(j, JOp::Bin(_, x) if x.0.len() > 40_000)))) { knobs.max_write += 3000 } }
    let cwd = g.r.pick(&["/w", "/w/a", "/"]).to_string();
    Scen { prop: g.prop.clone(), seed: 0, env, tree: vec![("/w".into(), Init::Dir), ("/w/a".into(), Init::Dir), ("/w/keep".into(), Init::File("keep".into())), ("/w/tl".into(), Init::Link("/var/tmp".into())), ("/w/reltmp".into(), Init::Dir), ("/w/a/reltmp".into(), Init::Link("../reltmp".into())), ("/tmp".into(), Init::Dir), ("/tmp/old".into(), Init::File("old".into())), ("/var".into(), Init::Dir), ("/var/tmp".into(), Init::Dir)], cwd, warmup: 0, age: 0, slots: 1, tasks, knobs, sched: None, faults: None }
}

fn paths(g: &mut G) -> Scen {
    let n = g.ntasks();
    g.nslots = 2 * n;
    let dirs = ["/w", "/w/a", "/w/a/b", "/w/a/b/c", "/etc/app"];
    let mut tree: Vec<(String, Init)> = ["/w", "/w/a", "/w/a/b", "/w/a/b/c", "/etc", "/etc/app"].iter().map(|d| (d.to_string(), Init::Dir)).collect();
    let names = match g.r.below(4) { 0 => ["config", ".rc", "conf.d", "p.yaml.bak"], 1 => ["p", "P.JSON", "x y.yaml", "nest"], _ => ["p.toml", "p.json", "p.yaml", "p.yml"] };
    let keys = ["tls", "cert", "list", "log", "nest"];
    let value = |g: &mut G| -> V {
        g.uniq += 1;
        let u = g.uniq;
        let one = |g: &mut G| match g.r.below(7) { 0 => format!("/abs/{}", u), 1 => format!("./x{}", u), 2 => format!("../up/{}.pem", u), 3 => format!("d/{}/..", u), 5 if g.r.chance(1, 4) => format!("{}x{}", g.r.pick(&["~/", "~", "$HOME/", "${HOME}/", "file:///", "C:/", "\\", "//", " /"]), u), 4 if g.r.chance(1, 3) => String::new(), _ => format!("file{}.pem", u) };
        match g.r.below(4) { 0 => { let k = g.r.range(1, 3); V::A((0..k).map(|_| V::S(one(g))).collect()) } _ => V::S(one(g)) }
    };
    let data = |g: &mut G| -> D {
        let mut d = D::new();
        for k in keys { if g.r.chance(1, 2) { let v = if k == "list" { match value(g) { V::S(s) => V::A(vec![V::S(s)]), v => v } } else if k == "nest" { V::D([("in".to_string(), value(g))].into()) } else { value(g) }; d.insert(k.into(), v); } }
        d
    };
    let mut all = vec![];
    for fmt in 0..4usize { for d in dirs { if g.r.chance(2, 5) {
        let p = format!("{}/{}", d, names[fmt]);
        let x = data(g);
        tree.push((p.clone(), Init::File(render(fmt as u8, &x).into())));
        g.files.push((if g.r.chance(1, 4) { p.clone() } else { names[fmt].to_string() }, fmt as u8));
        all.push((p, fmt as u8));
    } } }
    let cwds = ["/w/a/b/c", "/w/a/b", "/w/a", "/w", "/"];
    let cwd = g.r.pick(&cwds).to_string();
    let mut tasks = vec![];
    for me in 0..n {
        let mut ops = vec![];
        for i in 0..g.r.range(3, 9) {
            let s = (me * 2 + g.r.below(2)) % g.nslots;
            let w = if i < 2 { [1, 0, 0, 0, 0, 0, 0, 0] } else { [6, 4, 3, 3, 1, 1, 1, 1] };
            ops.push(match g.r.weighted(&w) {
                6 => Op::Select { src: s, dst: g.r.below(g.nslots), profile: g.profile() },
                7 => Op::Focus { src: s, dst: g.r.below(g.nslots), key: g.r.pick(&["nest", "nest.in", "", "tls", "list"]).to_string() },
                0 => {
                    let prov = match g.r.below(8) {
                        0 => Prov::Ser { ctor: g.r.below(3) as u8, profile: g.profile(), key: None, v: V::D(data(g)), fail: None, then: vec![] },
                        1 => { let fmt = g.r.below(4) as u8; Prov::Text { fmt, text: render(fmt, &data(g)), nested: false, profile: None, order: 0 } }
                        2 => Prov::Fig(g.r.below(g.nslots)),
                        _ => { let (path, fmt) = if g.files.is_empty() { ("p.toml".into(), 0) } else { g.r.pick(&g.files).clone() }; Prov::File { fmt, path, nested: g.r.chance(1, 12), profile: match g.r.below(10) { 0 | 1 => Some("global".into()), 2 => Some(g.profile()), _ => None }, required: false, search: !g.r.chance(1, 4), swap: g.r.chance(1, 2), order: 0 } }
                    };
                    Op::Combine { src: s, dst: s, how: g.r.weighted(&[3, 3, 4, 4]) as u8, site: g.r.below(4) as u8, by_ref: g.r.chance(1, 3), prov }
                }
                1 => Op::Paths { slot: if g.r.chance(3, 4) { s } else { g.r.below(g.nslots) } },
                2 => Op::Chdir { path: g.r.pick(&cwds).to_string() },
                3 => { if all.is_empty() { Op::Yield } else { let (p, fmt) = g.r.pick(&all).clone(); match g.r.below(3) { 0 => Op::Remove { path: p }, _ => { let x = data(g); Op::Put { path: p, data: render(fmt, &x).into(), fresh: g.r.chance(1, 2) } } } } }
                4 => Op::Clone { src: s, dst: g.r.below(g.nslots) },
                _ => Op::Check { slot: s },
            });
        }
        ops.push(Op::Paths { slot: me * 2 });
        ops.push(Op::Paths { slot: me * 2 + 1 });
        tasks.push(ops);
    }
    let mut knobs = g.knobs(&[(F_STAT_ERR, 1500), (F_GETCWD_ERR, 3000), (F_SHORT_READ, 8000)]);
    if g.r.chance(1, 10) { knobs.max_read = g.r.range(1, 40) }
    Scen { prop: g.prop.clone(), seed: 0, env: vec![], tree, cwd, warmup: 0, age: 0, slots: g.nslots, tasks, knobs, sched: None, faults: None }
}

fn sources(g: &mut G) -> Scen {
    let n = g.ntasks();
    g.nslots = 2 * n;
    let (mut tree, cwd) = g.world();
    tree.push(("/w/a/bb".into(), Init::Dir));
    tree.push(("/w/ab".into(), Init::Dir));
    let srcs = ["/w/a/cfg.toml", "/w/a/b/../cfg.toml", "/w/a/b/c/cfg.toml", "/w/ab/x.conf", "/etc/x.conf", "/", "/w", "cfg.toml", "../up.conf", "/w/a", "/w/a/b", "/w/a/bb/x.conf", "/x", "//w//a/cfg.toml", "a/./cfg.toml", "/w/./a/cfg.toml", "/w/../w/a/cfg.toml", "/w/a/b/c/../../cfg.toml", "/w/sym/cfg.toml", "/w/a/cfg.toml/"];
    tree.push(("/w/sym".into(), Init::Link("/w/a/b".into())));
    let cwds = ["/w/a/b/c", "/w/a/b", "/w/a", "/w", "/", "/w/other", "/w/a/bb", "/w/ab", "/etc"];
    let mut tasks = vec![];
    for me in 0..n {
        let mut ops = vec![];
        for i in 0..g.r.range(3, 10) {
            let s = (me * 2 + g.r.below(2)) % g.nslots;
            let w = if i == 0 { [1, 0, 0, 0, 0] } else { [4, 6, 5, 1, 1] };
            ops.push(match g.r.weighted(&w) {
                0 => {
                    let prov = if g.r.chance(1, 3) { g.file_prov() } else {
                        g.names += 1;
                        let t = g.r.pick(&srcs).to_string();
                        Prov::Script(Script { name: format!("P{}", g.names), src: Some(if g.r.chance(1, 10) { (1, "some custom source".into()) } else { (0, t) }), interp: 0, profile: None, alts: vec![vec![("default".into(), [("k".to_string(), V::i(g.names as i64))].into())]], err: vec![], yields: 0, panic: false, loc: false, inner: false })
                    };
                    Op::Combine { src: s, dst: s, how: g.r.below(4) as u8, site: g.r.below(4) as u8, by_ref: false, prov }
                }
                1 => Op::Display { slot: if g.r.chance(3, 4) { s } else { g.r.below(g.nslots) } },
                2 => Op::Chdir { path: g.r.pick(&cwds).to_string() },
                3 => g.fs_change(),
                _ => Op::Yield,
            });
        }
        ops.push(Op::Display { slot: me * 2 });
        tasks.push(ops);
    }
    let knobs = g.knobs(&[(F_GETCWD_ERR, 16000), (F_STAT_ERR, 2000), (F_REALPATH_ERR, 6000)]);
    Scen { prop: g.prop.clone(), seed: 0, env: vec![], tree, cwd, warmup: 0, age: 0, slots: g.nslots, tasks, knobs, sched: None, faults: None }
}

/// Makes some provider objects earlier than they are combined, and combines some of them again.
fn held(g: &mut G, s: &mut Scen) {
    if g.r.chance(1, 2) { return }
    let mut k = 0;
    for t in s.tasks.iter_mut() {
        let mut i = 0;
        while i < t.len() {
            let mine = |o: &Op| matches!(o, Op::Combine { prov: Prov::Script(_) | Prov::Ser { .. } | Prov::Tuple { .. } | Prov::Text { .. } | Prov::File { .. } | Prov::Env(_), .. });
            if mine(&t[i]) && g.r.chance(1, 4) {
                k += 1;
                let mut p = Prov::Held(k);
                if let Op::Combine { prov, .. } = &mut t[i] { std::mem::swap(&mut p, prov) }
                if g.r.chance(1, 2) {
                    let mut again = t[i].clone();
                    if let Op::Combine { src, dst, how, by_ref, .. } = &mut again { if g.r.chance(1, 2) { *src = *dst } if g.r.chance(1, 3) { *how = g.r.below(5) as u8 } if g.r.chance(1, 2) { *by_ref = !*by_ref } }
                    let at = g.r.range(i + 1, t.len());
                    t.insert(at, again);
                }
                t.insert(g.r.range(0, i), Op::Hold { k, prov: p });
                i += 1;
            }
            i += 1;
        }
    }
}

/// Moves a stretch of some thread's operations into a jail.
fn host(g: &mut G, s: &mut Scen) {
    for d in ["/tmp", "/var", "/var/tmp"] { if g.r.chance(7, 8) && !s.tree.iter().any(|(p, _)| p == d) { s.tree.push((d.into(), Init::Dir)) } }
    let k = g.r.range(1, 2);
    for _ in 0..k {
        let t = g.r.below(s.tasks.len());
        let n = s.tasks[t].len();
        if n == 0 { continue }
        let a = g.r.below(n);
        let b = g.r.range(a + 1, n);
        let ops: Vec<Op> = s.tasks[t].drain(a..b).collect();
        let (mut ops, rest): (Vec<Op>, Vec<Op>) = ops.into_iter().partition(|o| !matches!(o, Op::Jail { .. }));
        let mut body = vec![];
        let files: Vec<(String, u8)> = g.files.iter().filter(|f| !f.0.starts_with('/') && !f.0.contains("..")).cloned().collect();
        ops.reverse();
        while let Some(o) = ops.pop() {
            while g.r.chance(1, 2) {
                g.uniq += 1;
                let u = g.uniq;
                body.push(match g.r.weighted(&[6, 1, 6, 2, 2, 1]) {
                    0 => { let n = g.var_name(); let k = if n.is_empty() || n.contains(['=', '\0']) { "APP_NEW".into() } else { n }; let v = g.envval(); JOp::SetEnv(k, if v.contains('\0') { format!("jail{}", u) } else { v }) }
                    1 => JOp::ClearEnv,
                    2 => { let (p, fmt) = if files.is_empty() { ("cfg.toml".to_string(), 0) } else { g.r.pick(&files).clone() }; JOp::Bin(p, g.content(fmt)) }
                    3 => JOp::Dir(g.r.pick(&["a", "a/b", "a/b/c"]).to_string()),
                    4 => JOp::Cd(g.r.pick(&["a", "a/b", "..", "b", "a/b/c"]).to_string()),
                    _ => JOp::Yield,
                });
            }
            body.push(JOp::Op(Box::new(o)));
        }
        let end = match g.r.below(6) { 0 => End::Err("over".into()), 1 => End::Panic("over".into()), _ => End::Ok };
        let expect = g.r.chance(1, 4);
        let at = a.min(s.tasks[t].len());
        s.tasks[t].splice(at..at, rest);
        s.tasks[t].insert(at, Op::Jail { body, end, expect });
    }
}

pub fn gen(prop: &str, seed: u64) -> Scen {
    let mut r = Rng::new(mix(seed ^ prop.bytes().fold(0, |h, b| mix(h ^ b as u64))));
    let odd = r.chance(1, 6);
    let wide = r.chance(1, 10);
    let nk = if wide { r.range(8, 18) } else { r.range(2, 7) };
    let keys = gen_keys(&mut r, nk, odd);
    let cfg = GenCfg { keys, depth: if wide { r.below(2) } else { r.below(4) } as u32, width: if wide { r.range(8, 24) } else { r.range(1, 5) }, text: false, rich: r.chance(2, 3), arr: *r.pick(&[0, 10, 25, 40]), dict: *r.pick(&[10, 30, 50]), big: match &prop[..1] { "M" => 300, "C" => 5000, _ => 1100 } };
    let mut g = G { r, prop: prop.into(), uniq: 0, cfg, pool: vec![], names: 0, nslots: 1, files: vec![], vars: vec![], spine: vec![], deep: vec![], jdeep: 0, environ: vec![], bulk: false, tall: false };
    g.bulk = g.r.chance(1, if prop == "C01" { 70 } else { 1500 });
    if g.r.chance(1, 8) {
        let short: Vec<String> = g.cfg.keys.iter().filter(|k| k.len() < 20).cloned().collect();
        if !short.is_empty() { let n = if g.r.chance(1, 20) { g.r.range(30, 100) } else { g.r.range(6, 30) }; g.spine = (0..n).map(|_| g.r.pick(&short).clone()).collect(); }
    }
    let mut s = match &prop[..1] {
        "F" => files(&mut g), "E" => envs(&mut g), "J" => jails(&mut g), "M" => paths(&mut g), "S" => sources(&mut g), _ => layered(&mut g),
    };
    if (matches!(&prop[..1], "F" | "M" | "S") || prop == "C03") && g.r.chance(1, 3) {
        // what a shell leaves in the environment
        let mut pwd = if g.r.chance(1, 2) { s.cwd.clone() } else { g.r.pick(&["/w", "/w/a", "/w/a/b/c", "/", "/nowhere", ""]).to_string() };
        if g.r.chance(1, 2) && s.cwd.len() > 1 {
            let at = g.r.pick(&["/w", "/w/a", "/w/other", "/etc", "/tmp"]).to_string();
            if at != s.cwd && !at.starts_with(&format!("{}/", s.cwd)) {
                if !s.tree.iter().any(|(p, _)| *p == at) { s.tree.push((at.clone(), Init::Dir)) }
                pwd = format!("{}/ln", at);
                s.tree.push((pwd.clone(), Init::Link(s.cwd.as_str().into())));
            }
        }
        let up: Vec<String> = s.cwd.match_indices('/').map(|(i, _)| s.cwd[..i.max(1)].to_string()).chain([s.cwd.clone()]).collect();
        let home = match g.r.below(4) { 0 => "/w/other".to_string(), 1 => "/w".into(), 2 => "/w/a".into(), _ => g.r.pick(&up).clone() };
        for (k, v) in [("PWD", pwd.clone()), ("OLDPWD", "/w".to_string()), ("HOME", home)] { s.env.retain(|e| e.0.0 != k.as_bytes()); s.env.push((k.into(), v.into())) }
    }
    if !prop.starts_with('J') { held(&mut g, &mut s) }
    if !prop.starts_with('J') && prop != "C06" && g.r.chance(1, 7) { host(&mut g, &mut s) }
    if matches!(&prop[..1], "S" | "M") && g.r.chance(1, 8) {
        // directories whose names are almost the same
        let a = g.r.pick(&["A", "A", "a ", "a.", "ａ", "a~"]).to_string();
        let names: Vec<(&str, String)> = if &prop[..1] == "S" { vec![("/w/a/bb", if g.r.chance(1, 2) { "/w/a/B".to_string() } else { format!("/w/{}/b", a) }), ("/w/ab", format!("/w/{}", a))] } else { vec![("/etc/app", format!("/w/{}", a))] };
        let mut t = serde_json::to_string(&s).expect("scenario");
        for (x, y) in &names { t = t.replace(x, y) }
        s = unjson(t.as_bytes()).expect("scenario");
        let mut i = 0;
        while i < s.tree.len() { let p = s.tree[i].0.clone(); if s.tree[..i].iter().any(|e| e.0 == p) { s.tree.remove(i); } else { i += 1 } }
        s.tree.sort_by_key(|e| e.0.matches('/').count());
    }
    let raw = g.r.below(14);
    if raw < 2 && !(s.prop.starts_with('J') && s.env.iter().any(|e| e.0.0 == b"TMPDIR")) {
        // names that are no text
        let names: &[(&str, &str)] = match (raw, &prop[..1]) {
            (0, "J") => &[("/w", "/w#"), ("/var/tmp/", "/var/tmp/")],
            (_, "J") => &[("/w/a", "/w/#a")],
            (0, "M") => &[("/w/a/b", "/w/a/b#")],
            (_, "M") => &[("/w", "/#w")],
            (0, _) => &[("/w/a/b", "/w/a/b#"), ("/etc/", "/e#c/")],
            _ => &[("cfg.toml", "c#g.toml"), ("conf.yaml", "#.yaml"), ("/w/other", "/w/o#her")],
        };
        let mut t = serde_json::to_string(&s).expect("scenario");
        for (a, b) in names { t = t.replace(a, &b.replace('#', &RAW.to_string())) }
        s = unjson(t.as_bytes()).expect("scenario");
    }
    if g.r.chance(1, if prop == "C06" { 4 } else { 24 }) { s.age = g.age() }
    s.seed = seed;
    s
}
