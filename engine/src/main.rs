//! rsym: bounded symbolic execution of the LLVM IR of real code.
//!
//!   rsym FILE.ll --arg N [--arg M ..] --out REPORT.json [--jobs 8] [--max-steps N] [--time SECONDS]
//!
//! Exit 0: every path explored, no violation; 1: violations; 2: incomplete.
mod code;
mod exec;
mod expr;
mod ll;
mod mem;
mod z3;

use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(r, "\\u{:04x}", c as u32);
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

#[derive(Default)]
struct Rep {
    num: BTreeMap<String, f64>,
    paths: BTreeMap<String, u64>,
    covers: BTreeMap<String, u64>,
    checks: BTreeMap<String, u64>,
    unsup: BTreeMap<String, u64>,
    funcs: BTreeSet<String>,
    cex: Vec<(String, String, String, String)>,
    samples: Vec<(String, String)>,
    incomplete: bool,
}

impl Rep {
    fn from(ex: &Ex, incomplete: bool) -> Rep {
        let mut r = Rep::default();
        let z = z3::z();
        let s = &ex.st;
        for (k, v) in [
            ("instructions", s.steps as f64),
            ("forks", s.forks as f64),
            ("branches", s.branches as f64),
            ("decided_by_domain", s.dom_dec as f64),
            ("decided_by_z3", s.z3_dec as f64),
            ("domain_decisions_confirmed_by_z3", s.confirmed as f64),
            ("preemptions", s.preemptions as f64),
            ("error_texts_left_empty", s.error_texts as f64),
            ("checks_concrete", s.checks_const as f64),
            ("checks_z3", s.checks_z3 as f64),
            ("concretisations", s.concretised as f64),
            ("z3_queries", z.queries as f64),
            ("z3_sat", z.sat as f64),
            ("z3_unsat", z.unsat as f64),
            ("z3_cache_hits", z.hits as f64),
            ("z3_seconds", z.time),
        ] {
            r.num.insert(k.into(), v);
        }
        r.num.insert("max_symbolic_bytes".into(), s.max_bytes as f64);
        r.num.insert("max_path_instructions".into(), s.max_steps as f64);
        r.num.insert("max_z3_query_seconds".into(), z.max_time);
        r.paths = s.paths.clone();
        r.covers = ex.covers.clone();
        r.checks = ex.checks.clone();
        r.unsup = ex.unsupported.clone();
        for &i in &ex.funcs {
            r.funcs.insert(ex.p.names[i as usize].clone());
        }
        for c in &ex.cex {
            r.cex.push((c.kind.clone(), c.msg.clone(), hex(&c.bytes), c.sched.clone()));
        }
        for c in &ex.samples {
            r.samples.push((hex(&c.bytes), hex(&c.log)));
        }
        r.incomplete = incomplete;
        r
    }
    fn save(&self) -> String {
        let mut o = String::new();
        for (k, v) in &self.num {
            let _ = writeln!(o, "N\t{}\t{}", k, v);
        }
        for (t, m) in [("P", &self.paths), ("V", &self.covers), ("K", &self.checks), ("U", &self.unsup)] {
            for (k, v) in m {
                let _ = writeln!(o, "{}\t{}\t{}", t, k.replace(['\t', '\n'], " "), v);
            }
        }
        for f in &self.funcs {
            let _ = writeln!(o, "F\t{}", f);
        }
        for (a, b, c, d) in &self.cex {
            let _ = writeln!(o, "C\t{}\t{}\t{}\t{}", a, b.replace(['\t', '\n'], " "), c, d);
        }
        for (a, b) in &self.samples {
            let _ = writeln!(o, "S\t{}\t{}", a, b);
        }
        if self.incomplete {
            o.push_str("I\n");
        }
        o.push_str("E\n");
        o
    }
    fn merge_text(&mut self, t: &str) -> bool {
        let mut ended = false;
        for l in t.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            match p[0] {
                "N" => {
                    let v: f64 = p[2].parse().unwrap_or(0.0);
                    let e = self.num.entry(p[1].into()).or_insert(0.0);
                    if p[1].starts_with("max_") {
                        *e = e.max(v);
                    } else {
                        *e += v;
                    }
                }
                "P" => *self.paths.entry(p[1].into()).or_insert(0) += p[2].parse::<u64>().unwrap_or(0),
                "V" => *self.covers.entry(p[1].into()).or_insert(0) += p[2].parse::<u64>().unwrap_or(0),
                "K" => *self.checks.entry(p[1].into()).or_insert(0) += p[2].parse::<u64>().unwrap_or(0),
                "U" => *self.unsup.entry(p[1].into()).or_insert(0) += p[2].parse::<u64>().unwrap_or(0),
                "F" => {
                    self.funcs.insert(p[1].into());
                }
                "C" => self.cex.push((p[1].into(), p[2].into(), p[3].into(), p[4].into())),
                "S" => self.samples.push((p[1].into(), p[2].into())),
                "I" => self.incomplete = true,
                "E" => ended = true,
                _ => {}
            }
        }
        ended
    }
    fn json(&self, secs: f64, args: &[u64]) -> String {
        let m = |m: &BTreeMap<String, u64>| {
            format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "))
        };
        let mut o = String::from("{\n");
        let _ = writeln!(o, " \"args\": {:?},", args);
        let _ = writeln!(o, " \"complete\": {},", !self.incomplete && self.unsup.is_empty());
        let _ = writeln!(o, " \"seconds\": {:.2},", secs);
        let _ = writeln!(o, " \"z3\": {},", js(&z3::version()));
        for (k, v) in &self.num {
            let _ = writeln!(o, " {}: {},", js(k), v);
        }
        let _ = writeln!(o, " \"paths\": {},", m(&self.paths));
        let _ = writeln!(o, " \"covers\": {},", m(&self.covers));
        let _ = writeln!(o, " \"checks\": {},", m(&self.checks));
        let _ = writeln!(o, " \"unsupported\": {},", m(&self.unsup));
        let _ = writeln!(o, " \"functions\": [{}],", self.funcs.iter().map(|f| js(f)).collect::<Vec<_>>().join(", "));
        let _ = writeln!(
            o,
            " \"violations\": [{}],",
            self.cex
                .iter()
                .map(|c| format!("{{\"kind\": {}, \"msg\": {}, \"bytes\": {}, \"schedule\": {}}}", js(&c.0), js(&c.1), js(&c.2), js(&c.3)))
                .collect::<Vec<_>>()
                .join(",\n  ")
        );
        let _ = writeln!(
            o,
            " \"samples\": [{}]",
            self.samples
                .iter()
                .map(|c| format!("{{\"bytes\": {}, \"log\": {}}}", js(&c.0), js(&c.1)))
                .collect::<Vec<_>>()
                .join(",\n  ")
        );
        o.push_str("}\n");
        o
    }
}

fn main() {
    let mut file = String::new();
    let mut args = vec![];
    let mut out = String::new();
    let mut jobs = 8usize;
    let mut cex_time = 60.0f64;
    let mut max_steps = 20_000_000u64;
    let mut time = 600.0f64;
    let mut samples = 12usize;
    let mut entry = "rsym_entry".to_string();
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        match a.as_str() {
            "--arg" => args.push(it.next().unwrap().parse().unwrap()),
            "--out" => out = it.next().unwrap(),
            "--jobs" => jobs = it.next().unwrap().parse().unwrap(),
            "--cex-time" => cex_time = it.next().unwrap().parse().unwrap(),
            "--max-steps" => max_steps = it.next().unwrap().parse().unwrap(),
            "--time" => time = it.next().unwrap().parse().unwrap(),
            "--samples" => samples = it.next().unwrap().parse().unwrap(),
            "--entry" => entry = it.next().unwrap(),
            _ => file = a,
        }
    }
    let t0 = Instant::now();
    let src = std::fs::read(&file).expect("read");
    let m = ll::parse(&src);
    drop(src);
    let parse_t = t0.elapsed().as_secs_f64();
    let p = code::Prog::new(m);
    let mut ex = Ex::new(p);
    ex.max_steps = max_steps;
    ex.max_samples = samples;
    let t1 = Instant::now();
    ex.start(&entry, &args);
    let verbose = std::env::var("RSYM_VERBOSE").is_ok();
    if verbose {
        eprintln!("parse {:.2}s", parse_t);
    }
    let mut rep = Rep::default();
    let deadline = |t1: &Instant| t1.elapsed().as_secs_f64() > time;
    // breadth first until there is enough work to distribute
    let target = if jobs > 1 { jobs * 60 } else { usize::MAX };
    let mut incomplete = false;
    if jobs <= 1 {
        while let Some(s) = ex.work.pop() {
            ex.run(s);
            if deadline(&t1) {
                incomplete = !ex.work.is_empty();
                break;
            }
        }
    } else {
        let mut last = Instant::now();
        while !ex.work.is_empty() && ex.work.len() < target && t1.elapsed().as_secs_f64() < 20.0 {
            // the oldest state first
            let s = ex.work.remove(0);
            ex.run(s);
            if verbose && last.elapsed().as_secs_f64() > 2.0 {
                last = Instant::now();
                eprintln!("frontier {} ended {}", ex.work.len(), ex.ended);
            }
        }
    }
    if ex.work.is_empty() || jobs <= 1 {
        rep.merge_text(&Rep::from(&ex, incomplete).save());
    } else {
        let n = ex.work.len();
        let base = Rep::from(&ex, false).save();
        rep.merge_text(&base);
        // shared counter
        let cnt = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *mut std::sync::atomic::AtomicUsize;
        let mut pids = vec![];
        let mypid = std::process::id();
        let dir = std::env::temp_dir();
        let t_par = t1.elapsed().as_secs_f64();
        if verbose {
            eprintln!("frontier {} after {:.2}s", n, t_par);
        }
        let units: Vec<St> = std::mem::take(&mut ex.work);
        for j in 0..jobs {
            let pid = unsafe { fork() };
            if pid == 0 {
                // worker: fresh statistics
                ex.st = Stats::default();
                ex.covers.clear();
                ex.checks.clear();
                ex.unsupported.clear();
                ex.cex.clear();
                ex.samples.clear();
                ex.ended = 0;
                ex.rng ^= (j as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15);
                let z = z3::z();
                z.queries = 0;
                z.sat = 0;
                z.unsat = 0;
                z.hits = 0;
                z.time = 0.0;
                let mut inc = false;
                'o: loop {
                    let i = unsafe { (*cnt).fetch_add(1, std::sync::atomic::Ordering::SeqCst) };
                    if i >= n {
                        break;
                    }
                    ex.work.push(units[i].clone());
                    while let Some(s) = ex.work.pop() {
                        ex.run(s);
                        let el = t1.elapsed().as_secs_f64();
                        if el > time || (el > cex_time && !ex.cex.is_empty()) {
                            inc = true;
                            break 'o;
                        }
                    }
                }
                let path = dir.join(format!("rsym.{}.{}", mypid, j));
                let t = Rep::from(&ex, inc).save();
                let ok = std::fs::File::create(&path).and_then(|mut f| f.write_all(t.as_bytes())).is_ok();
                unsafe { _exit(if ok { 0 } else { 1 }) };
            }
            pids.push(pid);
        }
        for (j, pid) in pids.iter().enumerate() {
            let mut st = 0;
            unsafe { waitpid(*pid, &mut st, 0) };
            let path = dir.join(format!("rsym.{}.{}", mypid, j));
            let ok = match std::fs::read_to_string(&path) {
                Ok(t) => rep.merge_text(&t),
                Err(_) => false,
            };
            let _ = std::fs::remove_file(&path);
            if !ok || st != 0 {
                eprintln!("rsym: worker {} failed ({})", j, st);
                rep.incomplete = true;
            }
        }
    }
    let secs = t1.elapsed().as_secs_f64();
    let o = rep.json(secs, &args);
    if !out.is_empty() {
        std::fs::write(&out, &o).unwrap();
    }
    eprintln!(
        "rsym {:?}: {:.1}s (+{:.1}s load) paths {:?} instr {:.1}M z3 {} ({:.1}s) unsupported {:?} violations {}{}",
        args,
        secs,
        parse_t,
        rep.paths,
        rep.num.get("instructions").unwrap_or(&0.0) / 1e6,
        rep.num.get("z3_queries").unwrap_or(&0.0),
        rep.num.get("z3_seconds").unwrap_or(&0.0),
        rep.unsup,
        rep.cex.len(),
        if rep.incomplete { " INCOMPLETE" } else { "" },
    );
    if verbose {
        for c in &rep.cex {
            eprintln!("  {} {} {}", c.0, c.1, c.2);
        }
        eprintln!("  covers {:?}", rep.covers);
        eprintln!("  {:?}", rep.num);
    }
    std::process::exit(if !rep.cex.is_empty() {
        1
    } else if rep.incomplete || !rep.unsup.is_empty() {
        2
    } else {
        0
    });
}
