//! The symbolic executor.
use crate::code::*;
use crate::expr::*;
use crate::ll::Ty;
use crate::mem::*;
use crate::z3::z;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame {
    pub f: &'static CFunc,
    pub ip: u32,
    pub regs: Vec<V>,
    pub sp: u64,
}

#[derive(Clone, Copy)]
pub struct LogB {
    pub d: u8,
    pub e: E,
}

#[derive(Clone)]
pub struct St {
    pub stack: Vec<Rc<Frame>>,
    pub top: Frame,
    pub mem: Mem,
    pub sp: u64,
    pub dom: Vec<Dom>,
    pub linked: Vec<bool>,
    pub model: Vec<u8>,
    pub cons: Rc<Vec<E>>,
    pub known: Rc<HashMap<E, u128>>,
    pub log: Rc<Vec<LogB>>,
    pub last_panic: Rc<String>,
    pub steps: u64,
    pub forks: u32,
    pub exc: u64,
    pub clock: u64,
    pub thr: Threads,
}

/// A second thread, which may start and be switched to before any atomic operation.
#[derive(Clone)]
pub struct Threads {
    /// function it will run, u32::MAX: none
    armed: u32,
    /// switches left
    budget: u32,
    /// whichever thread does not run
    second: Option<Rc<Thr>>,
    /// the running one is the second to have started
    on_other: bool,
    /// the running one has just been switched to
    fresh: bool,
    yielded: bool,
    /// atomic operations of either
    ops: [u32; 2],
    /// where switches took place
    pub sched: Vec<(u32, u32)>,
}
#[derive(Clone)]
struct Thr {
    stack: Vec<Rc<Frame>>,
    top: Frame,
    sp: u64,
    /// what it waits for: while the address holds the value
    waits: Option<(u64, u64)>,
}
const OTHER_SP: u64 = 1 << 20;

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Ok,
    Assumed,
    Violation(String),
    Panic(String),
    Deadlock,
    Hang,
    Fault(String),
    Abort(String),
    Unsupported(String),
}

pub enum R {
    V(V),
    Void,
    Retry,
    End(End),
    Unwind(u64),
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: BTreeMap<String, u64>,
    pub steps: u64,
    pub forks: u64,
    pub branches: u64,
    pub dom_dec: u64,
    pub z3_dec: u64,
    pub checks_const: u64,
    pub checks_z3: u64,
    pub concretised: u64,
    pub max_bytes: u64,
    pub max_steps: u64,
    pub quick: u64,
    pub confirmed: u64,
    pub error_texts: u64,
    pub preemptions: u64,
}

pub struct Cex {
    pub msg: String,
    pub kind: String,
    pub bytes: Vec<u8>,
    pub sched: String,
}
pub struct Sample {
    pub bytes: Vec<u8>,
    pub log: Vec<u8>,
}

pub struct Ex {
    pub p: Prog,
    pub work: Vec<St>,
    pub st: Stats,
    pub cex: Vec<Cex>,
    pub samples: Vec<Sample>,
    pub max_samples: usize,
    pub covers: BTreeMap<String, u64>,
    pub checks: BTreeMap<String, u64>,
    pub funcs: BTreeSet<u32>,
    pub unsupported: BTreeMap<String, u64>,
    pub max_steps: u64,
    pub max_cex: usize,
    pub bi: HashMap<u32, Bi>,
    pub panic_fn: Option<u32>,
    pub format_fn: Option<u32>,
    pub write_fn: Option<u32>,
    pub ended: u64,
    pub rng: u64,
    pub trace: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bi {
    Byte,
    Word,
    Range,
    Assume,
    Check,
    Cover,
    Log,
    Conc,
    Arm,
    Memcmp,
    Strlen,
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    Raise,
    Nop0,
    ErrnoLoc,
    Abort,
    Getrandom,
    Syscall,
    Yield,
    Sysconf,
    One,
    ClockGettime,
    Write,
    Null,
    MinusOne,
    KeyCreate,
}

fn builtin(n: &str) -> Option<Bi> {
    Some(match n {
        "rsym_byte" => Bi::Byte,
        "rsym_word" => Bi::Word,
        "rsym_range" => Bi::Range,
        "rsym_assume" => Bi::Assume,
        "rsym_check" => Bi::Check,
        "rsym_cover" => Bi::Cover,
        "rsym_log" => Bi::Log,
        "rsym_conc" => Bi::Conc,
        "rsym_arm" => Bi::Arm,
        "bcmp" | "memcmp" => Bi::Memcmp,
        "strlen" => Bi::Strlen,
        "malloc" => Bi::Malloc,
        "calloc" => Bi::Calloc,
        "realloc" => Bi::Realloc,
        "free" => Bi::Free,
        "posix_memalign" => Bi::Memalign,
        "_Unwind_RaiseException" => Bi::Raise,
        "_Unwind_DeleteException" | "__cxa_thread_atexit_impl" | "pthread_setspecific" | "pthread_key_delete"
        | "_Unwind_Backtrace" | "pthread_attr_destroy" | "dl_iterate_phdr" | "munmap" | "close"
        | "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_atfork" | "sigaltstack" => Bi::Nop0,
        "__errno_location" => Bi::ErrnoLoc,
        "abort" | "_exit" | "exit" => Bi::Abort,
        "getrandom" => Bi::Getrandom,
        "sched_yield" => Bi::Yield,
        "syscall" => Bi::Syscall,
        "sysconf" => Bi::Sysconf,
        "pthread_self" | "gettid" | "getpid" => Bi::One,
        "clock_gettime" => Bi::ClockGettime,
        "write" | "writev" => Bi::Write,
        "getenv" | "getcwd" | "pthread_getspecific" | "getauxval" => Bi::Null,
        "pthread_key_create" => Bi::KeyCreate,
        "open64" | "statx" | "sched_getaffinity" | "poll" | "fcntl" | "lseek64" | "open" | "fstat" | "stat" | "lseek" | "mmap" | "mprotect" | "read" | "stat64" | "fstat64" | "readlink" | "realpath" | "mmap64" => Bi::MinusOne,
        _ => return None,
    })
}

macro_rules! tryf {
    ($e:expr) => {
        match $e {
            Ok(v) => v,
            Err(Fault(a)) => return R::End(End::Fault(format!("memory access at {:#x}", a))),
        }
    };
}

impl St {
    pub fn val(&self, o: O) -> V {
        match o {
            O::R(i) => self.top.regs[i as usize].clone(),
            O::K(i) => self.top.f.consts[i as usize].clone(),
        }
    }
    pub fn new_byte(&mut self, d: Dom) -> E {
        let b = self.dom.len() as u32;
        self.dom.push(d);
        self.linked.push(false);
        self.model.push(dom_first(&d).unwrap());
        byte(b)
    }
    fn eval(&self, e: E) -> u128 {
        let mut memo = HashMap::new();
        eval(e, &|b| self.model[b as usize], &mut memo)
    }
    /// simplify with the bytes that have a single possible value
    fn simp(&self, e: E) -> E {
        if let Some(&v) = self.known.get(&e) {
            return konst(v, w(e));
        }
        match &node(e).n {
            N::Const(_) => return e,
            N::Tbl(b, t) => {
                let d = &self.dom[*b as usize];
                let t = &cx().tables[*t as usize];
                let mut it = dom_iter(d);
                let first = t[it.next().unwrap() as usize];
                for v in it {
                    if t[v as usize] != first {
                        return e;
                    }
                }
                return konst(first as u128, w(e));
            }
            _ => {}
        }
        let ds = deps(e);
        let mut fixed = false;
        for &b in ds.iter() {
            if dom_count(&self.dom[b as usize]) == 1 {
                fixed = true;
                break;
            }
        }
        if !fixed {
            return e;
        }
        let mut memo = HashMap::new();
        let r = subst(
            e,
            &|b| {
                let d = &self.dom[b as usize];
                if dom_count(d) == 1 {
                    dom_first(d)
                } else {
                    None
                }
            },
            &mut memo,
        );
        if let Some(&v) = self.known.get(&r) {
            return konst(v, w(r));
        }
        if let N::Tbl(..) = node(r).n {
            return self.simp(r);
        }
        r
    }
    /// the part of the path condition connected with the given expressions
    fn slice(&self, extra: &[E]) -> Vec<E> {
        let mut bytes: BTreeSet<u32> = BTreeSet::new();
        for &e in extra {
            bytes.extend(deps(e).iter());
        }
        let mut used = vec![false; self.cons.len()];
        let mut out: Vec<E> = extra.to_vec();
        loop {
            let mut grew = false;
            for (i, &c) in self.cons.iter().enumerate() {
                if !used[i] && deps(c).iter().any(|b| bytes.contains(b)) {
                    used[i] = true;
                    out.push(c);
                    bytes.extend(deps(c).iter());
                    grew = true;
                }
            }
            if !grew {
                break;
            }
        }
        for &b in &bytes {
            if self.dom[b as usize] != FULL {
                out.push(in_dom(b, &self.dom[b as usize]));
            }
        }
        out
    }
    pub fn full_pc(&self) -> Vec<E> {
        let mut out: Vec<E> = self.cons.to_vec();
        for (b, d) in self.dom.iter().enumerate() {
            if *d != FULL {
                out.push(in_dom(b as u32, d));
            }
        }
        out
    }
    pub fn feasible(&self, extra: &[E]) -> Option<Vec<(u32, u8)>> {
        let q = self.slice(extra);
        z().solve(&q)
    }
    /// a condition that follows from the domains of the bytes alone
    pub fn quick(&self, e: E) -> Option<bool> {
        let (lo, hi) = self.interval(e, &mut HashMap::new());
        if lo == hi {
            return Some(lo == 1);
        }
        as_const(normalise(e, &self.dom, &mut HashMap::new())).map(|k| k == 1)
    }
    /// unsigned bounds of an expression, from the domains of its bytes
    pub fn interval(&self, e: E, memo: &mut std::collections::HashMap<E, (u128, u128)>) -> (u128, u128) {
        let n = node(e);
        let wd = n.w;
        let full = (0, mask(wd));
        match n.n {
            N::Const(c) => return (c, c),
            N::Tbl(b, t) => {
                let t = table(t);
                let (mut lo, mut hi) = (u64::MAX, 0);
                for v in dom_iter(&self.dom[b as usize]) {
                    lo = lo.min(t[v as usize]);
                    hi = hi.max(t[v as usize]);
                }
                return if lo > hi { full } else { (lo as u128, hi as u128) };
            }
            _ => {}
        }
        if wd > 64 {
            return full;
        }
        if let Some(&r) = memo.get(&e) {
            return r;
        }
        let (op, a, b, c) = match n.n {
            N::Op(op, a, b, c) => (op, a, b, c),
            _ => unreachable!(),
        };
        let bit = |t: bool, f: bool| if t { (1, 1) } else if f { (0, 0) } else { (0, 1) };
        let top = |v: u128| if v == 0 { 0 } else { mask(128 - v.leading_zeros()) };
        let r = match op {
            Op::Concat => {
                let (x, y) = (self.interval(a, memo), self.interval(b, memo));
                let k = w(b);
                (x.0 << k | y.0, x.1 << k | y.1)
            }
            Op::Extract => {
                if w(a) > 64 {
                    full
                } else {
                    let x = self.interval(a, memo);
                    if x.1 >> c <= mask(wd) {
                        (x.0 >> c, x.1 >> c)
                    } else {
                        full
                    }
                }
            }
            Op::SExt => {
                let x = self.interval(a, memo);
                if x.1 >> (w(a) - 1) == 0 {
                    x
                } else {
                    full
                }
            }
            Op::Ite => {
                let q = self.interval(a, memo);
                let (x, y) = (self.interval(b, memo), self.interval(c, memo));
                if q == (1, 1) {
                    x
                } else if q == (0, 0) {
                    y
                } else {
                    (x.0.min(y.0), x.1.max(y.1))
                }
            }
            _ if w(a) > 64 => full,
            _ => {
                let (x, y) = (self.interval(a, memo), self.interval(b, memo));
                match op {
                    Op::Add => {
                        if x.1 + y.1 <= mask(wd) {
                            (x.0 + y.0, x.1 + y.1)
                        } else if x.0 + y.0 > mask(wd) {
                            (x.0 + y.0 - mask(wd) - 1, x.1 + y.1 - mask(wd) - 1)
                        } else {
                            full
                        }
                    }
                    Op::Sub if x.0 >= y.1 => (x.0 - y.1, x.1 - y.0),
                    Op::Mul if x.1 * y.1 <= mask(wd) => (x.0 * y.0, x.1 * y.1),
                    Op::UDiv if y.0 > 0 => (x.0 / y.1, x.1 / y.0),
                    Op::URem if y.0 > 0 => (0, x.1.min(y.1 - 1)),
                    Op::And => {
                        if wd == 1 {
                            bit(x.0 == 1 && y.0 == 1, x.1 == 0 || y.1 == 0)
                        } else {
                            (0, x.1.min(y.1))
                        }
                    }
                    Op::Or => (x.0.max(y.0), top(x.1 | y.1)),
                    Op::Xor => {
                        if x.0 == x.1 && y.0 == y.1 {
                            (x.0 ^ y.0, x.0 ^ y.0)
                        } else {
                            (0, top(x.1 | y.1))
                        }
                    }
                    Op::LShr if y.0 == y.1 && y.0 < wd as u128 => (x.0 >> y.0, x.1 >> y.0),
                    Op::Shl if y.0 == y.1 && y.0 < wd as u128 && x.1 << y.0 <= mask(wd) => (x.0 << y.0, x.1 << y.0),
                    Op::Eq => bit(x.0 == x.1 && y == x, x.1 < y.0 || y.1 < x.0),
                    Op::Ult => {
                        // x + d < x holds only when the sum wraps
                        if let N::Op(Op::Add, p, q, _) = node(a).n {
                            if p == b || q == b {
                                let (u, v) = (self.interval(p, memo), self.interval(q, memo));
                                if u.1 + v.1 <= mask(w(a)) {
                                    return (0, 0);
                                }
                                if u.0 + v.0 > mask(w(a)) {
                                    return (1, 1);
                                }
                            }
                        }
                        bit(x.1 < y.0, x.0 >= y.1)
                    }
                    Op::Ule => bit(x.1 <= y.0, x.0 > y.1),
                    Op::Slt | Op::Sle => {
                        let s = w(a) - 1;
                        if x.1 >> s == 0 && y.1 >> s == 0 {
                            if op == Op::Slt {
                                bit(x.1 < y.0, x.0 >= y.1)
                            } else {
                                bit(x.1 <= y.0, x.0 > y.1)
                            }
                        } else {
                            full
                        }
                    }
                    Op::UMulO => {
                        let m = mask(w(a));
                        bit(x.0 * y.0 > m, x.1 * y.1 <= m)
                    }
                    _ => full,
                }
            }
        };
        memo.insert(e, r);
        r
    }
    /// add a constraint known to be feasible; `m` is a model for the affected bytes
    pub fn add(&mut self, e: E, m: Option<&[(u32, u8)]>) {
        let mut cs = vec![];
        conjuncts(e, &mut cs);
        for c in cs {
            if as_const(c).is_some() {
                continue;
            }
            if let N::Tbl(b, t) = node(c).n {
                let t = table(t);
                let mut d = [0u64; 4];
                for v in dom_iter(&self.dom[b as usize]) {
                    if t[v as usize] == 1 {
                        dom_set(&mut d, v);
                    }
                }
                self.dom[b as usize] = d;
                if m.is_none() && !dom_has(&d, self.model[b as usize]) {
                    // only reached for bytes that no other constraint mentions
                    self.model[b as usize] = dom_first(&d).unwrap_or(0);
                }
            } else {
                for &b in deps(c).iter() {
                    self.linked[b as usize] = true;
                }
                if let N::Op(Op::Eq, x, y, _) = node(c).n {
                    if let Some(k) = as_const(y) {
                        Rc::make_mut(&mut self.known).insert(x, k);
                    }
                }
                if !self.cons.contains(&c) {
                    Rc::make_mut(&mut self.cons).push(c);
                }
            }
        }
        if let Some(m) = m {
            for &(b, v) in m {
                self.model[b as usize] = v;
            }
        }
    }
}

/// the single-byte leaves of a sum of few-valued leaves; false if it is something else
fn leaf_values(e: E, dom: &[Dom], out: &mut Vec<(usize, E)>) -> bool {
    match node(e).n {
        N::Const(_) => true,
        N::Tbl(b, t) => {
            let t = table(t);
            let mut vs: Vec<u64> = dom_iter(&dom[b as usize]).map(|v| t[v as usize]).collect();
            vs.sort();
            vs.dedup();
            if vs.len() > 1 && vs.len() <= 24 {
                out.push((vs.len(), e));
            }
            vs.len() <= 24
        }
        N::Op(Op::Add | Op::Or | Op::Shl | Op::Mul | Op::Concat, a, b, _) => out.len() < 4 && leaf_values(a, dom, out) && leaf_values(b, dom, out),
        _ => false,
    }
}

fn fbits(v: &V, is64: bool) -> Option<f64> {
    match v {
        V::C(c) => Some(if is64 { f64::from_bits(*c) } else { f32::from_bits(*c as u32) as f64 }),
        _ => None,
    }
}

pub fn bin(op: B, wd: u32, a: &V, b: &V) -> V {
    if let (V::C(x), V::C(y)) = (a, b) {
        if wd <= 64 {
            let (x, y) = (*x, *y);
            let m = if wd == 64 { !0 } else { (1u64 << wd) - 1 };
            let r = match op {
                B::Add => x.wrapping_add(y),
                B::Sub => x.wrapping_sub(y),
                B::Mul => x.wrapping_mul(y),
                B::And => x & y,
                B::Or => x | y,
                B::Xor => x ^ y,
                B::Shl => {
                    if y >= wd as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                B::LShr => {
                    if y >= wd as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                _ => return from_u128(ev(eop(op), wd, wd, x as u128, y as u128, 0), wd),
            };
            return V::C(r & m);
        }
    }
    if let (Some(x), Some(y)) = (conc(a), conc(b)) {
        return from_u128(ev(eop(op), wd, wd, x, y, 0), wd);
    }
    lower(mk(eop(op), wd, lift(a, wd), lift(b, wd), 0))
}
fn eop(op: B) -> Op {
    match op {
        B::Add => Op::Add,
        B::Sub => Op::Sub,
        B::Mul => Op::Mul,
        B::UDiv => Op::UDiv,
        B::URem => Op::URem,
        B::SDiv => Op::SDiv,
        B::SRem => Op::SRem,
        B::And => Op::And,
        B::Or => Op::Or,
        B::Xor => Op::Xor,
        B::Shl => Op::Shl,
        B::LShr => Op::LShr,
        B::AShr => Op::AShr,
    }
}
pub fn icmp(p: Pr, wd: u32, a: &V, b: &V) -> V {
    if let (Some(x), Some(y)) = (conc(a), conc(b)) {
        let s = |v| sx(v, wd);
        return V::C(match p {
            Pr::Eq => x == y,
            Pr::Ne => x != y,
            Pr::Ult => x < y,
            Pr::Ule => x <= y,
            Pr::Ugt => x > y,
            Pr::Uge => x >= y,
            Pr::Slt => s(x) < s(y),
            Pr::Sle => s(x) <= s(y),
            Pr::Sgt => s(x) > s(y),
            Pr::Sge => s(x) >= s(y),
        } as u64);
    }
    let (x, y) = (lift(a, wd), lift(b, wd));
    lower(match p {
        Pr::Eq => eq(x, y),
        Pr::Ne => not1(eq(x, y)),
        Pr::Ult => mk(Op::Ult, 1, x, y, 0),
        Pr::Ule => mk(Op::Ule, 1, x, y, 0),
        Pr::Ugt => mk(Op::Ult, 1, y, x, 0),
        Pr::Uge => mk(Op::Ule, 1, y, x, 0),
        Pr::Slt => mk(Op::Slt, 1, x, y, 0),
        Pr::Sle => mk(Op::Sle, 1, x, y, 0),
        Pr::Sgt => mk(Op::Slt, 1, y, x, 0),
        Pr::Sge => mk(Op::Sle, 1, y, x, 0),
    })
}
pub fn vite(c: E, wd: u32, a: &V, b: &V) -> V {
    lower(ite(c, lift(a, wd), lift(b, wd)))
}
fn lane(v: &V, i: usize) -> V {
    match v {
        V::A(l) => l[i].clone(),
        _ => V::C(0),
    }
}
fn fcmp(p: &str, a: f64, b: f64) -> bool {
    let un = a.is_nan() || b.is_nan();
    match p {
        "oeq" => a == b,
        "one" => !un && a != b,
        "olt" => a < b,
        "ole" => a <= b,
        "ogt" => a > b,
        "oge" => a >= b,
        "ord" => !un,
        "uno" => un,
        "ueq" => un || a == b,
        "une" => a != b,
        "ult" => un || a < b,
        "ule" => un || a <= b,
        "ugt" => un || a > b,
        "uge" => un || a >= b,
        "true" => true,
        _ => false,
    }
}

/// constructors of serde_json's error type
fn is_error_text(caller: &str) -> bool {
    ["6custom", "12invalid_type", "13invalid_value", "14invalid_length", "15unknown_variant", "13unknown_field", "13missing_field", "15duplicate_field"]
        .iter()
        .any(|m| {
            caller.find("serde_json5error").is_some_and(|i| caller[i..].contains(m) && !caller.contains("Visitor"))
        })
}

enum Dec {
    T,
    F,
    Both,
}

impl Ex {
    pub fn new(p: Prog) -> Ex {
        let mut bi = HashMap::new();
        let mut panic_fn = None;
        let mut format_fn = None;
        let mut write_fn = None;
        for (i, n) in p.names.iter().enumerate() {
            if let Some(b) = builtin(n) {
                bi.insert(i as u32, b);
            }
            if n.contains("20rust_panic_with_hook") {
                panic_fn = Some(i as u32);
            }
            if n.ends_with("4core3fmt5write") {
                write_fn = Some(i as u32);
            }
            if n.contains("3fmt6format12format_inner") {
                format_fn = Some(i as u32);
            }
        }
        Ex {
            p,
            work: vec![],
            st: Stats::default(),
            cex: vec![],
            samples: vec![],
            max_samples: 64,
            covers: BTreeMap::new(),
            checks: BTreeMap::new(),
            funcs: BTreeSet::new(),
            unsupported: BTreeMap::new(),
            max_steps: 50_000_000,
            max_cex: 8,
            bi,
            panic_fn,
            format_fn,
            write_fn,
            ended: 0,
            rng: 0x1234_5678_9abc_def1,
            trace: std::env::var("RSYM_TRACE").is_ok(),
        }
    }
    pub fn start(&mut self, entry: &str, args: &[u64]) {
        let i = *self.p.fidx.get(entry).unwrap_or_else(|| panic!("no function {}", entry));
        let f = self.p.func(i).expect("entry is not defined");
        let mut regs = vec![V::C(0); f.nregs as usize];
        for (k, p) in f.params.iter().enumerate() {
            regs[*p as usize] = V::C(args[k]);
        }
        self.funcs.insert(i);
        let st = St {
            stack: vec![],
            top: Frame { f, ip: 0, regs, sp: STACK_BASE + 64 },
            mem: Mem::new(std::mem::take(&mut self.p.globals)),
            sp: STACK_BASE + 64,
            dom: vec![],
            linked: vec![],
            model: vec![],
            cons: Rc::new(vec![]),
            known: Rc::new(HashMap::new()),
            log: Rc::new(vec![]),
            last_panic: Rc::new(String::new()),
            steps: 0,
            forks: 0,
            exc: 0,
            clock: 0,
            thr: Threads {
                armed: u32::MAX,
                budget: 0,
                second: None,
                on_other: false,
                fresh: false,
                yielded: false,
                ops: [0; 2],
                sched: vec![],
            },
        };
        self.work.push(st);
    }

    /// domain reasoning, one decision in 256 of which is confirmed by the solver
    fn quick(&mut self, st: &St, e: E) -> Option<bool> {
        let k = st.quick(e)?;
        self.st.quick += 1;
        if self.st.quick % 256 == 1 {
            let q = st.slice(&[if k { not1(e) } else { e }]);
            match z().refute(&q) {
                Some(true) => self.st.confirmed += 1,
                Some(false) => {
                    eprintln!("rsym: the solver contradicts the domain reasoning on {}", show(e));
                    std::process::exit(2);
                }
                None => {}
            }
        }
        Some(k)
    }

    fn decide(&mut self, st: &mut St, e: E) -> (Dec, E, Option<Vec<(u32, u8)>>) {
        let e = st.simp(e);
        self.st.branches += 1;
        if let Some(k) = as_const(e) {
            self.st.dom_dec += 1;
            return (if k == 1 { Dec::T } else { Dec::F }, e, None);
        }
        let side = st.eval(e) == 1;
        if let N::Tbl(b, _) = node(e).n {
            if !st.linked[b as usize] {
                // both values occur in the domain of an otherwise unconstrained byte
                if self.trace {
                    eprintln!("BRANCH {}", show(e));
                    self.backtrace(st);
                }
                self.st.dom_dec += 1;
                return (Dec::Both, e, None);
            }
        }
        if let Some(k) = self.quick(st, e) {
            self.st.dom_dec += 1;
            return (if k { Dec::T } else { Dec::F }, e, None);
        }
        self.st.z3_dec += 1;
        if self.trace {
            let mut memo = std::collections::HashMap::new();
            eprintln!("QUERY {} NORM {}", show(e), show(normalise(e, &st.dom, &mut memo)));
            self.backtrace(st);
        }
        let other = if side { not1(e) } else { e };
        match st.feasible(&[other]) {
            Some(m) => (Dec::Both, e, Some(m)),
            None => {
                // implied: remember it, it can only help later simplification
                (if side { Dec::T } else { Dec::F }, e, None)
            }
        }
    }

    /// split the state on a condition; returns (state where it holds, state where it does not)
    fn split(&mut self, st: &mut St, e: E) -> (bool, Option<St>) {
        let (d, e, m) = self.decide(st, e);
        match d {
            Dec::T => (true, None),
            Dec::F => (false, None),
            Dec::Both => {
                self.st.forks += 1;
                let side = st.eval(e) == 1;
                let mut o = st.clone();
                st.forks += 1;
                o.forks += 1;
                let (se, oe) = if side { (e, not1(e)) } else { (not1(e), e) };
                st.add(se, Some(&[]));
                match m {
                    Some(m) => o.add(oe, Some(&m)),
                    None => o.add(oe, None),
                }
                (side, Some(o))
            }
        }
    }

    /// make the value of an expression concrete, forking once per possible value;
    /// None: the state has been narrowed and the instruction must be executed again
    fn concretise(&mut self, st: &mut St, v: &V) -> Result<u128, R> {
        let e = match v {
            V::C(c) => return Ok(*c as u128),
            V::W(c) => return Ok(**c),
            V::S(e) => *e,
            V::A(_) => return Err(R::End(End::Unsupported("concretise aggregate".into()))),
        };
        let s = st.simp(e);
        if let Some(c) = as_const(s) {
            return Ok(c);
        }
        self.st.concretised += 1;
        if let N::Tbl(b, t) = node(s).n {
            let t = table(t);
            let mut parts: Vec<(u64, Dom)> = vec![];
            for v in dom_iter(&st.dom[b as usize]) {
                let x = t[v as usize];
                match parts.iter_mut().find(|p| p.0 == x) {
                    Some(p) => dom_set(&mut p.1, v),
                    None => {
                        let mut d = [0; 4];
                        dom_set(&mut d, v);
                        parts.push((x, d));
                    }
                }
            }
            if self.trace {
                eprintln!("SPLIT {} into {}", show(s), parts.len());
                self.backtrace(st);
            }
            let mut kids: Vec<St> = vec![];
            for (_, d) in parts {
                let c = in_dom(b, &d);
                if !st.linked[b as usize] {
                    let mut o = st.clone();
                    o.add(c, None);
                    kids.push(o);
                    self.st.dom_dec += 1;
                } else if st.eval(c) == 1 {
                    let mut o = st.clone();
                    o.add(c, Some(&[]));
                    kids.push(o);
                } else {
                    self.st.z3_dec += 1;
                    if let Some(m) = st.feasible(&[c]) {
                        let mut o = st.clone();
                        o.add(c, Some(&m));
                        kids.push(o);
                    }
                }
            }
            self.replace(st, kids);
            return Err(R::Retry);
        }
        if let Some(k) = as_const(normalise(s, &st.dom, &mut HashMap::new())) {
            return Ok(k);
        }
        // several bytes: a leaf with few values is split first, which keeps the bytes independent
        let mut leaves = vec![];
        if leaf_values(s, &st.dom, &mut leaves) {
            if let Some(&(_, l)) = leaves.iter().min_by_key(|l| l.0) {
                return self.concretise(st, &V::S(l));
            }
        }
        if self.trace {
            eprintln!("ENUM {} {:?}", show(s), leaves);
            self.backtrace(st);
        }
        // otherwise enumerate the values with the solver
        let wd = w(s);
        let mut kids: Vec<St> = vec![];
        let mut excl: Vec<E> = vec![];
        let mut cur: Option<(u128, Vec<(u32, u8)>)> = Some((st.eval(s), vec![]));
        while let Some((v, m)) = cur {
            let c = eq(s, konst(v, wd));
            let mut o = st.clone();
            o.add(c, Some(&m));
            if as_const(c).is_none() {
                Rc::make_mut(&mut o.known).insert(s, v);
            }
            Rc::make_mut(&mut o.known).insert(e, v);
            kids.push(o);
            if kids.len() > 1024 {
                return Err(R::End(End::Unsupported("more than 1024 values for a concretised expression".into())));
            }
            excl.push(not1(c));
            self.st.z3_dec += 1;
            cur = match st.feasible(&excl) {
                None => None,
                Some(m) => {
                    let mut mm = st.model.clone();
                    for &(b, v) in &m {
                        mm[b as usize] = v;
                    }
                    let mut memo = HashMap::new();
                    Some((eval(s, &|b| mm[b as usize], &mut memo), m))
                }
            };
        }
        self.replace(st, kids);
        Err(R::Retry)
    }
    fn replace(&mut self, st: &mut St, mut kids: Vec<St>) {
        self.st.forks += kids.len() as u64 - 1;
        for k in kids.iter_mut() {
            k.forks += 1;
        }
        let first = kids.pop().unwrap();
        *st = first;
        self.work.extend(kids);
    }
    fn conc64(&mut self, st: &mut St, v: &V) -> Result<u64, R> {
        if let V::C(c) = v {
            return Ok(*c);
        }
        self.concretise(st, v).map(|x| x as u64)
    }

    /// follow an edge
    #[inline]
    fn go(st: &mut St, e: &Edge) {
        match e.moves.len() {
            0 => {}
            1 => {
                let v = st.val(e.moves[0].1);
                st.top.regs[e.moves[0].0 as usize] = v;
            }
            _ => {
                let vs: Vec<V> = e.moves.iter().map(|m| st.val(m.1)).collect();
                for (m, v) in e.moves.iter().zip(vs) {
                    st.top.regs[m.0 as usize] = v;
                }
            }
        }
        st.top.ip = e.to;
    }

    fn unwind(&mut self, st: &mut St, exc: u64, pop_first: bool) -> Option<End> {
        let mut pop = pop_first;
        loop {
            if pop {
                match st.stack.pop() {
                    None => return Some(End::Panic(st.last_panic.to_string())),
                    Some(f) => {
                        st.sp = st.top.sp;
                        st.top = Rc::try_unwrap(f).unwrap_or_else(|r| (*r).clone());
                    }
                }
            }
            let f = st.top.f;
            if let X::Invoke(_, _, _, _, unw) = &f.code[st.top.ip as usize] {
                st.exc = exc;
                Self::go(st, unw);
                return None;
            }
            pop = true;
        }
    }

    /// run one state until it ends; forked states go to the work list
    pub fn run(&mut self, mut st: St) {
        loop {
            let s0 = st.steps;
            let r = self.step(&mut st);
            self.st.steps += st.steps - s0;
            match r {
                R::Retry => {}
                R::End(e) => {
                    self.finish(st, e);
                    return;
                }
                R::Unwind(x) => {
                    if let Some(e) = self.unwind(&mut st, x, false) {
                        self.finish(st, e);
                        return;
                    }
                }
                _ => {}
            }
        }
    }

    pub fn full_model(&mut self, st: &St, extra: Option<E>) -> Option<Vec<u8>> {
        let mut q = st.full_pc();
        if let Some(e) = extra {
            q.push(e);
        }
        let m = z().solve(&q)?;
        let mut out: Vec<u8> = st.dom.iter().map(|d| dom_first(d).unwrap_or(0)).collect();
        for (b, v) in m {
            out[b as usize] = v;
        }
        Some(out)
    }

    fn add_cex(&mut self, st: &St, kind: &str, msg: String, extra: Option<E>) {
        if self.cex.iter().filter(|c| c.msg == msg && c.kind == kind).count() >= 2 || self.cex.len() >= 64 {
            return;
        }
        if let Some(bytes) = self.full_model(st, extra) {
            let sched = st.thr.sched.iter().map(|(t, k)| format!("{}:{}", t, k)).collect::<Vec<_>>().join(",");
            self.cex.push(Cex { msg, kind: kind.into(), bytes, sched });
        }
    }

    fn finish(&mut self, st: St, e: End) {
        self.ended += 1;
        self.st.max_steps = self.st.max_steps.max(st.steps);
        self.st.max_bytes = self.st.max_bytes.max(st.dom.len() as u64);
        let k = match &e {
            End::Ok => "ok",
            End::Assumed => "assumed",
            End::Violation(_) => "violation",
            End::Panic(_) => "panic",
            End::Deadlock => "deadlock",
            End::Hang => "hang",
            End::Fault(_) => "fault",
            End::Abort(_) => "abort",
            End::Unsupported(_) => "unsupported",
        };
        *self.st.paths.entry(k.into()).or_insert(0) += 1;
        if std::env::var("RSYM_TRACE_END").is_ok() {
            eprintln!("end {:?} steps {} bytes {:?}", e, st.steps, st.model);
            if e != End::Ok {
                self.backtrace(&st);
            }
        }
        match e {
            End::Ok => {
                // the path condition of a completed path must be satisfiable (the solver confirms it)
                let keep = st.thr.sched.is_empty() && (self.samples.len() < self.max_samples || {
                    self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    (self.rng >> 33) % self.ended < self.max_samples as u64
                });
                if keep {
                    match self.full_model(&st, None) {
                        Some(bytes) => {
                            let mut memo = HashMap::new();
                            let log = st
                                .log
                                .iter()
                                .map(|l| if l.e == 0 { l.d } else { eval(l.e, &|b| bytes[b as usize], &mut memo) as u8 })
                                .collect();
                            let s = Sample { bytes, log };
                            if self.samples.len() < self.max_samples {
                                self.samples.push(s);
                            } else {
                                let i = (self.rng >> 20) as usize % self.max_samples;
                                self.samples[i] = s;
                            }
                        }
                        None => {
                            eprintln!("rsym: completed path with an unsatisfiable condition");
                            std::process::exit(2);
                        }
                    }
                }
            }
            End::Assumed => {}
            End::Violation(m) => self.add_cex(&st, "check", m, None),
            End::Panic(m) => self.add_cex(&st, "panic", format!("panic: {}", m), None),
            End::Deadlock => self.add_cex(&st, "deadlock", "a thread would block forever".into(), None),
            End::Hang => self.add_cex(&st, "hang", format!("no end within {} instructions", self.max_steps), None),
            End::Fault(m) => self.add_cex(&st, "fault", m, None),
            End::Abort(m) => self.add_cex(&st, "abort", m, None),
            End::Unsupported(m) => *self.unsupported.entry(m).or_insert(0) += 1,
        }
    }
    pub fn backtrace(&self, st: &St) {
        eprintln!("  in {} ip {}", st.top.f.name, st.top.ip);
        for f in st.stack.iter().rev().take(40) {
            eprintln!("  by {} ip {}", f.f.name, f.ip);
        }
    }

    fn load_ty(&mut self, st: &St, a: u64, t: &Ty) -> Result<V, Fault> {
        Ok(match t {
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for (i, ft) in f.iter().enumerate() {
                    v.push(self.load_ty(st, a + t.field_off(i as u64), ft)?);
                }
                V::A(Rc::new(v))
            }
            Ty::Array(n, et) => {
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_ty(st, a + i * et.size(), et)?);
                }
                V::A(Rc::new(v))
            }
            Ty::Vec(n, et) => {
                let bw = et.bits();
                if bw % 8 != 0 {
                    let tot = t.size();
                    let e = lift(&st.mem.load(a, tot)?, tot as u32 * 8);
                    V::A(Rc::new((0..*n).map(|i| lower(extract(e, i * bw, bw))).collect()))
                } else {
                    let mut v = vec![];
                    for i in 0..*n {
                        v.push(self.load_ty(st, a + i as u64 * et.size(), et)?);
                    }
                    V::A(Rc::new(v))
                }
            }
            Ty::Int(n) => {
                let by = t.store_size();
                if by > 16 {
                    return Err(Fault(a));
                }
                let v = st.mem.load(a, by)?;
                if n % 8 != 0 {
                    lower(extract(lift(&v, by as u32 * 8), 0, *n))
                } else {
                    v
                }
            }
            Ty::F32 => st.mem.load(a, 4)?,
            _ => st.mem.load(a, 8)?,
        })
    }
    fn store_ty(&mut self, st: &mut St, a: u64, t: &Ty, v: &V) -> Result<(), Fault> {
        match t {
            Ty::Struct(f, _) => {
                for (i, ft) in f.iter().enumerate() {
                    self.store_ty(st, a + t.field_off(i as u64), ft, &lane(v, i))?;
                }
                Ok(())
            }
            Ty::Array(n, et) => {
                for i in 0..*n {
                    self.store_ty(st, a + i * et.size(), et, &lane(v, i as usize))?;
                }
                Ok(())
            }
            Ty::Vec(n, et) => {
                let bw = et.bits();
                if bw % 8 != 0 {
                    let e = lift(v, n * bw);
                    let tot = t.size();
                    st.mem.store(a, tot, &lower(zext(e, tot as u32 * 8)))
                } else {
                    for i in 0..*n {
                        self.store_ty(st, a + i as u64 * et.size(), et, &lane(v, i as usize))?;
                    }
                    Ok(())
                }
            }
            Ty::Int(n) => {
                let by = t.store_size();
                if n % 8 != 0 {
                    let e = zext(lift(v, *n), by as u32 * 8);
                    st.mem.store(a, by, &lower(e))
                } else {
                    st.mem.store(a, by, v)
                }
            }
            Ty::F32 => st.mem.store(a, 4, v),
            _ => st.mem.store(a, 8, v),
        }
    }

    /// a load through an address that depends on one byte only, from concrete memory
    fn table_load(&mut self, st: &St, s: E, n: u64, wd: u32) -> Option<V> {
        let (b, t) = as_tbl(s)?;
        if wd > 64 {
            return None;
        }
        let d = &st.dom[b as usize];
        let mut out = [0u64; 256];
        let mut firstv = None;
        for v in dom_iter(d) {
            match st.mem.load(t[v as usize], n) {
                Ok(V::C(x)) => {
                    let x = if wd < 64 { x & ((1u64 << wd) - 1) } else { x };
                    out[v as usize] = x;
                    firstv.get_or_insert(x);
                }
                _ => return None,
            }
        }
        let fv = firstv?;
        // outside the domain the value does not matter
        for v in 0..256usize {
            if !dom_has(d, v as u8) {
                out[v] = fv;
            }
        }
        Some(lower(mk_table(b, wd, out)))
    }

    fn bitcast(&mut self, from: &Ty, to: &Ty, v: V) -> V {
        if matches!(from, Ty::Vec(..)) || matches!(to, Ty::Vec(..)) {
            let tot = to.bits();
            let fl = match from {
                Ty::Vec(n, t) => (*n, t.bits()),
                _ => (0, 0),
            };
            // build the whole as an expression of up to 128 bits, or lane-wise
            if tot <= 128 {
                let e = lift(&v, tot);
                return match to {
                    Ty::Vec(n, t) => {
                        let bw = t.bits();
                        V::A(Rc::new((0..*n).map(|i| lower(extract(e, i * bw, bw))).collect()))
                    }
                    _ => lower(e),
                };
            }
            if let (Ty::Vec(n2, t2), V::A(l)) = (to, &v) {
                let bw2 = t2.bits();
                let bits: Vec<E> = l.iter().map(|x| lift(x, fl.1)).collect();
                let bw1 = fl.1;
                let mut out = vec![];
                for i in 0..*n2 {
                    let lo = i * bw2;
                    if bw2 >= bw1 {
                        let mut r = bits[(lo / bw1) as usize];
                        for k in 1..bw2 / bw1 {
                            r = concat(bits[(lo / bw1 + k) as usize], r);
                        }
                        out.push(lower(r));
                    } else {
                        out.push(lower(extract(bits[(lo / bw1) as usize], lo % bw1, bw2)));
                    }
                }
                return V::A(Rc::new(out));
            }
        }
        v
    }

    fn intr1(&mut self, it: Intr, wd: u32, a: &[V]) -> Option<V> {
        let bit = |e: E, i: u32| extract(e, i, 1);
        let all = a.iter().all(|v| conc(v).is_some());
        let c = |i: usize| conc(&a[i]).unwrap_or(0);
        let m = mask(wd);
        let l = |i: usize| lift(&a[i], wd);
        let pair = |v: V, o: V| Some(V::A(Rc::new(vec![v, o])));
        match it {
            Intr::Ctpop => {
                if all {
                    return Some(from_u128(c(0).count_ones() as u128, wd));
                }
                let e = l(0);
                if let Some(r) = self.tab1(e, wd, &|x| x.count_ones() as u128) {
                    return Some(r);
                }
                let mut s = konst(0, wd);
                for i in 0..wd {
                    s = mk(Op::Add, wd, s, zext(bit(e, i), wd), 0);
                }
                Some(lower(s))
            }
            Intr::Ctlz | Intr::Cttz => {
                let f = move |x: u128| -> u128 {
                    if x == 0 {
                        wd as u128
                    } else if it == Intr::Cttz {
                        x.trailing_zeros() as u128
                    } else {
                        (x.leading_zeros() - (128 - wd)) as u128
                    }
                };
                if conc(&a[0]).is_some() {
                    return Some(from_u128(f(c(0)), wd));
                }
                let e = l(0);
                if let Some(r) = self.tab1(e, wd, &f) {
                    return Some(r);
                }
                let mut s = konst(wd as u128, wd);
                for k in (0..wd).rev() {
                    let i = if it == Intr::Cttz { k } else { wd - 1 - k };
                    s = ite(bit(e, i), konst(k as u128, wd), s);
                }
                Some(lower(s))
            }
            Intr::Bswap => {
                let e = l(0);
                let n = wd / 8;
                let mut r = extract(e, wd - 8, 8);
                for i in 1..n {
                    r = concat(extract(e, wd - 8 - i * 8, 8), r);
                }
                Some(lower(r))
            }
            Intr::Bitreverse => {
                let e = l(0);
                let mut r = extract(e, wd - 1, 1);
                for i in 1..wd {
                    r = concat(extract(e, wd - 1 - i, 1), r);
                }
                Some(lower(r))
            }
            Intr::Abs => {
                let e = l(0);
                let neg = mk(Op::Slt, 1, e, konst(0, wd), 0);
                let n = mk(Op::Sub, wd, konst(0, wd), e, 0);
                Some(lower(ite(neg, n, e)))
            }
            Intr::Umax | Intr::Umin | Intr::Smax | Intr::Smin => {
                let p = match it {
                    Intr::Umax => Pr::Ugt,
                    Intr::Umin => Pr::Ult,
                    Intr::Smax => Pr::Sgt,
                    _ => Pr::Slt,
                };
                match icmp(p, wd, &a[0], &a[1]) {
                    V::C(1) => Some(a[0].clone()),
                    V::C(_) => Some(a[1].clone()),
                    V::S(e) => Some(vite(e, wd, &a[0], &a[1])),
                    _ => None,
                }
            }
            Intr::UsubSat => {
                let lt = mk(Op::Ult, 1, l(0), l(1), 0);
                let d = mk(Op::Sub, wd, l(0), l(1), 0);
                Some(lower(ite(lt, konst(0, wd), d)))
            }
            Intr::UaddSat => {
                let s = mk(Op::Add, wd, l(0), l(1), 0);
                let o = mk(Op::Ult, 1, s, l(0), 0);
                Some(lower(ite(o, konst(m, wd), s)))
            }
            Intr::SsubSat | Intr::SaddSat => {
                if !all {
                    return None;
                }
                let (x, y) = (sx(c(0), wd), sx(c(1), wd));
                let r = if it == Intr::SsubSat { x.saturating_sub(y) } else { x.saturating_add(y) };
                let hi = (m >> 1) as i128;
                let r = r.min(hi).max(-hi - 1);
                Some(from_u128(r as u128, wd))
            }
            Intr::Fshl | Intr::Fshr => {
                if conc(&a[2]).is_none() {
                    return None;
                }
                let s = (c(2) % wd as u128) as u32;
                let (x, y) = (l(0), l(1));
                if s == 0 {
                    return Some(if it == Intr::Fshl { a[0].clone() } else { a[1].clone() });
                }
                let s = if it == Intr::Fshl { s } else { wd - s };
                // high bits: x shifted left by s; low bits: top s bits of y
                let hi = extract(x, 0, wd - s);
                let lo = extract(y, wd - s, s);
                Some(lower(concat(hi, lo)))
            }
            Intr::UaddO => {
                let s = mk(Op::Add, wd, l(0), l(1), 0);
                let o = mk(Op::Ult, 1, s, l(0), 0);
                pair(lower(s), lower(o))
            }
            Intr::UsubO => {
                let s = mk(Op::Sub, wd, l(0), l(1), 0);
                let o = mk(Op::Ult, 1, l(0), l(1), 0);
                pair(lower(s), lower(o))
            }
            Intr::UmulO => {
                let s = mk(Op::Mul, wd, l(0), l(1), 0);
                let o = mk(Op::UMulO, 1, l(0), l(1), 0);
                pair(lower(s), lower(o))
            }
            Intr::SmulO => {
                let s = mk(Op::Mul, wd, l(0), l(1), 0);
                let o = mk(Op::SMulO, 1, l(0), l(1), 0);
                pair(lower(s), lower(o))
            }
            Intr::SaddO | Intr::SsubO => {
                let (x, y) = (l(0), l(1));
                let sg = |e: E| extract(e, wd - 1, 1);
                let s = mk(if it == Intr::SaddO { Op::Add } else { Op::Sub }, wd, x, y, 0);
                let sy = if it == Intr::SaddO { sg(y) } else { not1(sg(y)) };
                let same = not1(mk(Op::Xor, 1, sg(x), sy, 0));
                let diff = mk(Op::Xor, 1, sg(x), sg(s), 0);
                pair(lower(s), lower(and1(same, diff)))
            }
            Intr::Ucmp | Intr::Scmp => None,
            Intr::Fabs | Intr::Floor | Intr::Ceil => {
                let is64 = wd == 64;
                let x = fbits(&a[0], is64)?;
                let r = match it {
                    Intr::Fabs => x.abs(),
                    Intr::Floor => x.floor(),
                    _ => x.ceil(),
                };
                Some(V::C(if is64 { r.to_bits() } else { (r as f32).to_bits() as u64 }))
            }
            Intr::Copysign => {
                let is64 = wd == 64;
                let (x, y) = (fbits(&a[0], is64)?, fbits(&a[1], is64)?);
                let r = x.copysign(y);
                Some(V::C(if is64 { r.to_bits() } else { (r as f32).to_bits() as u64 }))
            }
            Intr::Fma => {
                let is64 = wd == 64;
                let (x, y, q) = (fbits(&a[0], is64)?, fbits(&a[1], is64)?, fbits(&a[2], is64)?);
                let r = x.mul_add(y, q);
                Some(V::C(if is64 { r.to_bits() } else { (r as f32).to_bits() as u64 }))
            }
            Intr::FpToIntSat(sgn, is64, wd) => {
                let x = fbits(&a[0], is64)?;
                let r: u128 = if sgn {
                    let v = x as i128;
                    let hi = (mask(wd) >> 1) as i128;
                    v.min(hi).max(-hi - 1) as u128
                } else {
                    (x as u128).min(mask(wd))
                };
                Some(from_u128(r, wd))
            }
            Intr::PtrMask => Some(bin(B::And, 64, &a[0], &a[1])),
            _ => None,
        }
    }
    fn tab1(&mut self, e: E, wd: u32, f: &dyn Fn(u128) -> u128) -> Option<V> {
        let (b, t) = as_tbl(e)?;
        let mut r = [0u64; 256];
        for i in 0..256 {
            r[i] = f(t[i] as u128) as u64;
        }
        Some(lower(mk_table(b, wd, r)))
    }

    fn set(st: &mut St, d: u32, v: V) {
        st.top.regs[d as usize] = v;
        st.top.ip += 1;
    }

    /// execute until something other than plain progress happens
    fn step(&mut self, st: &mut St) -> R {
        let mut f = st.top.f;
        let limit = self.max_steps;
        macro_rules! conc {
            ($v:expr) => {
                match self.conc64(st, &$v) {
                    Ok(x) => x,
                    Err(r) => return r,
                }
            };
        }
        loop {
            st.steps += 1;
            if st.steps > limit {
                return R::End(End::Hang);
            }
            let x = &f.code[st.top.ip as usize];
            match x {
                X::Bin(op, w, n, d, a, b) => {
                    let (a, b) = (st.val(*a), st.val(*b));
                    let r = if *n == 0 {
                        bin(*op, *w, &a, &b)
                    } else {
                        V::A(Rc::new((0..*n as usize).map(|i| bin(*op, *w, &lane(&a, i), &lane(&b, i))).collect()))
                    };
                    Self::set(st, *d, r);
                }
                X::ICmp(p, w, n, d, a, b) => {
                    let (a, b) = (st.val(*a), st.val(*b));
                    let r = if *n == 0 {
                        icmp(*p, *w, &a, &b)
                    } else {
                        V::A(Rc::new((0..*n as usize).map(|i| icmp(*p, *w, &lane(&a, i), &lane(&b, i))).collect()))
                    };
                    Self::set(st, *d, r);
                }
                X::Mov(d, a) => {
                    let v = st.val(*a);
                    Self::set(st, *d, v);
                }
                X::Zext(_, w2, n, d, a) | X::Sext(_, w2, n, d, a) | X::Trunc(_, w2, n, d, a) => {
                    let (w1, kind) = match x {
                        X::Zext(w1, ..) => (*w1, 0),
                        X::Sext(w1, ..) => (*w1, 1),
                        X::Trunc(w1, ..) => (*w1, 2),
                        _ => unreachable!(),
                    };
                    let f1 = |v: &V| -> V {
                        match conc(v) {
                            Some(c) => match kind {
                                1 => from_u128(sx(c, w1) as u128, *w2),
                                _ => from_u128(c, *w2),
                            },
                            None => {
                                let e = lift(v, w1);
                                lower(match kind {
                                    0 => zext(e, *w2),
                                    1 => sext(e, *w2),
                                    _ => extract(e, 0, *w2),
                                })
                            }
                        }
                    };
                    let a = st.val(*a);
                    let r = if *n == 0 {
                        f1(&a)
                    } else {
                        V::A(Rc::new((0..*n as usize).map(|i| f1(&lane(&a, i))).collect()))
                    };
                    Self::set(st, *d, r);
                }
                X::LoadA(n, w, d, p) => {
                    let a = conc!(st.val(*p));
                    self.preempt(st);
                    let v = tryf!(st.mem.load(a, *n));
                    let v = if *w as u64 != *n * 8 {
                        match conc(&v) {
                            Some(c) => from_u128(c & mask(*w), *w),
                            None => lower(extract(lift(&v, *n as u32 * 8), 0, *w)),
                        }
                    } else {
                        v
                    };
                    Self::set(st, *d, v);
                }
                X::StoreA(n, v, p) => {
                    let a = conc!(st.val(*p));
                    self.preempt(st);
                    let v = st.val(*v);
                    tryf!(st.mem.store(a, *n, &v));
                    st.top.ip += 1;
                }
                X::LoadN(n, w, d, p) => {
                    let p = st.val(*p);
                    let a = match p {
                        V::C(a) => a,
                        V::S(e) => {
                            let mut s = st.simp(e);
                            if let N::Op(..) = node(s).n {
                                s = normalise(s, &st.dom, &mut HashMap::new());
                            }
                            match as_const(s) {
                                Some(c) => c as u64,
                                None => {
                                    if let Some(v) = self.table_load(st, s, *n, *w) {
                                        Self::set(st, *d, v);
                                        continue;
                                    }
                                    conc!(V::S(s))
                                }
                            }
                        }
                        _ => conc!(p),
                    };
                    let v = tryf!(st.mem.load(a, *n));
                    let v = if *w as u64 != *n * 8 {
                        match conc(&v) {
                            Some(c) => from_u128(c & mask(*w), *w),
                            None => lower(extract(lift(&v, *n as u32 * 8), 0, *w)),
                        }
                    } else {
                        v
                    };
                    Self::set(st, *d, v);
                }
                X::StoreN(n, v, p) => {
                    let a = conc!(st.val(*p));
                    let v = st.val(*v);
                    tryf!(st.mem.store(a, *n, &v));
                    st.top.ip += 1;
                }
                X::Load(t, d, p) => {
                    let a = conc!(st.val(*p));
                    let v = tryf!(self.load_ty(st, a, t));
                    Self::set(st, *d, v);
                }
                X::Store(t, v, p) => {
                    let a = conc!(st.val(*p));
                    let v = st.val(*v);
                    tryf!(self.store_ty(st, a, t, &v));
                    st.top.ip += 1;
                }
                X::Gep(d, b, off, idx) => {
                    let mut r = st.val(*b);
                    if *off != 0 {
                        r = bin(B::Add, 64, &r, &V::C(*off));
                    }
                    for (o, iw, scale) in idx.iter() {
                        let i = st.val(*o);
                        let i = if *iw == 64 {
                            i
                        } else {
                            match conc(&i) {
                                Some(c) => V::C(sx(c, *iw) as u64),
                                None => lower(sext(lift(&i, *iw), 64)),
                            }
                        };
                        let s = bin(B::Mul, 64, &i, &V::C(*scale));
                        r = bin(B::Add, 64, &r, &s);
                    }
                    Self::set(st, *d, r);
                }
                X::Select(w, n, d, cv, c, a, b) => {
                    let c = st.val(*c);
                    let (a, b) = (st.val(*a), st.val(*b));
                    if !cv {
                        let k = match c {
                            V::C(k) => Some(k),
                            V::S(e) => {
                                let s = st.simp(e);
                                match as_const(s) {
                                    Some(k) => Some(k as u64),
                                    None => {
                                        if *n == 0 {
                                            let v = vite(s, *w, &a, &b);
                                            Self::set(st, *d, v);
                                        } else {
                                            let v = (0..*n as usize).map(|i| vite(s, *w, &lane(&a, i), &lane(&b, i))).collect();
                                            Self::set(st, *d, V::A(Rc::new(v)));
                                        }
                                        continue;
                                    }
                                }
                            }
                            _ => Some(0),
                        };
                        let v = if k == Some(1) { a } else { b };
                        Self::set(st, *d, v);
                    } else {
                        let v = (0..*n as usize)
                            .map(|i| match lane(&c, i) {
                                V::C(1) => lane(&a, i),
                                V::S(e) => vite(e, *w, &lane(&a, i), &lane(&b, i)),
                                _ => lane(&b, i),
                            })
                            .collect();
                        Self::set(st, *d, V::A(Rc::new(v)));
                    }
                }
                X::SelectAgg(d, c, a, b) => {
                    let c = conc!(st.val(*c));
                    let v = if c == 1 { st.val(*a) } else { st.val(*b) };
                    Self::set(st, *d, v);
                }
                X::Alloca(size, al, d, cnt) => {
                    let n = match cnt {
                        Some(o) => conc!(st.val(*o)),
                        None => 1,
                    };
                    let a = (st.sp + al.max(&16) - 1) / al.max(&16) * al.max(&16);
                    st.sp = a + size * n + 16;
                    if !st.mem.stack_reserve(st.sp) {
                        return R::End(End::Fault("stack overflow".into()));
                    }
                    Self::set(st, *d, V::C(a));
                }
                X::Br(e) => {
                    Self::go(st, e);
                }
                X::CondBr(c, t, e) => {
                    let c = st.val(*c);
                    let k = match c {
                        V::C(k) => k == 1,
                        V::S(x) => {
                            let (side, o) = self.split(st, x);
                            if let Some(mut o) = o {
                                Self::go(&mut o, if side { e } else { t });
                                self.work.push(o);
                            }
                            side
                        }
                        _ => false,
                    };
                    Self::go(st, if k { t } else { e });
                }
                X::Switch(wd, o, def, cases, edges) => {
                    let v = st.val(*o);
                    let v = match v {
                        V::S(e) => {
                            let s = st.simp(e);
                            match as_const(s) {
                                Some(c) => c,
                                None => {
                                    // fork per target
                                    let mut conds: Vec<(i64, E)> = vec![];
                                    let mut anyc = konst(0, 1);
                                    for (k, t) in cases {
                                        let c = eqk(s, *k);
                                        anyc = or1(anyc, c);
                                        match conds.iter_mut().find(|x| x.0 == *t as i64) {
                                            Some(x) => x.1 = or1(x.1, c),
                                            None => conds.push((*t as i64, c)),
                                        }
                                    }
                                    conds.push((-1, not1(anyc)));
                                    let mut done = false;
                                    for (t, c) in conds.iter() {
                                        let (side, other) = self.split(st, *c);
                                        // split leaves `st` on one side; run the taken side through the edge
                                        let edge = if *t < 0 { def } else { &edges[*t as usize] };
                                        match (side, other) {
                                            (true, None) => {
                                                Self::go(st, edge);
                                                done = true;
                                                break;
                                            }
                                            (false, None) => {}
                                            (true, Some(rest)) => {
                                                let mut taken = std::mem::replace(st, rest);
                                                Self::go(&mut taken, edge);
                                                self.work.push(taken);
                                            }
                                            (false, Some(mut taken)) => {
                                                Self::go(&mut taken, edge);
                                                self.work.push(taken);
                                            }
                                        }
                                    }
                                    if !done {
                                        return R::End(End::Abort("switch without a feasible target".into()));
                                    }
                                    continue;
                                }
                            }
                        }
                        v => conc(&v).unwrap_or(0),
                    };
                    let _ = wd;
                    let e = match cases.binary_search_by_key(&v, |c| c.0) {
                        Ok(i) => &edges[cases[i].1 as usize],
                        Err(_) => def,
                    };
                    Self::go(st, e);
                }
                X::Call(d, cal, args) => {
                    let d = *d;
                    let fi = match cal {
                        Cal::F(i) => *i,
                        Cal::Ind(o) => {
                            let a = conc!(st.val(*o));
                            let i = a.wrapping_sub(FUNC_BASE) / 16;
                            if a < FUNC_BASE || i as usize >= self.p.names.len() || a % 16 != 0 {
                                return R::End(End::Fault(format!("call of {:#x}", a)));
                            }
                            i as u32
                        }
                        Cal::B(_) => unreachable!(),
                    };
                    let av: Vec<V> = args.iter().map(|o| st.val(*o)).collect();
                    match self.call(st, fi, av) {
                        None => f = st.top.f,
                        Some(R::V(v)) => {
                            if let Some(d) = d {
                                st.top.regs[d as usize] = v;
                            }
                            st.top.ip += 1;
                        }
                        Some(R::Void) => st.top.ip += 1,
                        Some(r) => return r,
                    }
                }
                X::Invoke(d, cal, args, ok, _) => {
                    let d = *d;
                    let fi = match cal {
                        Cal::F(i) => *i,
                        Cal::Ind(o) => {
                            let a = conc!(st.val(*o));
                            let i = a.wrapping_sub(FUNC_BASE) / 16;
                            if a < FUNC_BASE || i as usize >= self.p.names.len() || a % 16 != 0 {
                                return R::End(End::Fault(format!("call of {:#x}", a)));
                            }
                            i as u32
                        }
                        Cal::B(_) => unreachable!(),
                    };
                    let av: Vec<V> = args.iter().map(|o| st.val(*o)).collect();
                    match self.call(st, fi, av) {
                        None => f = st.top.f,
                        Some(R::V(v)) => {
                            if let Some(d) = d {
                                st.top.regs[d as usize] = v;
                            }
                            Self::go(st, ok);
                        }
                        Some(R::Void) => Self::go(st, ok),
                        Some(r) => return r,
                    }
                }
                X::Ret(o) => {
                    let v = o.map(|o| st.val(o));
                    let fr = match st.stack.pop() {
                        None if st.thr.on_other => {
                            // this thread is done
                            let t = st.thr.second.take().unwrap();
                            let t = Rc::try_unwrap(t).unwrap_or_else(|r| (*r).clone());
                            st.stack = t.stack;
                            st.top = t.top;
                            st.sp = t.sp;
                            st.thr.on_other = false;
                            f = st.top.f;
                            continue;
                        }
                        None => return R::End(End::Ok),
                        Some(fr) => fr,
                    };
                    st.sp = st.top.sp;
                    st.top = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                    f = st.top.f;
                    match &f.code[st.top.ip as usize] {
                        X::Call(d, ..) => {
                            if let (Some(d), Some(v)) = (d, v) {
                                st.top.regs[*d as usize] = v;
                            }
                            st.top.ip += 1;
                        }
                        X::Invoke(d, _, _, ok, _) => {
                            if let (Some(d), Some(v)) = (d, v) {
                                st.top.regs[*d as usize] = v;
                            }
                            Self::go(st, ok);
                        }
                        _ => unreachable!(),
                    }
                }
                X::Intr(it, w, n, d, args) => {
                    match it {
                        Intr::Nop => {
                            st.top.ip += 1;
                            continue;
                        }
                        Intr::Memcpy => {
                            let dst = conc!(st.val(args[0]));
                            let src = conc!(st.val(args[1]));
                            let len = conc!(st.val(args[2]));
                            tryf!(st.mem.copy(dst, src, len));
                            st.top.ip += 1;
                            continue;
                        }
                        Intr::Memset => {
                            let dst = conc!(st.val(args[0]));
                            let len = conc!(st.val(args[2]));
                            let v = st.val(args[1]);
                            tryf!(st.mem.fill(dst, &v, len));
                            st.top.ip += 1;
                            continue;
                        }
                        Intr::Trap => return R::End(End::Abort("trap".into())),
                        Intr::LoadRel => {
                            let p = conc!(st.val(args[0]));
                            let o = conc!(st.val(args[1]));
                            let v = tryf!(st.mem.load(p.wrapping_add(o), 4));
                            let v = conc!(v) as u32 as i32 as i64 as u64;
                            Self::set(st, *d, V::C(p.wrapping_add(v)));
                            continue;
                        }
                        Intr::RedOr | Intr::RedAnd | Intr::RedAdd | Intr::RedXor | Intr::RedUmax | Intr::RedUmin => {
                            let v = st.val(args[0]);
                            let l = match v {
                                V::A(l) => l,
                                _ => return R::End(End::Unsupported("reduce".into())),
                            };
                            let mut r = l[0].clone();
                            for y in l[1..].iter() {
                                r = match it {
                                    Intr::RedOr => bin(B::Or, *w, &r, y),
                                    Intr::RedAnd => bin(B::And, *w, &r, y),
                                    Intr::RedAdd => bin(B::Add, *w, &r, y),
                                    Intr::RedXor => bin(B::Xor, *w, &r, y),
                                    Intr::RedUmax => self.intr1(Intr::Umax, *w, &[r, y.clone()]).unwrap(),
                                    _ => self.intr1(Intr::Umin, *w, &[r, y.clone()]).unwrap(),
                                };
                            }
                            Self::set(st, *d, r);
                            continue;
                        }
                        Intr::Pmovmskb => {
                            let v = st.val(args[0]);
                            let mut r = 0;
                            for i in 0..*n as usize {
                                let e = lift(&lane(&v, i), 8);
                                let b = extract(e, 7, 1);
                                r = if i == 0 { b } else { concat(b, r) };
                            }
                            Self::set(st, *d, lower(zext(r, 32)));
                            continue;
                        }
                        Intr::Ucmp | Intr::Scmp => {
                            let (a, b) = (st.val(args[0]), st.val(args[1]));
                            let p = if *it == Intr::Ucmp { Pr::Ult } else { Pr::Slt };
                            let lt = lift(&icmp(p, *w, &a, &b), 1);
                            let gt = lift(&icmp(p, *w, &b, &a), 1);
                            // the result width is that of the destination: always i8 in practice
                            let r = ite(lt, konst(0xff, 8), zext(gt, 8));
                            Self::set(st, *d, lower(r));
                            continue;
                        }
                        _ => {}
                    }
                    let av: Vec<V> = args.iter().map(|o| st.val(*o)).collect();
                    let r = if *n == 0 {
                        match self.intr1(*it, *w, &av) {
                            Some(v) => v,
                            None => {
                                // needs concrete operands
                                let mut cv = vec![];
                                for a in &av {
                                    match self.concretise(st, a) {
                                        Ok(c) => cv.push(from_u128(c, 128.min(if c > u64::MAX as u128 { 128 } else { 64 }))),
                                        Err(r) => return r,
                                    }
                                }
                                match self.intr1(*it, *w, &cv) {
                                    Some(v) => v,
                                    None => return R::End(End::Unsupported(format!("{:?}", it))),
                                }
                            }
                        }
                    } else {
                        let mut out = vec![];
                        for i in 0..*n as usize {
                            let la: Vec<V> = av.iter().map(|v| if let V::A(_) = v { lane(v, i) } else { v.clone() }).collect();
                            match self.intr1(*it, *w, &la) {
                                Some(v) => out.push(v),
                                None => return R::End(End::Unsupported(format!("vector {:?}", it))),
                            }
                        }
                        V::A(Rc::new(out))
                    };
                    Self::set(st, *d, r);
                }
                X::FBin(op, is64, n, d, a, b) => {
                    if *n != 0 {
                        return R::End(End::Unsupported("vector float".into()));
                    }
                    let a = V::C(conc!(st.val(*a)));
                    let b = V::C(conc!(st.val(*b)));
                    let r = if *is64 {
                        let (x, y) = (fbits(&a, true).unwrap(), fbits(&b, true).unwrap());
                        match op {
                            FB::Add => x + y,
                            FB::Sub => x - y,
                            FB::Mul => x * y,
                            FB::Div => x / y,
                            FB::Rem => x % y,
                        }
                        .to_bits()
                    } else {
                        let g = |v: &V| match v {
                            V::C(c) => f32::from_bits(*c as u32),
                            _ => 0.0,
                        };
                        let (x, y) = (g(&a), g(&b));
                        match op {
                            FB::Add => x + y,
                            FB::Sub => x - y,
                            FB::Mul => x * y,
                            FB::Div => x / y,
                            FB::Rem => x % y,
                        }
                        .to_bits() as u64
                    };
                    Self::set(st, *d, V::C(r));
                }
                X::FNeg(is64, n, d, a) => {
                    if *n != 0 {
                        return R::End(End::Unsupported("vector float".into()));
                    }
                    let wd = if *is64 { 64 } else { 32 };
                    let r = bin(B::Xor, wd, &st.val(*a), &V::C(1 << (wd - 1)));
                    Self::set(st, *d, r);
                }
                X::FCmp(p, is64, n, d, a, b) => {
                    if *n != 0 {
                        return R::End(End::Unsupported("vector float".into()));
                    }
                    let a = V::C(conc!(st.val(*a)));
                    let b = V::C(conc!(st.val(*b)));
                    let r = fcmp(p, fbits(&a, *is64).unwrap(), fbits(&b, *is64).unwrap());
                    Self::set(st, *d, V::C(r as u64));
                }
                X::FCast(op, t1, t2, d, a) => {
                    let v = match self.concretise(st, &st.val(*a)) {
                        Ok(v) => v,
                        Err(r) => return r,
                    };
                    let to_f = |x: f64, t: &Ty| -> u64 {
                        if *t == Ty::F64 {
                            x.to_bits()
                        } else {
                            (x as f32).to_bits() as u64
                        }
                    };
                    let r = match (op.as_str(), t1, t2) {
                        ("uitofp", Ty::Int(_), t) => V::C(if *t == Ty::F64 { (v as f64).to_bits() } else { (v as f32).to_bits() as u64 }),
                        ("sitofp", Ty::Int(wd), t) => {
                            let s = sx(v, *wd);
                            V::C(if *t == Ty::F64 { (s as f64).to_bits() } else { (s as f32).to_bits() as u64 })
                        }
                        ("fptoui", _, Ty::Int(wd)) => {
                            let x = fbits(&V::C(v as u64), *t1 == Ty::F64).unwrap();
                            from_u128(x as u128, *wd)
                        }
                        ("fptosi", _, Ty::Int(wd)) => {
                            let x = fbits(&V::C(v as u64), *t1 == Ty::F64).unwrap();
                            from_u128(x as i128 as u128, *wd)
                        }
                        ("fpext", _, _) | ("fptrunc", _, _) => {
                            let x = fbits(&V::C(v as u64), *t1 == Ty::F64).unwrap();
                            V::C(to_f(x, t2))
                        }
                        _ => return R::End(End::Unsupported(op.clone())),
                    };
                    Self::set(st, *d, r);
                }
                X::Bitcast(t1, t2, d, a) => {
                    let v = st.val(*a);
                    let r = self.bitcast(t1, t2, v);
                    Self::set(st, *d, r);
                }
                X::ExtractValue(d, o, idx) => {
                    let mut v = st.val(*o);
                    for &i in idx.iter() {
                        v = lane(&v, i as usize);
                    }
                    Self::set(st, *d, v);
                }
                X::InsertValue(d, o, e, idx, t) => {
                    let mut v = st.val(*o);
                    let e = st.val(*e);
                    if !matches!(v, V::A(_)) {
                        v = zero(t);
                    }
                    fn ins(v: V, e: V, idx: &[u32]) -> V {
                        if idx.is_empty() {
                            return e;
                        }
                        match v {
                            V::A(l) => {
                                let mut l2 = (*l).clone();
                                let old = l2[idx[0] as usize].clone();
                                l2[idx[0] as usize] = ins(old, e, &idx[1..]);
                                V::A(Rc::new(l2))
                            }
                            x => x,
                        }
                    }
                    let r = ins(v, e, idx);
                    Self::set(st, *d, r);
                }
                X::ExtractElement(d, o, i) => {
                    let i = conc!(st.val(*i));
                    let v = lane(&st.val(*o), i as usize);
                    Self::set(st, *d, v);
                }
                X::InsertElement(d, o, e, i, n) => {
                    let i = conc!(st.val(*i));
                    let mut l = match st.val(*o) {
                        V::A(l) => (*l).clone(),
                        _ => vec![V::C(0); *n as usize],
                    };
                    l[i as usize] = st.val(*e);
                    Self::set(st, *d, V::A(Rc::new(l)));
                }
                X::Shuffle(d, a, b, m, n) => {
                    let (a, b) = (st.val(*a), st.val(*b));
                    let z0 = match &a {
                        V::A(l) => match &l[0] {
                            V::W(_) => V::W(Box::new(0)),
                            _ => V::C(0),
                        },
                        _ => V::C(0),
                    };
                    let r = m
                        .iter()
                        .map(|&i| {
                            if i < 0 {
                                z0.clone()
                            } else if (i as u32) < *n {
                                lane(&a, i as usize)
                            } else {
                                lane(&b, i as usize - *n as usize)
                            }
                        })
                        .collect();
                    Self::set(st, *d, V::A(Rc::new(r)));
                }
                X::AtomicRmw(op, wd, d, p, v) => {
                    let a = conc!(st.val(*p));
                    self.preempt(st);
                    let by = ((wd + 7) / 8) as u64;
                    let old = tryf!(st.mem.load(a, by));
                    let v = st.val(*v);
                    let nv = match op.as_str() {
                        "xchg" => v,
                        "add" => bin(B::Add, *wd, &old, &v),
                        "sub" => bin(B::Sub, *wd, &old, &v),
                        "and" => bin(B::And, *wd, &old, &v),
                        "or" => bin(B::Or, *wd, &old, &v),
                        "xor" => bin(B::Xor, *wd, &old, &v),
                        "nand" => bin(B::Xor, *wd, &bin(B::And, *wd, &old, &v), &from_u128(mask(*wd), *wd)),
                        "umax" => self.intr1(Intr::Umax, *wd, &[old.clone(), v]).unwrap(),
                        "umin" => self.intr1(Intr::Umin, *wd, &[old.clone(), v]).unwrap(),
                        _ => return R::End(End::Unsupported(format!("atomicrmw {}", op))),
                    };
                    tryf!(st.mem.store(a, by, &nv));
                    if *d != u32::MAX {
                        st.top.regs[*d as usize] = old;
                    }
                    st.top.ip += 1;
                }
                X::CmpXchg(wd, d, p, c, n) => {
                    let a = conc!(st.val(*p));
                    self.preempt(st);
                    let by = ((wd + 7) / 8) as u64;
                    let old = tryf!(st.mem.load(a, by));
                    let same = icmp(Pr::Eq, *wd, &old, &st.val(*c));
                    let same = conc!(same);
                    if same == 1 {
                        let v = st.val(*n);
                        tryf!(st.mem.store(a, by, &v));
                    }
                    if *d != u32::MAX {
                        st.top.regs[*d as usize] = V::A(Rc::new(vec![old, V::C(same)]));
                    }
                    st.top.ip += 1;
                }
                X::LandingPad(d) => {
                    let v = V::A(Rc::new(vec![V::C(st.exc), V::C(1)]));
                    Self::set(st, *d, v);
                }
                X::Resume(o) => {
                    let v = st.val(*o);
                    let exc = match lane(&v, 0) {
                        V::C(x) => x,
                        _ => 0,
                    };
                    if let Some(e) = self.unwind(st, exc, true) {
                        return R::End(e);
                    }
                    f = st.top.f;
                }
                X::Unreachable => return R::End(End::Abort(format!("unreachable executed in {}", f.name))),
                X::Unsupported(s) => {
                    return R::End(End::Unsupported(format!("{} in {}", s, f.name)));
                }
            }
        }
    }

    /// the other thread may run before an atomic operation
    fn preempt(&mut self, st: &mut St) {
        let t = &mut st.thr;
        if t.armed == u32::MAX && t.second.is_none() {
            return;
        }
        if t.fresh {
            t.fresh = false;
            return;
        }
        t.ops[t.on_other as usize] += 1;
        if t.budget == 0 || st.thr.second.as_ref().is_some_and(|s| self.stuck(st, s)) {
            return;
        }
        let mut o = st.clone();
        o.thr.budget -= 1;
        if !self.switch(&mut o, None) {
            return;
        }
        o.forks += 1;
        self.st.forks += 1;
        self.st.preemptions += 1;
        self.work.push(o);
    }

    /// the other thread runs instead, if there is one; the current operation is done again later
    fn switch(&mut self, st: &mut St, waits: Option<(u64, u64)>) -> bool {
        let (stack, top, sp, new) = if let Some(s) = st.thr.second.take() {
            let s = Rc::try_unwrap(s).unwrap_or_else(|r| (*r).clone());
            (s.stack, s.top, s.sp, false)
        } else if st.thr.armed != u32::MAX {
            let fi = std::mem::replace(&mut st.thr.armed, u32::MAX);
            let f = match self.p.func(fi) {
                Some(f) => f,
                None => return false,
            };
            self.funcs.insert(fi);
            let sp = (st.sp / 64 + 1) * 64 + OTHER_SP;
            if !st.mem.stack_reserve(sp) {
                return false;
            }
            (vec![], Frame { f, ip: 0, regs: vec![V::C(0); f.nregs as usize], sp }, sp, true)
        } else {
            return false;
        };
        let now = (st.thr.on_other as u32, st.thr.ops[st.thr.on_other as usize]);
        st.thr.sched.push(now);
        st.thr.second = Some(Rc::new(Thr {
            stack: std::mem::replace(&mut st.stack, stack),
            top: std::mem::replace(&mut st.top, top),
            sp: std::mem::replace(&mut st.sp, sp),
            waits,
        }));
        st.thr.on_other ^= true;
        st.thr.fresh = !new;
        true
    }

    /// the current thread waits while the address holds the value
    fn wait(&mut self, st: &mut St, a: u64, v: u64) -> R {
        match st.mem.load(a, 4) {
            Ok(V::C(x)) if x as u32 != v as u32 => {
                st.thr.fresh = false;
                return R::V(V::C(u64::MAX));
            }
            Ok(_) => {}
            Err(Fault(a)) => return R::End(End::Fault(format!("memory access at {:#x}", a))),
        }
        if let Some(s) = &st.thr.second {
            if self.stuck(st, s) {
                return R::End(End::Deadlock);
            }
        }
        if self.switch(st, Some((a, v))) {
            R::Retry
        } else {
            R::End(End::Deadlock)
        }
    }
    fn stuck(&self, st: &St, s: &Thr) -> bool {
        s.waits.is_some_and(|(a, v)| matches!(st.mem.load(a, 4), Ok(V::C(x)) if x as u32 == v as u32))
    }

    /// None: a new frame was pushed
    fn call(&mut self, st: &mut St, fi: u32, args: Vec<V>) -> Option<R> {
        if let Some(&b) = self.bi.get(&fi) {
            return Some(self.builtin(st, b, &args));
        }
        let f = match self.p.func(fi) {
            Some(f) => f,
            None => return Some(R::End(End::Unsupported(format!("external {}", self.p.names[fi as usize])))),
        };
        if Some(fi) == self.format_fn && is_error_text(&st.top.f.name) {
            // the text of a serde_json error: nothing observed depends on it, it becomes empty
            if let V::C(p) = args[0] {
                self.st.error_texts += 1;
                for (o, v) in [(0, 0), (8, 1), (16, 0)] {
                    if let Err(Fault(a)) = st.mem.store(p + o, 8, &V::C(v)) {
                        return Some(R::End(End::Fault(format!("memory access at {:#x}", a))));
                    }
                }
                return Some(R::Void);
            }
        }
        if Some(fi) == self.write_fn && st.top.f.name.contains("19FormatStringPayload") {
            // the text of a panic message, looked at by nobody
            self.st.error_texts += 1;
            return Some(R::V(V::C(0)));
        }
        if Some(fi) == self.panic_fn {
            st.last_panic = Rc::new(self.panic_loc(st, &args));
        }
        self.funcs.insert(fi);
        let mut regs = vec![V::C(0); f.nregs as usize];
        for (p, a) in f.params.iter().zip(args) {
            regs[*p as usize] = a;
        }
        if st.stack.len() > 3000 {
            return Some(R::End(End::Fault("call depth 3000".into())));
        }
        let old = std::mem::replace(&mut st.top, Frame { f, ip: 0, regs, sp: st.sp });
        st.stack.push(Rc::new(old));
        None
    }

    fn panic_loc(&self, st: &St, args: &[V]) -> String {
        // some argument points to a core::panic::Location { ptr, len, line, col }
        for a in args.iter().rev() {
            if let V::C(p) = a {
                let g = |o| match st.mem.load(p + o, 8) {
                    Ok(V::C(x)) => x,
                    _ => 0,
                };
                let (ptr, len) = (g(0), g(8));
                if ptr < GLOB_BASE || len == 0 || len > 300 {
                    continue;
                }
                let mut s = vec![];
                for i in 0..len {
                    match st.mem.rd(ptr + i) {
                        Ok((d, 0)) if d >= 32 && d < 127 => s.push(d),
                        _ => break,
                    }
                }
                if s.len() as u64 == len && s.ends_with(b".rs") {
                    return format!("{}:{}", String::from_utf8_lossy(&s), g(16) as u32);
                }
            }
        }
        "?".into()
    }

    fn cstr(&self, st: &St, p: u64, n: u64) -> String {
        let mut s = vec![];
        for i in 0..n {
            match st.mem.rd(p + i) {
                Ok((d, 0)) => s.push(d),
                _ => s.push(b'?'),
            }
        }
        String::from_utf8_lossy(&s).into_owned()
    }

    fn builtin(&mut self, st: &mut St, b: Bi, a: &[V]) -> R {
        macro_rules! c {
            ($i:expr) => {
                match self.conc64(st, &a[$i]) {
                    Ok(x) => x,
                    Err(r) => return r,
                }
            };
        }
        match b {
            Bi::Byte => R::V(lower(st.new_byte(FULL))),
            Bi::Word => {
                // eight bytes, the lowest first
                let bs: Vec<E> = (0..8).map(|_| st.new_byte(FULL)).collect();
                R::V(lower(bs[1..].iter().fold(bs[0], |lo, &hi| concat(hi, lo))))
            }
            Bi::Range => {
                // a symbolic choice 0..n, forked at once
                let n = c!(0);
                if n > 256 {
                    return R::End(End::Unsupported("a choice of more than 256".into()));
                }
                if n == 0 {
                    return R::End(End::Unsupported("empty range".into()));
                }
                let mut kids = vec![];
                for v in 0..n {
                    let mut o = st.clone();
                    let mut d = [0; 4];
                    dom_set(&mut d, v as u8);
                    o.new_byte(d);
                    // the caller continues with the chosen value
                    kids.push((v, o));
                }
                self.st.forks += n - 1;
                let mut it = kids.into_iter();
                let (_, first) = it.next().unwrap();
                for (v, mut o) in it {
                    o.forks += 1;
                    Self::ret_builtin(&mut o, V::C(v));
                    self.work.push(o);
                }
                *st = first;
                R::V(V::C(0))
            }
            Bi::Assume => match &a[0] {
                V::C(c) => {
                    if c & 1 == 1 {
                        R::Void
                    } else {
                        R::End(End::Assumed)
                    }
                }
                V::S(e) => {
                    let e = if w(*e) == 1 { *e } else { extract(*e, 0, 1) };
                    let e = st.simp(e);
                    if let Some(k) = as_const(e) {
                        return if k == 1 { R::Void } else { R::End(End::Assumed) };
                    }
                    if st.eval(e) == 1 {
                        st.add(e, Some(&[]));
                        return R::Void;
                    }
                    match st.feasible(&[e]) {
                        Some(m) => {
                            st.add(e, Some(&m));
                            R::Void
                        }
                        None => R::End(End::Assumed),
                    }
                }
                _ => R::End(End::Unsupported("assume".into())),
            },
            Bi::Check => {
                let p = c!(1);
                let n = c!(2);
                let msg = self.cstr(st, p, n);
                *self.checks.entry(msg.clone()).or_insert(0) += 1;
                match &a[0] {
                    V::C(c) => {
                        self.st.checks_const += 1;
                        if c & 1 == 1 {
                            R::Void
                        } else {
                            R::End(End::Violation(msg))
                        }
                    }
                    V::S(e) => {
                        let e = if w(*e) == 1 { *e } else { extract(*e, 0, 1) };
                        self.st.checks_z3 += 1;
                        let e = st.simp(e);
                        if self.quick(st, e) == Some(true) {
                            return R::Void;
                        }
                        let ne = not1(e);
                        if st.feasible(&[ne]).is_some() {
                            self.add_cex(st, "check", msg.clone(), Some(ne));
                            *self.st.paths.entry("violation".into()).or_insert(0) += 1;
                            // go on where the check holds
                            return self.builtin(st, Bi::Assume, &[V::S(e)]);
                        }
                        R::Void
                    }
                    _ => R::End(End::Unsupported("check".into())),
                }
            }
            Bi::Cover => {
                let p = c!(0);
                let n = c!(1);
                let s = self.cstr(st, p, n);
                *self.covers.entry(s).or_insert(0) += 1;
                R::Void
            }
            Bi::Log => {
                let p = c!(0);
                let n = c!(1);
                let l = Rc::make_mut(&mut st.log);
                for i in 0..n {
                    let (d, e) = tryf!(st.mem.rd(p + i));
                    l.push(LogB { d, e });
                }
                R::Void
            }
            Bi::Conc => match self.concretise(st, &a[0]) {
                Ok(v) => R::V(V::C(v as u64)),
                Err(r) => r,
            },
            Bi::Arm => {
                // 0: waits until the other thread is done
                let f = c!(0);
                if f != 0 {
                    st.thr.armed = ((f - FUNC_BASE) / 16) as u32;
                    st.thr.budget = c!(1) as u32;
                    st.thr.ops = [0; 2];
                } else if let Some(s) = &st.thr.second {
                    if self.stuck(st, s) {
                        return R::End(End::Deadlock);
                    }
                    self.switch(st, None);
                    return R::Retry;
                }
                if f == 0 {
                    st.thr.armed = u32::MAX;
                    st.thr.fresh = false;
                }
                R::V(V::C(0))
            }
            Bi::Memcmp => {
                let (p, q, n) = (c!(0), c!(1), c!(2));
                let mut r = konst(0, 32);
                // from the last byte to the first
                for i in (0..n).rev() {
                    let (d1, e1) = tryf!(st.mem.rd(p + i));
                    let (d2, e2) = tryf!(st.mem.rd(q + i));
                    if e1 == 0 && e2 == 0 {
                        if d1 != d2 {
                            r = konst(if d1 < d2 { u32::MAX as u128 } else { 1 }, 32);
                        }
                        continue;
                    }
                    if e1 == e2 {
                        continue;
                    }
                    let x = if e1 == 0 { konst(d1 as u128, 8) } else { e1 };
                    let y = if e2 == 0 { konst(d2 as u128, 8) } else { e2 };
                    let ne = not1(eq(x, y));
                    let lt = mk(Op::Ult, 1, x, y, 0);
                    let here = ite(lt, konst(u32::MAX as u128, 32), konst(1, 32));
                    r = ite(ne, here, r);
                }
                // fork only on the outcome sign, not on the content
                R::V(lower(r))
            }
            Bi::Strlen => {
                let p = c!(0);
                let mut n = 0;
                loop {
                    let (d, e) = tryf!(st.mem.rd(p + n));
                    if e != 0 {
                        return R::End(End::Unsupported("strlen of symbolic data".into()));
                    }
                    if d == 0 {
                        return R::V(V::C(n));
                    }
                    n += 1;
                }
            }
            Bi::Malloc => {
                let n = c!(0);
                R::V(V::C(st.mem.malloc(n, 16).unwrap_or(0)))
            }
            Bi::Calloc => {
                let (x, y) = (c!(0), c!(1));
                R::V(V::C(x.checked_mul(y).and_then(|n| st.mem.malloc(n, 16)).unwrap_or(0)))
            }
            Bi::Memalign => {
                let (pp, al, n) = (c!(0), c!(1), c!(2));
                match st.mem.malloc(n, al) {
                    Some(p) => {
                        tryf!(st.mem.store(pp, 8, &V::C(p)));
                        R::V(V::C(0))
                    }
                    None => R::V(V::C(12)),
                }
            }
            Bi::Realloc => {
                let (p, n) = (c!(0), c!(1));
                let np = match st.mem.malloc(n, 16) {
                    Some(x) => x,
                    None => return R::V(V::C(0)),
                };
                if p != 0 {
                    let old = match tryf!(st.mem.load(p - 16, 8)) {
                        V::C(x) => x,
                        _ => 0,
                    };
                    tryf!(st.mem.copy(np, p, old.min(n)));
                }
                R::V(V::C(np))
            }
            Bi::Free | Bi::Nop0 => R::V(V::C(0)),
            Bi::Raise => R::Unwind(c!(0)),
            Bi::ErrnoLoc => {
                // a fixed scratch address at the bottom of the globals
                R::V(V::C(GLOB_BASE + 16))
            }
            Bi::Abort => R::End(End::Abort("abort".into())),
            Bi::Getrandom => {
                let (p, n) = (c!(0), c!(1));
                for i in 0..n {
                    st.clock = st.clock.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    let v = (st.clock >> 40) as u8;
                    tryf!(st.mem.wr(p + i, v, 0));
                }
                R::V(V::C(n))
            }
            Bi::Yield => {
                if st.thr.second.is_some() && !st.thr.yielded {
                    st.thr.yielded = true;
                    self.switch(st, None);
                    return R::Retry;
                }
                st.thr.yielded = false;
                st.thr.fresh = false;
                R::V(V::C(0))
            }
            Bi::Syscall => {
                let n = c!(0);
                match n {
                    202 => {
                        let op = c!(2) & 0x7f;
                        if op == 0 || op == 9 {
                            let (p, v) = (c!(1), c!(3));
                            self.wait(st, p, v)
                        } else {
                            R::V(V::C(0))
                        }
                    }
                    318 => self.builtin(st, Bi::Getrandom, &a[1..]),
                    186 => R::V(V::C(1)),
                    24 => self.builtin(st, Bi::Yield, &[]),
                    _ => R::End(End::Unsupported(format!("syscall {}", n))),
                }
            }
            Bi::Sysconf => R::V(match c!(0) {
                83 | 84 => V::C(1),
                _ => V::C(4096),
            }),
            Bi::One => R::V(V::C(1)),
            Bi::KeyCreate => {
                let p = c!(0);
                tryf!(st.mem.store(p, 4, &V::C(1)));
                R::V(V::C(0))
            }
            Bi::ClockGettime => {
                let p = c!(1);
                tryf!(st.mem.store(p, 8, &V::C(1_600_000_000)));
                tryf!(st.mem.store(p + 8, 8, &V::C(0)));
                R::V(V::C(0))
            }
            Bi::Write => R::V(a.get(2).cloned().unwrap_or(V::C(0))),
            Bi::Null => R::V(V::C(0)),
            Bi::MinusOne => {
                let _ = st.mem.store(GLOB_BASE + 16, 4, &V::C(2));
                R::V(V::C(!0))
            }
        }
    }
    /// complete a builtin call in a forked state
    fn ret_builtin(st: &mut St, v: V) {
        let f = st.top.f;
        match &f.code[st.top.ip as usize] {
            X::Call(d, ..) => {
                if let Some(d) = d {
                    st.top.regs[*d as usize] = v;
                }
                st.top.ip += 1;
            }
            X::Invoke(d, _, _, ok, _) => {
                if let Some(d) = d {
                    st.top.regs[*d as usize] = v;
                }
                Self::go(st, ok);
            }
            _ => unreachable!(),
        }
    }
}
