//! Minimal FFI to libz3 and the translation of expressions into it.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type A = *mut c_void;

#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> A;
    fn Z3_mk_context(c: A) -> A;
    fn Z3_set_error_handler(c: A, h: *const c_void);
    fn Z3_mk_bv_sort(c: A, w: c_uint) -> A;
    fn Z3_mk_string_symbol(c: A, s: *const c_char) -> A;
    fn Z3_mk_const(c: A, s: A, t: A) -> A;
    fn Z3_mk_numeral(c: A, n: *const c_char, t: A) -> A;
    fn Z3_mk_unsigned_int64(c: A, n: u64, t: A) -> A;
    fn Z3_mk_eq(c: A, a: A, b: A) -> A;
    fn Z3_mk_ite(c: A, a: A, b: A, d: A) -> A;
    fn Z3_mk_not(c: A, a: A) -> A;
    fn Z3_mk_and(c: A, n: c_uint, a: *const A) -> A;
    fn Z3_mk_or(c: A, n: c_uint, a: *const A) -> A;
    fn Z3_mk_bvadd(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvsub(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvmul(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvudiv(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvurem(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvsdiv(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvsrem(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvand(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvor(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvxor(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvshl(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvlshr(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvashr(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvult(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvule(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvslt(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvsle(c: A, a: A, b: A) -> A;
    fn Z3_mk_concat(c: A, a: A, b: A) -> A;
    fn Z3_mk_extract(c: A, h: c_uint, l: c_uint, a: A) -> A;
    fn Z3_mk_sign_ext(c: A, i: c_uint, a: A) -> A;
    fn Z3_mk_zero_ext(c: A, i: c_uint, a: A) -> A;
    fn Z3_mk_solver_for_logic(c: A, l: A) -> A;
    fn Z3_solver_inc_ref(c: A, s: A);
    fn Z3_mk_params(c: A) -> A;
    fn Z3_params_inc_ref(c: A, p: A);
    fn Z3_params_set_uint(c: A, p: A, k: A, v: c_uint);
    fn Z3_solver_set_params(c: A, s: A, p: A);
    fn Z3_solver_push(c: A, s: A);
    fn Z3_solver_pop(c: A, s: A, n: c_uint);
    fn Z3_solver_assert(c: A, s: A, a: A);
    fn Z3_solver_check(c: A, s: A) -> c_int;
    fn Z3_solver_get_model(c: A, s: A) -> A;
    fn Z3_model_inc_ref(c: A, m: A);
    fn Z3_model_dec_ref(c: A, m: A);
    fn Z3_model_eval(c: A, m: A, t: A, compl: bool, out: *mut A) -> bool;
    fn Z3_get_numeral_uint64(c: A, a: A, out: *mut u64) -> bool;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_error(_c: A, e: c_int) {
    eprintln!("z3 error {}", e);
    std::process::abort();
}

pub struct Z3 {
    c: A,
    s: A,
    s2: A,
    gave_up: u32,
    asts: HashMap<E, A>,
    vars: HashMap<u32, A>,
    cache: HashMap<Vec<E>, Option<Vec<(u32, u8)>>>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub hits: u64,
    pub slow: f64,
    pub time: f64,
    pub max_time: f64,
}

static mut Z: Option<Z3> = None;
#[allow(static_mut_refs)]
pub fn z() -> &'static mut Z3 {
    unsafe {
        if Z.is_none() {
            Z = Some(Z3::new());
        }
        Z.as_mut().unwrap()
    }
}
pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Z3 {
    fn new() -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, on_error as *const c_void);
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), 120_000);
            Z3_solver_set_params(c, s, p);
            let s2 = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s2);
            let p2 = Z3_mk_params(c);
            Z3_params_inc_ref(c, p2);
            Z3_params_set_uint(c, p2, Z3_mk_string_symbol(c, k.as_ptr()), 500);
            Z3_solver_set_params(c, s2, p2);
            Z3 {
                c,
                s,
                s2,
                gave_up: 0,
                asts: HashMap::new(),
                vars: HashMap::new(),
                cache: HashMap::new(),
                queries: 0,
                sat: 0,
                unsat: 0,
                hits: 0,
                slow: std::env::var("RSYM_SLOW").ok().and_then(|v| v.parse().ok()).unwrap_or(1e9),
                time: 0.0,
                max_time: 0.0,
            }
        }
    }
    fn bv(&mut self, v: u128, w: u32) -> A {
        unsafe {
            let t = Z3_mk_bv_sort(self.c, w);
            if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.c, v as u64, t)
            } else {
                let s = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, s.as_ptr(), t)
            }
        }
    }
    fn var(&mut self, b: u32) -> A {
        if let Some(&a) = self.vars.get(&b) {
            return a;
        }
        unsafe {
            let t = Z3_mk_bv_sort(self.c, 8);
            let n = CString::new(format!("b{}", b)).unwrap();
            let a = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), t);
            self.vars.insert(b, a);
            a
        }
    }
    fn range(&mut self, v: A, lo: u32, hi: u32) -> A {
        unsafe {
            if lo == hi {
                let k = self.bv(lo as u128, 8);
                return Z3_mk_eq(self.c, v, k);
            }
            let mut p = vec![];
            if lo > 0 {
                let k = self.bv(lo as u128, 8);
                p.push(Z3_mk_bvule(self.c, k, v));
            }
            if hi < 255 {
                let k = self.bv(hi as u128, 8);
                p.push(Z3_mk_bvule(self.c, v, k));
            }
            Z3_mk_and(self.c, p.len() as c_uint, p.as_ptr())
        }
    }
    /// table: group the byte values by affine behaviour (value = byte + k, or constant)
    /// tables whose output bits are each constant or one input bit: shifts, masks, inversions
    fn wiring(&mut self, v: A, t: &[u64; 256], w: u32) -> Option<A> {
        if w > 64 {
            return None;
        }
        let base = t[0];
        let col: Vec<u64> = (0..8).map(|j| t[1 << j] ^ base).collect();
        let mut used = 0u64;
        for c in &col {
            if used & c != 0 {
                return None;
            }
            used |= c;
        }
        for (i, x) in t.iter().enumerate() {
            let mut y = base;
            for (j, c) in col.iter().enumerate() {
                if i >> j & 1 == 1 {
                    y ^= c
                }
            }
            if y != *x {
                return None;
            }
        }
        // output bits from the top, runs of neighbouring input bits together
        let src = |o: u32| (0..8u32).find(|&j| col[j as usize] >> o & 1 == 1);
        let mut parts: Vec<A> = vec![];
        let mut o = w;
        while o > 0 {
            let hi = o - 1;
            let mut lo = hi;
            match src(hi) {
                None => {
                    while lo > 0 && src(lo - 1).is_none() {
                        lo -= 1
                    }
                    parts.push(self.bv(0, hi - lo + 1));
                }
                Some(j) => {
                    let mut k = j;
                    while lo > 0 && k > 0 && src(lo - 1) == Some(k - 1) {
                        lo -= 1;
                        k -= 1
                    }
                    parts.push(unsafe { Z3_mk_extract(self.c, j, k, v) });
                }
            }
            o = lo;
        }
        let mut it = parts.into_iter();
        let mut r = it.next()?;
        for p in it {
            r = unsafe { Z3_mk_concat(self.c, r, p) };
        }
        let base = base & mask(w) as u64;
        if base != 0 {
            let k = self.bv(base as u128, w);
            r = unsafe { Z3_mk_bvxor(self.c, r, k) };
        }
        Some(r)
    }
    fn tbl(&mut self, b: u32, t: &[u64; 256], w: u32) -> A {
        let v = self.var(b);
        if let Some(r) = self.wiring(v, t, w) {
            return r;
        }
        // runs: (lo, hi, linear?, value)
        let mut runs: Vec<(u32, u32, bool, u64)> = vec![];
        let m = mask(w) as u64;
        let mut i = 0usize;
        while i < 256 {
            let mut j = i;
            while j + 1 < 256 && t[j + 1] == t[i] {
                j += 1;
            }
            let mut k = i;
            while k + 1 < 256 && t[k + 1].wrapping_sub(t[k]) & m == 1 {
                k += 1;
            }
            if k > j {
                runs.push((i as u32, k as u32, true, t[i].wrapping_sub(i as u64) & m));
                i = k + 1;
            } else {
                runs.push((i as u32, j as u32, false, t[i]));
                i = j + 1;
            }
        }
        let mut groups: Vec<((bool, u64), Vec<(u32, u32)>)> = vec![];
        let mut gi: HashMap<(bool, u64), usize> = HashMap::new();
        for (lo, hi, lin, k) in runs {
            let g = *gi.entry((lin, k)).or_insert_with(|| {
                groups.push(((lin, k), vec![]));
                groups.len() - 1
            });
            groups[g].1.push((lo, hi));
        }
        // the largest group is the default
        groups.sort_by_key(|g| std::cmp::Reverse(g.1.iter().map(|r| r.1 - r.0 + 1).sum::<u32>()));
        unsafe {
            let vw = if w >= 8 {
                if w > 8 {
                    Z3_mk_zero_ext(self.c, w - 8, v)
                } else {
                    v
                }
            } else {
                Z3_mk_extract(self.c, w - 1, 0, v)
            };
            let mut r = std::ptr::null_mut();
            for (gi, ((lin, k), rs)) in groups.iter().enumerate() {
                let kv = self.bv(*k as u128, w);
                let val = if *lin {
                    if *k == 0 {
                        vw
                    } else {
                        Z3_mk_bvadd(self.c, vw, kv)
                    }
                } else {
                    kv
                };
                if gi == 0 {
                    r = val;
                } else {
                    let cs: Vec<A> = rs.iter().map(|&(lo, hi)| self.range(v, lo, hi)).collect();
                    let c = Z3_mk_or(self.c, cs.len() as c_uint, cs.as_ptr());
                    r = Z3_mk_ite(self.c, c, val, r);
                }
            }
            r
        }
    }
    fn b2v(&mut self, b: A) -> A {
        unsafe {
            let one = self.bv(1, 1);
            let zero = self.bv(0, 1);
            Z3_mk_ite(self.c, b, one, zero)
        }
    }
    fn ast(&mut self, e: E) -> A {
        if let Some(&a) = self.asts.get(&e) {
            return a;
        }
        let n = node(e).clone();
        let r = match n.n {
            N::Const(c) => self.bv(c, n.w),
            N::Tbl(b, t) => {
                let t = table(t);
                self.tbl(b, &t, n.w)
            }
            N::Op(op, a, b, c) => {
                let x = self.ast(a);
                let y = if matches!(op, Op::SExt | Op::Extract) { x } else { self.ast(b) };
                let aw = w(a);
                unsafe {
                    match op {
                        Op::Add => Z3_mk_bvadd(self.c, x, y),
                        Op::Sub => Z3_mk_bvsub(self.c, x, y),
                        Op::Mul => Z3_mk_bvmul(self.c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(self.c, x, y),
                        Op::URem => Z3_mk_bvurem(self.c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(self.c, x, y),
                        Op::SRem => Z3_mk_bvsrem(self.c, x, y),
                        Op::And => Z3_mk_bvand(self.c, x, y),
                        Op::Or => Z3_mk_bvor(self.c, x, y),
                        Op::Xor => Z3_mk_bvxor(self.c, x, y),
                        Op::Shl => Z3_mk_bvshl(self.c, x, y),
                        Op::LShr => Z3_mk_bvlshr(self.c, x, y),
                        Op::AShr => Z3_mk_bvashr(self.c, x, y),
                        Op::Eq => {
                            let q = Z3_mk_eq(self.c, x, y);
                            self.b2v(q)
                        }
                        Op::Ult => {
                            let q = Z3_mk_bvult(self.c, x, y);
                            self.b2v(q)
                        }
                        Op::Ule => {
                            let q = Z3_mk_bvule(self.c, x, y);
                            self.b2v(q)
                        }
                        Op::Slt => {
                            let q = Z3_mk_bvslt(self.c, x, y);
                            self.b2v(q)
                        }
                        Op::Sle => {
                            let q = Z3_mk_bvsle(self.c, x, y);
                            self.b2v(q)
                        }
                        Op::Ite => {
                            let one = self.bv(1, 1);
                            let q = Z3_mk_eq(self.c, x, one);
                            let zz = self.ast(c);
                            Z3_mk_ite(self.c, q, y, zz)
                        }
                        Op::Concat => Z3_mk_concat(self.c, x, y),
                        Op::Extract => Z3_mk_extract(self.c, c + n.w - 1, c, x),
                        Op::SExt => Z3_mk_sign_ext(self.c, n.w - aw, x),
                        Op::UMulO => {
                            let p = Z3_mk_bvmul(self.c, Z3_mk_zero_ext(self.c, aw, x), Z3_mk_zero_ext(self.c, aw, y));
                            let h = Z3_mk_extract(self.c, 2 * aw - 1, aw, p);
                            let k = self.bv(0, aw);
                            let q = Z3_mk_not(self.c, Z3_mk_eq(self.c, h, k));
                            self.b2v(q)
                        }
                        Op::SMulO => {
                            let p = Z3_mk_bvmul(self.c, Z3_mk_sign_ext(self.c, aw, x), Z3_mk_sign_ext(self.c, aw, y));
                            let l = Z3_mk_sign_ext(self.c, aw, Z3_mk_extract(self.c, aw - 1, 0, p));
                            let q = Z3_mk_not(self.c, Z3_mk_eq(self.c, l, p));
                            self.b2v(q)
                        }
                    }
                }
            }
        };
        self.asts.insert(e, r);
        r
    }
    /// Some(true) if the conjunction is unsatisfiable, None if that takes too long to find out
    pub fn refute(&mut self, cons: &[E]) -> Option<bool> {
        if self.gave_up >= 4 {
            return None;
        }
        let t0 = Instant::now();
        let r = unsafe {
            Z3_solver_push(self.c, self.s2);
            for &e in cons {
                let a = self.ast(e);
                let one = self.bv(1, 1);
                Z3_solver_assert(self.c, self.s2, Z3_mk_eq(self.c, a, one));
            }
            let r = Z3_solver_check(self.c, self.s2);
            Z3_solver_pop(self.c, self.s2, 1);
            r
        };
        self.time += t0.elapsed().as_secs_f64();
        match r {
            -1 => {
                self.queries += 1;
                self.unsat += 1;
                Some(true)
            }
            1 => Some(false),
            _ => {
                self.gave_up += 1;
                None
            }
        }
    }
    /// satisfiability of a conjunction of 1-bit expressions; a model of the bytes they mention
    pub fn solve(&mut self, cons: &[E]) -> Option<Vec<(u32, u8)>> {
        let mut key: Vec<E> = cons.iter().cloned().filter(|&e| as_const(e) != Some(1)).collect();
        key.sort();
        key.dedup();
        if key.iter().any(|&e| as_const(e) == Some(0)) {
            return None;
        }
        if key.is_empty() {
            return Some(vec![]);
        }
        if let Some(r) = self.cache.get(&key) {
            self.hits += 1;
            return r.clone();
        }
        let t0 = Instant::now();
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            let mut bytes: Vec<u32> = vec![];
            for &e in &key {
                let a = self.ast(e);
                let one = self.bv(1, 1);
                Z3_solver_assert(self.c, self.s, Z3_mk_eq(self.c, a, one));
                bytes.extend(deps(e).iter());
            }
            bytes.sort();
            bytes.dedup();
            let r = match Z3_solver_check(self.c, self.s) {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for b in bytes {
                        let v = self.var(b);
                        let mut r: A = std::ptr::null_mut();
                        let mut n = 0u64;
                        if Z3_model_eval(self.c, m, v, true, &mut r) {
                            Z3_get_numeral_uint64(self.c, r, &mut n);
                        }
                        out.push((b, n as u8));
                    }
                    Z3_model_dec_ref(self.c, m);
                    self.sat += 1;
                    Some(out)
                }
                -1 => {
                    self.unsat += 1;
                    None
                }
                _ => {
                    eprintln!("z3 returned unknown");
                    std::process::exit(2);
                }
            };
            Z3_solver_pop(self.c, self.s, 1);
            r
        };
        let dt = t0.elapsed().as_secs_f64();
        if dt > self.slow {
            eprintln!("slow query {:.2}s {}", dt, key.iter().map(|&e| show(e)).collect::<Vec<_>>().join(" && "));
        }
        self.time += dt;
        self.max_time = self.max_time.max(dt);
        self.queries += 1;
        if let Some(m) = &r {
            // a model that does not satisfy the query would be an encoding bug
            let mm: HashMap<u32, u8> = m.iter().cloned().collect();
            let mut memo = HashMap::new();
            for &e in &key {
                if eval(e, &|b| mm.get(&b).cloned().unwrap_or(0), &mut memo) != 1 {
                    eprintln!("rsym: z3 model disagrees with the evaluator on {}", show(e));
                    std::process::exit(2);
                }
            }
        }
        self.cache.insert(key, r.clone());
        r
    }
}
