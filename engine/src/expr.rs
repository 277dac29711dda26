//! Hash-consed bit-vector expressions over symbolic input bytes.
//!
//! Every expression that depends on exactly one symbolic byte is kept in the
//! canonical form of a 256-entry table, so all reasoning about it is exact.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    /// Concat(hi, lo)
    Concat,
    /// Extract(x) at offset `c` (an immediate)
    Extract,
    SExt,
    UMulO,
    SMulO,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    Tbl(u32, u32),
    Op(Op, E, E, E),
}

#[derive(Clone, Debug)]
pub struct Node {
    pub n: N,
    pub w: u32,
    /// none: constant, Some(b): one byte, u32::MAX: several
    pub dep: u32,
}
pub const NONE: u32 = u32::MAX - 1;
pub const MANY: u32 = u32::MAX;

pub type Table = Rc<[u64; 256]>;
pub type Dom = [u64; 4];
pub const FULL: Dom = [!0; 4];

pub struct Ctx {
    pub nodes: Vec<Node>,
    cons: HashMap<(N, u32), E>,
    pub tables: Vec<Table>,
    tcons: HashMap<Table, u32>,
    deps: HashMap<E, Rc<Vec<u32>>>,
}

static mut CTX: Option<Ctx> = None;

#[allow(static_mut_refs)]
pub fn cx() -> &'static mut Ctx {
    unsafe {
        if CTX.is_none() {
            let mut c = Ctx { nodes: vec![], cons: HashMap::new(), tables: vec![], tcons: HashMap::new(), deps: HashMap::new() };
            // id 0 is reserved as "no expression"
            c.nodes.push(Node { n: N::Const(0), w: 0, dep: NONE });
            CTX = Some(c);
        }
        CTX.as_mut().unwrap()
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 || w == 0 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}
pub fn dom_has(d: &Dom, v: u8) -> bool {
    d[(v >> 6) as usize] >> (v & 63) & 1 == 1
}
pub fn dom_count(d: &Dom) -> u32 {
    d.iter().map(|x| x.count_ones()).sum()
}
pub fn dom_and(a: &Dom, b: &Dom) -> Dom {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn dom_set(d: &mut Dom, v: u8) {
    d[(v >> 6) as usize] |= 1 << (v & 63);
}
pub fn dom_first(d: &Dom) -> Option<u8> {
    for i in 0..4 {
        if d[i] != 0 {
            return Some((i as u32 * 64 + d[i].trailing_zeros()) as u8);
        }
    }
    None
}
pub fn dom_iter(d: &Dom) -> impl Iterator<Item = u8> {
    let mut d = *d;
    let mut i = 0;
    std::iter::from_fn(move || {
        while i < 4 {
            if d[i] != 0 {
                let t = d[i].trailing_zeros();
                d[i] &= d[i] - 1;
                return Some((i as u32 * 64 + t) as u8);
            }
            i += 1;
        }
        None
    })
}

/// evaluation of one operation on constants
pub fn ev(op: Op, w: u32, aw: u32, a: u128, b: u128, c: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = b.min(w as u128 - 1);
            (sx(a, w) >> s) as u128
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, aw) < sx(b, aw)) as u128,
        Op::Sle => (sx(a, aw) <= sx(b, aw)) as u128,
        Op::Ite => {
            if a != 0 {
                b
            } else {
                c
            }
        }
        Op::Concat => unreachable!(),
        Op::Extract => a >> c,
        Op::SExt => sx(a, aw) as u128,
        Op::UMulO => match a.checked_mul(b) {
            Some(v) => (v > mask(aw)) as u128,
            None => 1,
        },
        Op::SMulO => match sx(a, aw).checked_mul(sx(b, aw)) {
            Some(v) => (sx(v as u128 & mask(aw), aw) != v) as u128,
            None => 1,
        },
    };
    r & m
}

pub fn w(e: E) -> u32 {
    cx().nodes[e as usize].w
}
pub fn node(e: E) -> &'static Node {
    // nodes are never removed, but the vector may move: copy the pointer late
    &cx().nodes[e as usize]
}
pub fn as_const(e: E) -> Option<u128> {
    match cx().nodes[e as usize].n {
        N::Const(c) => Some(c),
        _ => None,
    }
}
pub fn table(t: u32) -> Table {
    cx().tables[t as usize].clone()
}

fn intern(n: N, w: u32, dep: u32) -> E {
    let c = cx();
    let key = (n, w);
    if let Some(&e) = c.cons.get(&key) {
        return e;
    }
    let e = c.nodes.len() as E;
    c.nodes.push(Node { n: key.0.clone(), w, dep });
    c.cons.insert(key, e);
    e
}
pub fn konst(v: u128, w: u32) -> E {
    intern(N::Const(v & mask(w)), w, NONE)
}
pub fn mk_table(b: u32, w: u32, t: [u64; 256]) -> E {
    if t.iter().all(|&x| x == t[0]) {
        return konst(t[0] as u128, w);
    }
    let c = cx();
    let id = match c.tcons.get(&t) {
        Some(&i) => i,
        None => {
            let i = c.tables.len() as u32;
            let r: Table = Rc::new(t);
            c.tables.push(r.clone());
            c.tcons.insert(r, i);
            i
        }
    };
    intern(N::Tbl(b, id), w, b)
}
pub fn byte(b: u32) -> E {
    let mut t = [0u64; 256];
    for (i, x) in t.iter_mut().enumerate() {
        *x = i as u64;
    }
    mk_table(b, 8, t)
}
/// 1-bit membership of byte b in a domain
pub fn in_dom(b: u32, d: &Dom) -> E {
    let mut t = [0u64; 256];
    for v in dom_iter(d) {
        t[v as usize] = 1;
    }
    mk_table(b, 1, t)
}
pub fn as_tbl(e: E) -> Option<(u32, Table)> {
    match cx().nodes[e as usize].n {
        N::Tbl(b, t) => Some((b, table(t))),
        _ => None,
    }
}

pub fn dep_join(a: u32, b: u32) -> u32 {
    if a == NONE {
        b
    } else if b == NONE || a == b {
        a
    } else {
        MANY
    }
}

/// value of a constant or single-byte expression at a value of that byte
fn at(e: E, v: usize) -> u128 {
    match cx().nodes[e as usize].n {
        N::Const(c) => c,
        N::Tbl(_, t) => cx().tables[t as usize][v] as u128,
        _ => eval(e, &|_| v as u8, &mut HashMap::new()),
    }
}

pub fn not1(e: E) -> E {
    mk(Op::Xor, 1, e, konst(1, 1), 0)
}
pub fn and1(a: E, b: E) -> E {
    mk(Op::And, 1, a, b, 0)
}
pub fn or1(a: E, b: E) -> E {
    mk(Op::Or, 1, a, b, 0)
}
pub fn eq(a: E, b: E) -> E {
    mk(Op::Eq, 1, a, b, 0)
}
pub fn eqk(a: E, v: u128) -> E {
    let k = konst(v, w(a));
    mk(Op::Eq, 1, a, k, 0)
}
pub fn ite(c: E, a: E, b: E) -> E {
    mk(Op::Ite, w(a), c, a, b)
}
pub fn concat(hi: E, lo: E) -> E {
    let (wh, wl) = (w(hi), w(lo));
    if wh == 0 {
        return lo;
    }
    if wl == 0 {
        return hi;
    }
    let wt = wh + wl;
    if let (Some(a), Some(b)) = (as_const(hi), as_const(lo)) {
        if wt <= 128 {
            return konst(a << wl | b, wt);
        }
    }
    let (dh, dl) = (node(hi).dep, node(lo).dep);
    let dep = dep_join(dh, dl);
    if dep < NONE && wt <= 64 {
        let mut t = [0u64; 256];
        for (v, x) in t.iter_mut().enumerate() {
            *x = (at(hi, v) << wl | at(lo, v)) as u64;
        }
        return mk_table(dep, wt, t);
    }
    // merge adjacent extracts of the same value
    if let (N::Op(Op::Extract, x, _, o1), N::Op(Op::Extract, y, _, o0)) = (&node(hi).n, &node(lo).n) {
        if x == y && *o1 == *o0 + wl {
            return extract(*x, *o0, wt);
        }
    }
    // right-associate so that the low piece is never a concat of several
    if let N::Op(Op::Concat, lh, ll, _) = node(lo).n {
        // (hi ++ (lh ++ ll)) -> ((hi ++ lh) ++ ll)
        let h = concat(hi, lh);
        return intern(N::Op(Op::Concat, h, ll, 0), wt, dep_join(node(h).dep, node(ll).dep));
    }
    intern(N::Op(Op::Concat, hi, lo, 0), wt, dep)
}
pub fn extract(e: E, off: u32, wd: u32) -> E {
    let we = w(e);
    if off == 0 && wd == we {
        return e;
    }
    debug_assert!(off + wd <= we);
    match node(e).n.clone() {
        N::Const(c) => konst(c >> off, wd),
        N::Tbl(b, t) => {
            let tb = table(t);
            let mut r = [0u64; 256];
            let m = mask(wd) as u64;
            for i in 0..256 {
                r[i] = tb[i] >> off & m;
            }
            mk_table(b, wd, r)
        }
        N::Op(Op::Concat, h, l, _) => {
            let wl = w(l);
            if off >= wl {
                extract(h, off - wl, wd)
            } else if off + wd <= wl {
                extract(l, off, wd)
            } else {
                let lo = extract(l, off, wl - off);
                let hi = extract(h, 0, off + wd - wl);
                concat(hi, lo)
            }
        }
        N::Op(Op::Extract, x, _, o) => extract(x, o + off, wd),
        N::Op(op @ (Op::And | Op::Or | Op::Xor), a, b, _) => {
            let x = extract(a, off, wd);
            let y = extract(b, off, wd);
            mk(op, wd, x, y, 0)
        }
        N::Op(op @ (Op::Add | Op::Sub | Op::Mul), a, b, _) if off == 0 => {
            let x = extract(a, 0, wd);
            let y = extract(b, 0, wd);
            mk(op, wd, x, y, 0)
        }
        N::Op(Op::Ite, c, a, b) => {
            let x = extract(a, off, wd);
            let y = extract(b, off, wd);
            mk(Op::Ite, wd, c, x, y)
        }
        N::Op(Op::SExt, a, _, _) if off + wd <= w(a) => extract(a, off, wd),
        _ => {
            let d = node(e).dep;
            if d < NONE && wd <= 64 {
                // part of a wide value of one byte
                let mut t = [0u64; 256];
                for (v, x) in t.iter_mut().enumerate() {
                    *x = (eval(e, &|_| v as u8, &mut HashMap::new()) >> off & mask(wd)) as u64;
                }
                return mk_table(d, wd, t);
            }
            intern(N::Op(Op::Extract, e, 0, off), wd, d)
        }
    }
}
pub fn zext(e: E, wd: u32) -> E {
    let we = w(e);
    if we == wd {
        return e;
    }
    concat(konst(0, wd - we), e)
}
pub fn sext(e: E, wd: u32) -> E {
    if w(e) == wd {
        return e;
    }
    mk(Op::SExt, wd, e, 0, 0)
}

/// low-first pieces of a value
fn pieces(e: E, out: &mut Vec<E>) {
    match node(e).n {
        N::Op(Op::Concat, h, l, _) => {
            pieces(l, out);
            pieces(h, out);
        }
        _ => out.push(e),
    }
}
/// bit offsets of piece boundaries
fn bounds(e: E, base: u32, out: &mut Vec<u32>) {
    match node(e).n {
        N::Op(Op::Concat, h, l, _) => {
            bounds(l, base, out);
            bounds(h, base + w(l), out);
        }
        _ => out.push(base + w(e)),
    }
}
fn is_concat(e: E) -> bool {
    matches!(node(e).n, N::Op(Op::Concat, ..))
}

pub fn umax(e: E) -> u128 {
    match &node(e).n {
        N::Const(c) => *c,
        N::Tbl(_, t) => *cx().tables[*t as usize].iter().max().unwrap() as u128,
        N::Op(Op::Concat, h, l, _) => umax(*h) << w(*l) | umax(*l),
        N::Op(Op::Ite, _, a, b) => umax(*a).max(umax(*b)),
        N::Op(Op::And, a, b, _) => umax(*a).min(umax(*b)),
        N::Op(Op::Add, a, b, _) => {
            let s = umax(*a).saturating_add(umax(*b));
            if s <= mask(w(e)) {
                s
            } else {
                mask(w(e))
            }
        }
        _ => mask(w(e)),
    }
}
pub fn umin(e: E) -> u128 {
    match &node(e).n {
        N::Const(c) => *c,
        N::Tbl(_, t) => *cx().tables[*t as usize].iter().min().unwrap() as u128,
        N::Op(Op::Concat, h, l, _) => umin(*h) << w(*l) | umin(*l),
        N::Op(Op::Ite, _, a, b) => umin(*a).min(umin(*b)),
        _ => 0,
    }
}

fn ite_consts(e: E) -> Option<(E, u128, u128)> {
    if let N::Op(Op::Ite, c, a, b) = node(e).n {
        if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
            return Some((c, x, y));
        }
    }
    None
}

pub fn mk(op: Op, wd: u32, a: E, b: E, c: E) -> E {
    if op == Op::Concat {
        return concat(a, b);
    }
    if op == Op::Extract {
        return extract(a, c, wd);
    }
    let aw = w(a);
    let unary = op == Op::SExt;
    let (da, db, dc) = (
        node(a).dep,
        if unary { NONE } else { node(b).dep },
        if op == Op::Ite { node(c).dep } else { NONE },
    );
    let dep = dep_join(dep_join(da, db), dc);
    let cv = |e: E| as_const(e).unwrap_or(0);
    if dep == NONE {
        return konst(ev(op, wd, aw, cv(a), if unary { 0 } else { cv(b) }, if op == Op::Ite { cv(c) } else { 0 }), wd);
    }
    if dep < NONE
        && wd <= 64
        && !is_op(a)
        && (unary || !is_op(b))
        && (op != Op::Ite || !is_op(c))
    {
        let mut t = [0u64; 256];
        for (v, x) in t.iter_mut().enumerate() {
            *x = ev(
                op,
                wd,
                aw,
                at(a, v),
                if unary { 0 } else { at(b, v) },
                if op == Op::Ite { at(c, v) } else { 0 },
            ) as u64;
        }
        return mk_table(dep, wd, t);
    }
    let (mut a, mut b) = (a, b);
    // constants to the right for commutative operations
    if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq | Op::UMulO | Op::SMulO) {
        let (ka, kb) = (as_const(a).is_some(), as_const(b).is_some());
        if (ka && !kb) || (ka == kb && a > b) {
            std::mem::swap(&mut a, &mut b);
        }
    }
    let m = mask(wd);
    let kb = if unary { None } else { as_const(b) };
    match op {
        Op::Add => {
            if kb == Some(0) {
                return a;
            }
            // (x + k1) + k2
            if let (Some(k2), N::Op(Op::Add, x, y, _)) = (kb, &node(a).n) {
                if let Some(k1) = as_const(*y) {
                    return mk(Op::Add, wd, *x, konst(k1.wrapping_add(k2), wd), 0);
                }
            }
        }
        Op::Sub => {
            if kb == Some(0) {
                return a;
            }
            if a == b {
                return konst(0, wd);
            }
            if let Some(k) = kb {
                return mk(Op::Add, wd, a, konst(k.wrapping_neg() & m, wd), 0);
            }
        }
        Op::Mul => {
            if kb == Some(0) {
                return konst(0, wd);
            }
            if kb == Some(1) {
                return a;
            }
            if let Some(k) = kb {
                if k.is_power_of_two() {
                    return mk(Op::Shl, wd, a, konst(k.trailing_zeros() as u128, wd), 0);
                }
            }
        }
        Op::UMulO => {
            if let Some(k) = kb {
                if k == 0 {
                    return konst(0, 1);
                }
                let (lim, aw) = (mask(w(a)) / k, w(a));
                return mk(Op::Ult, 1, konst(lim, aw), a, 0);
            }
        }
        Op::UDiv => {
            if kb == Some(1) {
                return a;
            }
            if let Some(k) = kb {
                if k.is_power_of_two() {
                    return mk(Op::LShr, wd, a, konst(k.trailing_zeros() as u128, wd), 0);
                }
            }
        }
        Op::URem => {
            if let Some(k) = kb {
                if k.is_power_of_two() {
                    return mk(Op::And, wd, a, konst(k - 1, wd), 0);
                }
            }
        }
        Op::And => {
            if kb == Some(0) {
                return konst(0, wd);
            }
            if kb == Some(m) || a == b {
                return a;
            }
            if wd == 1 && (is_not(a) == Some(b) || is_not(b) == Some(a)) {
                return konst(0, 1);
            }
        }
        Op::Or => {
            if kb == Some(0) || a == b {
                return a;
            }
            if kb == Some(m) {
                return konst(m, wd);
            }
            if wd == 1 && (is_not(a) == Some(b) || is_not(b) == Some(a)) {
                return konst(1, 1);
            }
        }
        Op::Xor => {
            if kb == Some(0) {
                return a;
            }
            if a == b {
                return konst(0, wd);
            }
            if let (Some(k2), N::Op(Op::Xor, x, y, _)) = (kb, &node(a).n) {
                if let Some(k1) = as_const(*y) {
                    return mk(Op::Xor, wd, *x, konst(k1 ^ k2, wd), 0);
                }
            }
        }
        Op::Shl => {
            if let Some(k) = kb {
                if k == 0 {
                    return a;
                }
                if k >= wd as u128 {
                    return konst(0, wd);
                }
                let lo = extract(a, 0, wd - k as u32);
                return concat(lo, konst(0, k as u32));
            }
        }
        Op::LShr => {
            if let Some(k) = kb {
                if k == 0 {
                    return a;
                }
                if k >= wd as u128 {
                    return konst(0, wd);
                }
                let hi = extract(a, k as u32, wd - k as u32);
                return concat(konst(0, k as u32), hi);
            }
        }
        Op::AShr => {
            if let Some(k) = kb {
                if k == 0 {
                    return a;
                }
                let k = k.min(wd as u128 - 1) as u32;
                let hi = extract(a, k, wd - k);
                return sext(hi, wd);
            }
        }
        Op::SExt => {
            // sign bit known zero
            if let N::Op(Op::Concat, h, _, _) = &node(a).n {
                if let Some(k) = as_const(*h) {
                    let wh = w(*h);
                    if k >> (wh - 1) == 0 {
                        return zext(a, wd);
                    }
                }
            }
        }
        Op::Eq => {
            if a == b {
                return konst(1, 1);
            }
            if aw == 1 {
                if let Some(k) = kb {
                    return if k == 1 { a } else { not1(a) };
                }
            }
            if let Some(k) = kb {
                if k > umax(a) || k < umin(a) {
                    return konst(0, 1);
                }
                if let N::Op(Op::Add, x, y, _) = &node(a).n {
                    if let Some(k1) = as_const(*y) {
                        return mk(Op::Eq, 1, *x, konst(k.wrapping_sub(k1), aw), 0);
                    }
                }
                if let N::Op(Op::Xor, x, y, _) = &node(a).n {
                    if let Some(k1) = as_const(*y) {
                        return mk(Op::Eq, 1, *x, konst(k ^ k1, aw), 0);
                    }
                }
                if let N::Op(Op::SExt, x, _, _) = node(a).n {
                    let wx = w(x);
                    if sx(k & mask(wx), wx) as u128 & mask(aw) == k {
                        return eqk(x, k);
                    }
                    return konst(0, 1);
                }
            }
            if is_concat(a) || is_concat(b) {
                let mut bs = vec![];
                bounds(a, 0, &mut bs);
                bounds(b, 0, &mut bs);
                bs.sort();
                bs.dedup();
                let mut r = konst(1, 1);
                let mut lo = 0;
                for h in bs {
                    let x = extract(a, lo, h - lo);
                    let y = extract(b, lo, h - lo);
                    let q = if x == y { konst(1, 1) } else { mk(Op::Eq, 1, x, y, 0) };
                    r = and1(r, q);
                    if as_const(r) == Some(0) {
                        return r;
                    }
                    lo = h;
                }
                return r;
            }
        }
        Op::Ult => {
            if a == b {
                return konst(0, 1);
            }
            if umax(a) < umin(b) {
                return konst(1, 1);
            }
            if umin(a) >= umax(b) {
                return konst(0, 1);
            }
            if kb == Some(1) {
                return eqk(a, 0);
            }
            if let Some(r) = narrow(op, a, b) {
                return r;
            }
        }
        Op::Ule => {
            if a == b {
                return konst(1, 1);
            }
            if umax(a) <= umin(b) {
                return konst(1, 1);
            }
            if umin(a) > umax(b) {
                return konst(0, 1);
            }
            if let Some(r) = narrow(op, a, b) {
                return r;
            }
        }
        Op::Slt | Op::Sle => {
            if a == b {
                return konst((op == Op::Sle) as u128, 1);
            }
            let s = mask(aw - 1);
            if umax(a) <= s && umax(b) <= s {
                return mk(if op == Op::Slt { Op::Ult } else { Op::Ule }, 1, a, b, 0);
            }
        }
        Op::Ite => {
            if let Some(k) = as_const(a) {
                return if k == 1 { b } else { c };
            }
            if b == c {
                return b;
            }
            if wd == 1 {
                match (as_const(b), as_const(c)) {
                    (Some(1), Some(0)) => return a,
                    (Some(0), Some(1)) => return not1(a),
                    (Some(1), None) => return or1(a, c),
                    (Some(0), None) => return and1(not1(a), c),
                    (None, Some(1)) => return or1(not1(a), b),
                    (None, Some(0)) => return and1(a, b),
                    _ => {}
                }
            }
            if let Some(x) = is_not(a) {
                return mk(Op::Ite, wd, x, c, b);
            }
        }
        _ => {}
    }
    // distribute bitwise operations over pieces
    if matches!(op, Op::And | Op::Or | Op::Xor) && (is_concat(a) || is_concat(b)) {
        let mut bs = vec![];
        bounds(a, 0, &mut bs);
        bounds(b, 0, &mut bs);
        bs.sort();
        bs.dedup();
        if bs.len() <= 64 {
            let mut r = 0;
            let mut lo = 0;
            for h in bs {
                let x = extract(a, lo, h - lo);
                let y = extract(b, lo, h - lo);
                let q = mk(op, h - lo, x, y, 0);
                r = if lo == 0 { q } else { concat(q, r) };
                lo = h;
            }
            return r;
        }
    }
    // operations on an if-then-else of constants with a constant
    if !matches!(op, Op::Ite) {
        if unary {
            if let Some((q, x, y)) = ite_consts(a) {
                let r1 = konst(ev(op, wd, aw, x, 0, 0), wd);
                let r2 = konst(ev(op, wd, aw, y, 0, 0), wd);
                return mk(Op::Ite, wd, q, r1, r2);
            }
        } else {
            if let (Some((q, x, y)), Some(k)) = (ite_consts(a), kb) {
                let r1 = konst(ev(op, wd, aw, x, k, 0), wd);
                let r2 = konst(ev(op, wd, aw, y, k, 0), wd);
                return mk(Op::Ite, wd, q, r1, r2);
            }
            if let (Some((q, x, y)), Some(k)) = (ite_consts(b), as_const(a)) {
                let r1 = konst(ev(op, wd, aw, k, x, 0), wd);
                let r2 = konst(ev(op, wd, aw, k, y, 0), wd);
                return mk(Op::Ite, wd, q, r1, r2);
            }
        }
    }
    intern(N::Op(op, a, if unary { 0 } else { b }, if op == Op::Ite { c } else { 0 }), wd, dep)
}

/// drop common constant-zero high bits in an unsigned comparison
fn narrow(op: Op, a: E, b: E) -> Option<E> {
    let aw = w(a);
    let ma = umax(a).max(umax(b));
    let need = (128 - ma.leading_zeros()).max(1);
    if need < aw && (is_concat(a) || is_concat(b)) {
        return Some(mk(op, 1, extract(a, 0, need), extract(b, 0, need), 0));
    }
    None
}

fn is_op(e: E) -> bool {
    matches!(node(e).n, N::Op(..))
}
pub fn is_not(e: E) -> Option<E> {
    if let N::Op(Op::Xor, x, y, _) = node(e).n {
        if w(e) == 1 && as_const(y) == Some(1) {
            return Some(x);
        }
    }
    None
}

/// all bytes an expression depends on, sorted
pub fn deps(e: E) -> Rc<Vec<u32>> {
    let n = node(e).clone();
    if n.dep == NONE {
        return Rc::new(vec![]);
    }
    if n.dep != MANY {
        return Rc::new(vec![n.dep]);
    }
    if let Some(d) = cx().deps.get(&e) {
        return d.clone();
    }
    let mut r: Vec<u32> = vec![];
    if let N::Op(op, a, b, c) = n.n {
        r.extend(deps(a).iter());
        if !matches!(op, Op::SExt | Op::Extract) {
            r.extend(deps(b).iter());
        }
        if op == Op::Ite {
            r.extend(deps(c).iter());
        }
    }
    r.sort();
    r.dedup();
    let r = Rc::new(r);
    cx().deps.insert(e, r.clone());
    r
}

pub fn eval(e: E, m: &dyn Fn(u32) -> u8, memo: &mut HashMap<E, u128>) -> u128 {
    let n = node(e).clone();
    match n.n {
        N::Const(c) => c,
        N::Tbl(b, t) => cx().tables[t as usize][m(b) as usize] as u128,
        N::Op(op, a, b, c) => {
            if let Some(&v) = memo.get(&e) {
                return v;
            }
            let r = match op {
                Op::Concat => {
                    let h = eval(a, m, memo);
                    let l = eval(b, m, memo);
                    h << w(b) | l
                }
                Op::Extract => (eval(a, m, memo) >> c) & mask(n.w),
                Op::SExt => ev(op, n.w, w(a), eval(a, m, memo), 0, 0),
                Op::Ite => {
                    if eval(a, m, memo) != 0 {
                        eval(b, m, memo)
                    } else {
                        eval(c, m, memo)
                    }
                }
                _ => {
                    let x = eval(a, m, memo);
                    let y = eval(b, m, memo);
                    ev(op, n.w, w(a), x, y, 0)
                }
            };
            memo.insert(e, r);
            r
        }
    }
}

/// rebuild an expression with some bytes fixed
pub fn subst(e: E, f: &dyn Fn(u32) -> Option<u8>, memo: &mut HashMap<E, E>) -> E {
    let n = node(e).clone();
    match n.n {
        N::Const(_) => e,
        N::Tbl(b, t) => match f(b) {
            Some(v) => konst(cx().tables[t as usize][v as usize] as u128, n.w),
            None => e,
        },
        N::Op(op, a, b, c) => {
            if let Some(&r) = memo.get(&e) {
                return r;
            }
            let x = subst(a, f, memo);
            let r = match op {
                Op::Extract => extract(x, c, n.w),
                Op::SExt => mk(op, n.w, x, 0, 0),
                Op::Ite => {
                    let y = subst(b, f, memo);
                    let z = subst(c, f, memo);
                    mk(op, n.w, x, y, z)
                }
                _ => {
                    let y = subst(b, f, memo);
                    mk(op, n.w, x, y, 0)
                }
            };
            memo.insert(e, r);
            r
        }
    }
}

/// make single-byte leaves equal when they agree on the domains of their bytes
pub fn normalise(e: E, dom: &[Dom], memo: &mut HashMap<E, E>) -> E {
    let n = node(e).clone();
    match n.n {
        N::Const(_) => e,
        N::Tbl(b, t) => {
            let d = &dom[b as usize];
            let old = table(t);
            let fill = match dom_first(d) {
                Some(v) => old[v as usize],
                None => return e,
            };
            let mut t = [fill; 256];
            for v in dom_iter(d) {
                t[v as usize] = old[v as usize];
            }
            mk_table(b, n.w, t)
        }
        N::Op(op, a, b, c) => {
            if let Some(&r) = memo.get(&e) {
                return r;
            }
            let x = normalise(a, dom, memo);
            let r = match op {
                Op::Extract => extract(x, c, n.w),
                Op::SExt => mk(op, n.w, x, 0, 0),
                Op::Ite => {
                    let y = normalise(b, dom, memo);
                    let z = normalise(c, dom, memo);
                    mk(op, n.w, x, y, z)
                }
                _ => {
                    let y = normalise(b, dom, memo);
                    mk(op, n.w, x, y, 0)
                }
            };
            memo.insert(e, r);
            r
        }
    }
}

/// conjuncts of a 1-bit expression
pub fn conjuncts(e: E, out: &mut Vec<E>) {
    match node(e).n {
        N::Op(Op::And, a, b, _) if w(e) == 1 => {
            conjuncts(a, out);
            conjuncts(b, out);
        }
        N::Op(Op::Xor, x, y, _) if w(e) == 1 && as_const(y) == Some(1) => {
            if let N::Op(Op::Or, p, q, _) = node(x).n {
                conjuncts(not1(p), out);
                conjuncts(not1(q), out);
            } else {
                out.push(e);
            }
        }
        _ => out.push(e),
    }
}

#[allow(dead_code)]
pub fn show(e: E) -> String {
    let n = node(e).clone();
    match n.n {
        N::Const(c) => format!("{}:{}", c, n.w),
        N::Tbl(b, t) => format!("T{}[b{}]:{}", t, b, n.w),
        N::Op(op, a, b, c) => match op {
            Op::Extract => format!("ext({},{},{})", show(a), c, n.w),
            Op::SExt => format!("sext({},{})", show(a), n.w),
            Op::Ite => format!("ite({},{},{})", show(a), show(b), show(c)),
            _ => format!("{:?}({},{})", op, show(a), show(b)),
        },
    }
}
#[allow(dead_code)]
fn unused(e: E) {
    let mut v = vec![];
    pieces(e, &mut v);
}
