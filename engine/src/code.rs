//! Lowering of parsed LLVM IR into the compact form the executor runs.
use crate::expr::{mask, sx};
use crate::ll::{Block, Callee, Cst, Func, Module, Opd, Ty, I};
use crate::mem::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, Debug)]
pub enum O {
    R(u32),
    K(u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FB {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pr {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

pub struct Edge {
    pub to: u32,
    pub moves: Box<[(u32, O)]>,
}

pub enum Cal {
    F(u32),
    B(u32),
    Ind(O),
}

pub enum X {
    Bin(B, u32, u32, u32, O, O), // op, width, lanes, dst
    FBin(FB, bool, u32, u32, O, O),
    FNeg(bool, u32, u32, O),
    ICmp(Pr, u32, u32, u32, O, O),
    FCmp(String, bool, u32, u32, O, O),
    Zext(u32, u32, u32, u32, O), // from, to, lanes, dst
    Sext(u32, u32, u32, u32, O),
    Trunc(u32, u32, u32, u32, O),
    Bitcast(Ty, Ty, u32, O),
    FCast(String, Ty, Ty, u32, O),
    Mov(u32, O),
    Load(Ty, u32, O),
    LoadN(u64, u32, u32, O), // bytes, width
    LoadA(u64, u32, u32, O), // atomic
    Store(Ty, O, O),
    StoreN(u64, O, O),
    StoreA(u64, O, O),
    Gep(u32, O, u64, Box<[(O, u32, u64)]>), // dst, base, const, (idx, width, scale)
    Select(u32, u32, u32, bool, O, O, O),   // width, lanes, dst, lane-wise condition
    SelectAgg(u32, O, O, O),
    Alloca(u64, u64, u32, Option<O>),
    Call(Option<u32>, Cal, Box<[O]>),
    Invoke(Option<u32>, Cal, Box<[O]>, Edge, Edge),
    Intr(Intr, u32, u32, u32, Box<[O]>), // width, lanes, dst
    Br(Edge),
    CondBr(O, Edge, Edge),
    Switch(u32, O, Edge, Vec<(u128, u32)>, Vec<Edge>),
    Ret(Option<O>),
    Unreachable,
    Resume(O),
    LandingPad(u32),
    ExtractValue(u32, O, Box<[u32]>),
    InsertValue(u32, O, O, Box<[u32]>, Ty),
    ExtractElement(u32, O, O),
    InsertElement(u32, O, O, O, u32),
    Shuffle(u32, O, O, Vec<i32>, u32),
    AtomicRmw(String, u32, u32, O, O),
    CmpXchg(u32, u32, O, O, O),
    Unsupported(String),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Intr {
    Nop,
    Memcpy,
    Memset,
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    Bitreverse,
    Abs,
    Umax,
    Umin,
    Smax,
    Smin,
    UsubSat,
    UaddSat,
    SsubSat,
    SaddSat,
    Ucmp,
    Scmp,
    Fshl,
    Fshr,
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    SmulO,
    Zero,
    Arg0,
    LoadRel,
    Trap,
    RedOr,
    RedAnd,
    RedAdd,
    RedXor,
    RedUmax,
    RedUmin,
    Pmovmskb,
    Fabs,
    Floor,
    Ceil,
    Fma,
    Copysign,
    PtrMask,
    FpToIntSat(bool, bool, u32),
}

pub struct CFunc {
    pub name: String,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub code: Vec<X>,
    pub consts: Vec<V>,
}

pub struct Prog {
    pub m: Module,
    pub fidx: HashMap<String, u32>,
    pub gaddr: HashMap<String, u64>,
    pub names: Vec<String>, // functions, then declarations
    pub compiled: Vec<Option<&'static CFunc>>,
    pub globals: Vec<u8>,
}

pub fn zero(ty: &Ty) -> V {
    match ty {
        Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(zero).collect())),
        Ty::Array(n, t) => V::A(Rc::new((0..*n).map(|_| zero(t)).collect())),
        Ty::Vec(n, t) => V::A(Rc::new((0..*n).map(|_| zero(t)).collect())),
        Ty::Int(n) if *n > 64 => V::W(Box::new(0)),
        _ => V::C(0),
    }
}

impl Prog {
    pub fn new(m: Module) -> Prog {
        let mut fidx = HashMap::new();
        let mut names = vec![];
        for f in &m.funcs {
            fidx.insert(f.name.clone(), names.len() as u32);
            names.push(f.name.clone());
        }
        for d in &m.decls {
            if !fidx.contains_key(d) {
                fidx.insert(d.clone(), names.len() as u32);
                names.push(d.clone());
            }
        }
        let mut gaddr = HashMap::new();
        let mut a = GLOB_BASE + 64;
        for g in &m.globals {
            let al = g.align.max(16);
            a = (a + al - 1) / al * al;
            gaddr.insert(g.name.clone(), a);
            a += g.ty.size().max(1) + 8;
        }
        let n = names.len();
        let mut p = Prog { m, fidx, gaddr, names, compiled: vec![None; n], globals: vec![] };
        let mut img = vec![0u8; (a - GLOB_BASE) as usize + 64];
        for g in &p.m.globals {
            if let Some(c) = &g.init {
                let off = (p.gaddr[&g.name] - GLOB_BASE) as usize;
                p.init(&g.ty, c, &mut img, off);
            }
        }
        p.globals = img;
        p
    }
    fn init(&self, ty: &Ty, c: &Cst, img: &mut [u8], off: usize) {
        match c {
            Cst::Undef | Cst::Zero => {}
            Cst::Bytes(b) => img[off..off + b.len()].copy_from_slice(b),
            Cst::Agg(v) => {
                for (i, (t, c)) in v.iter().enumerate() {
                    self.init(t, c, img, off + ty.field_off(i as u64) as usize);
                }
            }
            Cst::Splat(b) => {
                if let Ty::Vec(n, t) = ty {
                    for i in 0..*n {
                        self.init(t, &b.1, img, off + (i as u64 * t.size()) as usize);
                    }
                }
            }
            _ => {
                let v = self.cst(ty, c);
                let n = ty.store_size() as usize;
                if let Some(x) = conc(&v) {
                    img[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                }
            }
        }
    }
    pub fn sym_addr(&self, n: &str) -> u64 {
        if let Some(&a) = self.gaddr.get(n) {
            return a;
        }
        if let Some(&i) = self.fidx.get(n) {
            return FUNC_BASE + 16 * i as u64;
        }
        0
    }
    pub fn cst(&self, ty: &Ty, c: &Cst) -> V {
        match c {
            Cst::Int(v) => match ty {
                Ty::Int(n) => from_u128(v & mask((*n).min(128)), *n),
                _ => V::C(*v as u64),
            },
            Cst::Undef | Cst::Zero => zero(ty),
            Cst::F(b) => V::C(*b),
            Cst::Global(n) => V::C(self.sym_addr(n)),
            Cst::Agg(v) => V::A(Rc::new(v.iter().map(|(t, c)| self.cst(t, c)).collect())),
            Cst::Bytes(b) => V::A(Rc::new(b.iter().map(|&x| V::C(x as u64)).collect())),
            Cst::Splat(b) => match ty {
                Ty::Vec(n, t) => {
                    let x = self.cst(t, &b.1);
                    V::A(Rc::new((0..*n).map(|_| x.clone()).collect()))
                }
                _ => V::C(0),
            },
            Cst::Gep(t, b, idx) => {
                let base = match self.cst(&Ty::Ptr, b) {
                    V::C(x) => x,
                    _ => 0,
                };
                let mut off = 0u64;
                let mut cur = t.clone();
                for (k, (it, ic)) in idx.iter().enumerate() {
                    let iw = it.bits();
                    let i = conc(&self.cst(it, ic)).unwrap_or(0);
                    let i = sx(i, iw) as i64 as u64;
                    if k == 0 {
                        off = off.wrapping_add(i.wrapping_mul(cur.size()));
                    } else {
                        off = off.wrapping_add(match &cur {
                            Ty::Struct(..) => cur.field_off(i),
                            Ty::Array(_, t) | Ty::Vec(_, t) => i.wrapping_mul(t.size()),
                            _ => 0,
                        });
                        cur = cur.field_ty(if matches!(cur, Ty::Struct(..)) { i } else { 0 }).clone();
                    }
                }
                V::C(base.wrapping_add(off))
            }
            Cst::Cast(op, ft, c, tt) => {
                let v = conc(&self.cst(ft, c)).unwrap_or(0);
                match op.as_str() {
                    "sext" => from_u128(sx(v, ft.bits()) as u128, tt.bits()),
                    _ => from_u128(v, tt.bits()),
                }
            }
            Cst::Bin(op, t, a, b) => {
                let x = conc(&self.cst(t, a)).unwrap_or(0);
                let y = conc(&self.cst(t, b)).unwrap_or(0);
                let r = match op.as_str() {
                    "add" => x.wrapping_add(y),
                    "sub" => x.wrapping_sub(y),
                    "mul" => x.wrapping_mul(y),
                    "and" => x & y,
                    "or" => x | y,
                    _ => x ^ y,
                };
                from_u128(r, t.bits())
            }
        }
    }
    pub fn func(&mut self, i: u32) -> Option<&'static CFunc> {
        if let Some(f) = self.compiled[i as usize] {
            return Some(f);
        }
        if i as usize >= self.m.funcs.len() {
            return None;
        }
        let f = self.compile(&self.m.funcs[i as usize]);
        let f: &'static CFunc = Box::leak(Box::new(f));
        self.compiled[i as usize] = Some(f);
        Some(f)
    }
    fn compile(&self, f: &Func) -> CFunc {
        let mut c = Comp { p: self, consts: vec![], code: vec![], nregs: f.nregs };
        // block offsets: a block has one instruction per non-phi instruction
        let mut starts = HashMap::new();
        let mut pos = 0u32;
        for b in &f.blocks {
            starts.insert(b.name.as_str(), (pos, b));
            pos += b.ins.iter().filter(|x| !matches!(x.1, I::Phi(..))).count() as u32;
        }
        for b in &f.blocks {
            for (d, i) in &b.ins {
                if let I::Phi(..) = i {
                    continue;
                }
                let x = c.ins(f, b, *d, i, &starts);
                c.code.push(x);
            }
        }
        CFunc {
            name: f.name.clone(),
            nregs: c.nregs,
            params: f.params.iter().map(|p| p.0).collect(),
            code: c.code,
            consts: c.consts,
        }
    }
}

struct Comp<'a> {
    p: &'a Prog,
    consts: Vec<V>,
    code: Vec<X>,
    nregs: u32,
}

type Starts<'a> = HashMap<&'a str, (u32, &'a Block)>;

impl<'a> Comp<'a> {
    fn o(&mut self, t: &Ty, o: &Opd) -> O {
        match o {
            Opd::Local(i) => O::R(*i),
            Opd::C(c) => {
                self.consts.push(self.p.cst(t, c));
                O::K(self.consts.len() as u32 - 1)
            }
        }
    }
    fn k(&mut self, v: V) -> O {
        self.consts.push(v);
        O::K(self.consts.len() as u32 - 1)
    }
    fn edge(&mut self, from: &Block, to: &str, st: &Starts) -> Edge {
        let (pos, b) = st[to];
        let mut mv = vec![];
        for (d, i) in &b.ins {
            if let I::Phi(t, v) = i {
                let (o, _) = v.iter().find(|(_, l)| *l == from.name).expect("phi edge");
                let o = self.o(t, o);
                mv.push((d.unwrap(), o));
            }
        }
        Edge { to: pos, moves: mv.into() }
    }
    fn lanes(t: &Ty) -> (u32, u32) {
        match t {
            Ty::Vec(n, t) => (t.bits(), *n),
            Ty::Void | Ty::Other => (0, 0),
            Ty::Struct(..) | Ty::Array(..) => (0, 0),
            _ => (t.bits(), 0),
        }
    }
    fn callee(&mut self, c: &Callee) -> Cal {
        match c {
            Callee::Global(n) => match self.p.fidx.get(n) {
                Some(&i) => Cal::F(i),
                None => {
                    let a = self.p.sym_addr(n);
                    Cal::Ind(self.k(V::C(a)))
                }
            },
            Callee::Local(i) => Cal::Ind(O::R(*i)),
            Callee::Cst(c) => {
                let v = self.p.cst(&Ty::Ptr, c);
                Cal::Ind(self.k(v))
            }
            Callee::Asm(_) => Cal::B(0),
        }
    }
    fn ins(&mut self, _f: &Func, b: &Block, d: Option<u32>, i: &I, st: &Starts) -> X {
        let dst = d.unwrap_or(u32::MAX);
        match i {
            I::Bin(op, t, a, c) => {
                let (w, n) = Self::lanes(t);
                let (a, c) = (self.o(t, a), self.o(t, c));
                if w > 128 {
                    return X::Unsupported(format!("{} i{}", op, w));
                }
                let bop = match op.as_str() {
                    "add" => B::Add,
                    "sub" => B::Sub,
                    "mul" => B::Mul,
                    "udiv" => B::UDiv,
                    "urem" => B::URem,
                    "sdiv" => B::SDiv,
                    "srem" => B::SRem,
                    "and" => B::And,
                    "or" => B::Or,
                    "xor" => B::Xor,
                    "shl" => B::Shl,
                    "lshr" => B::LShr,
                    "ashr" => B::AShr,
                    f => {
                        let fb = match f {
                            "fadd" => FB::Add,
                            "fsub" => FB::Sub,
                            "fmul" => FB::Mul,
                            "fdiv" => FB::Div,
                            _ => FB::Rem,
                        };
                        return X::FBin(fb, w == 64, n, dst, a, c);
                    }
                };
                X::Bin(bop, w, n, dst, a, c)
            }
            I::FNeg(t, a) => {
                let (w, n) = Self::lanes(t);
                let a = self.o(t, a);
                X::FNeg(w == 64, n, dst, a)
            }
            I::ICmp(p, t, a, c) => {
                let (w, n) = Self::lanes(t);
                let (a, c) = (self.o(t, a), self.o(t, c));
                if w > 128 {
                    return X::Unsupported(format!("icmp i{}", w));
                }
                let p = match p.as_str() {
                    "eq" => Pr::Eq,
                    "ne" => Pr::Ne,
                    "ult" => Pr::Ult,
                    "ule" => Pr::Ule,
                    "ugt" => Pr::Ugt,
                    "uge" => Pr::Uge,
                    "slt" => Pr::Slt,
                    "sle" => Pr::Sle,
                    "sgt" => Pr::Sgt,
                    _ => Pr::Sge,
                };
                X::ICmp(p, w, n, dst, a, c)
            }
            I::FCmp(p, t, a, c) => {
                let (w, n) = Self::lanes(t);
                let (a, c) = (self.o(t, a), self.o(t, c));
                X::FCmp(p.clone(), w == 64, n, dst, a, c)
            }
            I::Cast(op, t, a, t2) => {
                let o = self.o(t, a);
                let (w1, n) = Self::lanes(t);
                let (w2, _) = Self::lanes(t2);
                if (w1 > 128 || w2 > 128) && op != "bitcast" {
                    return X::Unsupported(format!("{} to i{}", op, w2));
                }
                match op.as_str() {
                    "zext" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" if w2 > w1 => X::Zext(w1, w2, n, dst, o),
                    "sext" => X::Sext(w1, w2, n, dst, o),
                    "trunc" | "ptrtoint" | "inttoptr" | "ptrtoaddr" if w2 < w1 => X::Trunc(w1, w2, n, dst, o),
                    "zext" | "trunc" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => X::Mov(dst, o),
                    "bitcast" => X::Bitcast(t.clone(), t2.clone(), dst, o),
                    _ => X::FCast(op.clone(), t.clone(), t2.clone(), dst, o),
                }
            }
            I::Load(t, p, atomic) => {
                let p = self.o(&Ty::Ptr, p);
                match t {
                    Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                        if t.bits() > 128 {
                            return X::Unsupported("load >128".into());
                        }
                        if *atomic {
                            return X::LoadA(t.store_size(), t.bits(), dst, p);
                        }
                        X::LoadN(t.store_size(), t.bits(), dst, p)
                    }
                    _ => X::Load(t.clone(), dst, p),
                }
            }
            I::Store(t, v, p, atomic) => {
                let v = self.o(t, v);
                let p = self.o(&Ty::Ptr, p);
                match t {
                    Ty::Int(n) if n % 8 != 0 => X::Store(t.clone(), v, p),
                    Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                        if t.bits() > 128 {
                            return X::Unsupported("store >128".into());
                        }
                        if *atomic {
                            return X::StoreA(t.store_size(), v, p);
                        }
                        X::StoreN(t.store_size(), v, p)
                    }
                    _ => X::Store(t.clone(), v, p),
                }
            }
            I::Gep(t, base, idx, is_vec) => {
                if *is_vec {
                    return X::Unsupported("vector gep".into());
                }
                let b = self.o(&Ty::Ptr, base);
                let mut off = 0u64;
                let mut dynv = vec![];
                let mut cur = t.clone();
                for (k, (it, io)) in idx.iter().enumerate() {
                    if matches!(it, Ty::Vec(..)) {
                        return X::Unsupported("vector gep".into());
                    }
                    let iw = it.bits();
                    let scale = if k == 0 {
                        cur.size()
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                let i = match io {
                                    Opd::C(c) => conc(&self.p.cst(it, c)).unwrap_or(0) as u64,
                                    _ => panic!("struct gep"),
                                };
                                off = off.wrapping_add(cur.field_off(i));
                                cur = cur.field_ty(i).clone();
                                continue;
                            }
                            Ty::Array(_, t) | Ty::Vec(_, t) => {
                                let s = t.size();
                                let t2 = (**t).clone();
                                cur = t2;
                                s
                            }
                            _ => panic!("gep"),
                        }
                    };
                    match io {
                        Opd::C(c) => {
                            let i = sx(conc(&self.p.cst(it, c)).unwrap_or(0), iw) as i64 as u64;
                            off = off.wrapping_add(i.wrapping_mul(scale));
                        }
                        Opd::Local(r) => dynv.push((O::R(*r), iw, scale)),
                    }
                }
                X::Gep(dst, b, off, dynv.into())
            }
            I::Select(ct, c, t, a, b2) => {
                let (w, n) = Self::lanes(t);
                let c = self.o(ct, c);
                let (a, b2) = (self.o(t, a), self.o(t, b2));
                if w == 0 {
                    return X::SelectAgg(dst, c, a, b2);
                }
                X::Select(w, n, dst, matches!(ct, Ty::Vec(..)), c, a, b2)
            }
            I::Alloca(t, cnt, al) => {
                let c = match cnt {
                    Some((ct, o)) => Some(self.o(ct, o)),
                    None => None,
                };
                X::Alloca(t.size(), *al, dst, c)
            }
            I::Call { ret, callee, args } => {
                if let Callee::Global(n) = callee {
                    if let Some(x) = self.intrinsic(n, ret, args, dst) {
                        return x;
                    }
                }
                if let Callee::Asm(a) = callee {
                    return self.asm(a, ret, args, dst);
                }
                let cal = self.callee(callee);
                let v: Vec<O> = args.iter().map(|(t, o)| self.o(t, o)).collect();
                X::Call(d, cal, v.into())
            }
            I::Invoke { ret, callee, args, ok, unw } => {
                if let Callee::Global(n) = callee {
                    if n.starts_with("llvm.") {
                        let _ = ret;
                        return X::Unsupported(format!("invoke {}", n));
                    }
                }
                if let Callee::Asm(_) = callee {
                    return X::Unsupported("invoke asm".into());
                }
                let cal = self.callee(callee);
                let v: Vec<O> = args.iter().map(|(t, o)| self.o(t, o)).collect();
                let ok = self.edge(b, ok, st);
                let unw = self.edge(b, unw, st);
                X::Invoke(d, cal, v.into(), ok, unw)
            }
            I::Br(l) => X::Br(self.edge(b, l, st)),
            I::CondBr(c, x, y) => {
                let c = self.o(&Ty::Int(1), c);
                let e1 = self.edge(b, x, st);
                let e2 = self.edge(b, y, st);
                X::CondBr(c, e1, e2)
            }
            I::Switch(t, o, def, cases) => {
                let w = t.bits();
                let o = self.o(t, o);
                let def = self.edge(b, def, st);
                let mut edges: Vec<Edge> = vec![];
                let mut names: HashMap<&str, u32> = HashMap::new();
                let mut cs = vec![];
                for (k, l) in cases {
                    let e = match names.get(l.as_str()) {
                        Some(&e) => e,
                        None => {
                            edges.push(self.edge(b, l, st));
                            names.insert(l, edges.len() as u32 - 1);
                            edges.len() as u32 - 1
                        }
                    };
                    cs.push((*k & mask(w), e));
                }
                cs.sort();
                X::Switch(w, o, def, cs, edges)
            }
            I::Ret(None) => X::Ret(None),
            I::Ret(Some((t, o))) => {
                let o = self.o(t, o);
                X::Ret(Some(o))
            }
            I::Unreachable => X::Unreachable,
            I::Resume(o) => {
                let o = self.o(&Ty::Other, o);
                X::Resume(o)
            }
            I::LandingPad(_) => X::LandingPad(dst),
            I::ExtractValue(t, o, idx) => {
                let o = self.o(t, o);
                X::ExtractValue(dst, o, idx.clone().into())
            }
            I::InsertValue(t, o, t2, o2, idx) => {
                let a = self.o(t, o);
                let b2 = self.o(t2, o2);
                X::InsertValue(dst, a, b2, idx.clone().into(), t.clone())
            }
            I::ExtractElement(t, o, i2) => {
                let o = self.o(t, o);
                let i2 = self.o(&Ty::Int(64), i2);
                X::ExtractElement(dst, o, i2)
            }
            I::InsertElement(t, o, t2, o2, i2) => {
                let n = match t {
                    Ty::Vec(n, _) => *n,
                    _ => 0,
                };
                let a = self.o(t, o);
                let b2 = self.o(t2, o2);
                let i2 = self.o(&Ty::Int(64), i2);
                X::InsertElement(dst, a, b2, i2, n)
            }
            I::Shuffle(t, a, b2, m) => {
                let n = match t {
                    Ty::Vec(n, _) => *n,
                    _ => 0,
                };
                let a = self.o(t, a);
                let b2 = self.o(t, b2);
                X::Shuffle(dst, a, b2, m.clone(), n)
            }
            I::AtomicRmw(op, p, t, v) => {
                let p = self.o(&Ty::Ptr, p);
                let v = self.o(t, v);
                X::AtomicRmw(op.clone(), t.bits(), dst, p, v)
            }
            I::CmpXchg(p, t, a, n) => {
                let p = self.o(&Ty::Ptr, p);
                let a = self.o(t, a);
                let n = self.o(t, n);
                X::CmpXchg(t.bits(), dst, p, a, n)
            }
            I::Fence => X::Intr(Intr::Nop, 0, 0, dst, vec![].into()),
            I::Freeze(t, o) => {
                let o = self.o(t, o);
                X::Mov(dst, o)
            }
            I::Phi(..) => unreachable!(),
            I::Unsupported(s) => X::Unsupported(s.clone()),
        }
    }
    fn asm(&mut self, a: &str, ret: &Ty, args: &[(Ty, Opd)], dst: u32) -> X {
        if *ret == Ty::Void && !a.contains("cpuid") {
            return X::Intr(Intr::Nop, 0, 0, dst, vec![].into());
        }
        if a.starts_with("/*") {
            let o = self.o(&args[0].0, &args[0].1);
            return X::Mov(dst, o);
        }
        if a.contains("cpuid") {
            let k = self.k(zero(ret));
            return X::Mov(dst, k);
        }
        X::Unsupported(format!("asm {}", a))
    }
    fn intrinsic(&mut self, n: &str, ret: &Ty, args: &[(Ty, Opd)], dst: u32) -> Option<X> {
        let s = n.strip_prefix("llvm.")?;
        let base = s;
        let (mut w, mut l) = Self::lanes(ret);
        let starts = |p: &str| base == p || base.starts_with(&format!("{}.", p));
        let mut rw_arg0 = || {
            let r = Self::lanes(&args[0].0);
            w = r.0;
            l = r.1;
        };
        use Intr::*;
        let it = if starts("lifetime") || starts("assume") || starts("experimental.noalias") || starts("dbg") || starts("donothing") || starts("prefetch") || starts("sideeffect") || starts("x86.sse2.pause") || starts("stackrestore") {
            Nop
        } else if starts("memcpy") || starts("memmove") {
            Memcpy
        } else if starts("memset") {
            Memset
        } else if starts("ctpop") {
            Ctpop
        } else if starts("ctlz") {
            Ctlz
        } else if starts("cttz") {
            Cttz
        } else if starts("bswap") {
            Bswap
        } else if starts("bitreverse") {
            Bitreverse
        } else if starts("abs") {
            Abs
        } else if starts("umax") {
            Umax
        } else if starts("umin") {
            Umin
        } else if starts("smax") {
            Smax
        } else if starts("smin") {
            Smin
        } else if starts("usub.sat") {
            UsubSat
        } else if starts("uadd.sat") {
            UaddSat
        } else if starts("ssub.sat") {
            SsubSat
        } else if starts("sadd.sat") {
            SaddSat
        } else if starts("ucmp") {
            rw_arg0();
            Ucmp
        } else if starts("scmp") {
            rw_arg0();
            Scmp
        } else if starts("fshl") {
            Fshl
        } else if starts("fshr") {
            Fshr
        } else if starts("uadd.with.overflow") {
            rw_arg0();
            UaddO
        } else if starts("usub.with.overflow") {
            rw_arg0();
            UsubO
        } else if starts("umul.with.overflow") {
            rw_arg0();
            UmulO
        } else if starts("sadd.with.overflow") {
            rw_arg0();
            SaddO
        } else if starts("ssub.with.overflow") {
            rw_arg0();
            SsubO
        } else if starts("smul.with.overflow") {
            rw_arg0();
            SmulO
        } else if starts("is.constant") || starts("x86.xgetbv") || starts("stacksave") {
            Zero
        } else if starts("expect") || starts("threadlocal.address") || starts("launder.invariant.group") || starts("ssa.copy") {
            Arg0
        } else if starts("load.relative") {
            LoadRel
        } else if starts("trap") || starts("ubsantrap") {
            Trap
        } else if starts("vector.reduce.or") {
            rw_arg0();
            RedOr
        } else if starts("vector.reduce.and") {
            rw_arg0();
            RedAnd
        } else if starts("vector.reduce.add") {
            rw_arg0();
            RedAdd
        } else if starts("vector.reduce.xor") {
            rw_arg0();
            RedXor
        } else if starts("vector.reduce.umax") {
            rw_arg0();
            RedUmax
        } else if starts("vector.reduce.umin") {
            rw_arg0();
            RedUmin
        } else if starts("x86.sse2.pmovmskb.128") {
            rw_arg0();
            Pmovmskb
        } else if starts("fabs") {
            Fabs
        } else if starts("floor") {
            Floor
        } else if starts("ceil") {
            Ceil
        } else if starts("fma") || starts("fmuladd") {
            Fma
        } else if starts("copysign") {
            Copysign
        } else if starts("ptrmask") {
            PtrMask
        } else if starts("fptoui.sat") || starts("fptosi.sat") {
            FpToIntSat(starts("fptosi.sat"), args[0].0 == Ty::F64, w)
        } else {
            return Some(X::Unsupported(n.to_string()));
        };
        if it == Zero {
            let k = self.k(zero(ret));
            return Some(X::Mov(dst, k));
        }
        if it == Nop {
            return Some(X::Intr(Nop, 0, 0, dst, vec![].into()));
        }
        let v: Vec<O> = args.iter().map(|(t, o)| self.o(t, o)).collect();
        if it == Arg0 {
            return Some(X::Mov(dst, v[0]));
        }
        Some(X::Intr(it, w, l, dst, v.into()))
    }
}
