//! Parser for the subset of textual LLVM IR that rustc emits (opaque pointers).
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Struct(Rc<Vec<Ty>>, bool),
    Array(u64, Rc<Ty>),
    Vec(u32, Rc<Ty>),
    Other,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Struct(f, packed) => {
                let mut off = 0;
                let mut al = 1;
                for t in f.iter() {
                    let a = if *packed { 1 } else { t.align() };
                    al = al.max(a);
                    off = (off + a - 1) / a * a;
                    off += t.size();
                }
                (off + al - 1) / al * al
            }
            Ty::Array(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) if w % 8 != 0 => ((*n as u64) * w as u64 + 7) / 8,
                _ => (*n as u64) * t.size(),
            },
        }
    }
    /// number of bytes a load/store of this type touches
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(n) => ((*n as u64) + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(n) => match n {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Array(_, t) => t.align(),
            Ty::Vec(..) => {
                let s = self.size().max(1);
                s.next_power_of_two()
            }
        }
    }
    pub fn field_off(&self, i: u64) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut off = 0;
                for (k, t) in f.iter().enumerate() {
                    let a = if *packed { 1 } else { t.align() };
                    off = (off + a - 1) / a * a;
                    if k as u64 == i {
                        return off;
                    }
                    off += t.size();
                }
                panic!("field_off")
            }
            Ty::Array(_, t) | Ty::Vec(_, t) => i * t.size(),
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn field_ty(&self, i: u64) -> &Ty {
        match self {
            Ty::Struct(f, _) => &f[i as usize],
            Ty::Array(_, t) | Ty::Vec(_, t) => t,
            _ => panic!("field_ty of {:?}", self),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(n, t) => n * t.bits(),
            _ => panic!("bits of {:?}", self),
        }
    }
}

/// Constants as written; resolved to values once global addresses are known.
#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),
    Undef,
    Zero,
    Global(String),
    F(u64),
    Agg(Vec<(Ty, Cst)>),
    Bytes(Vec<u8>),
    Splat(Box<(Ty, Cst)>),
    Gep(Ty, Box<Cst>, Vec<(Ty, Cst)>),
    Cast(String, Ty, Box<Cst>, Ty),
    Bin(String, Ty, Box<Cst>, Box<Cst>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    Local(u32),
    C(Cst),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Global(String),
    Local(u32),
    Asm(String),
    Cst(Cst),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(String, Ty, Opd, Opd),
    FNeg(Ty, Opd),
    ICmp(String, Ty, Opd, Opd),
    FCmp(String, Ty, Opd, Opd),
    Cast(String, Ty, Opd, Ty),
    Load(Ty, Opd, bool),
    Store(Ty, Opd, Opd, bool),
    Gep(Ty, Opd, Vec<(Ty, Opd)>, bool),
    Select(Ty, Opd, Ty, Opd, Opd),
    Alloca(Ty, Option<(Ty, Opd)>, u64),
    Call { ret: Ty, callee: Callee, args: Vec<(Ty, Opd)> },
    Invoke { ret: Ty, callee: Callee, args: Vec<(Ty, Opd)>, ok: String, unw: String },
    Br(String),
    CondBr(Opd, String, String),
    Switch(Ty, Opd, String, Vec<(u128, String)>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    Resume(Opd),
    LandingPad(Ty),
    ExtractValue(Ty, Opd, Vec<u32>),
    InsertValue(Ty, Opd, Ty, Opd, Vec<u32>),
    ExtractElement(Ty, Opd, Opd),
    InsertElement(Ty, Opd, Ty, Opd, Opd),
    Shuffle(Ty, Opd, Opd, Vec<i32>),
    AtomicRmw(String, Opd, Ty, Opd),
    CmpXchg(Opd, Ty, Opd, Opd),
    Fence,
    Freeze(Ty, Opd),
    Phi(Ty, Vec<(Opd, String)>),
    Unsupported(String),
}

pub struct Block {
    pub name: String,
    pub ins: Vec<(Option<u32>, I)>,
}

pub struct Func {
    pub name: String,
    pub params: Vec<(u32, Ty)>,
    pub ret: Ty,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Cst>,
    pub align: u64,
    pub constant: bool,
}

#[derive(Default)]
pub struct Module {
    pub globals: Vec<Global>,
    pub funcs: Vec<Func>,
    pub decls: Vec<String>,
    pub types: HashMap<String, Ty>,
}

pub struct P<'a> {
    s: &'a [u8],
    i: usize,
    types: HashMap<String, Ty>,
    locals: HashMap<String, u32>,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> P<'a> {
    fn err(&self, m: &str) -> ! {
        let st = self.s[..self.i].iter().rposition(|&c| c == b'\n').map(|x| x + 1).unwrap_or(0);
        let en = self.s[self.i..].iter().position(|&c| c == b'\n').map(|x| x + self.i).unwrap_or(self.s.len());
        panic!("parse error: {} at col {} in: {}", m, self.i - st, String::from_utf8_lossy(&self.s[st..en]));
    }
    fn ws(&mut self) {
        while self.i < self.s.len() {
            match self.s[self.i] {
                b' ' | b'\t' | b'\n' | b'\r' => self.i += 1,
                b';' => self.line_end(),
                _ => break,
            }
        }
    }
    /// skip spaces but not newlines
    fn sp(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    fn line_end(&mut self) {
        while self.i < self.s.len() && self.s[self.i] != b'\n' {
            if self.s[self.i] == b'"' {
                self.i += 1;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
            }
            self.i += 1;
        }
    }
    fn peek(&self) -> u8 {
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> bool {
        self.sp();
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        self.ws();
        if self.peek() != c {
            self.err(&format!("expected {:?}", c as char));
        }
        self.i += 1;
    }
    fn peek_word(&mut self) -> &'a str {
        self.sp();
        let mut j = self.i;
        while j < self.s.len() && is_id(self.s[j]) {
            j += 1;
        }
        std::str::from_utf8(&self.s[self.i..j]).unwrap()
    }
    fn word(&mut self) -> &'a str {
        let w = self.peek_word();
        self.i += w.len();
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.peek() {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.peek() != b'"' {
                        self.i += 1;
                    }
                }
                0 => self.err("eof in parens"),
                _ => {}
            }
            self.i += 1;
        }
    }
    fn name(&mut self) -> String {
        // after % or @ or label
        if self.peek() == b'"' {
            self.i += 1;
            let st = self.i;
            while self.peek() != b'"' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.s.len() && is_id(self.s[self.i]) {
                self.i += 1;
            }
            std::str::from_utf8(&self.s[st..self.i]).unwrap().to_string()
        }
    }
    fn is_type_start(&mut self) -> bool {
        self.sp();
        match self.peek() {
            b'{' | b'<' | b'[' | b'%' => true,
            b'i' => {
                let w = self.peek_word();
                w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())
            }
            _ => matches!(
                self.peek_word(),
                "ptr" | "void" | "float" | "double" | "metadata" | "label" | "token" | "half" | "fp128" | "x86_fp80"
            ),
        }
    }
    fn skip_attrs(&mut self) {
        loop {
            self.sp();
            if self.is_type_start() {
                return;
            }
            let c = self.peek();
            if c.is_ascii_alphabetic() {
                let w = self.word();
                self.sp();
                if self.peek() == b'(' {
                    self.skip_parens();
                } else if w == "align" || w == "addrspace" {
                    self.word();
                }
            } else if c == b'"' {
                self.name();
                self.sp();
                if self.eat(b'=') {
                    self.sp();
                    self.name();
                }
            } else {
                return;
            }
        }
    }
    /// attributes between an argument's type and its value
    fn skip_param_attrs(&mut self) {
        loop {
            self.sp();
            let c = self.peek();
            if !c.is_ascii_alphabetic() {
                if c == b'"' {
                    self.name();
                    continue;
                }
                return;
            }
            match self.peek_word() {
                "noundef" | "noalias" | "nofree" | "nonnull" | "readonly" | "readnone" | "writeonly" | "writable"
                | "dead_on_unwind" | "dead_on_return" | "zeroext" | "signext" | "inreg" | "nest" | "returned" | "swiftself" | "immarg"
                | "noext" | "allocptr" | "allocalign" => {
                    self.word();
                }
                "align" => {
                    self.word();
                    self.sp();
                    if self.peek() == b'(' {
                        self.skip_parens()
                    } else {
                        self.word();
                    }
                }
                "captures" | "sret" | "byval" | "range" | "dereferenceable" | "dereferenceable_or_null"
                | "initializes" | "nofpclass" | "elementtype" | "byref" | "inalloca" | "preallocated" => {
                    self.word();
                    self.sp();
                    if self.peek() == b'(' {
                        self.skip_parens();
                    }
                }
                "nocapture" => {
                    self.word();
                }
                _ => return,
            }
            self.sp();
            if self.peek() == b'(' {
                self.skip_parens();
            }
        }
    }
    fn ty(&mut self) -> Ty {
        self.sp();
        match self.peek() {
            b'{' => {
                self.i += 1;
                let f = self.ty_list(b'}');
                Ty::Struct(Rc::new(f), false)
            }
            b'<' => {
                self.i += 1;
                self.sp();
                if self.peek() == b'{' {
                    self.i += 1;
                    let f = self.ty_list(b'}');
                    self.expect(b'>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n: u32 = self.word().parse().unwrap_or_else(|_| self.err("vec"));
                    if !self.eat_word("x") {
                        self.err("x")
                    }
                    let t = self.ty();
                    self.expect(b'>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            b'[' => {
                self.i += 1;
                let n: u64 = self.word().parse().unwrap_or_else(|_| self.err("arr"));
                if !self.eat_word("x") {
                    self.err("x")
                }
                let t = self.ty();
                self.expect(b']');
                Ty::Array(n, Rc::new(t))
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                self.types.get(&n).cloned().unwrap_or(Ty::Other)
            }
            _ => {
                let w = self.word();
                match w {
                    "ptr" => Ty::Ptr,
                    "void" => Ty::Void,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "metadata" | "label" | "token" | "half" | "fp128" | "x86_fp80" => Ty::Other,
                    _ if w.starts_with('i') => match w[1..].parse() {
                        Ok(n) => Ty::Int(n),
                        Err(_) => self.err("type"),
                    },
                    _ => self.err("type"),
                }
            }
        }
    }
    fn ty_list(&mut self, end: u8) -> Vec<Ty> {
        let mut v = vec![];
        loop {
            self.sp();
            if self.peek() == end {
                self.i += 1;
                return v;
            }
            if self.peek() == b',' {
                self.i += 1;
                continue;
            }
            v.push(self.ty());
        }
    }
    fn local(&mut self, n: &str) -> u32 {
        let k = self.locals.len() as u32;
        *self.locals.entry(n.to_string()).or_insert(k)
    }
    fn opd(&mut self, t: &Ty) -> Opd {
        self.sp();
        if self.peek() == b'%' {
            self.i += 1;
            let n = self.name();
            return Opd::Local(self.local(&n));
        }
        Opd::C(self.cst(t))
    }
    fn cst(&mut self, t: &Ty) -> Cst {
        self.sp();
        match self.peek() {
            b'@' => {
                self.i += 1;
                Cst::Global(self.name())
            }
            b'c' if self.s[self.i + 1] == b'"' => {
                self.i += 2;
                let mut v = vec![];
                loop {
                    match self.peek() {
                        b'"' => {
                            self.i += 1;
                            break;
                        }
                        b'\\' => {
                            if self.s[self.i + 1] == b'\\' {
                                v.push(b'\\');
                                self.i += 2;
                            } else {
                                let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                                v.push(u8::from_str_radix(h, 16).unwrap());
                                self.i += 3;
                            }
                        }
                        c => {
                            v.push(c);
                            self.i += 1;
                        }
                    }
                }
                Cst::Bytes(v)
            }
            b'{' => {
                self.i += 1;
                Cst::Agg(self.cst_list(b'}'))
            }
            b'[' => {
                self.i += 1;
                Cst::Agg(self.cst_list(b']'))
            }
            b'<' => {
                self.i += 1;
                self.sp();
                if self.peek() == b'{' {
                    self.i += 1;
                    let r = self.cst_list(b'}');
                    self.expect(b'>');
                    Cst::Agg(r)
                } else {
                    Cst::Agg(self.cst_list(b'>'))
                }
            }
            b'!' => {
                // metadata operand
                self.i += 1;
                if self.peek() == b'{' {
                    while self.peek() != b'}' {
                        self.i += 1;
                    }
                    self.i += 1;
                } else if self.peek() == b'"' {
                    self.name();
                } else {
                    self.word();
                }
                Cst::Undef
            }
            b'+' => {
                self.i += 1;
                let w = self.word();
                self.float(w, false, t)
            }
            _ => {
                let w = self.word();
                match w {
                    "true" => return Cst::Int(1),
                    "false" => return Cst::Int(0),
                    "null" | "zeroinitializer" | "none" => return Cst::Zero,
                    "undef" | "poison" => return Cst::Undef,
                    "splat" => {
                        self.expect(b'(');
                        let t = self.ty();
                        let c = self.cst(&t);
                        self.expect(b')');
                        return Cst::Splat(Box::new((t, c)));
                    }
                    "getelementptr" => {
                        while self.peek() != b'(' {
                            if self.peek_word() == "inrange" {
                                self.word();
                                self.sp();
                                self.skip_parens();
                                self.sp();
                                continue;
                            }
                            self.sp();
                            if self.peek() != b'(' {
                                self.word();
                                self.sp();
                            }
                        }
                        self.i += 1;
                        let st = self.ty();
                        self.expect(b',');
                        let bt = self.ty();
                        let b = self.cst(&bt);
                        let mut idx = vec![];
                        while self.eat(b',') {
                            let t = self.ty();
                            let c = self.cst(&t);
                            idx.push((t, c));
                        }
                        self.expect(b')');
                        return Cst::Gep(st, Box::new(b), idx);
                    }
                    "ptrtoint" | "ptrtoaddr" | "inttoptr" | "trunc" | "zext" | "sext" | "bitcast" | "addrspacecast" => {
                        while self.peek() != b'(' {
                            self.i += 1;
                        }
                        self.i += 1;
                        let ft = self.ty();
                        let c = self.cst(&ft);
                        if !self.eat_word("to") {
                            self.err("to")
                        }
                        let tt = self.ty();
                        self.expect(b')');
                        return Cst::Cast(w.to_string(), ft, Box::new(c), tt);
                    }
                    "add" | "sub" | "xor" | "mul" | "and" | "or" => {
                        while self.peek() != b'(' {
                            self.i += 1;
                        }
                        self.i += 1;
                        let t = self.ty();
                        let a = self.cst(&t);
                        self.expect(b',');
                        let t2 = self.ty();
                        let b = self.cst(&t2);
                        self.expect(b')');
                        return Cst::Bin(w.to_string(), t, Box::new(a), Box::new(b));
                    }
                    "" => self.err("constant"),
                    _ => {}
                }
                if matches!(t, Ty::F32 | Ty::F64) {
                    let (neg, w2) = match w.strip_prefix('-') {
                        Some(x) => (true, x),
                        None => (false, w),
                    };
                    // exponents such as 1.0e+10
                    let mut full = w2.to_string();
                    if self.peek() == b'+' && full.ends_with('e') {
                        self.i += 1;
                        full.push('+');
                        full.push_str(self.word());
                    }
                    return self.float(&full, neg, t);
                }
                if let Some(h) = w.strip_prefix("u0x") {
                    return Cst::Int(u128::from_str_radix(h, 16).unwrap());
                }
                if let Some(h) = w.strip_prefix("s0x") {
                    return Cst::Int(u128::from_str_radix(h, 16).unwrap());
                }
                if let Some(m) = w.strip_prefix('-') {
                    if let Ok(v) = m.parse::<u128>() {
                        return Cst::Int((v as i128).wrapping_neg() as u128);
                    }
                }
                match w.parse::<u128>() {
                    Ok(v) => Cst::Int(v),
                    Err(_) => {
                        if matches!(t, Ty::Int(n) if *n > 128) {
                            return Cst::Undef;
                        }
                        self.err(&format!("constant {}", w))
                    }
                }
            }
        }
    }
    fn float(&mut self, w: &str, neg: bool, t: &Ty) -> Cst {
        let f64v: f64 = if let Some(h) = w.strip_prefix("0x") {
            f64::from_bits(u64::from_str_radix(h, 16).unwrap())
        } else if let Some(h) = w.strip_prefix("f0x") {
            let b = u64::from_str_radix(h, 16).unwrap();
            return Cst::F(match t {
                Ty::F32 => b | if neg { 1 << 31 } else { 0 },
                _ => b | if neg { 1 << 63 } else { 0 },
            });
        } else {
            match w {
                "inf" => f64::INFINITY,
                "qnan" | "nan" | "snan" => f64::NAN,
                _ => w.parse().unwrap_or_else(|_| self.err(&format!("float {}", w))),
            }
        };
        if w.ends_with("nan") || w == "qnan" {
            self.sp();
            if self.peek() == b'(' {
                self.skip_parens();
            }
        }
        let v = if neg { -f64v } else { f64v };
        Cst::F(match t {
            Ty::F32 => (v as f32).to_bits() as u64,
            _ => v.to_bits(),
        })
    }
    fn cst_list(&mut self, end: u8) -> Vec<(Ty, Cst)> {
        let mut v = vec![];
        loop {
            self.ws();
            if self.peek() == end {
                self.i += 1;
                return v;
            }
            if self.peek() == b',' {
                self.i += 1;
                continue;
            }
            let t = self.ty();
            let c = self.cst(&t);
            v.push((t, c));
        }
    }
    fn label_ref(&mut self) -> String {
        self.ws();
        if !self.eat_word("label") {
            self.err("label")
        }
        self.sp();
        self.expect(b'%');
        self.name()
    }
    fn args(&mut self) -> Vec<(Ty, Opd)> {
        self.expect(b'(');
        let mut v = vec![];
        loop {
            self.sp();
            if self.peek() == b')' {
                self.i += 1;
                return v;
            }
            if self.peek() == b',' {
                self.i += 1;
                continue;
            }
            let is_meta = self.peek_word() == "metadata";
            let t = self.ty();
            if is_meta {
                self.sp();
                if self.is_type_start() {
                    let t2 = self.ty();
                    let _ = self.opd(&t2);
                } else {
                    self.cst(&Ty::Other);
                }
                v.push((Ty::Other, Opd::C(Cst::Undef)));
                continue;
            }
            self.skip_param_attrs();
            let o = self.opd(&t);
            v.push((t, o));
        }
    }
    fn call_tail(&mut self) -> (Ty, Callee, Vec<(Ty, Opd)>) {
        // after call/invoke keyword: flags, cconv, ret attrs
        self.skip_attrs();
        let ret = self.ty();
        self.sp();
        if self.peek() == b'(' {
            // varargs function type
            self.skip_parens();
        }
        self.sp();
        let callee = match self.peek() {
            b'@' => {
                self.i += 1;
                Callee::Global(self.name())
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                Callee::Local(self.local(&n))
            }
            _ => {
                if self.eat_word("asm") {
                    loop {
                        self.sp();
                        if self.peek() == b'"' {
                            break;
                        }
                        self.word();
                    }
                    let a = self.name();
                    self.expect(b',');
                    self.sp();
                    let _c = self.name();
                    Callee::Asm(a)
                } else {
                    Callee::Cst(self.cst(&Ty::Ptr))
                }
            }
        };
        let args = self.args();
        (ret, callee, args)
    }

    fn ins(&mut self) -> (Option<u32>, I) {
        self.ws();
        let mut dst = None;
        if self.peek() == b'%' {
            self.i += 1;
            let n = self.name();
            dst = Some(self.local(&n));
            self.expect(b'=');
        }
        self.sp();
        let mut op = self.word();
        if matches!(op, "tail" | "musttail" | "notail") {
            op = self.word();
        }
        let r = match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr"
            | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while matches!(
                    self.peek_word(),
                    "nuw" | "nsw" | "exact" | "disjoint" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc"
                ) {
                    self.word();
                }
                let t = self.ty();
                let a = self.opd(&t);
                self.expect(b',');
                let b = self.opd(&t);
                I::Bin(op.to_string(), t, a, b)
            }
            "fneg" => {
                let t = self.ty();
                let a = self.opd(&t);
                I::FNeg(t, a)
            }
            "icmp" | "fcmp" => {
                let mut p = self.word();
                while matches!(p, "samesign" | "fast" | "nnan" | "ninf" | "nsz") {
                    p = self.word();
                }
                let t = self.ty();
                let a = self.opd(&t);
                self.expect(b',');
                let b = self.opd(&t);
                if op == "icmp" {
                    I::ICmp(p.to_string(), t, a, b)
                } else {
                    I::FCmp(p.to_string(), t, a, b)
                }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "uitofp" | "sitofp"
            | "fptoui" | "fptosi" | "fpext" | "fptrunc" | "addrspacecast" => {
                while matches!(self.peek_word(), "nuw" | "nsw" | "nneg" | "fast") {
                    self.word();
                }
                let t = self.ty();
                let a = self.opd(&t);
                if !self.eat_word("to") {
                    self.err("to")
                }
                let t2 = self.ty();
                I::Cast(op.to_string(), t, a, t2)
            }
            "load" => {
                let mut atomic = false;
                while matches!(self.peek_word(), "atomic" | "volatile") {
                    atomic |= self.peek_word() == "atomic";
                    self.word();
                }
                let t = self.ty();
                self.expect(b',');
                let pt = self.ty();
                let p = self.opd(&pt);
                I::Load(t, p, atomic)
            }
            "store" => {
                let mut atomic = false;
                while matches!(self.peek_word(), "atomic" | "volatile") {
                    atomic |= self.peek_word() == "atomic";
                    self.word();
                }
                let t = self.ty();
                let v = self.opd(&t);
                self.expect(b',');
                let pt = self.ty();
                let p = self.opd(&pt);
                I::Store(t, v, p, atomic)
            }
            "getelementptr" => {
                loop {
                    match self.peek_word() {
                        "inbounds" | "nuw" | "nusw" => {
                            self.word();
                        }
                        _ => break,
                    }
                }
                let st = self.ty();
                self.expect(b',');
                let pt = self.ty();
                let is_vec = matches!(pt, Ty::Vec(..));
                let b = self.opd(&pt);
                let mut idx = vec![];
                while self.eat(b',') {
                    self.sp();
                    if self.peek() == b'!' {
                        break;
                    }
                    let t = self.ty();
                    let o = self.opd(&t);
                    idx.push((t, o));
                }
                I::Gep(st, b, idx, is_vec)
            }
            "select" => {
                while matches!(self.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                    self.word();
                }
                let ct = self.ty();
                let c = self.opd(&ct);
                self.expect(b',');
                let t = self.ty();
                let a = self.opd(&t);
                self.expect(b',');
                let t2 = self.ty();
                let b = self.opd(&t2);
                I::Select(ct, c, t, a, b)
            }
            "alloca" => {
                self.eat_word("inalloca");
                let t = self.ty();
                let mut cnt = None;
                let mut al = t.align();
                while self.eat(b',') {
                    if self.eat_word("align") {
                        al = self.word().parse().unwrap();
                    } else {
                        self.sp();
                        if self.peek() == b'!' {
                            break;
                        }
                        let ct = self.ty();
                        let c = self.opd(&ct);
                        cnt = Some((ct, c));
                    }
                }
                I::Alloca(t, cnt, al)
            }
            "call" => {
                let (ret, callee, args) = self.call_tail();
                I::Call { ret, callee, args }
            }
            "invoke" => {
                let (ret, callee, args) = self.call_tail();
                // function attributes, then "to label"
                loop {
                    self.ws();
                    if self.peek() == b'#' || self.peek() == b'[' {
                        while self.peek() != b' ' && self.peek() != b'\n' {
                            self.i += 1;
                        }
                    } else if self.peek_word() == "to" {
                        break;
                    } else if self.peek() == b'"' {
                        self.name();
                        if self.peek() == b'=' {
                            self.i += 1;
                            self.name();
                        }
                    } else {
                        self.word();
                        self.sp();
                        if self.peek() == b'(' {
                            self.skip_parens();
                        }
                    }
                }
                self.word();
                let ok = self.label_ref();
                self.ws();
                if !self.eat_word("unwind") {
                    self.err("unwind")
                }
                let unw = self.label_ref();
                I::Invoke { ret, callee, args, ok, unw }
            }
            "br" => {
                if self.peek_word() == "label" {
                    I::Br(self.label_ref())
                } else {
                    let t = self.ty();
                    let c = self.opd(&t);
                    self.expect(b',');
                    let a = self.label_ref();
                    self.expect(b',');
                    let b = self.label_ref();
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let t = self.ty();
                let c = self.opd(&t);
                self.expect(b',');
                let d = self.label_ref();
                self.expect(b'[');
                let mut v = vec![];
                loop {
                    self.ws();
                    if self.peek() == b']' {
                        self.i += 1;
                        break;
                    }
                    let t = self.ty();
                    let k = match self.cst(&t) {
                        Cst::Int(k) => k,
                        _ => self.err("switch const"),
                    };
                    self.expect(b',');
                    let l = self.label_ref();
                    v.push((k, l));
                }
                I::Switch(t, c, d, v)
            }
            "ret" => {
                let t = self.ty();
                if t == Ty::Void {
                    I::Ret(None)
                } else {
                    let o = self.opd(&t);
                    I::Ret(Some((t, o)))
                }
            }
            "unreachable" => I::Unreachable,
            "resume" => {
                let t = self.ty();
                let o = self.opd(&t);
                I::Resume(o)
            }
            "landingpad" => {
                let t = self.ty();
                // clauses on following lines
                loop {
                    self.line_end();
                    let save = self.i;
                    self.ws();
                    match self.peek_word() {
                        "cleanup" | "catch" | "filter" => continue,
                        _ => {
                            self.i = save;
                            break;
                        }
                    }
                }
                I::LandingPad(t)
            }
            "extractvalue" => {
                let t = self.ty();
                let o = self.opd(&t);
                let mut idx = vec![];
                while self.eat(b',') {
                    self.sp();
                    if self.peek() == b'!' {
                        break;
                    }
                    idx.push(self.word().parse().unwrap());
                }
                I::ExtractValue(t, o, idx)
            }
            "insertvalue" => {
                let t = self.ty();
                let o = self.opd(&t);
                self.expect(b',');
                let t2 = self.ty();
                let o2 = self.opd(&t2);
                let mut idx = vec![];
                while self.eat(b',') {
                    self.sp();
                    if self.peek() == b'!' {
                        break;
                    }
                    idx.push(self.word().parse().unwrap());
                }
                I::InsertValue(t, o, t2, o2, idx)
            }
            "extractelement" => {
                let t = self.ty();
                let o = self.opd(&t);
                self.expect(b',');
                let t2 = self.ty();
                let i = self.opd(&t2);
                I::ExtractElement(t, o, i)
            }
            "insertelement" => {
                let t = self.ty();
                let o = self.opd(&t);
                self.expect(b',');
                let t2 = self.ty();
                let o2 = self.opd(&t2);
                self.expect(b',');
                let t3 = self.ty();
                let i = self.opd(&t3);
                I::InsertElement(t, o, t2, o2, i)
            }
            "shufflevector" => {
                let t = self.ty();
                let a = self.opd(&t);
                self.expect(b',');
                let t2 = self.ty();
                let b = self.opd(&t2);
                self.expect(b',');
                let mt = self.ty();
                let n = match &mt {
                    Ty::Vec(n, _) => *n as usize,
                    _ => self.err("mask"),
                };
                let m = match self.cst(&mt) {
                    Cst::Agg(v) => v
                        .iter()
                        .map(|(_, c)| match c {
                            Cst::Int(k) => *k as i32,
                            Cst::Zero => 0,
                            _ => -1,
                        })
                        .collect(),
                    Cst::Zero => vec![0; n],
                    Cst::Splat(b) => match b.1 {
                        Cst::Int(k) => vec![k as i32; n],
                        _ => vec![0; n],
                    },
                    _ => vec![-1; n],
                };
                I::Shuffle(t, a, b, m)
            }
            "atomicrmw" => {
                self.eat_word("volatile");
                let op = self.word().to_string();
                let pt = self.ty();
                let p = self.opd(&pt);
                self.expect(b',');
                let t = self.ty();
                let v = self.opd(&t);
                I::AtomicRmw(op, p, t, v)
            }
            "cmpxchg" => {
                while matches!(self.peek_word(), "weak" | "volatile") {
                    self.word();
                }
                let pt = self.ty();
                let p = self.opd(&pt);
                self.expect(b',');
                let t = self.ty();
                let c = self.opd(&t);
                self.expect(b',');
                let t2 = self.ty();
                let n = self.opd(&t2);
                I::CmpXchg(p, t, c, n)
            }
            "fence" => I::Fence,
            "freeze" => {
                let t = self.ty();
                let o = self.opd(&t);
                I::Freeze(t, o)
            }
            "phi" => {
                while matches!(self.peek_word(), "fast" | "nnan" | "ninf" | "nsz") {
                    self.word();
                }
                let t = self.ty();
                let mut v = vec![];
                loop {
                    self.expect(b'[');
                    let o = self.opd(&t);
                    self.expect(b',');
                    self.sp();
                    self.expect(b'%');
                    let l = self.name();
                    self.expect(b']');
                    v.push((o, l));
                    self.sp();
                    if self.peek() == b',' {
                        self.i += 1;
                        self.sp();
                        if self.peek() != b'[' {
                            break;
                        }
                    } else {
                        break;
                    }
                }
                I::Phi(t, v)
            }
            _ => I::Unsupported(op.to_string()),
        };
        self.line_end();
        (dst, r)
    }

    fn define(&mut self) -> Func {
        self.locals = HashMap::new();
        // linkage etc.: skip words until type start
        self.skip_attrs();
        let ret = self.ty();
        self.sp();
        self.expect(b'@');
        let name = self.name();
        self.expect(b'(');
        let mut params = vec![];
        let mut nparam = 0;
        loop {
            self.sp();
            match self.peek() {
                b')' => {
                    self.i += 1;
                    break;
                }
                b',' => {
                    self.i += 1;
                    continue;
                }
                b'.' => {
                    self.i += 3;
                    continue;
                }
                _ => {}
            }
            let t = self.ty();
            self.skip_param_attrs();
            self.sp();
            let n = if self.peek() == b'%' {
                self.i += 1;
                self.name()
            } else {
                nparam.to_string()
            };
            nparam += 1;
            let r = self.local(&n);
            params.push((r, t));
        }
        // to '{' at end of line
        self.line_end();
        let mut blocks: Vec<Block> = vec![];
        loop {
            self.ws();
            if self.peek() == b'}' {
                self.i += 1;
                break;
            }
            // label?
            let save = self.i;
            let mut is_label = false;
            let mut lname = String::new();
            if self.peek() != b'%' {
                lname = self.name();
                if self.peek() == b':' {
                    is_label = true;
                    self.i += 1;
                } else {
                    self.i = save;
                }
            }
            if is_label {
                blocks.push(Block { name: lname, ins: vec![] });
                continue;
            }
            if blocks.is_empty() {
                blocks.push(Block { name: nparam.to_string(), ins: vec![] });
            }
            if self.peek() == b'#' {
                // debug record
                self.line_end();
                continue;
            }
            let x = self.ins();
            blocks.last_mut().unwrap().ins.push(x);
        }
        Func { name, params, ret, nregs: self.locals.len() as u32, blocks }
    }
}

pub fn parse(src: &[u8]) -> Module {
    let mut m = Module::default();
    let mut p = P { s: src, i: 0, types: HashMap::new(), locals: HashMap::new() };
    // pass for named types
    loop {
        // at line start
        if p.i >= src.len() {
            break;
        }
        match src[p.i] {
            b'%' => {
                p.i += 1;
                let n = p.name();
                p.expect(b'=');
                if p.eat_word("type") {
                    if p.peek_word() == "opaque" {
                        p.types.insert(n, Ty::Other);
                    } else {
                        let t = p.ty();
                        p.types.insert(n, t);
                    }
                }
                p.line_end();
            }
            b'@' => {
                p.i += 1;
                let name = p.name();
                p.expect(b'=');
                let mut constant = false;
                let mut external = false;
                let mut alias = false;
                loop {
                    p.sp();
                    let w = p.word();
                    match w {
                        "global" => break,
                        "constant" => {
                            constant = true;
                            break;
                        }
                        "alias" | "ifunc" => {
                            alias = true;
                            break;
                        }
                        "external" | "extern_weak" => external = true,
                        "" => {
                            if p.peek() == b'(' {
                                p.skip_parens();
                            } else {
                                p.err("global")
                            }
                        }
                        _ => {
                            p.sp();
                            if p.peek() == b'(' {
                                p.skip_parens();
                            }
                        }
                    }
                }
                if alias {
                    p.line_end();
                } else {
                    let ty = p.ty();
                    let init = if external { None } else { Some(p.cst(&ty)) };
                    let mut align = ty.align();
                    while p.eat(b',') {
                        p.sp();
                        if p.peek_word() == "align" {
                            p.word();
                            align = p.word().parse().unwrap();
                        } else {
                            break;
                        }
                    }
                    p.line_end();
                    m.globals.push(Global { name, ty, init, align, constant });
                }
            }
            b'd' => {
                let w = p.word();
                if w == "define" {
                    let f = p.define();
                    m.funcs.push(f);
                } else {
                    // declare
                    let st = p.i;
                    p.line_end();
                    let line = &src[st..p.i];
                    if let Some(k) = line.iter().position(|&c| c == b'@') {
                        let save = p.i;
                        p.i = st + k + 1;
                        let n = p.name();
                        p.i = save;
                        m.decls.push(n);
                    }
                }
            }
            _ => p.line_end(),
        }
        if p.i < src.len() && src[p.i] == b'\n' {
            p.i += 1;
        }
    }
    m.types = p.types;
    m
}
