//! Copy-on-write paged memory with an optional symbolic overlay per byte.
use crate::expr::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    W(Box<u128>),
    S(E),
    A(Rc<Vec<V>>),
}

pub fn lift(v: &V, wd: u32) -> E {
    match v {
        V::C(c) => konst(*c as u128, wd),
        V::W(c) => konst(**c, wd),
        V::S(e) => {
            debug_assert_eq!(w(*e), wd);
            *e
        }
        V::A(l) => {
            if l.is_empty() {
                return 0;
            }
            let lw = wd / l.len() as u32;
            let mut r = lift(&l[0], lw);
            for x in l[1..].iter() {
                r = concat(lift(x, lw), r);
            }
            r
        }
    }
}
pub fn lower(e: E) -> V {
    match as_const(e) {
        Some(c) => {
            if w(e) <= 64 {
                V::C(c as u64)
            } else {
                V::W(Box::new(c))
            }
        }
        None => V::S(e),
    }
}
pub fn from_u128(c: u128, wd: u32) -> V {
    if wd <= 64 {
        V::C((c & mask(wd)) as u64)
    } else {
        V::W(Box::new(c & mask(wd)))
    }
}
pub fn conc(v: &V) -> Option<u128> {
    match v {
        V::C(c) => Some(*c as u128),
        V::W(c) => Some(**c),
        _ => None,
    }
}

pub const PB: u64 = 9;
pub const PS: usize = 1 << PB;

#[derive(Clone)]
pub struct Page {
    pub d: [u8; PS],
    pub s: Option<Box<[E; PS]>>,
}
impl Page {
    fn new() -> Page {
        Page { d: [0; PS], s: None }
    }
}

pub const FUNC_BASE: u64 = 0x1000_0000;
pub const GLOB_BASE: u64 = 0x2000_0000;
pub const STACK_BASE: u64 = 0x4000_0000;
pub const STACK_SIZE: u64 = 8 << 20;
pub const HEAP_BASE: u64 = 0x6000_0000;
pub const HEAP_SIZE: u64 = 1 << 30;

#[derive(Clone)]
pub struct Mem {
    glob: Rc<Vec<Rc<Page>>>,
    stack: Vec<Rc<Page>>,
    heap: Vec<Rc<Page>>,
    pub heap_top: u64,
}

pub struct Fault(pub u64);

impl Mem {
    pub fn new(globals: Vec<u8>) -> Mem {
        let mut g = vec![];
        for c in globals.chunks(PS) {
            let mut p = Page::new();
            p.d[..c.len()].copy_from_slice(c);
            g.push(Rc::new(p));
        }
        Mem { glob: Rc::new(g), stack: vec![], heap: vec![], heap_top: HEAP_BASE }
    }
    pub fn malloc(&mut self, size: u64, align: u64) -> Option<u64> {
        let al = align.max(16);
        // 16 byte header holds the size; 16 bytes of unused space follow
        let p = (self.heap_top + 16 + al - 1) / al * al;
        let end = (p + size.max(1) + 15) / 16 * 16 + 16;
        if size > HEAP_SIZE || end > HEAP_BASE + HEAP_SIZE {
            return None;
        }
        self.heap_top = end;
        let need = ((end - HEAP_BASE) as usize + PS - 1) / PS;
        while self.heap.len() < need {
            self.heap.push(Rc::new(Page::new()));
        }
        let _ = self.store(p - 16, 8, &V::C(size));
        Some(p)
    }
    fn page(&self, a: u64) -> Result<&Page, Fault> {
        if a >= HEAP_BASE {
            let i = ((a - HEAP_BASE) >> PB) as usize;
            return self.heap.get(i).map(|p| &**p).ok_or(Fault(a));
        }
        if a >= STACK_BASE {
            let i = ((a - STACK_BASE) >> PB) as usize;
            return self.stack.get(i).map(|p| &**p).ok_or(Fault(a));
        }
        if a >= GLOB_BASE {
            let i = ((a - GLOB_BASE) >> PB) as usize;
            return self.glob.get(i).map(|p| &**p).ok_or(Fault(a));
        }
        Err(Fault(a))
    }
    fn page_mut(&mut self, a: u64) -> Result<&mut Page, Fault> {
        if a >= HEAP_BASE {
            let i = ((a - HEAP_BASE) >> PB) as usize;
            return self.heap.get_mut(i).map(Rc::make_mut).ok_or(Fault(a));
        }
        if a >= STACK_BASE {
            let i = ((a - STACK_BASE) >> PB) as usize;
            return self.stack.get_mut(i).map(Rc::make_mut).ok_or(Fault(a));
        }
        if a >= GLOB_BASE {
            let i = ((a - GLOB_BASE) >> PB) as usize;
            let g = Rc::make_mut(&mut self.glob);
            return g.get_mut(i).map(Rc::make_mut).ok_or(Fault(a));
        }
        Err(Fault(a))
    }
    pub fn stack_reserve(&mut self, top: u64) -> bool {
        if top > STACK_BASE + STACK_SIZE {
            return false;
        }
        let need = ((top - STACK_BASE) as usize + PS - 1) / PS;
        while self.stack.len() < need {
            self.stack.push(Rc::new(Page::new()));
        }
        true
    }
    pub fn load(&self, a: u64, n: u64) -> Result<V, Fault> {
        let off = a as usize & (PS - 1);
        if off + n as usize <= PS {
            let p = self.page(a)?;
            match &p.s {
                None => {
                    if n <= 8 {
                        let mut b = [0u8; 8];
                        b[..n as usize].copy_from_slice(&p.d[off..off + n as usize]);
                        return Ok(V::C(u64::from_le_bytes(b)));
                    }
                    let mut b = [0u8; 16];
                    b[..n as usize].copy_from_slice(&p.d[off..off + n as usize]);
                    return Ok(V::W(Box::new(u128::from_le_bytes(b))));
                }
                Some(s) => {
                    if s[off..off + n as usize].iter().all(|&e| e == 0) {
                        let mut b = [0u8; 16];
                        b[..n as usize].copy_from_slice(&p.d[off..off + n as usize]);
                        return Ok(from_u128(u128::from_le_bytes(b), n as u32 * 8));
                    }
                }
            }
        }
        let mut r = 0;
        for i in 0..n {
            let (d, e) = self.rd(a + i)?;
            let x = if e != 0 { e } else { konst(d as u128, 8) };
            r = if i == 0 { x } else { concat(x, r) };
        }
        Ok(lower(r))
    }
    pub fn rd(&self, a: u64) -> Result<(u8, E), Fault> {
        let p = self.page(a)?;
        let off = a as usize & (PS - 1);
        Ok((p.d[off], p.s.as_ref().map_or(0, |s| s[off])))
    }
    pub fn wr(&mut self, a: u64, d: u8, e: E) -> Result<(), Fault> {
        let p = self.page_mut(a)?;
        let off = a as usize & (PS - 1);
        p.d[off] = d;
        if e != 0 {
            p.s.get_or_insert_with(|| Box::new([0; PS]))[off] = e;
        } else if let Some(s) = &mut p.s {
            s[off] = 0;
        }
        Ok(())
    }
    pub fn store(&mut self, a: u64, n: u64, v: &V) -> Result<(), Fault> {
        let off = a as usize & (PS - 1);
        if let Some(c) = conc(v) {
            let b = c.to_le_bytes();
            if off + n as usize <= PS {
                let p = self.page_mut(a)?;
                p.d[off..off + n as usize].copy_from_slice(&b[..n as usize]);
                if let Some(s) = &mut p.s {
                    for x in s[off..off + n as usize].iter_mut() {
                        *x = 0;
                    }
                }
                return Ok(());
            }
            for i in 0..n {
                self.wr(a + i, b[i as usize], 0)?;
            }
            return Ok(());
        }
        let e = lift(v, n as u32 * 8);
        for i in 0..n {
            let x = extract(e, i as u32 * 8, 8);
            match as_const(x) {
                Some(c) => self.wr(a + i, c as u8, 0)?,
                None => self.wr(a + i, 0, x)?,
            }
        }
        Ok(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Result<(), Fault> {
        if n == 0 || dst == src {
            return Ok(());
        }
        // gather, then scatter
        let mut d = vec![0u8; n as usize];
        let mut s: Option<Vec<E>> = None;
        let mut i = 0u64;
        while i < n {
            let a = src + i;
            let off = a as usize & (PS - 1);
            let k = ((PS - off) as u64).min(n - i) as usize;
            let p = self.page(a)?;
            d[i as usize..i as usize + k].copy_from_slice(&p.d[off..off + k]);
            if let Some(ps) = &p.s {
                if ps[off..off + k].iter().any(|&e| e != 0) {
                    let v = s.get_or_insert_with(|| vec![0; n as usize]);
                    v[i as usize..i as usize + k].copy_from_slice(&ps[off..off + k]);
                }
            }
            i += k as u64;
        }
        let mut i = 0u64;
        while i < n {
            let a = dst + i;
            let off = a as usize & (PS - 1);
            let k = ((PS - off) as u64).min(n - i) as usize;
            let p = self.page_mut(a)?;
            p.d[off..off + k].copy_from_slice(&d[i as usize..i as usize + k]);
            match &s {
                Some(v) => {
                    let sl = &v[i as usize..i as usize + k];
                    if p.s.is_some() || sl.iter().any(|&e| e != 0) {
                        p.s.get_or_insert_with(|| Box::new([0; PS]))[off..off + k].copy_from_slice(sl);
                    }
                }
                None => {
                    if let Some(ps) = &mut p.s {
                        for x in ps[off..off + k].iter_mut() {
                            *x = 0;
                        }
                    }
                }
            }
            i += k as u64;
        }
        Ok(())
    }
    pub fn fill(&mut self, dst: u64, v: &V, n: u64) -> Result<(), Fault> {
        let (d, e) = match v {
            V::C(c) => (*c as u8, 0),
            V::S(e) => (0, *e),
            _ => (0, 0),
        };
        for i in 0..n {
            self.wr(dst + i, d, e)?;
        }
        Ok(())
    }
}
