//! C03: owned sub-slices.
pub mod sym;
use owned_subslice::OwnedSubslice;
use std::panic::{catch_unwind, AssertUnwindSafe};
use sym::*;

#[inline(never)]
#[no_mangle]
pub extern "C" fn rsym_entry(idx: u64, size: u64) {
    std::panic::set_hook(Box::new(|_| {}));
    let n = size as usize;
    match idx {
        301 => vector(n),
        302 => string(n),
        303 => units(n),
        304 => whole(n),
        305 => writing(n),
        _ => check(false, "no such harness"),
    }
}

fn any() -> usize {
    word() as usize
}

/// what a run of narrowings has to expose: None when nothing is to be exposed, and then a panic is allowed
fn narrow(w: Option<(usize, usize)>, a: usize, b: usize) -> Option<(usize, usize)> {
    let (s, e) = w?;
    if a > b || a > e - s {
        return None;
    }
    Some((s + a, if b > e - s { e } else { s + b }))
}

fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Some(v),
        Err(e) => {
            std::mem::forget(e);
            None
        }
    }
}

/// the exposed content is that part of the data
fn exposes(got: Option<&[u8]>, data: &[u8], want: Option<(usize, usize)>) {
    match (got, want) {
        (None, None) => cover("panics"),
        (None, Some(_)) => check(false, "a range within the window panics"),
        (Some(g), None) => {
            check(g.is_empty(), "a range outside the window exposes something");
            cover("nothing")
        }
        (Some(g), Some((s, e))) => {
            check(g.len() == e - s, "the exposed part has the wrong length");
            let (s, e) = (conc(s as u64) as usize, conc(e as u64) as usize);
            check(g.len() == e - s && g == &data[s..e], "the exposed part has the wrong content");
            cover("exposed");
            log(g)
        }
    }
}

/// n bytes, an initial window and two narrowings, any bounds
fn vector(n: usize) {
    let data = bytes(n);
    let (a, b) = (any(), any());
    assume(a <= b && b <= n);
    let mut w = Some((a, b));
    let mut o = OwnedSubslice::new(data.clone(), a..b);
    exposes(quiet(|| &*o), &data, w);
    for _ in 0..2 {
        let (a, b) = (any(), any());
        w = narrow(w, a, b);
        o = match quiet(|| o.subslice(a..b)) {
            Some(o) => o,
            None => return check(w.is_none(), "narrowing by a range within the window panics"),
        };
        exposes(quiet(|| &*o), &data, w);
    }
}

/// texts: a range that splits a character may also panic
fn string(n: usize) {
    let data = text(n);
    let (a, b) = (choice(n + 1), choice(n + 1));
    assume(a <= b);
    let mut w = Some((a, b));
    let mut o = OwnedSubslice::new(data.clone(), a..b);
    for i in 0..2 {
        let ok = match w {
            Some((s, e)) => data.is_char_boundary(conc(s as u64) as usize) && data.is_char_boundary(conc(e as u64) as usize),
            None => true,
        };
        let got = quiet(|| &*o);
        if ok {
            exposes(got.map(|g| g.as_bytes()), data.as_bytes(), w)
        } else {
            check(got.is_none(), "a part of a character is exposed");
            cover("split")
        }
        if i == 1 {
            break;
        }
        let (a, b) = (any(), any());
        w = narrow(w, a, b);
        o = match quiet(|| o.subslice(a..b)) {
            Some(o) => o,
            None => return check(w.is_none() , "narrowing by a range within the window panics"),
        };
    }
}

/// small, in the middle or close to the largest number
fn wide() -> usize {
    let b = byte() as usize;
    [0, usize::MAX / 2 - 100, usize::MAX - 255][choice(3)] + b
}

/// elements without size, so any length can be had: lengths and bounds from all over the 64-bit numbers
fn units(n: usize) {
    let len = wide();
    let mut data: Vec<()> = Vec::new();
    // () takes no memory, so any length can be set
    unsafe { data.set_len(len) };
    let (a, b) = (wide(), wide());
    assume(a <= b && b <= len);
    let mut w = Some((a, b));
    let mut o = OwnedSubslice::new(data, a..b);
    for _ in 0..n {
        let (a, b) = (wide(), wide());
        w = narrow(w, a, b);
        o = match quiet(|| o.subslice(a..b)) {
            Some(o) => o,
            None => return check(w.is_none(), "narrowing by a range within the window panics"),
        };
    }
    match (quiet(|| (*o).len()), w) {
        (None, None) => cover("panics"),
        (None, Some(_)) => check(false, "a range within the window panics"),
        (Some(g), None) => check(g == 0, "a range outside the window exposes something"),
        (Some(g), Some((s, e))) => {
            check(g == e - s, "the exposed part has the wrong length");
            cover("exposed")
        }
    }
}

/// whole values, and comparisons of two windows
fn whole(n: usize) {
    let d = bytes(n);
    // there may be room for more
    let more = choice(3);
    let roomy = |x: &[u8]| {
        let mut v = Vec::with_capacity(x.len() + more);
        v.extend_from_slice(x);
        v
    };
    let o = OwnedSubslice::from(roomy(&d));
    check(o.len() == n && o[..] == d[..], "not the whole vector");
    let t = text(n);
    let mut s = String::with_capacity(n + more);
    s.push_str(&t);
    let p = OwnedSubslice::from(s);
    check(p.len() == n && p.as_bytes() == t.as_bytes(), "not the whole text");
    log(format!("{}", p).as_bytes());
    check(format!("{}", p) == t, "displays something else");
    if n <= 1 {
        check(format!("{:?}", p) == format!("{:?}", t), "displays something else for debugging");
    }
    let e = bytes(3);
    let (a, b) = (choice(n + 1), choice(n + 1));
    let (x, y) = (choice(4), choice(4));
    assume(a <= b && x <= y);
    let l = OwnedSubslice::new(roomy(&d), a..b);
    let r = OwnedSubslice::new(e.clone(), x..y);
    let same = d[a..b] == e[x..y];
    check((l == r) == same, "equality is not equality of the content");
    check((l != r) != same, "inequality is not inequality of the content");
    check((l == &e[x..y]) == same, "equality with a slice is not equality of the content");
    check((&e[x..y] == l) == same, "equality with a slice is not equality of the content");
    check(l.clone() == l, "a copy differs");
    check(l.clone()[..] == d[a..b], "a copy differs");
    cover(if same { "equal" } else { "different" });
}

/// writing through a window changes exactly the window
fn writing(n: usize) {
    let d = bytes(n);
    let (a, b) = (choice(n + 1), choice(n + 1));
    assume(a <= b);
    let mut o = OwnedSubslice::new(d.clone(), 0..n).subslice(a..b);
    let v = byte();
    for x in o.iter_mut() {
        *x = v;
        cover("written")
    }
    // the window is looked at again, and the rest through a wider view of a copy made before
    check(o.len() == b - a && o.iter().all(|x| *x == v), "what was written is not there");
    let mut q = OwnedSubslice::new(d.clone(), 0..n);
    for x in q[a..b].iter_mut() {
        *x = v
    }
    for (i, x) in q.iter().enumerate() {
        check(*x == if a <= i && i < b { v } else { d[i] }, "writing changes something else")
    }
}
