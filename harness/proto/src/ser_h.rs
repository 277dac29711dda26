//! C10, C11: serialising arguments.
use crate::sym::*;
use serde::ser::*;
use socket_io_protocol::socket::*;
use tungstenite::Message as Ws;

/// a value that serialises in any way serde offers
#[derive(Clone)]
pub enum V {
    Null,
    Unit,
    UnitStruct,
    UnitVariant,
    Bool(bool),
    U8(u8),
    I8(i8),
    U16(u16),
    U64(u64),
    I64(i64),
    /// one of the other number types
    Other(usize),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    /// whether the length is announced
    Seq(bool, Vec<V>),
    Tuple(Vec<V>),
    TupleStruct(Vec<V>),
    TupleVariant(Vec<V>),
    /// whether keys and values are given separately
    Map(bool, Vec<(V, V)>),
    Struct(Vec<V>),
    StructVariant(Vec<V>),
    Some(Box<V>),
    Newtype(Box<V>),
    NewVariant(Box<V>),
    Fail,
}

const OTHER: [&str; 10] =
    ["-300", "-2147483648", "4294967295", "-5", "1180591620717411303424", "0.5", "-1.25", "null", "\"7\\\"\"", "7"];
const F: [&str; 4] = ["f", "g", "h", "i"];

impl Serialize for V {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            V::Null => s.serialize_none(),
            V::Unit => s.serialize_unit(),
            V::UnitStruct => s.serialize_unit_struct("U"),
            V::UnitVariant => s.serialize_unit_variant("E", 0, "A"),
            V::Bool(b) => s.serialize_bool(*b),
            V::U8(b) => s.serialize_u8(*b),
            V::I8(b) => s.serialize_i8(*b),
            V::U16(b) => s.serialize_u16(*b),
            V::U64(b) => s.serialize_u64(*b),
            V::I64(b) => s.serialize_i64(*b),
            V::Other(k) => match k {
                0 => s.serialize_i16(-300),
                1 => s.serialize_i32(i32::MIN),
                2 => s.serialize_u32(u32::MAX),
                3 => s.serialize_i128(-5),
                4 => s.serialize_u128(1 << 70),
                5 => s.serialize_f32(0.5),
                6 => s.serialize_f64(-1.25),
                7 => s.serialize_f64(f64::NAN),
                8 => s.collect_str(&format_args!("{}\"", 7)),
                _ => s.serialize_i8(7),
            },
            V::Char(c) => s.serialize_char(*c),
            V::Str(t) => s.serialize_str(t),
            V::Bytes(b) => s.serialize_bytes(b),
            V::Seq(known, v) => {
                let mut q = s.serialize_seq(if *known { Some(v.len()) } else { None })?;
                for x in v {
                    q.serialize_element(x)?
                }
                q.end()
            }
            V::Tuple(v) => {
                let mut q = s.serialize_tuple(v.len())?;
                for x in v {
                    q.serialize_element(x)?
                }
                q.end()
            }
            V::TupleStruct(v) => {
                let mut q = s.serialize_tuple_struct("T", v.len())?;
                for x in v {
                    q.serialize_field(x)?
                }
                q.end()
            }
            V::TupleVariant(v) => {
                let mut q = s.serialize_tuple_variant("E", 1, "T", v.len())?;
                for x in v {
                    q.serialize_field(x)?
                }
                q.end()
            }
            V::Map(sep, v) => {
                let mut q = s.serialize_map(Some(v.len()))?;
                for (k, x) in v {
                    if *sep {
                        q.serialize_key(k)?;
                        q.serialize_value(x)?
                    } else {
                        q.serialize_entry(k, x)?
                    }
                }
                q.end()
            }
            V::Struct(v) => {
                let mut q = s.serialize_struct("S", v.len())?;
                for (i, x) in v.iter().enumerate() {
                    q.serialize_field(F[i], x)?
                }
                q.skip_field("z")?;
                q.end()
            }
            V::StructVariant(v) => {
                let mut q = s.serialize_struct_variant("E", 2, "S", v.len())?;
                for (i, x) in v.iter().enumerate() {
                    q.serialize_field(F[i], x)?
                }
                q.end()
            }
            V::Some(x) => s.serialize_some(&**x),
            V::Newtype(x) => s.serialize_newtype_struct("N", &**x),
            V::NewVariant(x) => s.serialize_newtype_variant("E", 3, "N", &**x),
            V::Fail => Err(S::Error::custom("failing value")),
        }
    }
}

/// The reference: ordinary JSON, byte buffers and non-empty sequences of bytes taken out.
fn write(v: &V, out: &mut Vec<u8>, att: &mut Vec<Vec<u8>>) {
    match v {
        V::Null | V::Unit | V::UnitStruct => out.extend_from_slice(b"null"),
        V::UnitVariant => out.extend_from_slice(b"\"A\""),
        V::Bool(b) => out.extend_from_slice(if *b { b"true" } else { b"false" }),
        V::U8(b) => dec(*b as u64, out),
        V::I8(b) => {
            if *b < 0 {
                out.push(b'-')
            }
            dec((*b as i64).unsigned_abs(), out)
        }
        V::U16(b) => dec(*b as u64, out),
        V::U64(b) => dec(*b, out),
        V::I64(b) => {
            if *b < 0 {
                out.push(b'-')
            }
            dec(b.unsigned_abs(), out)
        }
        V::Other(k) => out.extend_from_slice(OTHER[*k].as_bytes()),
        V::Char(c) => string(&c.to_string(), out),
        V::Str(s) => string(s, out),
        V::Bytes(b) => attach(b.clone(), out, att),
        V::Seq(_, v) => {
            let all: Option<Vec<u8>> = v.iter().map(|x| if let V::U8(b) = x { Some(*b) } else { None }).collect();
            match all {
                Some(b) if !b.is_empty() => attach(b, out, att),
                _ => list(v, out, att),
            }
        }
        V::Tuple(v) | V::TupleStruct(v) => list(v, out, att),
        V::TupleVariant(v) => {
            out.extend_from_slice(b"{\"T\":");
            list(v, out, att);
            out.push(b'}')
        }
        V::Map(_, v) => {
            out.push(b'{');
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 {
                    out.push(b',')
                }
                match k {
                    V::Str(_) | V::Char(_) | V::UnitVariant => write(k, out, att),
                    _ => {
                        out.push(b'"');
                        write(k, out, att);
                        out.push(b'"')
                    }
                }
                out.push(b':');
                write(x, out, att)
            }
            out.push(b'}')
        }
        V::Struct(v) => fields(v, out, att),
        V::StructVariant(v) => {
            out.extend_from_slice(b"{\"S\":");
            fields(v, out, att);
            out.push(b'}')
        }
        V::Some(x) | V::Newtype(x) => write(x, out, att),
        V::NewVariant(x) => {
            out.extend_from_slice(b"{\"N\":");
            write(x, out, att);
            out.push(b'}')
        }
        V::Fail => {}
    }
}

fn attach(b: Vec<u8>, out: &mut Vec<u8>, att: &mut Vec<Vec<u8>>) {
    out.extend_from_slice(b"{\"_placeholder\":true,\"num\":");
    dec(att.len() as u64, out);
    out.push(b'}');
    att.push(b)
}

fn list(v: &[V], out: &mut Vec<u8>, att: &mut Vec<Vec<u8>>) {
    out.push(b'[');
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            out.push(b',')
        }
        write(x, out, att)
    }
    out.push(b']')
}

fn fields(v: &[V], out: &mut Vec<u8>, att: &mut Vec<Vec<u8>>) {
    out.push(b'{');
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            out.push(b',')
        }
        string(F[i], out);
        out.push(b':');
        write(x, out, att)
    }
    out.push(b'}')
}

fn dec(v: u64, out: &mut Vec<u8>) {
    let mut d = [0u8; 20];
    let mut n = 0;
    let mut v = v;
    loop {
        d[n] = b'0' + (v % 10) as u8;
        n += 1;
        v /= 10;
        if v == 0 {
            break;
        }
    }
    for i in (0..n).rev() {
        out.push(d[i])
    }
}

fn string(s: &str, out: &mut Vec<u8>) {
    out.push(b'"');
    for b in s.bytes() {
        match b {
            b'"' => out.extend_from_slice(b"\\\""),
            b'\\' => out.extend_from_slice(b"\\\\"),
            8 => out.extend_from_slice(b"\\b"),
            12 => out.extend_from_slice(b"\\f"),
            b'\n' => out.extend_from_slice(b"\\n"),
            b'\r' => out.extend_from_slice(b"\\r"),
            b'\t' => out.extend_from_slice(b"\\t"),
            0..=0x1f => {
                out.extend_from_slice(b"\\u00");
                out.push(b'0' + (b >> 4));
                let l = b & 15;
                out.push(if l < 10 { b'0' + l } else { b'a' + l - 10 })
            }
            _ => out.push(b),
        }
    }
    out.push(b'"')
}

/// a byte of a fixed decimal length
fn num(class: usize) -> u8 {
    let (lo, hi) = [(100, 255), (10, 99), (0, 9)][class];
    let b = byte();
    assume(lo <= b && b <= hi);
    b
}

const SIMPLE: usize = 11;
/// leaves that matter most
fn simple(k: usize) -> V {
    match k {
        0 => V::U8(num(0)),
        1 => V::Bytes(bytes(2)),
        2 => V::Seq(true, vec![V::U8(num(1)), V::U8(num(2))]),
        3 => V::Str("s".to_string()),
        4 => V::Seq(false, vec![]),
        5 => V::Bytes(vec![]),
        6 => V::U16(7),
        7 => V::Tuple(vec![V::U8(num(0))]),
        8 => V::Some(Box::new(V::U8(num(0)))),
        9 => V::Newtype(Box::new(V::U8(num(1)))),
        _ => V::Map(false, vec![(V::Str("_placeholder".to_string()), V::Bool(true))]),
    }
}

fn leaf() -> V {
    match choice(22 + SIMPLE) {
        0 => V::Null,
        1 => V::Unit,
        2 => V::UnitStruct,
        3 => V::UnitVariant,
        4 => V::Bool(byte() & 1 == 1),
        5 => V::I8(-(num(2) as i8)),
        6 => V::U64([0, 10, u64::MAX][choice(3)]),
        7 => V::I64([i64::MIN, -1, i64::MAX][choice(3)]),
        8 => V::Char(['"', '\u{e9}', 'x'][choice(3)]),
        9 => V::Str(text(1)),
        10 => V::Str(text(2)),
        11 => V::U8(num(choice(3))),
        k if k < 22 => V::Other(k - 12),
        k => simple(k - 22),
    }
}

/// every way of putting v (of at most three parts) into something else
fn wrap(v: Vec<V>) -> V {
    match choice(11) {
        0 => V::Seq(true, v),
        1 => V::Seq(false, v),
        2 => V::Tuple(v),
        3 => V::TupleStruct(v),
        4 => V::TupleVariant(v),
        5 => {
            let keys = [V::Str("k".to_string()), V::U8(5), V::UnitVariant];
            V::Map(true, keys.iter().cloned().zip(v).collect())
        }
        6 => {
            let keys = [V::I64(-3), V::Char('c'), V::Newtype(Box::new(V::Bool(true)))];
            V::Map(false, keys.iter().cloned().zip(v).collect())
        }
        7 => V::Struct(v),
        8 => V::StructVariant(v),
        k => {
            let x = v.into_iter().next().unwrap_or(V::Null);
            if k == 9 {
                V::Some(Box::new(V::Newtype(Box::new(x))))
            } else {
                V::NewVariant(Box::new(x))
            }
        }
    }
}

fn header(ev: bool, count: usize) -> Vec<u8> {
    let mut t = if ev { b"45".to_vec() } else { b"46".to_vec() };
    dec(count as u64, &mut t);
    t.extend_from_slice(if ev { b"-/n,12[\"e\"" } else { b"-7[" });
    t
}

/// the messages of a binary packet with these arguments
fn compare(ev: bool, vs: &[V]) {
    let ms = guard("serialising panics", || {
        let mut b = if ev {
            PacketBuilder::new_event("e", "/n", Some(12), true)
        } else {
            PacketBuilder::new_ack("/", 7, true)
        };
        for v in vs {
            check(b.serialize_arg(v).is_ok(), "serialising fails")
        }
        b.finish()
    });
    let ms = match ms {
        Some(m) => m,
        None => return,
    };
    let (mut body, mut att) = (Vec::new(), Vec::new());
    for (i, v) in vs.iter().enumerate() {
        if i > 0 || ev {
            body.push(b',')
        }
        write(v, &mut body, &mut att)
    }
    body.push(b']');
    let mut t = header(ev, att.len());
    if !ev && vs.is_empty() {
        // without arguments the list is left out
        t.pop();
        body.clear()
    }
    t.extend_from_slice(&body);
    check(ms.len() == 1 + att.len(), "wrong number of attachments");
    match &ms[0] {
        Ws::Text(s) => check(s.len() == t.len() && s.as_bytes() == &t[..], "the text is not the value's JSON with placeholders"),
        _ => check(false, "the header is not text"),
    }
    for (m, a) in ms[1..].iter().zip(&att) {
        cover("attachment");
        match m {
            Ws::Binary(b) => check(b.len() == a.len() + 1 && b[0] == 4 && &b[1..] == &a[..], "wrong attachment content"),
            _ => check(false, "an attachment is not binary"),
        }
    }
    cover("compared");
    log(&[ms.len() as u8]);
    log_u64(t.len() as u64);
}

/// one leaf, wrapped n times
pub fn wrapped(n: usize) {
    let mut v = leaf();
    for _ in 0..n {
        v = wrap(vec![v])
    }
    compare(choice(2) == 0, &[v])
}

/// sequences (and tuples) of n elements
pub fn elements(n: usize) {
    let v: Vec<V> = (0..n).map(|_| simple(choice(SIMPLE))).collect();
    let v = wrap(v);
    compare(true, &[v])
}

/// sequences of n bytes with at most one other element, inside something else
pub fn runs(n: usize) {
    let at = choice(n + 1);
    let mut v = Vec::new();
    for i in 0..n {
        if i == at {
            v.push(simple(1 + choice(SIMPLE - 1)))
        } else {
            v.push(V::U8(num(0)))
        }
    }
    let q = V::Seq(choice(2) == 0, v);
    let v = match choice(4) {
        0 => q,
        1 => V::Seq(true, vec![q, V::Bytes(bytes(1))]),
        2 => V::Seq(true, vec![V::U8(1), V::U8(num(1)), q]),
        _ => V::Map(false, vec![(V::Str("k".to_string()), q), (V::Str("l".to_string()), V::Bytes(vec![]))]),
    };
    compare(choice(2) == 0, &[v])
}

/// n arguments
pub fn arguments(n: usize) {
    let vs: Vec<V> = (0..n).map(|_| simple(choice(SIMPLE))).collect();
    compare(choice(2) == 0, &vs)
}

/// two levels of lists
pub fn nested(n: usize) {
    let vs: Vec<V> = (0..n).map(|_| {
        let k = 1 + choice(2);
        wrap((0..k).map(|_| simple(choice(4))).collect())
    }).collect();
    compare(true, &[wrap(vs)])
}

const FAILS: usize = 19;
fn failing(k: usize) -> V {
    let f = || V::Fail;
    let b = || V::Bytes(bytes(1));
    match k {
        0 => f(),
        1 => V::Tuple(vec![b(), f()]),
        2 => V::Seq(true, vec![V::U8(byte()), V::U8(2), f()]),
        3 => V::Map(true, vec![(V::Str("a".to_string()), b()), (V::Str("b".to_string()), f())]),
        4 => V::Map(false, vec![(V::Seq(true, vec![V::U8(1)]), V::Null)]),
        5 => V::Map(true, vec![(b(), V::Null)]),
        6 => V::Struct(vec![b(), V::Seq(true, vec![b(), f()])]),
        7 => V::Newtype(Box::new(f())),
        8 => V::Seq(false, vec![f()]),
        9 => V::Seq(true, vec![b(), V::U8(1), f()]),
        10 => V::StructVariant(vec![V::Seq(true, vec![V::U8(1), V::U8(byte())]), f()]),
        11 => V::TupleVariant(vec![b(), b(), f()]),
        12 => V::TupleStruct(vec![V::Str("x".to_string()), f()]),
        13 => V::Some(Box::new(V::Tuple(vec![b(), V::NewVariant(Box::new(f()))]))),
        14 => V::Map(false, vec![(V::Tuple(vec![]), b())]),
        15 => V::Map(true, vec![(V::Str("a".to_string()), b()), (V::Unit, V::Null)]),
        16 => V::Seq(true, vec![V::U8(1), V::Str("y".to_string()), b(), f()]),
        17 => V::Map(false, vec![(f(), b())]),
        _ => V::Seq(true, vec![V::Seq(true, vec![V::U8(9), V::Map(true, vec![(V::Struct(vec![]), V::Null)])])]),
    }
}

/// n serialisations, some of which fail
pub fn failures(n: usize) {
    let ev = choice(2) == 0;
    let bin = choice(2) == 0;
    let make = || {
        if ev {
            PacketBuilder::new_event("e", "/n", Some(12), bin)
        } else {
            PacketBuilder::new_ack("/n", 7, bin)
        }
    };
    let (mut a, mut b) = (make(), make());
    let few = n > 2;
    for _ in 0..n {
        let k = choice(if few { 10 } else { 5 + FAILS });
        let (v, fails) = match k {
            0 => (V::Bytes(bytes(1)), false),
            1 => (V::Str("s".to_string()), false),
            2 => (V::Seq(true, vec![V::U8(200), V::U8(201)]), false),
            3 => (V::Tuple(vec![V::Null, V::Bytes(vec![1])]), false),
            4 => (V::Seq(false, vec![]), false),
            _ if few => (failing([1, 2, 5, 9, 16][k - 5]), true),
            _ => (failing(k - 5), true),
        };
        match guard("serialising panics", || a.serialize_arg(&v)) {
            Some(r) => check(r.is_err() == fails, if fails { "a failing value serialises" } else { "serialising fails" }),
            None => return,
        }
        if fails {
            cover("failed")
        } else {
            check(b.serialize_arg(&v).is_ok(), "serialising fails")
        }
    }
    let a = match guard("finishing panics", || a.finish()) {
        Some(a) => a,
        None => return,
    };
    let b = b.finish();
    check(a.len() == b.len(), "a failed serialisation leaves messages behind");
    for (x, y) in a.iter().zip(&b) {
        match (x, y) {
            (Ws::Text(x), Ws::Text(y)) => check(x.len() == y.len() && x == y, "a failed serialisation changes the text"),
            (Ws::Binary(x), Ws::Binary(y)) => check(x.len() == y.len() && x == y, "a failed serialisation changes an attachment"),
            _ => check(false, "a failed serialisation changes a message"),
        }
    }
    cover("compared");
}
