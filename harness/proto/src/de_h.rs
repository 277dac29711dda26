//! C12, C13: deserialising arguments of packets with attachments.
use crate::packet::{Buf, En, Rec};
use crate::sym::*;
use crate::text::warm;
use serde::de::{IgnoredAny, MapAccess, SeqAccess, Visitor};
use serde::{Deserialize, Deserializer};
use serde_json::value::RawValue;
use serde_json::Value;
use socket_io_protocol::engine::Message;
use socket_io_protocol::socket::*;
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};

#[derive(Deserialize, PartialEq)]
struct UnitS;
#[derive(Deserialize, PartialEq)]
struct New(String);
#[derive(Deserialize, PartialEq, PartialOrd, Eq, Ord)]
struct NewNum(i16);
#[derive(Deserialize, PartialEq)]
struct TupS(u8, Option<String>);
#[derive(Deserialize, PartialEq)]
struct CowS<'a>(#[serde(borrow)] Cow<'a, str>);
#[derive(Deserialize, PartialEq)]
struct Plain {
    k: Option<Vec<Value>>,
    #[serde(default)]
    a: i8,
}
#[derive(Deserialize, PartialEq)]
#[serde(deny_unknown_fields)]
struct Strict<'a> {
    a: &'a str,
}
#[derive(Deserialize, PartialEq)]
struct Flat {
    #[serde(default)]
    a: u8,
    #[serde(flatten)]
    rest: BTreeMap<String, Value>,
}
#[derive(Deserialize, PartialEq)]
#[serde(untagged)]
enum Unt {
    N(u8),
    S(String),
    L(Vec<bool>),
    M { k: Option<u8> },
}
#[derive(Deserialize, PartialEq)]
#[serde(tag = "a")]
enum Tagged {
    X,
    #[serde(rename = "1")]
    One { k: u8 },
}
#[derive(Deserialize, PartialEq, PartialOrd, Eq, Ord)]
enum Key {
    #[serde(rename = "k")]
    K,
    #[serde(rename = "1")]
    One,
    A(u8),
}
/// takes whatever the deserialiser offers, through deserialize_any
#[derive(PartialEq)]
enum Any {
    Bool(bool),
    I(i64),
    U(u64),
    F(u64),
    Str(bool, String),
    Bytes(bool, Vec<u8>),
    None,
    Unit,
    Some(Box<Any>),
    New(Box<Any>),
    Seq(Vec<Any>),
    Map(Vec<(Any, Any)>),
}
struct AnyV;
impl<'de> Visitor<'de> for AnyV {
    type Value = Any;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("anything")
    }
    fn visit_bool<E>(self, v: bool) -> Result<Any, E> {
        Ok(Any::Bool(v))
    }
    fn visit_i64<E>(self, v: i64) -> Result<Any, E> {
        Ok(Any::I(v))
    }
    fn visit_u64<E>(self, v: u64) -> Result<Any, E> {
        Ok(Any::U(v))
    }
    fn visit_f64<E>(self, v: f64) -> Result<Any, E> {
        Ok(Any::F(v.to_bits()))
    }
    fn visit_str<E>(self, v: &str) -> Result<Any, E> {
        Ok(Any::Str(false, v.to_string()))
    }
    fn visit_borrowed_str<E>(self, v: &'de str) -> Result<Any, E> {
        Ok(Any::Str(true, v.to_string()))
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<Any, E> {
        Ok(Any::Bytes(false, v.to_vec()))
    }
    fn visit_borrowed_bytes<E>(self, v: &'de [u8]) -> Result<Any, E> {
        Ok(Any::Bytes(true, v.to_vec()))
    }
    fn visit_none<E>(self) -> Result<Any, E> {
        Ok(Any::None)
    }
    fn visit_unit<E>(self) -> Result<Any, E> {
        Ok(Any::Unit)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Any, D::Error> {
        Ok(Any::Some(Box::new(Any::deserialize(d)?)))
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Any, D::Error> {
        Ok(Any::New(Box::new(Any::deserialize(d)?)))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
        let mut v = Vec::new();
        while let Some(x) = a.next_element()? {
            v.push(x)
        }
        Ok(Any::Seq(v))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
        let mut v = Vec::new();
        while let Some(k) = a.next_key()? {
            v.push((k, a.next_value()?))
        }
        Ok(Any::Map(v))
    }
}
impl<'de> Deserialize<'de> for Any {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Any, D::Error> {
        d.deserialize_any(AnyV)
    }
}
#[derive(PartialEq)]
struct Ign;
impl<'de> Deserialize<'de> for Ign {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Ign, D::Error> {
        IgnoredAny::deserialize(d).map(|_| Ign)
    }
}
#[derive(PartialEq)]
struct Raw(String);
impl<'de> Deserialize<'de> for Raw {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Raw, D::Error> {
        <&RawValue>::deserialize(d).map(|v| Raw(v.get().to_string()))
    }
}

/// the most general visitor under every request
struct Hint<const K: u8>(Any);
impl<const K: u8> PartialEq for Hint<K> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<'de, const K: u8> Deserialize<'de> for Hint<K> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v = AnyV;
        match K {
            0 => d.deserialize_str(v),
            1 => d.deserialize_string(v),
            2 => d.deserialize_bytes(v),
            3 => d.deserialize_byte_buf(v),
            4 => d.deserialize_seq(v),
            5 => d.deserialize_tuple(2, v),
            6 => d.deserialize_tuple_struct("T", 2, v),
            7 => d.deserialize_struct("S", &["a", "k"], v),
            8 => d.deserialize_map(v),
            9 => d.deserialize_option(v),
            10 => d.deserialize_unit(v),
            11 => d.deserialize_newtype_struct("N", v),
            12 => d.deserialize_char(v),
            13 => d.deserialize_bool(v),
            14 => d.deserialize_u8(v),
            15 => d.deserialize_identifier(v),
            16 => d.deserialize_i64(v),
            _ => d.deserialize_unit_struct("U", v),
        }
        .map(Hint)
    }
}

fn first<'a>(p: &'a Packet, i: usize) -> Option<(usize, Arg<'a>)> {
    match p.data() {
        Data::Event { args, .. } | Data::Ack { args, .. } => args.get(i).map(|a| (args.len(), a)),
        _ => None,
    }
}

fn same<'a, T: Deserialize<'a> + PartialEq>(plain: &Arg<'a>, with: &Arg<'a>) {
    let a = guard("deserialising panics", || plain.deserialize::<T>());
    let b = guard("deserialising with attachments panics", || with.deserialize::<T>());
    match (a, b) {
        (Some(Ok(a)), Some(Ok(b))) => {
            cover("same value");
            check(a == b, "attachments change the value")
        }
        (Some(Err(_)), Some(Err(_))) => cover("both fail"),
        (Some(Ok(_)), Some(Err(_))) => check(false, "attachments make it fail"),
        (Some(Err(_)), Some(Ok(_))) => check(false, "attachments make it succeed"),
        _ => {}
    }
}

/// serde_json itself panics (with debug assertions) on a key that is wanted as a bool and starts
/// with a character of several bytes
static ASCII: AtomicBool = AtomicBool::new(true);

/// the packets with that argument, without and with attachments
fn pair(arg: &str, f: impl Fn(&Arg, &Arg)) {
    let mut ascii = true;
    for b in arg.bytes() {
        if b >= 0x80 {
            ascii = false
        }
    }
    ASCII.store(ascii, SeqCst);
    let mut t = String::from("2[");
    t.push_str(arg);
    t.push(']');
    let p = match deserialize(Message::Text(t.into())) {
        Ok(DeserializeResult::Packet(p)) => p,
        _ => return,
    };
    let mut t = String::from("51-[");
    t.push_str(arg);
    t.push(']');
    let q = match deserialize(Message::Text(t.into())) {
        Ok(DeserializeResult::DataNeeded(q)) => q,
        _ => return check(false, "a binary packet is not accepted"),
    };
    let q = match deserialize_partial(q, vec![Message::Binary(vec![1, 2, 3].into())]) {
        Ok(q) => q,
        _ => return check(false, "a binary packet is not completed"),
    };
    match (first(&p, 0), first(&q, 0)) {
        (Some((1, a)), Some((1, b))) => f(&a, &b),
        (Some((n, _)), Some((m, _))) => check(n == m, "attachments change the number of arguments"),
        (None, None) => {}
        _ => check(false, "attachments change the number of arguments"),
    }
}

fn scalars(a: &Arg, b: &Arg) {
    match choice(16) {
        0 => same::<bool>(a, b),
        1 => same::<u8>(a, b),
        2 => same::<i8>(a, b),
        3 => same::<u64>(a, b),
        4 => same::<i64>(a, b),
        5 => same::<i128>(a, b),
        6 => same::<char>(a, b),
        7 => same::<String>(a, b),
        8 => same::<&str>(a, b),
        9 => same::<CowS>(a, b),
        10 => same::<Option<u16>>(a, b),
        11 => same::<()>(a, b),
        12 => same::<UnitS>(a, b),
        13 => same::<New>(a, b),
        14 => same::<Ign>(a, b),
        _ => same::<u128>(a, b),
    }
}

/// converting to a JSON value
fn converted(plain: &Arg, with: &Arg) {
    let a = guard("converting panics", || plain.to_json_value());
    let b = guard("converting with attachments panics", || with.to_json_value());
    match (a, b) {
        (Some(Ok(a)), Some(Ok(b))) => {
            cover("same value");
            check(a == b, "attachments change the JSON value")
        }
        (Some(a), Some(b)) => check(a.is_err() && b.is_err(), "attachments change whether it converts"),
        _ => {}
    }
}

fn compounds(a: &Arg, b: &Arg) {
    match choice(18) {
        17 => converted(a, b),
        0 => same::<&[u8]>(a, b),
        1 => same::<Buf>(a, b),
        2 => same::<Vec<u8>>(a, b),
        3 => same::<Vec<Option<bool>>>(a, b),
        4 => same::<(u8, i8)>(a, b),
        5 => same::<[Option<Value>; 2]>(a, b),
        6 => same::<TupS>(a, b),
        7 => same::<Rec>(a, b),
        8 => same::<Plain>(a, b),
        9 => same::<Strict>(a, b),
        10 => same::<Flat>(a, b),
        11 => same::<En>(a, b),
        12 => same::<Unt>(a, b),
        13 => same::<Tagged>(a, b),
        14 => same::<Any>(a, b),
        15 => same::<Value>(a, b),
        _ => same::<Raw>(a, b),
    }
}

fn hints(a: &Arg, b: &Arg) {
    match choice(18) {
        0 => same::<Hint<0>>(a, b),
        1 => same::<Hint<1>>(a, b),
        2 => same::<Hint<2>>(a, b),
        3 => same::<Hint<3>>(a, b),
        4 => same::<Hint<4>>(a, b),
        5 => same::<Hint<5>>(a, b),
        6 => same::<Hint<6>>(a, b),
        7 => same::<Hint<7>>(a, b),
        8 => same::<Hint<8>>(a, b),
        9 => same::<Hint<9>>(a, b),
        10 => same::<Hint<10>>(a, b),
        11 => same::<Hint<11>>(a, b),
        12 => same::<Hint<12>>(a, b),
        13 => same::<Hint<13>>(a, b),
        14 => same::<Hint<14>>(a, b),
        15 => same::<Hint<15>>(a, b),
        16 => same::<Hint<16>>(a, b),
        _ => same::<Hint<17>>(a, b),
    }
}

/// the first key of a map under every request
fn key_hints(a: &Arg, b: &Arg) {
    match choice(18) {
        0 => same::<MapOf<0>>(a, b),
        1 => same::<MapOf<1>>(a, b),
        2 => same::<MapOf<2>>(a, b),
        3 => same::<MapOf<3>>(a, b),
        4 => same::<MapOf<4>>(a, b),
        5 => same::<MapOf<5>>(a, b),
        6 => same::<MapOf<6>>(a, b),
        7 => same::<MapOf<7>>(a, b),
        8 => same::<MapOf<8>>(a, b),
        9 => same::<MapOf<9>>(a, b),
        10 => same::<MapOf<10>>(a, b),
        11 => same::<MapOf<11>>(a, b),
        12 => same::<MapOf<12>>(a, b),
        13 => {
            assume(ASCII.load(SeqCst));
            same::<MapOf<13>>(a, b)
        }
        14 => same::<MapOf<14>>(a, b),
        15 => same::<MapOf<15>>(a, b),
        16 => same::<MapOf<16>>(a, b),
        _ => same::<MapOf<17>>(a, b),
    }
}

#[derive(PartialEq)]
struct MapOf<const K: u8>(Vec<(Hint<K>, Any)>);
struct MapOfV<const K: u8>;
impl<'de, const K: u8> Visitor<'de> for MapOfV<K> {
    type Value = MapOf<K>;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("a map")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<MapOf<K>, A::Error> {
        let mut v = Vec::new();
        while let Some(k) = a.next_key()? {
            v.push((k, a.next_value()?))
        }
        Ok(MapOf(v))
    }
}
impl<'de, const K: u8> Deserialize<'de> for MapOf<K> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_map(MapOfV)
    }
}

fn maps(a: &Arg, b: &Arg) {
    match choice(17) {
        0 => same::<BTreeMap<String, Value>>(a, b),
        1 => same::<BTreeMap<u8, u8>>(a, b),
        2 => same::<BTreeMap<i64, Any>>(a, b),
        3 => {
            assume(ASCII.load(SeqCst));
            same::<BTreeMap<bool, Ign>>(a, b)
        }
        4 => same::<BTreeMap<char, Ign>>(a, b),
        5 => same::<BTreeMap<Key, Ign>>(a, b),
        6 => same::<BTreeMap<Option<String>, Ign>>(a, b),
        7 => same::<BTreeMap<NewNum, Ign>>(a, b),
        8 => same::<BTreeMap<&str, Value>>(a, b),
        9 => same::<BTreeMap<i128, Ign>>(a, b),
        10 => same::<Any>(a, b),
        11 => same::<Vec<BTreeMap<u16, Any>>>(a, b),
        12 => same::<Raw>(a, b),
        13 => same::<BTreeMap<Vec<u8>, Ign>>(a, b),
        14 => same::<BTreeMap<(), Ign>>(a, b),
        15 => same::<BTreeMap<Option<u8>, Any>>(a, b),
        _ => same::<BTreeMap<u128, Ign>>(a, b),
    }
}

fn around(n: usize, list: &[(&str, &str)], f: fn(&Arg, &Arg)) {
    warm();
    let (pre, post) = list[choice(list.len())];
    let mut v = pre.as_bytes().to_vec();
    for _ in 0..n {
        let b = byte();
        v.push(b)
    }
    v.extend_from_slice(post.as_bytes());
    match String::from_utf8(v) {
        Ok(t) => pair(&t, f),
        Err(_) => {}
    }
}

/// single values
pub fn scalar_args(n: usize) {
    around(n, &[("", ""), ("\"", "\""), ("1", "")], scalars)
}
pub fn compound_args(n: usize) {
    around(
        n,
        &[("", ""), ("[1,", "]"), ("{\"a\":", "}"), ("{\"k\":", ",\"a\":1}"), ("\"", "\""), ("{\"", "\":[]}"), ("{\"New\":\"", "\"}")],
        compounds,
    )
}
pub fn map_args(n: usize) {
    around(
        n,
        &[("{\"", "\":1}"), ("{\"1\":2,\"", "\":3}"), ("{\"", "\":[2],\"3\":{}}"), ("[{\"", "\":null}]"), ("{\"1", "\":5}"), ("{\"", "", )],
        maps,
    )
}

/// a list of whole values against every type
pub fn fixed(_: usize) {
    warm();
    let t = [
        "null", "true", "false", "0", "-1", "255", "256", "65536", "18446744073709551615", "18446744073709551616", "-9223372036854775809",
        "1.5", "1e3", "-0", "\"\"", "\"a\"", "\"ab\"", "\"\\n\"", "\"\\u0041\"", "\"\\ud83d\\ude00\"", "\"X\"", "[]", "[1]", "[1,2]", "[1,2,3]",
        "[1,\"a\"]", "[1,null]", "[true,false,null]", "[300]", "{}", "{\"a\":1}", "{\"a\":\"x\"}", "{\"k\":[1,\"x\"]}", "{\"k\":null,\"a\":-5}",
        "{\"a\":7,\"b\":\"x\",\"c\":[true]}", "{\"b\":null,\"a\":7}", "{\"a\":7,\"a\":8}", "\"Unit\"", "{\"Unit\":null}", "{\"New\":\"x\"}",
        "{\"Tup\":[1,-2]}", "{\"Str\":{\"x\":4}}", "{\"Str\":[4]}", "{\"Tup\":[1]}", "{\"New\":\"x\",\"Unit\":null}", "{\"a\":\"X\"}",
        "{\"k\":5,\"a\":\"1\"}", "{\"a\":\"1\",\"k\":5}", "{\"1\":1}", "{\"-1\":1}", "{\"01\":1}", "{\"1.5\":1}", "{\"true\":1}", "{\"false\":1}", "{\"k\":1}",
        "{\"\":1}", "{\" 1\":1}", "{\"1 \":1}", "{\"\\u0031\":1}", "{\"\\u0074rue\":1}", "{\"\\u006b\":1}", "{\"1\":1,\"\\u0032\":2}", "{\"18446744073709551616\":1}",
        "{\"null\":1}", "{\"A\":1}", "{\"x\\ny\":1}", "{\"\u{e9}\":1}", "{\"1e2\":1}", "{\"-0\":1}", "{\"340282366920938463463374607431768211456\":1}",
        "{\"num\":0}", "{\"num\":0,\"placeholder\":true}", "{\"_placeholder2\":true,\"num\":0}", "{\"_placeholder2\":true}", "{\"num\":0,\"_placeholders\":1}", "{\"__placeholder\":true,\"num\":0}", "{\"_Placeholder\":true,\"num\":0}",
        "{\"_placeholde\":true,\"num\":0}", "{\"placeholder\":true,\"num\":0}", "{\"a\":{\"num\":0},\"num\":0}", "[\"_placeholder\",0]", "{\"a\":\"_placeholder\",\"num\":0}", "\"_placeholder\"",
        "{\"k\":{\"k\":{\"k\":[{\"a\":1}]}}}",
        "{\"$serde_json::private::RawValue\":\"1\"}", "{\"a\":{\"$serde_json::private::Number\":\"1\"}}",
    ];
    let t = t[choice(t.len())];
    match choice(5) {
        0 => pair(t, scalars),
        1 => pair(t, compounds),
        2 => pair(t, hints),
        3 => pair(t, key_hints),
        _ => pair(t, maps),
    }
}

/// every request on values with n arbitrary bytes
pub fn hinted_args(n: usize) {
    around(n, &[("", ""), ("\"", "\""), ("[1,", "]"), ("{\"", "\":1}")], hints)
}
pub fn hinted_keys(n: usize) {
    around(n, &[("{\"", "\":1}"), ("{\"", "\":1,\"\\u0061\":1}"), ("{\"t", "rue\":1}"), ("{\"1", "\":[]}")], key_hints)
}

/// keys that begin like that of a placeholder, n arbitrary bytes more
pub fn like_placeholders(n: usize) {
    warm();
    let (pre, post) = [("{\"_placeholder", "\":true,\"num\":0}"), ("{\"a\":[{\"_placeholder", "\":true,\"num\":0}]}"), ("{\"num\":0,\"_placeholder", "\":1}"), ("{\"_placeholder", "\":true}")][choice(4)];
    let mut v = pre.as_bytes().to_vec();
    let f = bytes(n);
    assume(f.first().map_or(false, |b| *b != b'"'));
    v.extend(f);
    v.extend_from_slice(post.as_bytes());
    let t = match String::from_utf8(v) {
        Ok(t) => t,
        Err(_) => return,
    };
    pair(&t, |a, b| match choice(6) {
        0 => converted(a, b),
        1 => same::<Value>(a, b),
        2 => same::<Any>(a, b),
        3 => same::<BTreeMap<String, Any>>(a, b),
        4 => same::<Rec>(a, b),
        _ => same::<Buf>(a, b),
    })
}

fn same_as<'a, T: Deserialize<'a> + PartialEq>(a: &Arg<'a>, b: &Arg<'a>, m: &str) {
    let a = guard("deserialising panics", || a.deserialize::<T>());
    let b = guard("deserialising with attachments panics", || b.deserialize::<T>());
    match (a, b) {
        (Some(a), Some(b)) => check(a.is_ok() == b.is_ok() && a.ok() == b.ok(), m),
        _ => {}
    }
}

/// what the wrapping of serde_json's deserialiser cannot pass on
pub fn limits(_: usize) {
    warm();
    match choice(2) {
        0 => pair("\"\\ud800\"", |a, b| same_as::<Buf>(a, b, "a lone surrogate read as bytes differs with attachments")),
        _ => pair("{\"k\":1}", |a, b| same_as::<BTreeMap<RawKey, u8>>(a, b, "a first key read as raw JSON differs with attachments")),
    }
}

#[derive(PartialEq, PartialOrd, Eq, Ord)]
struct RawKey(String);
impl<'de> Deserialize<'de> for RawKey {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<RawKey, D::Error> {
        <&RawValue>::deserialize(d).map(|v| RawKey(v.get().to_string()))
    }
}

// ---------------------------------------------------------------- C13

#[derive(Deserialize)]
struct InOwned {
    v: Vec<u8>,
    #[allow(dead_code)]
    w: u8,
}
#[derive(Deserialize)]
struct InBorrowed<'a> {
    v: &'a [u8],
    #[allow(dead_code)]
    w: u8,
}
#[derive(Deserialize)]
struct NewB(Vec<u8>);
#[derive(Deserialize)]
enum EnB {
    B(Vec<u8>),
    T(u8, Buf),
    S { v: Buf },
}

fn bytes_of(v: &Value) -> Option<Vec<u8>> {
    v.as_array()?.iter().map(|x| x.as_u64().filter(|n| *n < 256).map(|n| n as u8)).collect()
}

/// where the placeholder stands, and ways of getting its bytes
const SHAPES: [(&str, &str); 9] =
    [("", ""), ("{\"v\":", ",\"w\":1}"), ("{\"w\":2,\"v\":", "}"), ("[", ",3]"), ("[[7],", "]"), ("{\"B\":", "}"), ("{\"T\":[4,", "]}"), ("{\"S\":{\"v\":", "}}"), ("[[{\"k\":", "}]]")];

/// gets the bytes out of the argument: None when it is an error
fn resolve(a: &Arg, shape: usize) -> Option<Option<Vec<u8>>> {
    let tree = |v: Value| -> Option<Vec<u8>> {
        bytes_of(match shape {
            0 => &v,
            1 | 2 => &v["v"],
            3 => &v[0],
            4 => &v[1],
            5 => &v["B"],
            6 => &v["T"][1],
            7 => &v["S"]["v"],
            _ => &v[0][0]["k"],
        })
    };
    let way = choice(8);
    let tree = |v: Value| {
        let b = tree(v);
        check(b.is_some(), "a placeholder becomes something else than bytes");
        b
    };
    guard("deserialising panics", || match way {
        0 => a.to_json_value().ok().and_then(tree),
        1 => a.deserialize::<Value>().ok().and_then(tree),
        k => match (shape, k) {
            (0, 2) => a.deserialize::<Vec<u8>>().ok(),
            (0, 3) => a.deserialize::<&[u8]>().ok().map(|v| v.to_vec()),
            (0, 4) => a.deserialize::<Buf>().ok().map(|v| v.0),
            (0, 5) => a.deserialize::<Option<Vec<u8>>>().ok().and_then(|v| v),
            (0, 6) => a.deserialize::<NewB>().ok().map(|v| v.0),
            (0, 7) => a.deserialize::<Option<&[u8]>>().ok().and_then(|v| v.map(|v| v.to_vec())),
            (1, 2) | (2, 2) => a.deserialize::<InOwned>().ok().map(|v| v.v),
            (1, 3) | (2, 3) => a.deserialize::<InBorrowed>().ok().map(|v| v.v.to_vec()),
            (1, 4) | (2, 4) => a.deserialize::<BTreeMap<String, Value>>().ok().and_then(|v| bytes_of(&v["v"])),
            (3, 2) => a.deserialize::<(Buf, u8)>().ok().map(|v| v.0 .0),
            (3, 3) => a.deserialize::<(&[u8], u8)>().ok().map(|v| v.0.to_vec()),
            (4, 2) => a.deserialize::<Vec<Vec<u8>>>().ok().map(|v| v[1].clone()),
            (4, 3) => a.deserialize::<Vec<Buf>>().ok().map(|v| v[1].0.clone()),
            (4, 4) => a.deserialize::<(Vec<u8>, &[u8])>().ok().map(|v| v.1.to_vec()),
            (5, 2) | (6, 2) | (7, 2) => a.deserialize::<EnB>().ok().map(|v| match v {
                EnB::B(v) => v,
                EnB::T(_, v) => v.0,
                EnB::S { v } => v.0,
            }),
            (8, 2) => a.deserialize::<Vec<(BTreeMap<String, Buf>,)>>().ok().map(|v| v[0].0["k"].0.clone()),
            (8, 3) => a.deserialize::<Vec<Vec<BTreeMap<&str, &[u8]>>>>().ok().map(|v| v[0][0]["k"].to_vec()),
            _ => {
                assume(false);
                None
            }
        },
    })
}

fn packet(args: &str, content: &[Vec<u8>]) -> Option<Packet> {
    let mut t = format!("5{}-[", content.len());
    t.push_str(args);
    t.push(']');
    let given: Vec<Message> = content.iter().map(|c| Message::Binary(c.clone().into())).collect();
    match guard("decoding panics", || deserialize(Message::Text(t.into()))) {
        Some(Ok(DeserializeResult::DataNeeded(q))) => match guard("completing panics", || deserialize_partial(q, given)) {
            Some(Ok(p)) => Some(p),
            _ => {
                check(false, "a binary packet is not completed");
                None
            }
        },
        _ => {
            check(false, "a binary packet is not accepted");
            None
        }
    }
}

fn resolved(p: &Packet, i: usize, shape: usize, want: Option<&Vec<u8>>) {
    let (_, a) = match first(p, i) {
        Some(a) => a,
        None => return check(false, "an argument is missing"),
    };
    match (resolve(&a, shape), want) {
        (Some(Some(v)), Some(w)) => {
            cover("resolved");
            check(v.len() == w.len() && v == *w, "a placeholder resolves to the wrong content")
        }
        (Some(None), None) => cover("error"),
        (Some(None), Some(_)) => check(false, "a placeholder does not resolve"),
        (Some(Some(_)), None) => check(false, "a bad placeholder resolves"),
        (None, _) => {}
    }
}

/// placeholders with n arbitrary digits; two attachments of different length with arbitrary content
pub fn placeholders(n: usize) {
    warm();
    let shape = choice(SHAPES.len());
    let content = vec![bytes(2), vec![byte()], vec![]];
    let mut d = String::new();
    for _ in 0..n {
        let b = byte();
        assume(b >= b'0' && b <= b'9');
        d.push(b as char)
    }
    assume(n < 2 || d.as_bytes()[0] != b'0');
    let (x, y, z) = [("{\"_placeholder\":true,\"num\":", "", "}"), ("{ \"_placeholder\" : true ,\n\"num\": ", " ", "}")][choice(2)];
    let mut t = String::from("\"e\",");
    t.push_str(SHAPES[shape].0);
    t.push_str(x);
    t.push_str(&d);
    t.push_str(y);
    t.push_str(z);
    t.push_str(SHAPES[shape].1);
    let p = match packet(&t, &content) {
        Some(p) => p,
        None => return,
    };
    let k = match d.as_bytes() {
        [b'0'] => Some(0),
        [b'1'] => Some(1),
        [b'2'] => Some(2),
        _ => None,
    };
    resolved(&p, 1, shape, k.map(|k: usize| &content[k]));
}

/// several placeholders in one packet of n attachments
pub fn several(n: usize) {
    warm();
    let content: Vec<Vec<u8>> = (0..n).map(|i| (0..i % 3).map(|_| byte()).collect()).collect();
    let mut t = String::from("\"e\"");
    let i = choice(n);
    let shape = choice(SHAPES.len());
    let order = choice(2) == 0;
    for k in 0..n {
        let k = if order { k } else { n - 1 - k };
        t.push_str(&format!(",{}{{\"_placeholder\":true,\"num\":{}}}{}", SHAPES[shape].0, k, SHAPES[shape].1));
    }
    let p = match packet(&t, &content) {
        Some(p) => p,
        None => return,
    };
    resolved(&p, 1 + i, shape, Some(&content[if order { i } else { n - 1 - i }]))
}

/// a missing or malformed number is an error
pub fn bad_numbers(n: usize) {
    warm();
    let shape = choice(SHAPES.len());
    let bad = [
        "{\"_placeholder\":true}",
        "{\"_placeholder\":true,\"num\":-1}",
        "{\"_placeholder\":true,\"num\":\"0\"}",
        "{\"_placeholder\":true,\"num\":18446744073709551615}",
        "{\"_placeholder\":true,\"num\":18446744073709551616}",
        "{\"_placeholder\":true,\"num\":null}",
        "{\"_placeholder\":true,\"num\":[]}",
        "{\"_placeholder\":true,\"num\":0.5}",
        "{\"_placeholder\":true,\"mum\":0}",
        "{\"_placeholder\":true,\"num\":4294967296}",
        "{\"_placeholder\":true,\"num\":256}",
    ][choice(11)];
    let content: Vec<Vec<u8>> = (0..n).map(|_| vec![byte()]).collect();
    let t = format!("{}{}{}", SHAPES[shape].0, bad, SHAPES[shape].1);
    if let Some(p) = packet(&t, &content) {
        resolved(&p, 0, shape, None)
    }
}

/// nothing ever panics: any type on any argument that has a placeholder with n arbitrary bytes in it
pub fn no_panic(n: usize) {
    warm();
    let (pre, post) = [
        ("{\"_placeholder\":true,\"num\":", "}"),
        ("{\"_placeholder\":", ",\"num\":0}"),
        ("[1,{\"_placeholder\":true,\"num\":0", "}]"),
        ("{\"a\":{\"_placeholder\":true", ",\"num\":0}}"),
        ("{\"", "_placeholder\":true,\"num\":0}"),
    ][choice(5)];
    let mut v = pre.as_bytes().to_vec();
    v.extend(bytes(n));
    v.extend_from_slice(post.as_bytes());
    let mut t = b"51-[".to_vec();
    t.extend_from_slice(&v);
    t.push(b']');
    let t = match String::from_utf8(t) {
        Ok(t) => t,
        Err(_) => return,
    };
    let p = match guard("decoding panics", || deserialize(Message::Text(t.into()))) {
        Some(Ok(DeserializeResult::DataNeeded(q))) => {
            match guard("completing panics", || deserialize_partial(q, vec![Message::Binary(vec![1, 2].into())])) {
                Some(Ok(p)) => p,
                _ => return,
            }
        }
        _ => return,
    };
    cover("decoded");
    for i in 0..2 {
        if let Some((_, a)) = first(&p, i) {
            if n <= 1 {
                let _ = guard("displaying panics", || a.to_string());
            }
            let _ = guard("converting panics", || a.to_json_value().is_ok());
            let w = choice(3);
            let b = a.clone();
            guard("deserialising panics", || match w {
                0 => scalars(&a, &a),
                1 => compounds(&b, &b),
                _ => maps(&b, &b),
            });
        }
    }
    if n <= 1 {
        let _ = guard("displaying panics", || p.to_string());
    }
}

/// displaying packets with numbers, escapes and placeholders
pub fn display(n: usize) {
    warm();
    let mut t = String::from("\"e\"");
    for _ in 0..n {
        t.push(',');
        t.push_str(
            [
                "1e999",
                "-1e-999",
                "1.25",
                "{\"_placeholder\":true,\"num\":7}",
                "{\"_placeholder\":true,\"num\":1}",
                "{\"_placeholder\":1}",
                "[{\"k\":{\"_placeholder\":true,\"num\":0}},null]",
                "\"\\ud800\"",
                "\"\\u0000\u{e9}\"",
                "18446744073709551616",
                "{}",
            ][choice(11)],
        )
    }
    let content = vec![vec![byte(), 0], vec![]];
    assume(content[0][0] >= 100);
    if let Some(p) = packet(&t, &content) {
        let s = guard("displaying panics", || p.to_string());
        check(s.map_or(true, |s| s.len() > 5), "displays nothing");
        let s = guard("displaying panics", || format!("{} {:?}", p.data(), p));
        check(s.map_or(true, |s| s.len() > 5), "displays nothing");
        cover("displayed")
    }
    for t in ["0", "1/n,", "2[\"e\",1]", "39", "2/n,7[\"e\"]", "50-[1e999]"] {
        if let Some(Ok(DeserializeResult::Packet(p))) = guard("decoding panics", || deserialize(Message::Text(t.to_string().into()))) {
            let s = guard("displaying panics", || format!("{} {:?}", p, p.data()));
            check(s.map_or(true, |s| s.len() > 5), "displays nothing");
        }
    }
}

/// the two keys of a placeholder in the other order
pub fn other_order(_: usize) {
    warm();
    let content = vec![bytes(2)];
    if let Some(p) = packet("{\"num\":0,\"_placeholder\":true}", &content) {
        if let Some((_, a)) = first(&p, 0) {
            let v = guard("converting panics", || a.to_json_value().ok());
            check(matches!(v, Some(Some(v)) if bytes_of(&v).as_ref() == Some(&content[0])), "a placeholder whose num comes first does not convert");
            let v = guard("deserialising panics", || a.deserialize::<Vec<u8>>().ok());
            check(matches!(v, Some(Some(v)) if v == content[0]), "a placeholder whose num comes first does not deserialise")
        }
    }
}
