//! C06, C07, C08, C09: packets.
use crate::oracle::*;
use crate::sym::*;
use crate::text::warm;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use socket_io_protocol::engine;
use socket_io_protocol::engine::Message;
use socket_io_protocol::socket::*;
use std::collections::BTreeMap;
use tungstenite::Message as Ws;

/// decodes complete websocket messages on an open connection
pub fn receive(ms: Vec<Ws>) -> Option<Packet> {
    let mut d = engine::Decoder::new();
    check(d.decode(Ws::Text(crate::engine_h::OPEN.to_string())).is_ok(), "open rejected");
    let mut got: Vec<Message> = Vec::new();
    for m in ms {
        match guard("decoding panics", || d.decode(m)) {
            Some(Ok(engine::Packet::Message(m))) => got.push(m),
            Some(_) => {
                check(false, "what was encoded is not an engine.io message");
                return None;
            }
            None => return None,
        }
    }
    if got.is_empty() {
        check(false, "nothing to send");
        return None;
    }
    let head = got.remove(0);
    match guard("decoding panics", || deserialize(head)) {
        Some(Ok(DeserializeResult::Packet(p))) => {
            check(got.is_empty(), "more messages than the packet needs");
            Some(p)
        }
        Some(Ok(DeserializeResult::DataNeeded(part))) => {
            check(part.attachments() == got.len() as u64, "asks for another number of attachments than were sent");
            match guard("completing panics", || deserialize_partial(part, got)) {
                Some(Ok(p)) => Some(p),
                Some(Err(_)) => {
                    check(false, "what was encoded is rejected");
                    None
                }
                None => None,
            }
        }
        Some(Err(_)) => {
            check(false, "what was encoded is rejected");
            None
        }
        None => None,
    }
}

/// a namespace with n arbitrary characters, or "/"
fn namespace(n: usize) -> String {
    if n == 0 {
        return "/".to_string();
    }
    let mut v = vec![b'/'];
    for _ in 0..n {
        let b = byte();
        assume(b != b',');
        v.push(b)
    }
    match String::from_utf8(v) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            unreachable!()
        }
    }
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub struct Rec {
    pub a: u8,
    pub b: Option<String>,
    #[serde(default)]
    pub c: Vec<bool>,
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub enum En {
    Unit,
    New(String),
    Tup(u8, i16),
    Str { x: u8 },
}

/// byte buffers
#[derive(PartialEq, Debug, Clone)]
pub struct Buf(pub Vec<u8>);
impl Serialize for Buf {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
struct BufV;
impl<'de> serde::de::Visitor<'de> for BufV {
    type Value = Buf;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("bytes")
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<Buf, E> {
        Ok(Buf(v.to_vec()))
    }
    fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<Buf, E> {
        Ok(Buf(v))
    }
    fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Buf, A::Error> {
        let mut v = Vec::new();
        while let Some(b) = a.next_element()? {
            v.push(b)
        }
        Ok(Buf(v))
    }
}
impl<'de> Deserialize<'de> for Buf {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Buf, D::Error> {
        d.deserialize_byte_buf(BufV)
    }
}

trait Sent {
    fn add(&self, b: &mut PacketBuilder);
    fn found(&self, a: Arg, show: bool);
}

struct S<T>(T);
impl<T: Serialize + for<'a> Deserialize<'a> + PartialEq> Sent for S<T> {
    fn add(&self, b: &mut PacketBuilder) {
        let r = guard("serialising panics", || b.serialize_arg(&self.0));
        check(matches!(r, Some(Ok(()))), "serialising fails");
    }
    fn found(&self, a: Arg, show: bool) {
        match guard("deserialising panics", || a.deserialize::<T>()) {
            Some(Ok(v)) => check(v == self.0, "an argument changed on the way"),
            Some(Err(_)) => check(false, "a sent argument does not deserialise"),
            None => {}
        }
        if show {
            let _ = guard("displaying panics", || a.to_string());
        }
    }
}

/// any byte; its decimal length is fixed before it is used (and is 3 when several arguments vary)
fn num(n: usize) -> u8 {
    let (lo, hi) = [(100, 255), (0, 9), (10, 99)][if n == 0 { 0 } else { choice(3) }];
    let b = byte();
    assume(lo <= b && b <= hi);
    b
}

fn arg(n: usize) -> Box<dyn Sent> {
    match choice(14) {
        0 => Box::new(S(text(n))),
        1 => Box::new(S(num(n))),
        2 => Box::new(S(-(num(n) as i64) - 1)),
        3 => Box::new(S(num(n) & 1 == 1)),
        4 => Box::new(S(Option::<u8>::None)),
        5 => Box::new(S(vec![text(n), "x".to_string()])),
        6 => {
            let mut m = BTreeMap::new();
            m.insert(text(n), vec![1u16]);
            m.insert("_placeholder2".to_string(), vec![]);
            Box::new(S(m))
        }
        7 => Box::new(S(Rec { a: num(n), b: Some(text(n)), c: vec![true, false] })),
        8 => Box::new(S([En::Unit, En::New(text(n)), En::Tup(num(n), -5), En::Str { x: num(n) }][choice(4)].clone())),
        9 => Box::new(S(bytes(n))),
        10 => Box::new(S(Buf(bytes(n)))),
        11 => Box::new(S((num(n), "t,]\"".to_string(), Some(3u8)))),
        12 => Box::new(S(vec![vec![num(n)], vec![]])),
        _ => Box::new(S([u64::MAX, i64::MAX as u64 + 1, 0][choice(3)])),
    }
}

fn build(nsp: &str, event: Option<&str>, id: Option<u64>, binary: bool, args: &[Box<dyn Sent>]) -> Option<Vec<Ws>> {
    guard("building panics", || {
        let mut b = match event {
            Some(e) => PacketBuilder::new_event(e, nsp, id, binary),
            None => PacketBuilder::new_ack(nsp, id.unwrap(), binary),
        };
        for a in args {
            a.add(&mut b)
        }
        b.finish()
    })
}

fn round(nsp: &str, event: Option<&str>, id: Option<u64>, binary: bool, args: &[Box<dyn Sent>]) {
    let ms = match build(nsp, event, id, binary, args) {
        Some(m) => m,
        None => return,
    };
    let p = match receive(ms) {
        Some(p) => p,
        None => return,
    };
    cover("round trip");
    check(p.namespace().len() == nsp.len() && p.namespace() == nsp, "the namespace changed");
    let list = match (p.data(), event) {
        (Data::Event { id: i, args }, Some(_)) => {
            check(i == id, "the id changed");
            args
        }
        (Data::Ack { id: i, args }, None) => {
            check(Some(i) == id, "the id changed");
            args
        }
        _ => return check(false, "the packet kind changed"),
    };
    let first = event.is_some() as usize;
    check(list.len() == first + args.len(), "the number of arguments changed");
    if let Some(e) = event {
        match list.get(0).map(|a| a.deserialize::<String>()) {
            Some(Ok(s)) => check(s.len() == e.len() && s == e, "the event name changed"),
            _ => check(false, "the event name is not a string"),
        }
    }
    for (i, a) in args.iter().enumerate() {
        match list.get(first + i) {
            Some(x) => a.found(x, args.len() < 2),
            None => check(false, "an argument is lost"),
        }
    }
    log(&[list.len() as u8]);
}

fn some_id(k: usize) -> Option<u64> {
    match k {
        0 => None,
        1 => Some(byte() as u64),
        2 => Some(u64::MAX),
        3 => Some(10000),
        _ => Some(u64::MAX / 10 + 1),
    }
}

/// event names of n arbitrary bytes
pub fn round_name(n: usize) {
    warm();
    let e = text(n);
    let id = some_id(choice(2));
    round(["/", "/n"][choice(2)], Some(&e), id, choice(2) == 1, &[])
}

/// namespaces of n arbitrary bytes
pub fn round_nsp(n: usize) {
    warm();
    let s = namespace(n);
    let ev = choice(2) == 1;
    let id = some_id(choice(5));
    assume(ev || id.is_some());
    let args: Vec<Box<dyn Sent>> = match choice(2) {
        0 => vec![],
        _ => vec![Box::new(S(Buf(vec![1, 2]))), Box::new(S(vec!["a,[".to_string()]))],
    };
    round(&s, if ev { Some("e") } else { None }, id, choice(2) == 1, &args)
}

/// n arguments
pub fn round_args(n: usize) {
    warm();
    let args: Vec<_> = (0..n).map(|_| arg(if n > 1 { 0 } else { 1 })).collect();
    let ev = choice(2) == 1;
    let binary = choice(2) == 1;
    round("/", if ev { Some("e") } else { None }, Some(7), binary, &args)
}

/// one argument with n arbitrary bytes in it
pub fn round_arg(n: usize) {
    warm();
    let args = vec![arg(n)];
    let binary = choice(2) == 1;
    round("/a", Some("e"), None, binary, &args)
}

/// ids and attachment numbers
pub fn round_id(_: usize) {
    warm();
    let id = [0, 9990, u64::MAX - 255][choice(3)] + byte() as u64;
    round("/", None, Some(id), choice(2) == 1, &[])
}

/// n attachments, one of them with an arbitrary byte
pub fn round_many(n: usize) {
    warm();
    let b = byte();
    let args: Vec<Box<dyn Sent>> = (0..n).map(|i| Box::new(S(Buf(vec![i as u8, b]))) as Box<dyn Sent>).collect();
    round("/", Some("e"), None, true, &args)
}

/// C07
pub fn connect(n: usize) {
    warm();
    let s = namespace(n);
    let con = choice(2) == 0;
    let m = match guard("encoding panics", || if con { serialize_connect(&s) } else { serialize_disconnect(&s) }) {
        Some(m) => m,
        None => return,
    };
    let t = match m {
        Message::Text(t) => t,
        Message::Binary(_) => return check(false, "not a text message"),
    };
    let t = t.to_string();
    let ws = match guard("packaging panics", || engine::package_message(t)) {
        Some(w) => w,
        None => return,
    };
    if let Some(p) = receive(vec![ws]) {
        check(p.namespace().len() == s.len() && p.namespace() == s, "the namespace changed");
        match (p.data(), con) {
            (Data::Connect, true) => cover("connect"),
            (Data::Disconnect, false) => cover("disconnect"),
            _ => check(false, "the packet kind changed"),
        }
    }
}

/// C08: attachment counts. Digits of the count and of the placeholders are arbitrary.
pub fn assembly(n: usize) {
    warm();
    let kind = b"56"[choice(2)];
    let c = byte();
    assume(c >= b'0' && c < b'5');
    let declared = (c - b'0') as usize;
    let mut t = vec![kind, c];
    t.extend_from_slice([&b"-1[\"e\","[..], b"-/n,4[7,"][choice(2)]);
    let k = byte();
    assume(k >= b'0' && k <= b'9');
    t.extend_from_slice(b"{\"_placeholder\":true,\"num\":");
    t.push(k);
    t.extend_from_slice(b"}]");
    // what is given: n messages, possibly with a text among them
    let texty = choice(n + 1);
    let mut content = Vec::new();
    let mut given = Vec::new();
    for i in 0..n {
        if i == texty {
            given.push(Message::Text([String::new(), "4".to_string(), "x".to_string()][choice(3)].clone().into()));
            content.push(vec![])
        } else {
            let v = bytes(i % 3);
            content.push(v.clone());
            given.push(Message::Binary(v.into()))
        }
    }
    let r = match guard("decoding panics", || deserialize(Message::Text(String::from_utf8(t).unwrap().into()))) {
        Some(Ok(r)) => r,
        Some(Err(_)) => return check(false, "a binary packet is rejected"),
        None => return,
    };
    let p = match r {
        DeserializeResult::Packet(p) => {
            cover("immediate");
            check(declared == 0, "attachments are not asked for");
            p
        }
        DeserializeResult::DataNeeded(part) => {
            check(part.attachments() == declared as u64, "asks for the wrong number of attachments");
            check(declared != 0, "asks for no attachments");
            let good = n == declared && texty >= n;
            match guard("completing panics", || deserialize_partial(part, given)) {
                Some(Ok(p)) => {
                    cover("completed");
                    check(good, "a packet is completed with the wrong attachments");
                    p
                }
                Some(Err(_)) => {
                    cover("refused");
                    return check(!good, "a complete packet is refused");
                }
                None => return,
            }
        }
    };
    let (is_ev, args) = match p.data() {
        Data::Event { args, .. } => (true, args),
        Data::Ack { args, .. } => (false, args),
        _ => return check(false, "the packet kind changed"),
    };
    check(is_ev == (kind == b'5'), "the packet kind changed");
    check(args.len() == 2, "wrong number of arguments");
    if declared == 0 {
        return;
    }
    let k = (k - b'0') as usize;
    let a = args.get(1).unwrap();
    let r = guard("deserialising panics", || a.deserialize::<Buf>());
    match r {
        Some(Ok(b)) => {
            cover("resolved");
            check(k < declared, "a placeholder out of range resolves");
            if k < declared {
                check(b.0.len() == content[k].len() && b.0 == content[k], "a placeholder resolves to the wrong content")
            }
        }
        Some(Err(_)) => check(k >= declared, "a placeholder does not resolve"),
        None => {}
    }
}

/// C08: a binary message outside an assembly
pub fn stray_binary(n: usize) {
    let r = guard("decoding panics", || deserialize(Message::Binary(bytes(n).into())));
    check(matches!(r, Some(Err(_))), "a binary message outside an assembly is accepted");
    cover("refused")
}

/// C08: text kinds with a count; connect and disconnect with a count
pub fn text_count(n: usize) {
    warm();
    let kind = b"0123"[choice(4)];
    let mut t = vec![kind];
    for _ in 0..n {
        let b = byte();
        assume(b >= b'0' && b <= b'9');
        t.push(b)
    }
    t.extend_from_slice(b"-");
    let body = choice(3);
    t.extend_from_slice([&b""[..], b"1[\"a\"]", b"/n,3[\"a\"]"][body]);
    let zero = n == 1 && t[1] == b'0';
    let ok = zero && kind >= b'2' && body > 0;
    match guard("decoding panics", || deserialize(Message::Text(String::from_utf8(t).unwrap().into()))) {
        Some(Ok(DeserializeResult::Packet(_))) => {
            cover("accepted");
            check(ok, "a text packet with attachments is accepted")
        }
        Some(Ok(_)) => check(false, "a text packet asks for attachments"),
        Some(Err(_)) => {
            cover("refused");
            check(!ok, "a text packet with zero attachments is rejected")
        }
        None => {}
    }
}

fn same_result<T: PartialEq, E, F>(a: Option<Result<T, E>>, b: Result<T, F>, m: &str) {
    match (a, b) {
        (Some(Ok(a)), Ok(b)) => {
            cover("same value");
            check(a == b, m)
        }
        (Some(Err(_)), Err(_)) => {
            cover("both fail");
            log(b"f")
        }
        (None, _) => {}
        _ => check(false, m),
    }
}

/// the arguments of a packet are those JSON texts
fn args_are(args: &Args, want: &[String], typed: bool, show: bool) {
    check(args.len() == want.len(), "wrong number of arguments");
    check(args.is_empty() == want.is_empty(), "is_empty disagrees");
    check(args.get(want.len()).is_none() && args.get(usize::MAX).is_none(), "an argument past the end");
    let mut it = args.iter();
    for (i, w) in want.iter().enumerate() {
        let (a, b) = match (args.get(i), it.next()) {
            (Some(a), Some(b)) => (a, b),
            _ => return check(false, "an argument is missing"),
        };
        for x in [&a, &b] {
            same_result(guard("converting panics", || x.to_json_value()), serde_json::from_str::<Value>(w), "an argument converts to another value");
        }
        if typed {
            same_result(guard("deserialising panics", || a.deserialize::<String>()), serde_json::from_str::<String>(w), "deserialises to another string");
            same_result(guard("deserialising panics", || a.deserialize::<u64>()), serde_json::from_str::<u64>(w), "deserialises to another number");
            same_result(guard("deserialising panics", || b.deserialize::<Vec<i32>>()), serde_json::from_str::<Vec<i32>>(w), "deserialises to another sequence");
            same_result(guard("deserialising panics", || b.deserialize::<&str>()), serde_json::from_str::<&str>(w), "deserialises to another str");
        }
        // (formatting numbers splits paths too much beyond one byte)
        if show {
            let _ = guard("displaying panics", || a.to_string());
        }
    }
    check(it.next().is_none(), "iteration goes on past the end");
}

/// C09: argument lists around n arbitrary bytes
pub fn access(n: usize) {
    warm();
    let (pre, post) = [
        ("2[", "]"),
        ("3/n,5[[1,\"],\"],", "]"),
        ("2[\"", "\"]"),
        ("50-12[{\"k\":\"v\"},\"", "\",[]]"),
        ("2[\"e\",{\"a\":", "}, null ]"),
        ("2[ [", "] , 3]"),
        ("31[1", "]"),
    ][choice(7)];
    let mut v = pre.as_bytes().to_vec();
    v.extend(bytes(n));
    v.extend_from_slice(post.as_bytes());
    let t = match String::from_utf8(v) {
        Ok(t) => t,
        Err(_) => return,
    };
    let at = t.find('[').unwrap();
    let spans = match json_array(t.as_bytes(), at) {
        Some(s) => s,
        None => return,
    };
    let want: Vec<String> = spans.iter().map(|s| t[s.0..s.1].to_string()).collect();
    let p = match guard("decoding panics", || deserialize(Message::Text(t.into()))) {
        Some(Ok(DeserializeResult::Packet(p))) => p,
        Some(_) => return,
        None => return,
    };
    cover("decoded");
    match p.data() {
        Data::Event { args, .. } | Data::Ack { args, .. } => args_are(&args, &want, n <= 1, n <= 1),
        _ => check(false, "the packet kind changed"),
    };
    if n <= 1 {
        let _ = guard("displaying panics", || p.to_string());
    }
}

/// C09: n arguments out of a list of JSON texts
pub fn access_list(n: usize) {
    warm();
    let b = byte();
    assume(b >= b'0' && b <= b'9');
    let d = b as char;
    let mut want = Vec::new();
    for _ in 0..n {
        want.push(match choice(18) {
            0 => format!("{}", d),
            1 => format!("-{}", d),
            2 => format!("\"\\u00e{}\"", d),
            3 => "\"\\ud800\"".to_string(),
            4 => "[ ]".to_string(),
            5 => "[1,[2,\"]\"],{}]".to_string(),
            6 => "{ \"a\" : [ {\"b\":null} ] }".to_string(),
            7 => "1e999".to_string(),
            8 => "18446744073709551616".to_string(),
            9 => "\"\u{e9}\u{20ac}\u{10348}\"".to_string(),
            10 => "{\"_placeholder\":true,\"num\":0}".to_string(),
            11 => "true".to_string(),
            12 => "null".to_string(),
            13 => "\"\"".to_string(),
            14 => "{}".to_string(),
            15 => "[]".to_string(),
            16 => "false".to_string(),
            _ => "{\"a\":1,\"a\":2}".to_string(),
        })
    }
    let sep = ["", " ", "\n"][choice(3)];
    let mut t = String::from("21[\"e\"");
    for w in &want {
        t.push_str(sep);
        t.push(',');
        t.push_str(sep);
        t.push_str(w)
    }
    t.push_str(sep);
    t.push(']');
    want.insert(0, "\"e\"".to_string());
    let p = match guard("decoding panics", || deserialize(Message::Text(t.into()))) {
        Some(Ok(DeserializeResult::Packet(p))) => p,
        Some(_) => return check(false, "a well-formed packet is rejected"),
        None => return,
    };
    match p.data() {
        Data::Event { args, .. } => args_are(&args, &want, false, true),
        _ => check(false, "the packet kind changed"),
    };
    let _ = guard("displaying panics", || p.to_string());
}
