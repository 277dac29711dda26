//! The same guarantees for many of something, or for large ones: thresholds of count and size.
use crate::engine_h::OPEN;
use crate::packet::{receive, Buf};
use crate::sym::*;
use crate::text::{decode_check, warm};
use serde::{Serialize, Serializer};
use serde_json::Value;
use socket_io_protocol::engine;
use socket_io_protocol::engine::Message;
use socket_io_protocol::socket::*;
use tungstenite::Message as Ws;

/// n bytes, the first, the middle and the last of which are free
fn blob(n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = (0..n).map(|i| (i * 7 + 3) as u8).collect();
    for at in [0, n / 2, n.wrapping_sub(1)] {
        if let Some(x) = v.get_mut(at) {
            *x = byte()
        }
    }
    v
}
fn ascii() -> u8 {
    let b = byte();
    assume(b < 0x80);
    b
}
/// the same in ASCII
fn long_text(n: usize) -> String {
    let mut v: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
    for at in [0, n / 2, n.wrapping_sub(1)] {
        if let Some(x) = v.get_mut(at) {
            *x = ascii()
        }
    }
    String::from_utf8(v).unwrap()
}

/// C01: n messages on one decoder, then any kind of message
pub fn many_messages(n: usize) {
    let mut d = engine::Decoder::new();
    check(d.decode(Ws::Text(OPEN.to_string())).is_ok(), "open rejected");
    let bad = choice(2) == 1;
    for i in 0..n {
        let r = match i % 6 {
            0 => d.decode(engine::encode_ping()).map_or(false, |p| matches!(p, engine::Packet::Ping)),
            1 => d.decode(engine::encode_pong()).map_or(false, |p| matches!(p, engine::Packet::Pong)),
            2 => d.decode(engine::encode_message("x")).map_or(false, |p| matches!(p, engine::Packet::Message(Message::Text(_)))),
            3 => d.decode(engine::encode_binary(&[1])).map_or(false, |p| matches!(p, engine::Packet::Message(Message::Binary(_)))),
            4 if bad => d.decode(Ws::Text(OPEN.to_string())).is_err(),
            5 if bad => d.decode(Ws::Binary(vec![i as u8 | 8])).is_err(),
            _ => true,
        };
        check(r, "a message is decoded differently after many")
    }
    cover("many");
    let b = ascii();
    let r = match guard("decoding panics", || d.decode(Ws::Text(String::from_utf8(vec![b, b'q']).unwrap()))) {
        Some(r) => r,
        None => return,
    };
    match (b, r) {
        (b'1', Ok(engine::Packet::Close)) => {
            cover("close");
            check(d.decode(engine::encode_ping()).is_err(), "a message after close is accepted")
        }
        (b'2', Ok(engine::Packet::Ping)) | (b'3', Ok(engine::Packet::Pong)) => {}
        (b'4', Ok(engine::Packet::Message(Message::Text(t)))) => check(&t[..] == "q", "wrong text payload"),
        (b'1'..=b'4', _) => check(false, "decoded to the wrong packet"),
        (_, r) => check(r.is_err(), "a message that must be rejected is accepted"),
    }
}
/// C01: texts and binaries of n bytes
pub fn long_message(n: usize) {
    let mut d = engine::Decoder::new();
    check(d.decode(Ws::Text(OPEN.to_string())).is_ok(), "open rejected");
    let text = choice(2) == 0;
    let (m, first, rest) = if text {
        let t = long_text(n);
        (Ws::Text(t.clone()), t.as_bytes()[0], t.as_bytes()[1..].to_vec())
    } else {
        let b = blob(n);
        (Ws::Binary(b.clone()), b[0], b[1..].to_vec())
    };
    let r = match guard("decoding panics", || d.decode(m)) {
        Some(r) => r,
        None => return,
    };
    match r {
        Ok(engine::Packet::Message(Message::Text(t))) => {
            cover("text");
            check(text && first == b'4' && t.len() == rest.len() && t.as_bytes() == &rest[..], "wrong text payload")
        }
        Ok(engine::Packet::Message(Message::Binary(b))) => {
            cover("binary");
            check(!text && first == 4 && b.len() == rest.len() && b[..] == rest[..], "wrong binary payload")
        }
        Ok(engine::Packet::Close) => check(text && first == b'1', "decoded to the wrong packet"),
        Ok(engine::Packet::Ping) => check(text && first == b'2', "decoded to the wrong packet"),
        Ok(engine::Packet::Pong) => check(text && first == b'3', "decoded to the wrong packet"),
        Ok(engine::Packet::Open(_)) => check(false, "decoded to the wrong packet"),
        Err(_) => {
            cover("rejected");
            check(!(text && first >= b'1' && first <= b'4' || !text && first == 4), "a message that must be accepted is rejected")
        }
    }
}

/// C02: a text of n bytes
pub fn text_long(n: usize) {
    let t = long_text(n);
    let mut d = engine::Decoder::new();
    check(d.decode(Ws::Text(OPEN.to_string())).is_ok(), "open rejected");
    match guard("encoding panics", || engine::encode_message(&t)).map(|m| d.decode(m)) {
        Some(Ok(engine::Packet::Message(Message::Text(s)))) => {
            cover("text");
            check(s.len() == n && s[..] == t[..], "wrong text payload")
        }
        Some(_) => check(false, "not decoded to the text"),
        None => {}
    }
    let b = blob(n);
    match guard("encoding panics", || engine::encode_binary(&b)).map(|m| d.decode(m)) {
        Some(Ok(engine::Packet::Message(Message::Binary(s)))) => check(s.len() == n && s[..] == b[..], "wrong binary payload"),
        Some(_) => check(false, "not decoded to the bytes"),
        None => {}
    }
}

/// C04: a namespace, a string, a list and a number of n characters, or n arguments
pub fn long_parts(n: usize) {
    warm();
    let mut v = vec![b"2356"[choice(4)]];
    if v[0] > b'3' {
        v.extend_from_slice([&b"0-"[..], b"2-"][choice(2)])
    }
    let what = choice(8);
    let b = ascii();
    if what == 0 {
        v.push(b'/');
        v.extend((0..n).map(|i| b'a' + (i % 26) as u8));
        v.push(b);
        v.push(b',');
    }
    v.extend_from_slice(b"7[\"e\",");
    match what {
        1 => {
            v.push(b'"');
            v.extend((0..n).map(|i| b"a,]\\\"-/{[1"[if i % 10 == 4 && i + 1 == n { 0 } else { i % 10 }]));
            v.push(b);
            v.push(b'"')
        }
        2 => {
            for i in 0..n {
                v.extend_from_slice([&b"1,"[..], b"\"]\",", b"[],", b"{\"a\":[1]},", b" null ,"][i % 5])
            }
            v.push(b)
        }
        3 => {
            // (deeper than 128 is refused)
            let n = n.min(120);
            v.extend(std::iter::repeat(b'[').take(n));
            v.push(b);
            v.extend(std::iter::repeat(b']').take(n));
        }
        4 => {
            let n = n.min(60);
            for _ in 0..n {
                v.extend_from_slice(b"{\"k\":[")
            }
            v.push(b);
            for _ in 0..n {
                v.extend_from_slice(b"]}")
            }
        }
        5 => {
            v.extend((0..n).map(|i| b'1' + (i % 9) as u8));
            v.push(b)
        }
        6 => {
            v.extend(std::iter::repeat(b' ').take(n));
            v.push(b)
        }
        7 => {
            v.push(b'[');
            for i in 0..n {
                v.extend_from_slice(format!("\"{}\",", i).as_bytes())
            }
            v.extend_from_slice(b"1]");
            v.push(b)
        }
        _ => v.push(b'1'),
    }
    v.push(b']');
    decode_check(String::from_utf8(v).unwrap())
}

/// bytes of a size, text of a size, and lists: round trip
pub fn round_large(n: usize) {
    warm();
    let b = blob(n);
    let x = ascii();
    // (nothing that is escaped)
    assume(x > b',' && x < b'\\');
    let t = format!("{}{}{}", "r".repeat(n / 2), x as char, "s".repeat(n - n / 2));
    let list: Vec<u16> = (0..n.min(2000)).map(|i| i as u16).collect();
    let ns = format!("/{}", t);
    let binary = choice(2) == 1;
    let ev = choice(2) == 1;
    let ms = guard("building panics", || {
        let mut p = if ev { PacketBuilder::new_event(&t, &ns, Some(3), binary) } else { PacketBuilder::new_ack(&ns, 3, binary) };
        if binary {
            check(p.serialize_arg(&Buf(b.clone())).is_ok(), "serialising fails")
        }
        check(p.serialize_arg(&t).is_ok(), "serialising fails");
        check(p.serialize_arg(&list).is_ok(), "serialising fails");
        p.finish()
    });
    let p = match ms.and_then(receive) {
        Some(p) => p,
        None => return,
    };
    cover("round trip");
    check(p.namespace() == ns, "the namespace changed");
    let args = match p.data() {
        Data::Event { id: Some(3), args } if ev => args,
        Data::Ack { id: 3, args } if !ev => args,
        _ => return check(false, "the packet kind or id changed"),
    };
    let mut i = 0;
    if ev {
        check(args.get(0).map_or(false, |a| a.deserialize::<String>().map_or(false, |s| s == t)), "the event name changed");
        i += 1
    }
    if binary {
        check(args.get(i).map_or(false, |a| a.deserialize::<Vec<u8>>().map_or(false, |v| v == b)), "the attachment changed");
        i += 1
    }
    check(args.get(i).map_or(false, |a| a.deserialize::<String>().map_or(false, |s| s == t)), "an argument changed on the way");
    check(args.get(i + 1).map_or(false, |a| a.deserialize::<Vec<u16>>().map_or(false, |v| v == list)), "an argument changed on the way");
    check(args.len() == i + 2, "the number of arguments changed");
}

/// C08: a packet that declares n attachments, completed with n - 1, n or n + 1
pub fn many_attachments(n: usize) {
    warm();
    let b = byte();
    let given = n + choice(3) - 1;
    let t = format!("5{}-[\"e\",{{\"_placeholder\":true,\"num\":{}}}]", n, n - 1);
    let q = match guard("decoding panics", || deserialize(Message::Text(t.into()))) {
        Some(Ok(DeserializeResult::DataNeeded(q))) => q,
        Some(_) => return check(false, "declared attachments are not asked for"),
        None => return,
    };
    check(q.attachments() == n as u64, "asks for the wrong number of attachments");
    let v: Vec<Message> = (0..given).map(|i| Message::Binary(vec![i as u8, b].into())).collect();
    match guard("completing panics", || deserialize_partial(q, v)) {
        Some(Ok(p)) => {
            cover("completed");
            check(given == n, "a packet is completed with the wrong attachments");
            match p.data() {
                Data::Event { args, .. } => check(
                    args.len() == 2 && args.get(1).unwrap().deserialize::<Vec<u8>>().map_or(false, |v| v == [(n - 1) as u8, b]),
                    "a placeholder resolves to the wrong content",
                ),
                _ => check(false, "the packet kind changed"),
            }
        }
        Some(Err(_)) => {
            cover("refused");
            check(given != n, "a complete packet is refused")
        }
        None => {}
    }
}

/// C09, C13: a packet of n arguments, every third a placeholder (in any of two orders)
pub fn many_args(n: usize) {
    warm();
    let d = byte();
    assume(d.is_ascii_digit());
    let binary = choice(2) == 1;
    let atts = n / 3;
    let num = |i: usize| if i % 2 == 0 { i / 3 } else { atts - 1 - i / 3 };
    let mut t = if binary { format!("5{}-/n,9[\"e\"", atts) } else { "2/n,9[\"e\"".to_string() };
    let mut want = vec![Value::from("e")];
    for i in 0..n {
        t.push(',');
        match i % 3 {
            0 => {
                t.push('"');
                t.push(d as char);
                t.push_str(&format!("{}\"", i));
                want.push(Value::from(format!("{}{}", d as char, i)))
            }
            1 if binary && i / 3 < atts => {
                t.push_str(&format!("{{\"_placeholder\":true,\"num\":{}}}", num(i)));
                want.push(Value::from(vec![num(i) as u8, 200]))
            }
            _ => {
                t.push_str(&format!("[{}, \"]\"]", i));
                want.push(Value::from(vec![Value::from(i as u64), Value::from("]")]))
            }
        }
    }
    t.push(']');
    let mut r = match guard("decoding panics", || deserialize(Message::Text(t.into()))) {
        Some(Ok(r)) => r,
        Some(Err(_)) => return check(false, "a well-formed packet is rejected"),
        None => return,
    };
    if let DeserializeResult::DataNeeded(q) = r {
        check(binary && q.attachments() == atts as u64, "asks for the wrong number of attachments");
        let v: Vec<Message> = (0..atts).map(|i| Message::Binary(vec![i as u8, 200].into())).collect();
        r = match guard("completing panics", || deserialize_partial(q, v)) {
            Some(Ok(p)) => DeserializeResult::Packet(p),
            _ => return check(false, "a complete packet is refused"),
        }
    }
    let p = match r {
        DeserializeResult::Packet(p) => p,
        _ => return,
    };
    let args = match p.data() {
        Data::Event { id: Some(9), args } => args,
        _ => return check(false, "the packet kind or id changed"),
    };
    check(args.len() == want.len() && !args.is_empty(), "wrong number of arguments");
    let mut it = args.iter();
    for (i, w) in want.iter().enumerate() {
        match (args.get(i), it.next()) {
            (Some(a), Some(b)) => {
                check(a.to_json_value().map_or(false, |v| v == *w), "an argument converts to another value");
                check(b.deserialize::<Value>().map_or(false, |v| v == *w), "an argument deserialises to another value")
            }
            _ => check(false, "an argument is missing"),
        }
    }
    check(it.next().is_none() && args.get(want.len()).is_none(), "an argument past the end");
    cover("decoded");
    // again, out of order
    for i in (0..want.len()).rev() {
        check(args.get(i).map_or(false, |a| a.to_json_value().map_or(false, |v| v == want[i])), "an argument converts to another value")
    }
}

/// as bytes, through a way of serialising
struct By(usize, Vec<u8>);
impl Serialize for By {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.0 {
            0 => s.serialize_bytes(&self.1),
            1 => s.collect_seq(self.1.iter()),
            _ => s.serialize_some(&self.1),
        }
    }
}
/// C10: a buffer of n bytes, in any way of serialising; then a second one
pub fn large_buffer(n: usize) {
    let way = choice(3);
    let b = By(way, blob(n));
    let deep = choice(2) == 1;
    let ms = guard("serialising panics", || {
        let mut p = PacketBuilder::new_event("e", "/", None, true);
        if deep {
            check(p.serialize_arg(&vec![Some(&b)]).is_ok(), "serialising fails")
        } else {
            check(p.serialize_arg(&b).is_ok(), "serialising fails")
        }
        check(p.serialize_arg(&Buf(vec![1])).is_ok(), "serialising fails");
        p.finish()
    });
    let ms = match ms {
        Some(m) => m,
        None => return,
    };
    let (x, y) = if deep { ("[", "]") } else { ("", "") };
    let want = format!("452-[\"e\",{}{{\"_placeholder\":true,\"num\":0}}{},{{\"_placeholder\":true,\"num\":1}}]", x, y);
    check(ms.len() == 3, "wrong number of attachments");
    check(matches!(&ms[0], Ws::Text(t) if *t == want), "the text is not the value's JSON with placeholders");
    check(matches!(&ms[1], Ws::Binary(v) if v.len() == n + 1 && v[0] == 4 && v[1..] == b.1[..]), "wrong attachment content");
    check(matches!(&ms[2], Ws::Binary(v) if v[..] == [4, 1]), "wrong attachment content");
    cover("compared")
}
/// C10, C11: n arguments, each a buffer, some of them in lists, some of them failing
pub fn many_buffers(n: usize) {
    struct Fail(u8);
    impl Serialize for Fail {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            use serde::ser::{Error, SerializeSeq};
            let mut q = s.serialize_seq(None)?;
            q.serialize_element(&vec![self.0, 1])?;
            q.serialize_element(&Buf(vec![self.0]))?;
            Err(S::Error::custom("failing value"))
        }
    }
    let b = byte();
    let every = [usize::MAX, 3, 2][choice(3)];
    let mut want = String::from("[\"e\"");
    let mut atts: Vec<Vec<u8>> = Vec::new();
    let ph = |k: usize| format!("{{\"_placeholder\":true,\"num\":{}}}", k);
    let ms = guard("serialising panics", || {
        let mut p = PacketBuilder::new_event("e", "/", None, true);
        for i in 0..n {
            if i % every == 1 {
                check(p.serialize_arg(&Fail(b)).is_err(), "a failing value serialises");
                cover("failed")
            }
            want.push(',');
            let v = vec![4, i as u8, b];
            match i % 4 {
                0 => {
                    want.push_str(&ph(atts.len()));
                    check(p.serialize_arg(&Buf(v.clone())).is_ok(), "serialising fails")
                }
                1 => {
                    want.push_str(&ph(atts.len()));
                    check(p.serialize_arg(&v).is_ok(), "serialising fails")
                }
                2 => {
                    want.push_str(&format!("[{},[]]", ph(atts.len())));
                    check(p.serialize_arg(&vec![Buf(v.clone()), Buf(vec![])][..1].iter().map(|b| (b, Vec::<bool>::new())).next().unwrap()).is_ok(), "serialising fails")
                }
                _ => {
                    want.push_str(&format!("{{\"k\":[{},{}]}}", ph(atts.len()), ph(atts.len() + 1)));
                    atts.push(vec![4, 7]);
                    let m: std::collections::BTreeMap<&str, Vec<Buf>> = [("k", vec![Buf(vec![4, 7]), Buf(v.clone())])].into_iter().collect();
                    check(p.serialize_arg(&m).is_ok(), "serialising fails")
                }
            }
            atts.push(v)
        }
        p.finish()
    });
    let ms = match ms {
        Some(m) => m,
        None => return,
    };
    want.push(']');
    let want = format!("45{}-{}", atts.len(), want);
    check(ms.len() == 1 + atts.len(), "wrong number of attachments");
    check(matches!(&ms[0], Ws::Text(t) if *t == want), "the text is not the value's JSON with placeholders");
    for (m, a) in ms[1..].iter().zip(&atts) {
        check(matches!(m, Ws::Binary(v) if v[0] == 4 && v[1..] == a[..]), "wrong attachment content")
    }
    cover("compared")
}
/// C12: a long argument, as the same with attachments
pub fn long_same(n: usize) {
    warm();
    let d = ascii();
    let list: Vec<String> = (0..n).map(|i| format!("{{\"k{}\":[{},\"x\",null]}}", i, i)).collect();
    let arg = match choice(5) {
        0 => format!("[{}]", list.join(",")),
        1 => format!("\"{}{}\"", "z".repeat(n), d as char),
        2 => {
            // (deeper than 127 is an error, before which the depths may differ)
            let n = n.min(100);
            format!("{}{}{}", "[".repeat(n), d as char, "]".repeat(n))
        }
        3 => {
            let n = n.min(100);
            format!("{}{}{}", "{\"a\":".repeat(n), d as char, "}".repeat(n))
        }
        _ => format!("{{{}}}", (0..n).map(|i| format!("\"k{}\":{}", i, i)).collect::<Vec<_>>().join(",")),
    };
    let p = match guard("decoding panics", || deserialize(Message::Text(format!("2[{}]", arg).into()))) {
        Some(Ok(DeserializeResult::Packet(p))) => p,
        Some(_) => return,
        None => return,
    };
    let q = match guard("decoding panics", || deserialize(Message::Text(format!("51-[{}]", arg).into()))) {
        Some(Ok(DeserializeResult::DataNeeded(q))) => q,
        Some(_) => return check(false, "a binary packet is not accepted"),
        None => return,
    };
    let q = match guard("completing panics", || deserialize_partial(q, vec![Message::Binary(vec![1].into())])) {
        Some(Ok(q)) => q,
        _ => return check(false, "a binary packet is not completed"),
    };
    if let (Data::Event { args: a, .. }, Data::Event { args: b, .. }) = (p.data(), q.data()) {
        check(a.len() == b.len(), "attachments change the number of arguments");
        for i in 0..a.len() {
            let (a, b) = (a.get(i).unwrap(), b.get(i).unwrap());
            let (x, y) = (a.to_json_value(), b.to_json_value());
            check(x.is_ok() == y.is_ok() && x.ok() == y.ok(), "attachments change the value");
            let (x, y) = (a.deserialize::<Vec<Value>>(), b.deserialize::<Vec<Value>>());
            check(x.is_ok() == y.is_ok() && x.ok() == y.ok(), "attachments change the value");
            let (x, y) = (a.deserialize::<&str>(), b.deserialize::<&str>());
            check(x.is_ok() == y.is_ok() && x.ok() == y.ok(), "attachments change the value");
            cover("same value")
        }
    }
}

/// C08: any count, of n free digits after a few leading ones; few attachments are given
pub fn declared(n: usize) {
    warm();
    let lead = ["", "1", "25", "6553", "1677721", "21474836", "42949672", "90071992547409", "92233720368547758", "184467440737095516"];
    let mut t = String::from(["5", "6"][choice(2)]);
    t.push_str(lead[choice(lead.len())]);
    for _ in 0..n {
        let d = byte();
        assume(d.is_ascii_digit());
        t.push(d as char)
    }
    let digits = t.as_bytes()[1..].to_vec();
    let count = if digits.is_empty() || digits.len() > 1 && digits[0] == b'0' {
        None
    } else {
        digits.iter().try_fold(0u64, |x, d| x.checked_mul(10)?.checked_add((d - b'0') as u64))
    };
    t.push_str("-7[\"e\"]");
    match (guard("decoding panics", || deserialize(Message::Text(t.into()))), count) {
        (Some(Ok(DeserializeResult::DataNeeded(q))), Some(c)) => {
            cover("asks");
            check(c > 0 && q.attachments() == c, "asks for the wrong number of attachments");
            let given = choice(4);
            let v: Vec<Message> = (0..given).map(|i| Message::Binary(vec![i as u8].into())).collect();
            match guard("completing panics", || deserialize_partial(q, v)) {
                Some(Ok(_)) => check(given as u64 == c, "a packet is completed with the wrong attachments"),
                Some(Err(_)) => {
                    cover("refused");
                    check(given as u64 != c, "a complete packet is refused")
                }
                None => {}
            }
        }
        (Some(Ok(DeserializeResult::Packet(_))), Some(c)) => check(c == 0, "declared attachments are not asked for"),
        (Some(Err(_)), None) => cover("impossible"),
        (Some(_), _) => check(false, "a count is read wrongly"),
        (None, _) => {}
    }
}
