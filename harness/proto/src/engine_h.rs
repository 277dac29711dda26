//! C01, C02: the engine.io layer.
use crate::sym::*;
use socket_io_protocol::engine::*;
use tungstenite::protocol::CloseFrame;
use tungstenite::Message as Ws;

pub const OPEN: &str = "0{\"sid\":\"s\",\"upgrades\":[],\"pingInterval\":1,\"pingTimeout\":2}";

#[derive(Clone, Copy, PartialEq)]
enum St {
    Initial,
    Active,
    Closed,
}

/// what decoding must give
enum Want<'a> {
    Err,
    Open(String, u64, u64),
    Close,
    Ping,
    Pong,
    Text(&'a [u8]),
    Bin(&'a [u8]),
}

fn open_decoder() -> Decoder {
    let mut d = Decoder::new();
    check(d.decode(Ws::Text(OPEN.to_string())).is_ok(), "open rejected");
    d
}

/// the reference lifecycle for one message that is not a well-formed open
fn step<'a>(s: &mut St, m: &'a Ws) -> Want<'a> {
    if *s != St::Active {
        return Want::Err;
    }
    match m {
        Ws::Text(t) => {
            let b = t.as_bytes();
            if b.is_empty() {
                return Want::Err;
            }
            match b[0] {
                b'1' => {
                    *s = St::Closed;
                    Want::Close
                }
                b'2' => Want::Ping,
                b'3' => Want::Pong,
                b'4' => Want::Text(&b[1..]),
                _ => Want::Err,
            }
        }
        Ws::Binary(b) => {
            if !b.is_empty() && b[0] == 4 {
                Want::Bin(&b[1..])
            } else {
                Want::Err
            }
        }
        _ => Want::Err,
    }
}

fn compare(d: &mut Decoder, mut m: Ws, w: Want) {
    // as received: with room for more
    match &mut m {
        Ws::Text(t) => t.reserve(3),
        Ws::Binary(b) => b.reserve(3),
        _ => {}
    }
    let r = match guard("decoding panics", || d.decode(m)) {
        Some(r) => r,
        None => return,
    };
    match (w, r) {
        (Want::Err, Err(_)) => {
            cover("rejected");
            log(b"e")
        }
        (Want::Err, Ok(_)) => check(false, "a message that must be rejected is accepted"),
        (Want::Open(sid, pi, pt), Ok(Packet::Open(o))) => {
            cover("open");
            check(o.sid.len() == sid.len() && o.sid == sid, "wrong sid");
            check(u64::from(o.ping_interval) == pi, "wrong ping interval");
            check(u64::from(o.ping_timeout) == pt, "wrong ping timeout");
        }
        (Want::Close, Ok(Packet::Close)) => cover("close"),
        (Want::Ping, Ok(Packet::Ping)) => cover("ping"),
        (Want::Pong, Ok(Packet::Pong)) => cover("pong"),
        (Want::Text(t), Ok(Packet::Message(Message::Text(s)))) => {
            cover("text");
            check(s.len() == t.len() && s.as_bytes() == t, "wrong text payload")
        }
        (Want::Bin(t), Ok(Packet::Message(Message::Binary(s)))) => {
            cover("binary");
            check(s.len() == t.len() && &s[..] == t, "wrong binary payload")
        }
        (_, Err(_)) => check(false, "a message that must be accepted is rejected"),
        (_, Ok(_)) => check(false, "decoded to the wrong packet"),
    }
}

/// decodes m and compares; m is not a well-formed open
fn one(d: &mut Decoder, s: &mut St, m: Ws) {
    let c = m.clone();
    let w = step(s, &c);
    compare(d, m, w)
}

fn open_now(d: &mut Decoder, s: &mut St) {
    let w = if *s == St::Initial {
        *s = St::Active;
        Want::Open("s".to_string(), 1, 2)
    } else {
        Want::Err
    };
    compare(d, Ws::Text(OPEN.to_string()), w)
}

/// the state after a sequence is what the reference says
fn probe(d: &mut Decoder, s: &mut St) {
    one(d, s, Ws::Text("2".to_string()));
    open_now(d, s);
    one(d, s, Ws::Text("4x".to_string()));
    one(d, s, Ws::Binary(vec![4, 9]));
    one(d, s, Ws::Text("1".to_string()));
    one(d, s, Ws::Text("3".to_string()));
    open_now(d, s);
}

fn in_state() -> (Decoder, St) {
    let mut d = Decoder::new();
    let mut s = St::Initial;
    let k = choice(3);
    if k > 0 {
        open_now(&mut d, &mut s)
    }
    if k > 1 {
        one(&mut d, &mut s, Ws::Text("1".to_string()))
    }
    (d, s)
}

/// n messages, each of any kind with few arbitrary bytes
pub fn sequence(n: usize) {
    let mut d = Decoder::new();
    let mut s = St::Initial;
    for _ in 0..n {
        match choice(9) {
            0 => open_now(&mut d, &mut s),
            1 => one(&mut d, &mut s, Ws::Text(String::new())),
            2 => {
                let b = byte();
                assume(b < 0x80);
                one(&mut d, &mut s, Ws::Text(String::from_utf8(vec![b, b'a']).unwrap()))
            }
            3 => one(&mut d, &mut s, Ws::Binary(bytes(2))),
            4 => one(&mut d, &mut s, Ws::Binary(Vec::new())),
            5 => one(&mut d, &mut s, Ws::Ping(bytes(1))),
            6 => one(&mut d, &mut s, Ws::Pong(vec![])),
            7 => one(
                &mut d,
                &mut s,
                Ws::Close(if choice(2) == 0 {
                    None
                } else {
                    Some(CloseFrame { code: 1000u16.into(), reason: "".into() })
                }),
            ),
            _ => one(&mut d, &mut s, Ws::Text("0{\"sid\":\"s\"}".to_string())),
        }
    }
    probe(&mut d, &mut s)
}

/// any text of n bytes in any state
pub fn any_text(n: usize) {
    let (mut d, mut s) = in_state();
    let t = text(n);
    one(&mut d, &mut s, Ws::Text(t));
    probe(&mut d, &mut s)
}

/// any binary of n bytes in any state
pub fn any_binary(n: usize) {
    let (mut d, mut s) = in_state();
    one(&mut d, &mut s, Ws::Binary(bytes(n)));
    probe(&mut d, &mut s)
}

/// websocket control frames with n arbitrary bytes in any state
pub fn any_control(n: usize) {
    let (mut d, mut s) = in_state();
    let m = match choice(3) {
        0 => Ws::Ping(bytes(n)),
        1 => Ws::Pong(bytes(n)),
        _ => Ws::Close(Some(CloseFrame { code: 1000u16.into(), reason: text(n).into() })),
    };
    one(&mut d, &mut s, m);
    probe(&mut d, &mut s)
}

/// open packets with n arbitrary bytes in the session id
pub fn open_sid(n: usize) {
    let t = text(n);
    let mut plain = true;
    for b in t.bytes() {
        if b < 0x20 || b == b'"' || b == b'\\' {
            plain = false
        }
    }
    let (pre, post) = [
        ("0{\"sid\":\"", "\",\"pingInterval\":25000,\"pingTimeout\":5000}"),
        ("0{\"pingTimeout\":5000,\"upgrades\":[],\"pingInterval\":25000,\"sid\":\"", "\"}"),
        ("0 {\"x\":{\"sid\":1},\"sid\":\"", "\" , \"pingInterval\":25000, \"pingTimeout\":5000}\n"),
    ][choice(3)];
    let mut m = String::from(pre);
    m.push_str(&t);
    m.push_str(post);
    let mut d = Decoder::new();
    if plain {
        compare(&mut d, Ws::Text(m), Want::Open(t, 25000, 5000));
        let mut s = St::Active;
        probe(&mut d, &mut s)
    } else {
        // quotes, escapes and control characters: not compared further, but never a panic, and
        // the state follows the outcome
        let r = guard("decoding panics", || d.decode(Ws::Text(m)));
        let mut s = match r {
            Some(Ok(Packet::Open(_))) => St::Active,
            Some(Err(_)) => St::Initial,
            _ => return check(false, "an open packet decodes to something else"),
        };
        cover("escaped");
        probe(&mut d, &mut s)
    }
}

/// open packets with n arbitrary bytes as a number
pub fn open_number(n: usize) {
    let t = bytes(n);
    let digits = t.iter().all(|b| b.is_ascii_digit());
    // what else is a number (or space around one) is not compared
    assume(digits || t.iter().all(|b| *b > b' ' && *b != b'-' && *b < 0x80 && *b != b',' && *b != b'}'));
    let mut m = String::from("0{\"sid\":\"q\",");
    let which = choice(2);
    m.push_str(["\"pingInterval\":", "\"pingTimeout\":"][which]);
    // digits in front, so that it is next to where types end
    let front = ["", "429496729", "900719925474099", "9223372036854775", "1844674407370955161"][choice(if digits && n > 0 { 5 } else { 1 })];
    m.push_str(front);
    m.push_str(match std::str::from_utf8(&t) {
        Ok(s) => s,
        Err(_) => return,
    });
    m.push_str([",\"pingTimeout\":8}", ",\"pingInterval\":8}"][which]);
    let mut v = 0u64;
    for b in &t {
        v = (v * 10).wrapping_add(b.wrapping_sub(b'0') as u64) & 0xf_ffff
    }
    let mut ok = n > 0 && digits && (n == 1 || t[0] != b'0' || !front.is_empty());
    if !front.is_empty() {
        let mut f: u128 = front.parse().unwrap();
        for _ in 0..n {
            f *= 10
        }
        let all = f + v as u128;
        ok = all <= u64::MAX as u128;
        v = all as u64
    }
    let mut d = Decoder::new();
    let mut s = if ok { St::Active } else { St::Initial };
    let w = if ok {
        Want::Open("q".to_string(), if which == 0 { v } else { 8 }, if which == 0 { 8 } else { v })
    } else {
        Want::Err
    };
    compare(&mut d, Ws::Text(m), w);
    probe(&mut d, &mut s)
}

/// packets that are no well-formed open
pub fn open_malformed(n: usize) {
    let t = [
        "0",
        "0{}",
        "0{\"sid\":\"s\",\"pingInterval\":1}",
        "0{\"sid\":\"s\",\"pingTimeout\":1}",
        "0{\"pingInterval\":1,\"pingTimeout\":1}",
        "0{\"sid\":1,\"pingInterval\":1,\"pingTimeout\":1}",
        "0{\"sid\":\"s\",\"pingInterval\":-1,\"pingTimeout\":1}",
        "0{\"sid\":\"s\",\"pingInterval\":\"1\",\"pingTimeout\":1}",
        "0{\"sid\":\"s\",\"pingInterval\":1,\"pingTimeout\":1.5}",
        "0{\"sid\":\"s\",\"pingInterval\":1,\"pingTimeout\":1",
        "0{\"sid\":\"s\",\"pingInterval\":1,\"pingTimeout\":1}}",
        "0{\"sid\":\"s\",\"pingInterval\":1,\"pingTimeout\":18446744073709551616}",
        "{\"sid\":\"s\",\"pingInterval\":1,\"pingTimeout\":1}",
        "1{\"sid\":\"s\",\"pingInterval\":1,\"pingTimeout\":1}",
        "4{\"sid\":\"s\",\"pingInterval\":1,\"pingTimeout\":1}",
        "null",
        "0null",
        "0true",
    ][choice(18)];
    let mut d = Decoder::new();
    let mut s = St::Initial;
    for _ in 0..n {
        one(&mut d, &mut s, Ws::Text(t.to_string()))
    }
    probe(&mut d, &mut s)
}

/// texts round-trip
pub fn text_round(n: usize) {
    let t = text(n);
    let m = match guard("encoding panics", || encode_message(&t)) {
        Some(m) => m,
        None => return,
    };
    check(matches!(m, Ws::Text(_)), "text is not sent as text");
    let mut d = open_decoder();
    compare(&mut d, m, Want::Text(t.as_bytes()));
    probe(&mut d, &mut St::Active)
}

/// bytes round-trip
pub fn bytes_round(n: usize) {
    let t = bytes(n);
    let m = match guard("encoding panics", || encode_binary(&t)) {
        Some(m) => m,
        None => return,
    };
    check(matches!(m, Ws::Binary(_)), "bytes are not sent as binary");
    let mut d = open_decoder();
    compare(&mut d, m, Want::Bin(&t));
    let mut d = open_decoder();
    compare(&mut d, encode_ping(), Want::Ping);
    compare(&mut d, encode_pong(), Want::Pong);
}

/// packaging accepts exactly what starts with the type byte
pub fn package_text_any(n: usize) {
    let t = text(n);
    let c = t.clone();
    let ok = n > 0 && t.as_bytes()[0] == b'4';
    match std::panic::catch_unwind(|| package_message(t)) {
        Ok(Ws::Text(s)) => {
            cover("accepted");
            check(ok, "packaging accepts a text without the type byte");
            check(s.len() == c.len() && s == c, "packaging changes the text")
        }
        Ok(_) => check(false, "text is not sent as text"),
        Err(e) => {
            std::mem::forget(e);
            cover("refused");
            check(!ok, "packaging refuses a message")
        }
    }
}

pub fn package_binary_any(n: usize) {
    let t = bytes(n);
    let c = t.clone();
    let ok = n > 0 && t[0] == 4;
    match std::panic::catch_unwind(|| package_binary(t)) {
        Ok(Ws::Binary(s)) => {
            cover("accepted");
            check(ok, "packaging accepts bytes without the type byte");
            check(s.len() == c.len() && s == c, "packaging changes the bytes")
        }
        Ok(_) => check(false, "bytes are not sent as binary"),
        Err(e) => {
            std::mem::forget(e);
            cover("refused");
            check(!ok, "packaging refuses a message")
        }
    }
}
