//! C04, C05: decoding of socket.io text against the reference grammar.
use crate::oracle::*;
use crate::sym::*;
use serde_json::value::RawValue;
use socket_io_protocol::engine::Message;
use socket_io_protocol::socket::*;

/// makes lazily initialised and cached parts concrete before anything is symbolic
pub fn warm() {
    let starts = ["", "2", "51", "50", "51-", "5-", "2/", "2/a", "2/a,", "2/a,1", "2/a,0", "2[", "2[]", "21", "20"];
    let next = ["", "0", "1", "4", "7", "-", "/", ",", "[", "]", "a", "\n", "\u{e9}", "\u{20ac}", "\u{10348}"];
    for s in starts {
        for n in next {
            let mut t = String::from(s);
            t.push_str(n);
            let _ = deserialize(Message::Text(t.into()));
        }
    }
}

fn seg(out: &mut Vec<u8>, n: usize, t: &[bool; 256]) {
    for _ in 0..n {
        let b = byte();
        assume(t[b as usize]);
        out.push(b)
    }
}

fn utf8(v: Vec<u8>) -> String {
    match String::from_utf8(v) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            unreachable!()
        }
    }
}

fn view(p: &Packet) -> (u8, &str, Option<u64>, usize) {
    let (k, id, n) = match p.data() {
        Data::Connect => (0, None, 0),
        Data::Disconnect => (1, None, 0),
        Data::Event { id, args } => (2, id, args.len()),
        Data::Ack { id, args } => (3, Some(id), args.len()),
    };
    (k, p.namespace(), id, n)
}

fn same(p: &Packet, r: &Ref, s: &[u8]) {
    let (k, nsp, id, n) = view(p);
    let want = match r.kind {
        b'0' => 0,
        b'1' => 1,
        b'2' | b'5' => 2,
        _ => 3,
    };
    check(k == want, "wrong packet kind");
    let wn: &[u8] = if r.nsp.1 == 0 { b"/" } else { &s[r.nsp.0..r.nsp.1] };
    check(nsp.len() == wn.len() && nsp.as_bytes() == wn, "wrong namespace");
    check(id == r.id, "wrong id");
    check(n == r.args.len(), "wrong number of arguments");
    if let Data::Event { args, .. } | Data::Ack { args, .. } = p.data() {
        for (i, a) in r.args.iter().enumerate() {
            let (a, w) = (args.get(i), &s[a.0..a.1]);
            // the text of the argument
            let same = guard("deserialising panics", || {
                a.map_or(false, |a| a.deserialize::<&RawValue>().map_or(false, |t| t.get().len() == w.len() && t.get().as_bytes() == w))
            });
            check(same != Some(false), "an argument is cut out wrongly")
        }
    }
    log(&[k, n as u8, nsp.len() as u8, id.is_some() as u8]);
}

/// decodes s and compares with the reference
pub fn decode_check(s: String) {
    let want = reference(s.as_bytes());
    let copy = s.clone();
    let got = match guard("decoding panics", || deserialize(Message::Text(s.into()))) {
        Some(r) => r,
        None => return,
    };
    match (want, got) {
        (Expect::Reject, Err(_)) => {
            cover("rejected");
            log(b"r")
        }
        (Expect::Reject, Ok(_)) => check(false, "text outside the grammar accepted"),
        (_, Err(_)) => check(false, "text of the grammar rejected"),
        (Expect::Packet(r), Ok(DeserializeResult::Packet(p))) => {
            cover("packet");
            same(&p, &r, copy.as_bytes())
        }
        (Expect::Packet(_), Ok(_)) => check(false, "asks for attachments that were not declared"),
        (Expect::Ask(n, r), Ok(DeserializeResult::DataNeeded(part))) => {
            cover("asks");
            let same_n = part.attachments() == n;
            check(same_n, "asks for the wrong number of attachments");
            if n <= 3 {
                let n = conc(n);
                let v: Vec<Message> = (0..n).map(|i| Message::Binary(vec![i as u8].into())).collect();
                match guard("completing panics", || deserialize_partial(part, v)) {
                    None => {}
                    Some(Ok(p)) => match r {
                        Some(r) => {
                            cover("completed");
                            same(&p, &r, copy.as_bytes())
                        }
                        None => check(false, "packet without its required parts accepted"),
                    },
                    Some(Err(_)) => {
                        check(r.is_none(), "complete packet rejected");
                        log(b"i")
                    }
                }
            }
        }
        (Expect::Ask(..), Ok(_)) => check(false, "declared attachments are not asked for"),
    }
}

/// every text of n bytes
pub fn free(n: usize) {
    warm();
    decode_check(text(n))
}

fn table(s: &[u8]) -> [bool; 256] {
    let mut t = [false; 256];
    for b in s {
        t[*b as usize] = true
    }
    t
}

/// kind, then n bytes of header alphabet, then a nested argument list
pub fn header(n: usize) {
    warm();
    let t = table(b"0129-/,[a");
    let mut v = vec![b"0123456"[choice(7)]];
    seg(&mut v, n, &t);
    v.extend_from_slice(b"[\"a\",[1]]");
    decode_check(utf8(v))
}

/// the header of a binary packet
pub fn binheader(n: usize) {
    warm();
    let t = table(b"012-/,[a");
    let mut v = vec![b"56"[choice(2)]];
    v.push(b"0123"[choice(4)]);
    v.push(b'-');
    seg(&mut v, n, &t);
    if choice(2) == 0 {
        v.extend_from_slice(b"[\"a\",2]");
    }
    decode_check(utf8(v))
}

/// a namespace of n arbitrary bytes
pub fn namespace(n: usize) {
    warm();
    let mut v = vec![b"0123"[choice(4)]];
    v.push(b'/');
    for _ in 0..n {
        v.push(byte())
    }
    v.push(b',');
    match choice(3) {
        0 => {}
        1 => v.extend_from_slice(b"7[\"a\",[\"b\"]]"),
        _ => v.extend_from_slice(b"7[\"a\"]"),
    }
    decode_check(utf8(v))
}

/// an argument list with n arbitrary bytes inside
pub fn arguments(n: usize) {
    warm();
    let mut v = Vec::new();
    v.extend_from_slice([&b"2["[..], b"2/n,7[\"a\",", b"38[\"", b"2[{\"a\":"][choice(4)]);
    for _ in 0..n {
        v.push(byte())
    }
    v.push(b']');
    decode_check(utf8(v))
}

/// arguments made of the characters the header uses, in and around strings
pub fn confusing(n: usize) {
    warm();
    let t = table(b"0-/,[]\"{}:\\ \n");
    let mut v = Vec::new();
    v.extend_from_slice([&b"2[\""[..], b"2/n,[\"", b"2/n,1[["][choice(3)]);
    seg(&mut v, n, &t);
    v.extend_from_slice([&b"\"]"[..], b"]]"][choice(2)]);
    decode_check(utf8(v))
}

/// a run of n digits as an id or a count
pub fn digits(n: usize) {
    warm();
    let place = choice(6);
    let mut v = Vec::new();
    v.extend_from_slice([&b"2"[..], b"3/n,", b"50-", b"5", b"61-/n,", b"2/,n,"][place]);
    let any = table(b"0123456789");
    let nonzero = table(b"123456789");
    let mut rest = n;
    let max = b"18446744073709551615";
    match choice(3) {
        // leading zero
        0 => {
            if n > 0 {
                v.push(b'0');
                rest -= 1;
                let k = rest.saturating_sub(2);
                if n > 20 {
                    v.extend(std::iter::repeat(b'0').take(k))
                } else {
                    seg(&mut v, k, &nonzero)
                }
                rest -= k
            }
        }
        // no zeros except in the last digits
        1 => {
            let k = rest.saturating_sub(3);
            if n > 20 {
                let d = b"19"[choice(2)];
                v.extend(std::iter::repeat(d).take(k))
            } else {
                seg(&mut v, k, &nonzero)
            }
            rest -= k
        }
        // around the largest 64 bit number
        _ => {
            if n > 4 {
                let k = max.len().min(n - 4);
                v.extend_from_slice(&max[..k]);
                rest -= k
            }
        }
    }
    seg(&mut v, rest, &any);
    v.extend_from_slice([&b"[\"a\"]"[..], b"[\"a\"]", b"[\"a\"]", b"-[\"a\"]", b"[\"a\"]", b"[\"a\"]"][place]);
    decode_check(utf8(v))
}
