//! The same guarantees for many of something, or for large ones: thresholds of count and size.
use crate::acks::*;
use crate::route::*;
use crate::sym::*;
use crate::wire::*;
use crate::world::*;
use socket_io_client::protocol::Args;
use socket_io_client::{AckBuilder, Error};
use std::sync::{Arc, Mutex};

/// C14: n events and a fallback in each of three namespaces, some cleared again; any event
pub fn table(n: usize) {
    let (w, mut c) = World::open();
    let hits: Hits = Default::default();
    for (i, ns) in NSP.iter().enumerate() {
        for k in 0..n {
            c.set_namespace_event_callback(ns, &format!("e{}", k), cb(&hits, i * 1000 + k))
        }
        c.set_namespace_fallback_callback(ns, cb(&hits, i * 1000 + 999));
    }
    for (i, ns) in NSP.iter().enumerate() {
        for k in (i..n).step_by(3) {
            c.clear_namespace_event_callback(ns, &format!("e{}", k))
        }
    }
    let i = choice(3);
    let d = byte();
    assume(d.is_ascii_digit());
    let k = (choice((n + 9) / 10) * 10) + conc((d - b'0') as u64) as usize;
    w.net.feed(&text_frame(&event(NSP[i], &format!("e{}", k), b",7,\"q\"")));
    w.run();
    let got = hits.lock().unwrap();
    let cleared = k >= n || k % 3 == i;
    check(got.len() == 1 && !w.ended(), "not exactly one callback");
    check(got[0].0 == i * 1000 + if cleared { 999 } else { k }, "the wrong callback");
    cover(if cleared { "fallback" } else { "event" });
    log(&[i as u8, k as u8]);
}

/// C15: n callbacks wait at once; any of them is answered, twice
pub fn waiting(n: usize) {
    let (w, mut c) = World::open();
    let fired: Fired = Default::default();
    let mut ids: Vec<u64> = Vec::new();
    for k in 0..n {
        c.namespace_emit(NSP[k % 2], "e").callback(on_ack(&fired, k)).args().send();
        if k % 7 == 6 {
            // one that is never sent
            drop(c.emit("d").callback(|_: &Args| check(false, "a callback that was dropped")).args())
        }
    }
    w.run();
    for (k, f) in w.sent().iter().enumerate() {
        let p = packet(f);
        check(p.ns == NSP[k % 2] && p.kind == b'2', "the wrong packet");
        check(p.id.is_some(), "no id");
        let id = p.id.unwrap();
        check(!ids.contains(&id), "an id is used twice");
        ids.push(id)
    }
    check(ids.len() == n, "not one packet per emit");
    let k = choice(n);
    // others before
    let mut others: Vec<usize> = [0, k.saturating_sub(1), n - 1].into_iter().filter(|j| *j != k).collect();
    others.dedup();
    for j in others {
        w.net.feed(&text_frame(&ack(NSP[j % 2], ids[j], b"[1]")));
        w.run();
        check(fired.lock().unwrap().pop() == Some((j, vec![1])), "the wrong callback");
    }
    w.net.feed(&text_frame(&ack(NSP[k % 2], ids[k], b"[8]")));
    w.run();
    check(std::mem::take(&mut *fired.lock().unwrap()) == vec![(k, vec![8])], "not the callback of this id, once");
    check(!w.ended(), "a good ack ends the connection");
    cover("fired");
    w.net.feed(&text_frame(&ack(NSP[k % 2], ids[k], b"[8]")));
    w.run();
    check(fired.lock().unwrap().is_empty(), "a callback twice");
    check(w.ended(), "an ack twice is no error");
    check(matches!(close(&w, c), Some(Err(Error::ProcessingError(_)))), "no error is reported");
    log(&[k as u8]);
}

/// C15: the ways to build one emit: form set up to twice, callback given up to twice, arguments that fail
pub fn builder(n: usize) {
    let (w, mut c) = World::open();
    let fired: Fired = Default::default();
    let mut b = c.namespace_emit("/a", "e");
    let (mut bin, mut with) = (false, None);
    for k in 0..n {
        match choice(3) {
            0 => {
                bin = choice(2) == 1;
                b = b.binary(bin)
            }
            1 => {
                b = b.callback(on_ack(&fired, k));
                with = Some(k)
            }
            _ => {}
        }
    }
    let mut a = b.args();
    let mut rest = b"[\"e\"".to_vec();
    let mut atts = Vec::new();
    for _ in 0..2 {
        let r = match choice(3) {
            0 => {
                rest.extend_from_slice(b",7");
                a.arg_ref(&7u8).is_ok()
            }
            1 if bin => {
                rest.extend_from_slice(format!(",{{\"_placeholder\":true,\"num\":{}}}", atts.len()).as_bytes());
                atts.push((2u8, vec![4, 1, 2]));
                a.arg_ref(&Bin(&[1, 2])).is_ok()
            }
            1 => {
                rest.extend_from_slice(b",[1,2]");
                a.arg_ref(&Bin(&[1, 2])).is_ok()
            }
            _ => a.arg_ref(&Broken).is_err(),
        };
        check(r, "an argument is refused or accepted wrongly")
    }
    rest.push(b']');
    a.send();
    w.run();
    let s = w.sent();
    check(s.len() == 1 + atts.len() && s[1..] == atts[..], "not the attachments");
    let p = packet(&s[0]);
    check(p.kind == if bin { b'5' } else { b'2' } && p.count.unwrap_or(0) as usize == atts.len() && p.ns == "/a" && p.rest == rest, "not the packet that was built");
    check(p.id.is_some() == with.is_some(), "an id exactly when there is a callback");
    if let Some(k) = with {
        w.net.feed(&text_frame(&ack("/a", p.id.unwrap(), b"[4]")));
        w.run();
        check(*fired.lock().unwrap() == vec![(k, vec![4])], "not the callback given last, once");
        cover("fired")
    }
    check(!w.ended(), "the connection ended");
    log(&[bin as u8, with.is_some() as u8]);
}
/// fails after it has given away bytes
pub struct Broken;
impl serde::Serialize for Broken {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{Error, SerializeTuple};
        let mut t = s.serialize_tuple(2)?;
        t.serialize_element(&Bin(&[9]))?;
        Err(S::Error::custom("broken"))
    }
}

/// C16: an event on a namespace of n free bytes with ids of any length; the form is set up to twice
pub fn forms(n: usize) {
    let (w, mut c) = World::open();
    let mut ns = String::from("/");
    for _ in 0..n {
        let b = byte();
        assume((0x20..0x7f).contains(&b) && b != b',');
        ns.push(conc(b as u64) as u8 as char)
    }
    let id = [0u64, 9, 10, 1 << 31, 1 << 32, (1 << 53) + 1, 1 << 63, u64::MAX][choice(8)];
    let sets = choice(4);
    let kept: Arc<Mutex<Option<AckBuilder>>> = Default::default();
    let k = kept.clone();
    c.set_namespace_event_callback(&ns, "x", move |_: &Args, a: Option<AckBuilder>| *k.lock().unwrap() = a);
    let mut v = b"42".to_vec();
    if ns != "/" {
        v.extend_from_slice(ns.as_bytes());
        v.push(b',')
    }
    v.extend_from_slice(format!("{}[\"x\"]", id).as_bytes());
    w.net.feed(&text_frame(&v));
    w.run();
    let a = kept.lock().unwrap().take();
    check(a.is_some() && !w.ended(), "no acknowledgement although one is asked for");
    let a = a.unwrap();
    let (a, bin) = match sets {
        0 => (a, false),
        1 => (a.binary(true), true),
        2 => (a.binary(true).binary(false), false),
        _ => (a.binary(false).binary(true), true),
    };
    let mut b = a.args();
    check(b.arg_ref(&Broken).is_err(), "an argument that fails is accepted");
    check(b.arg_ref(&"y").is_ok() && b.arg_ref(&Bin(&[5])).is_ok(), "an argument is refused");
    b.send();
    w.run();
    let s = w.sent();
    let p = packet(&s[0]);
    check(p.kind == if bin { b'6' } else { b'3' }, "not an ack of the wanted form");
    check(p.ns == ns && p.id == Some(id), "not the namespace and id of the event");
    if bin {
        check(p.count == Some(1) && p.rest == b"[\"y\",{\"_placeholder\":true,\"num\":0}]", "wrong arguments");
        check(s[1..] == [(2, vec![4, 5])], "the wrong attachment")
    } else {
        check(p.rest == b"[\"y\",[5]]" && s.len() == 1, "wrong arguments")
    }
    cover("answered");
    log(&id.to_le_bytes());
}

/// C17: n pings, one after the other or all at once, between or amid packets
pub fn many_pings(n: usize) {
    let (w, mut c) = World::open();
    let seen: Seen = Default::default();
    c.set_fallback_callback(record(&seen, 0));
    let once = choice(2) == 1;
    let amid = choice(2) == 1;
    if amid {
        w.net.feed(&text_frame(b"451-[\"x\",{\"_placeholder\":true,\"num\":0}]"))
    }
    let mut pongs = 0;
    for _ in 0..n {
        w.net.feed(&text_frame(b"2"));
        if !once {
            w.run();
            let s = w.sent();
            check(s == [(1, b"3".to_vec())], "not exactly one pong");
            pongs += 1
        }
    }
    w.run();
    let s = w.sent();
    check(s.iter().all(|f| *f == (1, b"3".to_vec())) && pongs + s.len() == n, "not exactly one pong per ping");
    let b = byte();
    if amid {
        w.net.feed(&att_frame(&[b]))
    } else {
        w.net.feed(&text_frame(&event("/", "x", b"")))
    }
    w.run();
    let want = if amid { vec![text_arg("\"x\""), vec![b'b', b]] } else { vec![text_arg("\"x\"")] };
    check(*seen.lock().unwrap() == vec![(0, want)] && !w.ended(), "the packet is not delivered");
    cover("done");
    log(&[n as u8]);
}

/// n bytes, some of which are free
fn blob(n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = (0..n).map(|i| (i * 7 + 3) as u8).collect();
    for at in [0, n / 2, n.wrapping_sub(1)] {
        if let Some(x) = v.get_mut(at) {
            *x = byte()
        }
    }
    v
}

/// C19: a binary emit with an attachment of n bytes and a text of n bytes
pub fn large_out(n: usize) {
    let (w, mut c) = World::open();
    let b = blob(n);
    let t: String = "t".repeat(n);
    match c.emit("e").binary(true).args().arg(&Bin(&b)).and_then(|a| a.arg(&t)) {
        Ok(a) => a.send(),
        Err(_) => check(false, "an argument is refused"),
    }
    c.emit("f").args().send();
    let step = [usize::MAX, n / 2 + 1][choice(2)];
    w.net.with(|x| x.room = step);
    for _ in 0..20 {
        w.run();
        w.net.with(|x| x.room = step);
    }
    let s = w.sent();
    check(s.len() == 3, "not the three frames");
    check(s[0] == (1, format!("451-[\"e\",{{\"_placeholder\":true,\"num\":0}},\"{}\"]", t).into_bytes()), "the wrong header");
    check(s[1].0 == 2 && s[1].1[0] == 4 && s[1].1[1..] == b[..], "the wrong attachment");
    check(s[2] == (1, b"42[\"f\"]".to_vec()), "the wrong packet");
    cover("sent");
    log(&[(n % 251) as u8]);
}
/// C19: a binary emit with n attachments
pub fn many_out(n: usize) {
    let (w, mut c) = World::open();
    let free = byte();
    let atts: Vec<Vec<u8>> = (0..n).map(|i| vec![i as u8, free]).collect();
    let mut a = c.emit("e").binary(true).args();
    for b in atts.iter() {
        check(a.arg_ref(&Bin(b)).is_ok(), "an argument is refused")
    }
    w.net.feed(&text_frame(b"2"));
    a.send();
    turns(1);
    w.run();
    let s = w.sent();
    check(s.len() == n + 2, "not all frames");
    let at = s.iter().position(|f| f.1.first() == Some(&b'4')).unwrap_or(0);
    let p = packet(&s[at]);
    check(p.count == Some(n as u64), "the wrong count");
    for i in 0..n {
        check(s.get(at + 1 + i).map_or(false, |f| f.0 == 2 && f.1[0] == 4 && f.1[1..] == atts[i][..]), "not its attachments in order")
    }
    cover("sent");
    log(&[n as u8]);
}

/// C20: an attachment of n bytes, in reads of some size
pub fn large_in(n: usize) {
    let (w, mut c) = World::open();
    let seen: Seen = Default::default();
    c.set_fallback_callback(record(&seen, 0));
    let b = blob(n);
    let mut all = text_frame(b"452-[\"x\",{\"_placeholder\":true,\"num\":1},{\"_placeholder\":true,\"num\":0}]");
    all.extend(att_frame(&[6]));
    if choice(2) == 0 {
        all.extend(att_frame(&b))
    } else {
        // in two frames
        all.extend(frame(2, false, &[&[4][..], &b[..n / 2]].concat()));
        all.extend(frame(0, true, &b[n / 2..]))
    }
    all.extend(text_frame(&event("/", "y", b"")));
    w.net.with(|x| x.chunk = n / 3 + 5);
    w.net.feed(&all);
    w.run();
    let want = vec![(0, vec![text_arg("\"x\""), [&b"b"[..], &b].concat(), vec![b'b', 6]]), (0, vec![text_arg("\"y\"")])];
    check(*seen.lock().unwrap() == want && !w.ended(), "not the events in order, each once and complete");
    cover("delivered");
    log(&[(n % 251) as u8]);
}
/// C20: n attachments; the placeholders in another order
pub fn many_in(n: usize) {
    let (w, mut c) = World::open();
    let seen: Seen = Default::default();
    c.set_fallback_callback(record(&seen, 0));
    let back = choice(2) == 1;
    let num = |i: usize| if back { n - 1 - i } else { i };
    let ph: Vec<String> = (0..n).map(|i| format!(",{{\"_placeholder\":true,\"num\":{}}}", num(i))).collect();
    w.net.feed(&text_frame(format!("45{}-[\"x\"{}]", n, ph.concat()).as_bytes()));
    let free = byte();
    for i in 0..n {
        check(seen.lock().unwrap().is_empty(), "an event before its attachments");
        w.net.feed(&att_frame(&[i as u8, free]));
        w.run();
    }
    let mut want = vec![text_arg("\"x\"")];
    want.extend((0..n).map(|i| vec![b'b', num(i) as u8, free]));
    check(*seen.lock().unwrap() == vec![(0, want)] && !w.ended(), "not the event with its attachments");
    cover("delivered");
    log(&[n as u8]);
}

/// C24: headers that declare any number of attachments, of n free digits after a few leading ones
pub fn declared(n: usize) {
    let (w, mut c) = World::open();
    let seen: Seen = Default::default();
    c.set_fallback_callback(record(&seen, 0));
    let mut v = b"45".to_vec();
    v.extend_from_slice([&b""[..], b"1", b"42949672", b"92233720368547758", b"184467440737095516"][choice(5)]);
    let at = v.len();
    for _ in 0..n {
        let d = byte();
        assume(d.is_ascii_digit());
        v.push(d)
    }
    let first = v.get(2).copied().unwrap_or(b'0');
    let digits = v.len() - 2;
    // the number, if it is one in 64 bits
    let count = if digits > 1 && first == b'0' || digits == 0 {
        None
    } else {
        v[2..].iter().try_fold(0u64, |x, d| x.checked_mul(10)?.checked_add((d - b'0') as u64))
    };
    v.extend_from_slice(b"-[\"x\"]");
    w.net.feed(&text_frame(&v));
    w.run();
    log(&[at as u8, count.is_some() as u8]);
    let got = seen.lock().unwrap().len();
    match count {
        None => {
            cover("violated");
            check(got == 0 && w.ended(), "an impossible count is no error")
        }
        Some(0) => check(got == 1 && !w.ended(), "a packet without attachments is not delivered"),
        Some(m) => {
            cover("asks");
            check(!w.ended(), "the connection ends without an error");
            for k in 0..2u64 {
                check(seen.lock().unwrap().is_empty(), "an event before its attachments");
                w.net.feed(&att_frame(&[1]));
                w.run();
                check(!w.ended(), "the connection ends without an error");
                if m == k + 1 {
                    check(seen.lock().unwrap().len() == 1, "a complete event is not delivered");
                    return;
                }
            }
            check(seen.lock().unwrap().is_empty(), "an event before its attachments");
            w.net.feed(&text_frame(b"2"));
            w.run();
            check(w.sent() == [(1, b"3".to_vec())], "a ping is not answered")
        }
    }
}
/// C24: n good messages, then a bad one, then good ones
pub fn long(n: usize) {
    let (w, mut c) = World::open();
    let seen: Seen = Default::default();
    c.set_fallback_callback(record(&seen, 0));
    let mut all = Vec::new();
    for i in 0..n {
        match i % 3 {
            0 => all.extend(text_frame(&event("/", "x", b",1"))),
            1 => all.extend([text_frame(b"451-[\"y\",{\"_placeholder\":true,\"num\":0}]"), att_frame(&[3])].concat()),
            _ => all.extend([text_frame(b"2"), text_frame(b"40/a,"), text_frame(&event("/", "z", b""))].concat()),
        }
    }
    let bad = choice(4);
    match bad {
        0 => all.extend(text_frame(b"42[1]")),
        1 => all.extend(text_frame(b"430[]")),
        2 => all.extend(text_frame(b"7")),
        _ => {}
    }
    all.extend(text_frame(&event("/", "x", b"")));
    w.net.with(|x| x.chunk = if choice(2) == 0 { usize::MAX } else { 50 });
    w.net.feed(&all);
    w.run();
    check(seen.lock().unwrap().len() == n + (bad == 3) as usize, "not exactly the messages before the error");
    check(w.ended() == (bad < 3), "the connection ends exactly with an error");
    cover("done");
    log(&[bad as u8]);
}
