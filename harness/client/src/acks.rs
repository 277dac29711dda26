//! C15: which callback an incoming ack reaches.  C16: acknowledging incoming events.
use crate::route::{event, NSP};
use crate::sym::*;
use crate::world::*;
use serde::{Serialize, Serializer};
use socket_io_client::protocol::Args;
use socket_io_client::{AckBuilder, Client, Error};
use std::sync::{Arc, Mutex};

pub struct Bin<'a>(pub &'a [u8]);
impl Serialize for Bin<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(self.0)
    }
}

/// a packet as it is on the wire
#[derive(Debug, PartialEq)]
pub struct Pkt {
    pub kind: u8,
    pub count: Option<u64>,
    pub ns: String,
    pub id: Option<u64>,
    pub rest: Vec<u8>,
}
fn number(b: &[u8], at: &mut usize) -> Option<u64> {
    let s = *at;
    let mut v = 0u64;
    while *at < b.len() && b[*at].is_ascii_digit() {
        v = v.checked_mul(10)?.checked_add((b[*at] - b'0') as u64)?;
        *at += 1
    }
    if *at == s || b[s] == b'0' && *at > s + 1 {
        None
    } else {
        Some(v)
    }
}
pub fn packet(f: &(u8, Vec<u8>)) -> Pkt {
    let b = &f.1;
    check(f.0 == 1 && b.len() >= 2 && b[0] == b'4', "what is sent is no packet");
    let kind = b[1];
    let mut at = 2;
    let mut count = None;
    if kind == b'5' || kind == b'6' {
        count = number(b, &mut at);
        check(count.is_some() && b.get(at) == Some(&b'-'), "no attachment count");
        at += 1
    }
    let mut ns = "/".to_string();
    if b.get(at) == Some(&b'/') {
        let e = b[at..].iter().position(|x| *x == b',');
        check(e.is_some(), "the namespace does not end");
        let e = at + e.unwrap_or(0);
        ns = String::from_utf8_lossy(&b[at..e]).into_owned();
        at = e + 1
    }
    let id = number(b, &mut at);
    Pkt { kind, count, ns, id, rest: b[at..].to_vec() }
}
pub fn close(w: &World, mut c: Client) -> Option<Result<(), Error>> {
    let mut t = Task::new(async move { c.close().await });
    w.run_with(&mut t);
    if !t.done() {
        // the peer agrees
        w.net.feed(&frame(8, true, b""));
        w.net.with(|n| n.eof = true);
        w.run_with(&mut t);
    }
    t.out
}
pub fn ack(ns: &str, id: u64, rest: &[u8]) -> Vec<u8> {
    let mut v = b"43".to_vec();
    if ns != "/" {
        v.extend_from_slice(ns.as_bytes());
        v.push(b',')
    }
    v.extend_from_slice(id.to_string().as_bytes());
    v.extend_from_slice(rest);
    v
}

pub type Fired = Arc<Mutex<Vec<(usize, Vec<u64>)>>>;
pub fn on_ack(f: &Fired, k: usize) -> impl FnOnce(&Args) + Send + 'static {
    let f = f.clone();
    move |a: &Args| {
        let v = a.iter().map(|x| x.deserialize::<u64>().unwrap_or(u64::MAX)).collect();
        f.lock().unwrap().push((k, v))
    }
}

struct Sent {
    k: usize,
    ns: usize,
    id: u64,
    pending: bool,
}

/// emits through the client; the id on the wire
fn emit(w: &World, c: &mut Client, f: &Fired, k: usize, ns: usize, with: bool) -> Option<u64> {
    let b = c.namespace_emit(NSP[ns], "e").binary(k % 2 == 1);
    let b = if with { b.callback(on_ack(f, k)) } else { b };
    // a number, or one in an attachment
    let attached = k % 4 == 1;
    let a = if attached { b.args().arg(&Bin(&[k as u8])) } else { b.args().arg(&(k as u8)) };
    match a {
        Ok(a) => a.send(),
        Err(_) => check(false, "an argument is refused"),
    }
    w.run();
    let s = w.sent();
    check(s.len() == 1 + attached as usize, "not one packet per emit");
    let p = packet(&s[0]);
    check(p.kind == if k % 2 == 1 { b'5' } else { b'2' } && p.count.unwrap_or(0) == attached as u64 && p.ns == NSP[ns], "the wrong packet");
    if attached {
        check(p.rest == b"[\"e\",{\"_placeholder\":true,\"num\":0}]" && s[1] == (2, vec![4, k as u8]), "wrong arguments are sent")
    } else {
        check(p.rest == format!("[\"e\",{}]", k).into_bytes(), "wrong arguments are sent")
    }
    check(p.id.is_some() == with, "an id exactly when there is a callback");
    p.id
}

/// n steps: emits with and without callback, acks for any of them, known or not, here or elsewhere
pub fn histories(n: usize) {
    let (w, mut c) = World::open();
    let fired: Fired = Default::default();
    // anything that is registered, in either namespace, or nothing
    let fb = choice(3);
    if fb < 2 {
        c.set_namespace_fallback_callback(NSP[fb], |_: &Args, _| check(false, "an ack reaches an event callback"))
    }
    let mut all: Vec<Sent> = Vec::new();
    let mut k = 0;
    for _ in 0..n {
        let op = choice(4 + 2 * all.len() + 1);
        if op < 4 {
            k += 1;
            match op {
                0 | 1 => {
                    let id = emit(&w, &mut c, &fired, k, op, true).unwrap();
                    check(all.iter().all(|s| s.id != id), "an id is used twice");
                    all.push(Sent { k, ns: op, id, pending: true })
                }
                2 => {
                    emit(&w, &mut c, &fired, k, 0, false);
                }
                _ => {
                    // never sent
                    let f = fired.clone();
                    drop(c.emit("d").callback(move |_: &Args| f.lock().unwrap().push((usize::MAX, vec![]))).args());
                    w.run();
                    check(w.sent().is_empty(), "an emit that was dropped is sent");
                }
            }
            check(fired.lock().unwrap().is_empty(), "a callback without an ack");
            continue;
        }
        let e = (op - 4) / 2;
        let other = (op - 4) % 2 == 1;
        let (ns, id) = match all.get(e) {
            Some(s) => (if other { 1 - s.ns } else { s.ns }, s.id),
            None => (0, 1 << 40),
        };
        let d = byte();
        assume(d.is_ascii_digit());
        w.net.feed(&text_frame(&ack(NSP[ns], id, &[b'[', d, b',', b'5', b']'])));
        w.run();
        let got = std::mem::take(&mut *fired.lock().unwrap());
        let good = e < all.len() && !other && all[e].pending;
        if good {
            cover("fired");
            all[e].pending = false;
            // the callback that was given with this id
            check(got.len() == 1, "not exactly one callback");
            check(got[0].0 == all[e].k, "the wrong callback");
            check(got[0].1 == vec![(d - b'0') as u64, 5], "wrong arguments");
            log(&[got[0].0 as u8]);
            check(!w.ended(), "a good ack ends the connection");
        } else {
            cover("unexpected");
            check(got.is_empty(), "a callback for an ack that was not due");
            check(w.ended(), "an unexpected ack does not end the connection");
            for s in all.iter() {
                w.net.feed(&text_frame(&ack(NSP[s.ns], s.id, b"[1]")));
            }
            w.run();
            check(fired.lock().unwrap().is_empty(), "a callback after the connection ended");
            check(matches!(close(&w, c), Some(Err(Error::ProcessingError(_)))), "no error is reported");
            return;
        }
    }
    check(matches!(close(&w, c), Some(Ok(()))), "an error without a reason");
    check(fired.lock().unwrap().is_empty(), "a callback without an ack");
}

/// an ack whose id has n free bytes, with callbacks pending under a few ids
pub fn ids(n: usize) {
    let (w, mut c) = World::open();
    let fired: Fired = Default::default();
    let mut known = Vec::new();
    for k in 0..4 {
        known.push(emit(&w, &mut c, &fired, k, if k == 2 { 1 } else { 0 }, true).unwrap())
    }
    // from the third size on: ids next to powers of two
    let near = ["1844674407370955161", "922337203685477580", "900719925474099", "429496729", "214748364", "6553", "25"];
    let mut v = b"43".to_vec();
    if n >= 3 {
        v.extend_from_slice(near[choice(near.len())].as_bytes())
    }
    let at = v.len();
    v.extend(bytes(if n >= 3 { n - 2 } else { n }));
    assume(v[at..].iter().all(|b| b.is_ascii_digit()));
    let id = number(&v, &mut { 2 });
    v.extend_from_slice(b"[3]");
    w.net.feed(&text_frame(&v));
    w.run();
    let got = std::mem::take(&mut *fired.lock().unwrap());
    let k = id.and_then(|id| known.iter().position(|x| *x == id));
    match k {
        Some(k) if k != 2 => {
            cover("fired");
            check(got.len() == 1, "not exactly one callback");
            check(got[0].0 == k && got[0].1 == vec![3], "the wrong callback");
            check(!w.ended(), "a good ack ends the connection");
            log(&[k as u8]);
        }
        _ => {
            cover("unexpected");
            check(got.is_empty(), "a callback for an ack that was not due");
            check(w.ended(), "an unexpected ack does not end the connection");
            log(&[9]);
        }
    }
}

/// the peer answers every emit at once, before the call that sends it returns
pub fn at_once(n: usize) {
    let (w, mut c) = World::open();
    let fired: Fired = Default::default();
    let seen: Arc<Mutex<Vec<u64>>> = Default::default();
    let seen2 = seen.clone();
    w.eager(move |net| {
        let (fs, rest) = parse(&net.take());
        check(rest == 0, "a part of a frame is sent");
        for f in fs.iter().filter(|f| f.0 == 1) {
            let p = packet(f);
            if let Some(id) = p.id {
                seen2.lock().unwrap().push(id);
                net.feed(&text_frame(&ack(&p.ns, id, &[b'[', b'0' + (id % 10) as u8, b']'])))
            }
        }
    });
    let mut want = Vec::new();
    for k in 0..n {
        let ns = choice(2);
        let with = choice(2) == 1;
        let b = c.namespace_emit(NSP[ns], "e").binary(choice(2) == 1);
        let b = if with { b.callback(on_ack(&fired, k)) } else { b };
        match b.args().arg(&1u8) {
            Ok(a) => a.send(),
            Err(_) => check(false, "a number is no argument"),
        }
        if with {
            cover("answered");
            let id = *seen.lock().unwrap().last().unwrap();
            want.push((k, vec![id % 10]))
        }
        check(!w.ended(), "the ack is unexpected");
        check(*fired.lock().unwrap() == want, "the ack does not reach the callback");
    }
    let s = seen.lock().unwrap();
    for (i, x) in s.iter().enumerate() {
        check(!s[..i].contains(x), "an id is used twice")
    }
    log(&[want.len() as u8]);
}

/// callbacks wait in every namespace while n other things happen
pub fn meanwhile(n: usize) {
    let (w, mut c) = World::open();
    let fired: Fired = Default::default();
    let events: Arc<Mutex<Vec<usize>>> = Default::default();
    let mut ids = Vec::new();
    for (k, ns) in NSP.iter().enumerate() {
        c.namespace_emit(ns, "e").callback(on_ack(&fired, k)).args().send();
        w.run();
        ids.push(packet(&w.sent()[0]).id.unwrap())
    }
    // per namespace: is there an event callback, a fallback
    let mut set = [[false; 2]; 3];
    for k in 0..n {
        let i = choice(2);
        let ns = NSP[i];
        let e = events.clone();
        let f = move |_: &Args, _: Option<AckBuilder>| e.lock().unwrap().push(i);
        let mut hears = false;
        match choice(9) {
            0 => {
                c.set_namespace_event_callback(ns, "x", f);
                set[i][0] = true
            }
            1 => {
                c.clear_namespace_event_callback(ns, "x");
                set[i][0] = false
            }
            2 => {
                c.set_namespace_fallback_callback(ns, f);
                set[i][1] = true
            }
            3 => {
                c.clear_namespace_fallback_callback(ns);
                set[i][1] = false
            }
            // with an id that is one of those that wait here
            4 => {
                let mut v = b"42".to_vec();
                if i > 0 {
                    v.extend_from_slice(format!("{},", ns).as_bytes())
                }
                v.extend_from_slice(format!("{}[\"x\"]", ids[i]).as_bytes());
                w.net.feed(&text_frame(&v));
                hears = set[i][0] || set[i][1]
            }
            5 => {
                w.net.feed(&text_frame(format!("451-{}[\"x\"]", if i > 0 { "/a," } else { "" }).as_bytes()));
                w.net.feed(&binary_frame(&[4, 1]));
                hears = set[i][0] || set[i][1]
            }
            6 => w.net.feed(&text_frame(if i > 0 { b"40/a," } else { b"40" })),
            7 => w.net.feed(&text_frame(if i > 0 { b"41/a," } else { b"41" })),
            _ => {
                let b = c.namespace_emit(ns, "e");
                let b = if k % 2 == 0 { b.callback(|_: &Args| check(false, "a callback without an ack")) } else { b };
                drop(b.args());
                c.namespace_emit(ns, "y").args().send()
            }
        }
        w.run();
        check(std::mem::take(&mut *events.lock().unwrap()).len() == hears as usize, "an event reaches the wrong callbacks");
        check(fired.lock().unwrap().is_empty(), "a callback without an ack");
        check(!w.ended(), "the connection ended");
    }
    let d = byte();
    assume(d.is_ascii_digit());
    for k in [1, 0, 2] {
        w.net.feed(&text_frame(&ack(NSP[k], ids[k], &[b'[', d, b']'])));
        w.run();
        let got = std::mem::take(&mut *fired.lock().unwrap());
        check(!w.ended(), "an ack that is due ends the connection");
        check(got == vec![(k, vec![(d - b'0') as u64])], "not the callback of this id, once");
    }
    cover("fired");
    check(events.lock().unwrap().is_empty(), "an ack reaches an event callback");
    log(&[n as u8]);
}

/// an ack with attachments of n free bytes
pub fn binary(n: usize) {
    let (w, mut c) = World::open();
    let out: Arc<Mutex<Vec<Vec<u8>>>> = Default::default();
    let o = out.clone();
    let id = {
        let b = c.namespace_emit("/a", "e").callback(move |a: &Args| {
            check(a.len() == 2, "wrong number of arguments");
            for x in a.iter() {
                match x.deserialize::<Buf>() {
                    Ok(b) => o.lock().unwrap().push(b.0),
                    Err(_) => check(false, "no attachment"),
                }
            }
        });
        b.args().send();
        w.run();
        packet(&w.sent()[0]).id.unwrap()
    };
    let (x, y) = (bytes(n), bytes(n / 2));
    let h = format!("462-/a,{}[{{\"_placeholder\":true,\"num\":0}},{{\"_placeholder\":true,\"num\":1}}]", id);
    w.net.feed(&text_frame(h.as_bytes()));
    w.run();
    for a in [&x, &y] {
        check(out.lock().unwrap().is_empty(), "a callback before the attachments");
        let mut p = vec![4];
        p.extend_from_slice(a);
        w.net.feed(&binary_frame(&p));
        w.run();
    }
    check(*out.lock().unwrap() == vec![x, y], "wrong attachments");
    cover("attached");
    check(!w.ended(), "a good ack ends the connection");
    w.net.feed(&text_frame(&ack("/a", id, b"[]")));
    w.run();
    check(w.ended() && out.lock().unwrap().len() == 2, "an ack twice");
    log(&[n as u8]);
}

pub struct Buf(pub Vec<u8>);
impl<'de> serde::Deserialize<'de> for Buf {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Buf, D::Error> {
        struct V;
        impl serde::de::Visitor<'_> for V {
            type Value = Buf;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("bytes")
            }
            fn visit_bytes<E>(self, b: &[u8]) -> Result<Buf, E> {
                Ok(Buf(b.to_vec()))
            }
        }
        d.deserialize_bytes(V)
    }
}

fn reply(a: AckBuilder, bin: bool, args: usize) {
    let r = (|| {
        let mut b = a.binary(bin).args();
        for i in 0..args {
            if i == 1 && bin {
                b.arg_ref(&Bin(&[9, 8]))?
            } else {
                b.arg_ref(&(i as u8))?
            }
        }
        b.send();
        Ok::<_, socket_io_client::protocol::ArgsError>(())
    })();
    check(r.is_ok(), "an argument is refused")
}
/// what such a reply looks like
fn check_reply(fs: &[(u8, Vec<u8>)], ns: &str, id: u64, bin: bool, args: usize) {
    let att = bin && args > 1;
    check(fs.len() == if att { 2 } else { 1 }, "not exactly one ack");
    let p = packet(&fs[0]);
    check(p.kind == if bin { b'6' } else { b'3' }, "not an ack of the wanted form");
    check(p.count.unwrap_or(0) == att as u64, "the wrong number of attachments");
    check(p.ns == ns, "an ack in another namespace");
    check(p.id == Some(id), "an ack with another id");
    let want: Vec<String> = (0..args)
        .map(|i| if i == 1 && bin { "{\"_placeholder\":true,\"num\":0}".to_string() } else { i.to_string() })
        .collect();
    let want = format!("[{}]", want.join(","));
    check(p.rest == want.as_bytes() || args == 0 && p.rest.is_empty(), "wrong arguments");
    if att {
        check(fs[1] == (2, vec![4, 9, 8]), "the wrong attachment")
    }
}

/// an event with n free digits as id (none at 0), in any namespace, as text or with up to three attachments;
/// answered within the callback, afterwards, or not at all, in any form
pub fn acknowledge(n: usize) {
    let (w, mut c) = World::open();
    let ns = NSP[choice(3)];
    let when = choice(3);
    let bin = choice(2) == 1;
    let args = choice(3);
    let form = choice(5);
    // attachments of the event
    let att = form.max(1) - 1;
    let kept: Arc<Mutex<Vec<Option<AckBuilder>>>> = Default::default();
    let k = kept.clone();
    let f = move |_: &Args, a: Option<AckBuilder>| match a {
        Some(a) if when == 0 => {
            reply(a, bin, args);
            k.lock().unwrap().push(None)
        }
        a => k.lock().unwrap().push(a),
    };
    match form {
        0 => c.set_namespace_event_callback(ns, "x", f),
        _ => c.set_namespace_fallback_callback(ns, f),
    }
    let mut v = if att > 0 { format!("45{}-", att).into_bytes() } else { b"42".to_vec() };
    if ns != "/" {
        v.extend_from_slice(ns.as_bytes());
        v.push(b',')
    }
    let at = v.len();
    for _ in 0..n {
        let d = byte();
        assume(d.is_ascii_digit());
        v.push(d)
    }
    let id = number(&v, &mut { at });
    v.extend_from_slice(b"[\"x\"");
    for i in 0..att {
        v.extend_from_slice(format!(",{{\"_placeholder\":true,\"num\":{}}}", i).as_bytes())
    }
    v.push(b']');
    w.net.feed(&text_frame(&v));
    for i in 0..att {
        w.net.feed(&binary_frame(&[4, i as u8]))
    }
    w.run();
    if n > 0 && id.is_none() {
        // not a 64-bit number, or not in its shortest form
        cover("malformed");
        check(kept.lock().unwrap().is_empty() && w.ended(), "an event with an impossible id");
        return;
    }
    check(kept.lock().unwrap().len() == 1 && !w.ended(), "the event is not delivered");
    let got = kept.lock().unwrap().pop().unwrap();
    if n == 0 {
        cover("no id");
        check(got.is_none(), "an acknowledgement although none is asked for");
        check(w.sent().is_empty(), "something is sent");
        return;
    }
    let id = id.unwrap();
    match when {
        0 => {}
        1 => {
            check(got.is_some(), "no acknowledgement although one is asked for");
            check(w.sent().is_empty(), "something is sent before the acknowledgement");
            // other traffic in between
            w.net.feed(&text_frame(&event("/b", "x", b"")));
            w.net.feed(&text_frame(b"2"));
            w.run();
            check(w.sent() == vec![(1, b"3".to_vec())], "not one pong");
            reply(got.unwrap(), bin, args);
            w.run()
        }
        _ => {
            cover("never");
            check(got.is_some(), "no acknowledgement although one is asked for");
            drop(got);
            w.run();
            check(w.sent().is_empty(), "something is sent");
            return;
        }
    }
    cover("answered");
    check_reply(&w.sent(), ns, id, bin, args);
    w.run();
    check(w.sent().is_empty(), "something more is sent");
    log(&id.to_le_bytes());
}

/// several events wait for acknowledgements at once; answered in any order
pub fn pending(n: usize) {
    let (w, mut c) = World::open();
    let kept: Arc<Mutex<Vec<Option<AckBuilder>>>> = Default::default();
    for ns in NSP {
        let k = kept.clone();
        c.set_namespace_fallback_callback(ns, move |_: &Args, a: Option<AckBuilder>| k.lock().unwrap().push(a));
    }
    let mut what = Vec::new();
    for i in 0..n {
        let ns = NSP[choice(2)];
        let same = choice(2) as u64;
        let id = 5 + if same == 1 { 0 } else { i as u64 };
        let mut v = b"42".to_vec();
        if ns != "/" {
            v.extend_from_slice(ns.as_bytes());
            v.push(b',')
        }
        v.extend_from_slice(id.to_string().as_bytes());
        v.extend_from_slice(b"[\"x\"]");
        w.net.feed(&text_frame(&v));
        what.push((ns, id));
    }
    w.run();
    check(kept.lock().unwrap().len() == n, "the events are not delivered");
    let mut left: Vec<usize> = (0..n).collect();
    while !left.is_empty() {
        let i = left.remove(choice(left.len()));
        let a = kept.lock().unwrap()[i].take();
        check(a.is_some(), "no acknowledgement although one is asked for");
        reply(a.unwrap(), i % 2 == 1, i);
        w.run();
        check_reply(&w.sent(), what[i].0, what[i].1, i % 2 == 1, i);
    }
    cover("answered");
    check(!w.ended(), "the connection ended");
    log(&[n as u8]);
}

/// two clients with callbacks of their own: n emits by either, then every answer on one connection or the other
pub fn two(n: usize) {
    let (w1, c1) = World::open();
    let (w2, c2) = World::open();
    let (ws, mut cs) = ([w1, w2], [c1, c2]);
    let fired: [Fired; 2] = Default::default();
    let mut all: Vec<(usize, usize, u64)> = Vec::new();
    for i in 0..n {
        let k = choice(2);
        let id = emit(&ws[k], &mut cs[k], &fired[k], i + 1, 0, true).unwrap();
        check(all.iter().all(|s| s.0 != k || s.2 != id), "an id is used twice");
        all.push((k, i + 1, id))
    }
    for _ in 0..n {
        let (k, i, id) = all.remove(choice(all.len()));
        ws[k].net.feed(&text_frame(&ack("/", id, b"[5]")));
        ws[k].run();
        check(std::mem::take(&mut *fired[k].lock().unwrap()) == [(i, vec![5])], "not the callback of the ack");
        check(fired[1 - k].lock().unwrap().is_empty(), "a callback of another client");
    }
    cover("fired");
    log(&[n as u8]);
}

/// namespaces that end in a digit: n callbacks wait before; then the ack of another namespace whose id begins with it
pub fn joined(n: usize) {
    let (w, mut c) = World::open();
    let fired: Fired = Default::default();
    let d = byte();
    assume((b'1'..=b'9').contains(&d));
    let ns = format!("/a{}", d as char);
    for _ in 0..n {
        c.namespace_emit("/a", "w").callback(|_: &Args| check(false, "a callback without an ack")).args().send()
    }
    c.namespace_emit(&ns, "e").callback(on_ack(&fired, 1)).args().send();
    w.run();
    let id = packet(w.sent().last().unwrap()).id.unwrap();
    let other = (d - b'0') as u64 * 10u64.pow(id.to_string().len() as u32) + id;
    if choice(2) == 0 {
        w.net.feed(&text_frame(&ack(&ns, id, b"[5]")));
        w.run();
        cover("fired");
        check(*fired.lock().unwrap() == [(1, vec![5])] && !w.ended(), "not the callback of the ack")
    } else {
        w.net.feed(&text_frame(&ack("/a", other, b"[5]")));
        w.run();
        cover("unexpected");
        check(fired.lock().unwrap().is_empty(), "an ack reaches the callback of another namespace");
        check(w.ended(), "an unexpected ack is no error")
    }
    log(&[n as u8]);
}
