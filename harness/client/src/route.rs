//! C14: which callback an event reaches.  C18: the client is usable from inside callbacks.
use crate::sym::*;
use crate::wire::att_frame;
use crate::world::*;
use socket_io_client::protocol::Args;
use socket_io_client::{AckBuilder, Client};
use std::sync::{Arc, Mutex};

pub const NSP: [&str; 3] = ["/", "/a", "/a/b"];
pub const EV: [&str; 3] = ["x", "/a", ""];

/// which callback ran, the number of arguments, the two arguments after the name
pub type Hits = Arc<Mutex<Vec<(usize, usize, u64, String)>>>;

pub fn cb(hits: &Hits, k: usize) -> impl FnMut(&Args, Option<AckBuilder>) + Send + 'static {
    let h = hits.clone();
    move |a: &Args, ack: Option<AckBuilder>| {
        check(ack.is_none(), "an event without id asks for an acknowledgement");
        let n = a.get(1).and_then(|x| x.deserialize::<u64>().ok()).unwrap_or(u64::MAX);
        let s = a.get(2).and_then(|x| x.deserialize::<String>().ok()).unwrap_or_default();
        h.lock().unwrap().push((k, a.len(), n, s))
    }
}

/// text of an event packet with the raw arguments
pub fn event(ns: &str, ev: &str, rest: &[u8]) -> Vec<u8> {
    let mut v = b"42".to_vec();
    if ns != "/" {
        v.extend_from_slice(ns.as_bytes());
        v.push(b',')
    }
    v.extend_from_slice(b"[\"");
    v.extend_from_slice(ev.as_bytes());
    v.push(b'"');
    v.extend_from_slice(rest);
    v.push(b']');
    v
}

/// what is registered where
pub struct Table {
    pub ev: [[Option<usize>; 3]; 3],
    pub fb: [Option<usize>; 3],
    next: usize,
}
impl Table {
    pub fn new() -> Table {
        Table { ev: [[None; 3]; 3], fb: [None; 3], next: 1 }
    }
    pub fn hit(&self, i: usize, j: usize) -> Option<usize> {
        self.ev[i][j].or(self.fb[i])
    }
    /// one change of the table, through the client too; whichever of the equivalent methods
    pub fn change(&mut self, c: &mut Client, hits: &Hits, op: usize, i: usize, j: usize) {
        let k = self.next;
        self.next += 1;
        let short = i == 0 && k % 2 == 0;
        match op {
            0 => {
                self.ev[i][j] = Some(k);
                if short {
                    c.set_event_callback(EV[j], cb(hits, k))
                } else {
                    c.set_namespace_event_callback(NSP[i], EV[j], cb(hits, k))
                }
            }
            1 => {
                self.ev[i][j] = None;
                if short {
                    c.clear_event_callback(EV[j])
                } else {
                    c.clear_namespace_event_callback(NSP[i], EV[j])
                }
            }
            2 => {
                self.fb[i] = Some(k);
                if short {
                    c.set_fallback_callback(cb(hits, k))
                } else {
                    c.set_namespace_fallback_callback(NSP[i], cb(hits, k))
                }
            }
            _ => {
                self.fb[i] = None;
                if short {
                    c.clear_fallback_callback()
                } else {
                    c.clear_namespace_fallback_callback(NSP[i])
                }
            }
        }
    }
    /// every event, with one and the same arguments
    pub fn probe(&self, w: &World, hits: &Hits) {
        for i in 0..3 {
            for j in 0..3 {
                w.net.feed(&text_frame(&event(NSP[i], EV[j], b",7,\"q\"")));
                w.run();
                let got = std::mem::take(&mut *hits.lock().unwrap());
                match self.hit(i, j) {
                    None => check(got.is_empty(), "a callback without any for this event"),
                    Some(k) => {
                        check(got.len() == 1, "not exactly one callback");
                        check(got[0].0 == k, "the wrong callback");
                        check(got[0].1 == 3 && got[0].2 == 7 && got[0].3 == "q", "wrong arguments")
                    }
                }
            }
        }
    }
}

/// n changes of any kind on two namespaces and two events; after each, every event is tried
pub fn histories(n: usize) {
    let (w, mut c) = World::open();
    let hits: Hits = Default::default();
    let mut t = Table::new();
    t.probe(&w, &hits);
    for _ in 0..n {
        let op = choice(4);
        let i = choice(2);
        let j = if op < 2 { choice(2) } else { 0 };
        t.change(&mut c, &hits, op, i, j);
        t.probe(&w, &hits);
    }
    if t.fb.iter().any(|x| x.is_some()) {
        cover("fallback")
    }
    if t.ev.iter().any(|x| x.iter().any(|x| x.is_some())) {
        cover("event")
    }
    log(&[n as u8]);
}

/// a name whose last byte is any, where the names a, b and the fallback may be registered
pub fn names(n: usize) {
    let (w, mut c) = World::open();
    let hits: Hits = Default::default();
    let fb = n == 1;
    c.set_event_callback("a", cb(&hits, 1));
    c.set_event_callback("b", cb(&hits, 2));
    c.set_namespace_event_callback("/n", "a", cb(&hits, 3));
    if fb {
        c.set_fallback_callback(cb(&hits, 4));
    }
    let b = byte();
    assume((0x20..0x7f).contains(&b) && b != b'"' && b != b'\\');
    let mut v = b"42[\"".to_vec();
    v.push(b);
    v.extend_from_slice(b"\",7,\"q\"]");
    w.net.feed(&text_frame(&v));
    w.run();
    let got = std::mem::take(&mut *hits.lock().unwrap());
    let want = if b == b'a' { 1 } else if b == b'b' { 2 } else if fb { 4 } else { 0 };
    if want == 0 {
        cover("none");
        check(got.is_empty(), "a callback without any for this event");
    } else {
        check(got.len() == 1, "not exactly one callback");
        if want == 4 {
            cover("fallback")
        } else {
            cover("event")
        }
        check(got[0].0 == want, "the wrong callback");
        check(got[0].1 == 3 && got[0].2 == 7 && got[0].3 == "q", "wrong arguments")
    }
    log(&[want as u8]);
}

/// a namespace whose last byte is any
pub fn spaces(n: usize) {
    let (w, mut c) = World::open();
    let hits: Hits = Default::default();
    c.set_event_callback("x", cb(&hits, 1));
    c.set_fallback_callback(cb(&hits, 2));
    c.set_namespace_event_callback("/a", "x", cb(&hits, 3));
    c.set_namespace_fallback_callback("/b", cb(&hits, 4));
    let b = byte();
    assume((0x20..0x7f).contains(&b) && b != b',');
    let mut v = b"42/".to_vec();
    v.push(b);
    v.extend_from_slice(if n == 0 { b",[\"x\",7,\"q\"]" } else { b",[\"y\",7,\"q\"]" });
    w.net.feed(&text_frame(&v));
    w.run();
    let got = std::mem::take(&mut *hits.lock().unwrap());
    let want = if b == b'a' && n == 0 { 3 } else if b == b'b' { 4 } else { 0 };
    if want == 0 {
        cover("none");
        check(got.is_empty(), "a callback without any for this event");
    } else {
        cover("event");
        check(got.len() == 1, "not exactly one callback");
        check(got[0].0 == want, "the wrong callback");
        check(got[0].1 == 3 && got[0].2 == 7 && got[0].3 == "q", "wrong arguments")
    }
    log(&[want as u8]);
}

/// one byte replaced, put in or left out, a part left out or said twice, or none of these
fn near(s: &str, lo: usize) -> String {
    let mut v = s.as_bytes().to_vec();
    let fresh = || {
        let b = byte();
        assume((0x20..0x7f).contains(&b) && b != b'"' && b != b'\\' && b != b',');
        b
    };
    match choice(7) {
        0 => {}
        1 if v.len() > lo => {
            let at = lo + choice(v.len() - lo);
            v[at] = fresh()
        }
        2 => {
            let at = lo + choice(v.len() + 1 - lo);
            v.insert(at, fresh())
        }
        3 if v.len() > lo => {
            v.remove(lo + choice(v.len() - lo));
        }
        4 => v.extend_from_slice(s.as_bytes()),
        5 => v.truncate(lo + choice(v.len() + 1 - lo)),
        6 => v.extend_from_slice(&[0xc3, 0xa0 + choice(2) as u8]),
        _ => assume(false),
    }
    String::from_utf8(v).unwrap_or_default()
}
/// namespaces and names that are nearly those of callbacks (n = 0: the namespace, 1: the name);
/// the same for those of callbacks (n = 2, 3)
pub fn nearly(n: usize) {
    let (w, mut c) = World::open();
    let hits: Hits = Default::default();
    let ns = ["/", "/a", "/Ab/c", "/a/"][choice(4)];
    let name = ["", "x", "Ab c", "connect"][choice(4)];
    let (mut ns2, mut name2) = (ns.to_string(), name.to_string());
    if n % 2 == 0 {
        ns2 = near(ns, 1)
    } else {
        name2 = near(name, 0)
    }
    let (reg, sent) = if n < 2 { ((ns, name), (&*ns2, &*name2)) } else { ((&*ns2, &*name2), (ns, name)) };
    let fb = choice(3);
    match fb {
        0 => {}
        1 => c.set_namespace_fallback_callback(reg.0, cb(&hits, 2)),
        _ => c.set_namespace_fallback_callback(sent.0, cb(&hits, 3)),
    }
    if reg.0 == "/" && choice(2) == 0 {
        c.set_event_callback(reg.1, cb(&hits, 1))
    } else {
        c.set_namespace_event_callback(reg.0, reg.1, cb(&hits, 1))
    }
    w.net.feed(&text_frame(&event(sent.0, sent.1, b",7,\"q\"")));
    w.run();
    let got = std::mem::take(&mut *hits.lock().unwrap());
    let want = if reg == sent {
        cover("event");
        1
    } else if fb == 2 || fb == 1 && reg.0 == sent.0 {
        cover("fallback");
        fb + 1
    } else {
        cover("none");
        0
    };
    if want == 0 {
        check(got.is_empty(), "a callback without any for this event");
    } else {
        check(got.len() == 1, "not exactly one callback");
        check(got[0].0 == want, "the wrong callback");
        check(got[0].1 == 3 && got[0].2 == 7 && got[0].3 == "q", "wrong arguments")
    }
    log(&[want as u8]);
}

/// a character of a JSON string in any of its forms
fn written(v: &mut Vec<u8>) {
    let b = byte();
    match choice(4) {
        0 => {
            assume((0x20..0x7f).contains(&b) && b != b'"' && b != b'\\');
            v.push(b)
        }
        1 => {
            assume(b"\"\\/bfnrt".contains(&b));
            v.extend_from_slice(&[b'\\', b])
        }
        2 => {
            assume(b.is_ascii_hexdigit());
            v.extend_from_slice(b"\\u00");
            v.extend_from_slice(&[b"0256eE"[choice(6)], b])
        }
        _ => {
            assume(b.is_ascii_hexdigit());
            v.extend_from_slice(b"\\ud83d\\uDE0");
            v.push(b)
        }
    }
}
/// names of n/2+1 characters, the last in any of the forms that JSON has for them (n odd: with an attachment)
pub fn escaped(n: usize) {
    const NAMES: [&str; 11] = ["a", "\"", "\\", "\n", "\u{7f}", "\u{e9}", "/", "\u{1f600}", "ab", "\\\"", "\u{0}"];
    let (w, mut c) = World::open();
    let hits: Arc<Mutex<Vec<(usize, usize)>>> = Default::default();
    let cb = |k: usize| {
        let h = hits.clone();
        move |a: &Args, _: Option<AckBuilder>| h.lock().unwrap().push((k, a.len()))
    };
    for (k, name) in NAMES.iter().enumerate() {
        c.set_event_callback(name, cb(k))
    }
    let fb = choice(2) == 1;
    if fb {
        c.set_fallback_callback(cb(99))
    }
    let blank = [&b""[..], b" ", b"\n\t"][choice(3)];
    let mut name = b"\"".to_vec();
    for _ in 0..n / 2 {
        name.extend_from_slice([&b"a"[..], b"\\\\", b"\\\"", b"\\u0061", b"\\u005C", b"\xc3\xa9"][choice(6)])
    }
    written(&mut name);
    name.push(b'"');
    let mut v = if n % 2 == 0 { b"42[".to_vec() } else { b"451-[".to_vec() };
    v.extend_from_slice(blank);
    v.extend_from_slice(&name);
    v.extend_from_slice(blank);
    v.extend_from_slice(if n % 2 == 0 { b",7]" } else { b",{\"_placeholder\":true,\"num\":0}]" });
    w.net.feed(&text_frame(&v));
    if n % 2 == 1 {
        w.net.feed(&att_frame(b"z"))
    }
    w.run();
    check(!w.ended(), "the connection ended");
    let says: String = serde_json::from_slice(&name).unwrap();
    let want = NAMES.iter().position(|x| *x == says).or(if fb { Some(99) } else { None });
    let got = std::mem::take(&mut *hits.lock().unwrap());
    match want {
        None => {
            cover("none");
            check(got.is_empty(), "a callback without any for this event")
        }
        Some(k) => {
            cover(if k == 99 { "fallback" } else { "event" });
            check(got.len() == 1 && got[0] == (k, 2), "not exactly the callback of this name")
        }
    }
    log(&[want.unwrap_or(98) as u8]);
}

/// n free bytes as the arguments after the name
pub fn arguments(n: usize) {
    let (w, mut c) = World::open();
    let out: Arc<Mutex<Vec<Vec<String>>>> = Default::default();
    let o = out.clone();
    c.set_event_callback("x", move |a: &Args, _| {
        o.lock().unwrap().push(a.iter().map(|x| x.deserialize::<&serde_json::value::RawValue>().map(|r| r.get().to_string()).unwrap_or_default()).collect())
    });
    let mut free = b",".to_vec();
    free.extend(bytes(n));
    if std::str::from_utf8(&free).is_err() {
        assume(false)
    }
    let mut list = b"[\"x\"".to_vec();
    list.extend_from_slice(&free);
    list.push(b']');
    let want: Result<Vec<&serde_json::value::RawValue>, _> = serde_json::from_slice(&list);
    w.net.feed(&text_frame(&event("/", "x", &free)));
    w.run();
    let got = std::mem::take(&mut *out.lock().unwrap());
    match want {
        Ok(l) => {
            cover("delivered");
            if l.len() > 2 {
                cover("several")
            }
            check(got.len() == 1, "not exactly one callback");
            check(got[0].len() == l.len() && l.iter().zip(&got[0]).all(|(a, b)| a.get() == b), "wrong arguments");
            log(&[1, l.len() as u8]);
        }
        Err(_) => {
            cover("malformed");
            check(got.is_empty(), "a callback for a malformed event");
            log(&[0]);
        }
    }
}

/// two clients with tables of their own: n changes of either, then every event on both connections
pub fn two(n: usize) {
    let (w1, c1) = World::open();
    let (w2, c2) = World::open();
    let (ws, mut cs) = ([w1, w2], [c1, c2]);
    let hits: [Hits; 2] = Default::default();
    let mut ts = [Table::new(), Table::new()];
    for _ in 0..n {
        let k = choice(2);
        let op = choice(4);
        ts[k].change(&mut cs[k], &hits[k], op, choice(2), 0);
    }
    for k in [0, 1, 0] {
        ts[k].probe(&ws[k], &hits[k]);
        check(hits[1 - k].lock().unwrap().is_empty(), "a callback of another client");
    }
    // assemblies of both at a time
    for k in 0..2 {
        cs[k].set_event_callback("z", cb(&hits[k], 50 + k));
        ws[k].net.feed(&text_frame(b"451-[\"z\",5,\"z\",{\"_placeholder\":true,\"num\":0}]"));
        ws[k].run()
    }
    for k in 0..2 {
        ws[k].net.feed(&att_frame(&[k as u8]));
        ws[k].run();
        let got = std::mem::take(&mut *hits[k].lock().unwrap());
        check(got.len() == 1 && got[0].0 == 50 + k && got[0].2 == 5, "an assembly is disturbed by another client");
    }
    check(hits.iter().all(|h| h.lock().unwrap().is_empty()), "a callback of another client");
    if ts.iter().any(|t| t.fb.iter().any(|x| x.is_some())) {
        cover("fallback")
    } else {
        cover("event")
    }
    // one of them goes; the other stays
    let [c0, c1] = cs;
    drop(c0);
    ws[0].run();
    check(ws[0].ended() && !ws[1].ended(), "a client ends with another");
    ts[1].probe(&ws[1], &hits[1]);
    drop(c1);
    log(&[n as u8]);
}

/// names and namespaces that coincide when written together, with a free byte in between (n = 1), or twice the same (2)
pub fn joined(n: usize) {
    let sep = if n == 2 { vec![byte(); 2] } else { bytes(n) };
    assume(sep.iter().all(|b| *b >= 0x20 && *b != b',' && *b != b'"' && *b != b'\\'));
    let sep = match String::from_utf8(sep) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            unreachable!()
        }
    };
    // namespace first, or event first
    let ((n1, e1), (n2, e2)) = if choice(2) == 0 {
        (("/a".to_string(), format!("b{}x", sep)), (format!("/a{}b", sep), "x".to_string()))
    } else {
        ((format!("/y{}/a", sep), "x".to_string()), ("/a".to_string(), format!("x{}/y", sep)))
    };
    let (w, mut c) = World::open();
    let hits: Hits = Default::default();
    let both = choice(3);
    if both != 1 {
        c.set_namespace_event_callback(&n1, &e1, cb(&hits, 1))
    }
    if both != 0 {
        c.set_namespace_event_callback(&n2, &e2, cb(&hits, 2))
    }
    for (k, ns, ev) in [(1, &n1, &e1), (2, &n2, &e2)] {
        w.net.feed(&text_frame(&event(ns, ev, b",7,\"q\"")));
        w.run();
        let got = std::mem::take(&mut *hits.lock().unwrap());
        if both == 2 || both == k - 1 {
            cover("event");
            check(got.len() == 1 && got[0].0 == k, "not exactly the callback of this event")
        } else {
            cover("none");
            check(got.is_empty(), "a callback without any for this event")
        }
        check(!w.ended(), "the connection ended")
    }
    c.clear_namespace_event_callback(&n1, &e1);
    w.net.feed(&text_frame(&event(&n2, &e2, b",7,\"q\"")));
    w.run();
    check(hits.lock().unwrap().len() == (both != 0) as usize, "clearing another event counts");
    log(&[n as u8]);
}
