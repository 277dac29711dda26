//! C17: pings and control traffic.  C18: using the client inside callbacks.
//! C19: what is sent.  C20: what is received.  C24: protocol errors.
use crate::acks::*;
use crate::route::*;
use crate::sym::*;
use crate::world::*;
use socket_io_client::protocol::Args;
use socket_io_client::{AckBuilder, Client, Error};
use std::sync::{Arc, Mutex};

/// one digit argument and the attachments of whatever is delivered, in order
pub type Seen = Arc<Mutex<Vec<(usize, Vec<Vec<u8>>)>>>;
pub fn record(s: &Seen, k: usize) -> impl FnMut(&Args, Option<AckBuilder>) + Send + 'static {
    let s = s.clone();
    move |a: &Args, _| s.lock().unwrap().push((k, content(a)))
}
/// the raw text of arguments, and attachments as they are, each with its sort in front
pub fn content(a: &Args) -> Vec<Vec<u8>> {
    a.iter()
        .map(|x| match x.deserialize::<Any>() {
            Ok(a) => a.0,
            Err(_) => b"?".to_vec(),
        })
        .collect()
}
struct Any(Vec<u8>);
impl<'de> serde::Deserialize<'de> for Any {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Any, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Any;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("a text, a number or bytes")
            }
            fn visit_bytes<E>(self, b: &[u8]) -> Result<Any, E> {
                Ok(Any([&[b'b'][..], b].concat()))
            }
            fn visit_str<E>(self, s: &str) -> Result<Any, E> {
                Ok(Any(text_arg(&format!("\"{}\"", s))))
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
                let mut v = vec![b'b'];
                while let Some(b) = a.next_element()? {
                    v.push(b)
                }
                Ok(Any(v))
            }
            fn visit_u64<E>(self, n: u64) -> Result<Any, E> {
                Ok(Any(text_arg(&n.to_string())))
            }
        }
        d.deserialize_any(V)
    }
}
pub fn text_arg(s: &str) -> Vec<u8> {
    [&[b't'][..], s.as_bytes()].concat()
}
pub fn att_frame(a: &[u8]) -> Vec<u8> {
    binary_frame(&[&[4][..], a].concat())
}

/// n frames: pings, pongs, their websocket counterparts, connects and disconnects, events, parts of binary events
pub fn control(n: usize) {
    let (w, mut c) = World::open();
    let seen: Seen = Default::default();
    for (i, ns) in NSP.iter().enumerate() {
        c.set_namespace_fallback_callback(ns, record(&seen, i))
    }
    let acks: Fired = Default::default();
    c.emit("e").callback(on_ack(&acks, 1)).args().send();
    w.run();
    w.sent();
    // attachments that are due, and the free byte in each so far
    let mut due = 0;
    let mut have: Vec<Vec<u8>> = Vec::new();
    let mut pings = 0;
    for _ in 0..n {
        let op = choice(if due == 0 { 9 } else { 5 });
        let mut want: Option<(usize, Vec<Vec<u8>>)> = None;
        let mut data = Vec::new();
        match op {
            0 => {
                w.net.feed(&text_frame(b"2"));
                pings += 1
            }
            1 => w.net.feed(&text_frame(b"3")),
            2 => {
                data = vec![byte(); choice(2)];
                w.net.feed(&frame(9, true, &data))
            }
            3 => w.net.feed(&frame(10, true, b"ho")),
            4 if due > 0 => {
                let b = byte();
                w.net.feed(&att_frame(&[b]));
                have.push(vec![b'b', b]);
                due -= 1;
                if due == 0 {
                    cover("assembled");
                    let mut v = vec![text_arg("\"x\"")];
                    v.append(&mut have);
                    want = Some((1, v))
                }
            }
            4 => {
                w.net.feed(&text_frame(b"452-/a,[\"x\",{\"_placeholder\":true,\"num\":0},{\"_placeholder\":true,\"num\":1}]"));
                due = 2
            }
            5 => {
                w.net.feed(&text_frame(&event("/", "y", b",1")));
                want = Some((0, vec![text_arg("\"y\""), text_arg("1")]))
            }
            6 => w.net.feed(&text_frame(b"40")),
            7 => w.net.feed(&text_frame(b"40/a,")),
            _ => w.net.feed(&text_frame(if choice(2) == 0 { b"41" } else { b"41/a," })),
        }
        w.run();
        check(!w.ended(), "the connection ended");
        let got = std::mem::take(&mut *seen.lock().unwrap());
        match want {
            None => check(got.is_empty(), "control traffic invokes a callback"),
            Some(x) => check(got.len() == 1 && got[0] == x, "an event is not delivered as it should"),
        }
        check(acks.lock().unwrap().is_empty(), "control traffic invokes an ack callback");
        let s = w.sent();
        let pongs: Vec<_> = s.iter().filter(|f| f.0 == 10).collect();
        check(pongs.len() == (op == 2) as usize && pongs.iter().all(|f| f.1 == data), "not exactly one websocket pong");
        let text: Vec<_> = s.iter().filter(|f| f.0 == 1 || f.0 == 2).collect();
        check(text.len() == (op == 0) as usize && text.iter().all(|f| f.0 == 1 && f.1 == b"3"), "not exactly one pong");
    }
    if pings > 0 {
        cover("pinged")
    }
    log(&[pings, due]);
}

/// many pings within one read, in a connection that takes few bytes at a time
pub fn pings(n: usize) {
    let (w, mut c) = World::open();
    let seen: Seen = Default::default();
    c.set_fallback_callback(record(&seen, 0));
    w.net.with(|x| x.room = 0);
    let mut pings = 0;
    let mut events = 0;
    let mut all = Vec::new();
    for _ in 0..n {
        match choice(3) {
            0 => {
                all.extend(text_frame(b"2"));
                pings += 1
            }
            1 => {
                all.extend(text_frame(b"451-[\"x\",{\"_placeholder\":true,\"num\":0}]"));
                if choice(2) == 1 {
                    all.extend(text_frame(b"2"));
                    pings += 1
                }
                all.extend(att_frame(&[7]));
                events += 1
            }
            _ => {
                all.extend(text_frame(&event("/", "x", b"")));
                events += 1
            }
        }
    }
    turns(2);
    w.net.with(|x| x.chunk = if choice(2) == 0 { usize::MAX } else { 3 });
    w.net.feed(&all);
    w.run();
    let step = 1 + choice(9);
    for _ in 0..200 {
        if w.net.with(|x| x.room > 0) {
            break;
        }
        w.net.with(|x| x.room = step);
        w.run();
    }
    let s = w.sent();
    check(s.len() == pings && s.iter().all(|f| *f == (1, b"3".to_vec())), "not one pong per ping");
    check(seen.lock().unwrap().len() == events && !w.ended(), "events are lost");
    cover("done");
    log(&[pings as u8]);
}

/// what a callback does with the client
#[derive(Clone, Copy)]
struct Act {
    op: usize,
    i: usize,
    j: usize,
}

/// a callback that changes the table or emits: event callback, fallback, or ack callback; then every event is tried
pub fn inside(n: usize) {
    let (w, mut c) = World::open();
    let hits: Hits = Default::default();
    let fired: Fired = Default::default();
    let mut t = Table::new();
    for i in 0..2 {
        t.change(&mut c, &hits, 0, i, 0);
        t.change(&mut c, &hits, 2, i, 0);
    }
    let shared = Arc::new(Mutex::new((c, t)));
    let acts: Vec<Act> = (0..n)
        .map(|_| {
            let op = choice(6);
            Act { op, i: if op < 4 { choice(2) } else { 0 }, j: if op < 2 { choice(2) } else { 0 } }
        })
        .collect();
    let emits = acts.iter().filter(|a| a.op >= 4).count();
    let (sh, h, f, acts2) = (shared.clone(), hits.clone(), fired.clone(), acts.clone());
    let act = move || {
        let mut g = sh.lock().unwrap();
        let (c, t) = &mut *g;
        for (k, a) in acts2.iter().enumerate() {
            match a.op {
                4 => match c.emit("in").callback(on_ack(&f, k)).args().arg(&1u8) {
                    Ok(b) => b.send(),
                    Err(_) => check(false, "a number is no argument"),
                },
                5 => c.namespace_emit("/a", "in").binary(true).args().send(),
                _ => t.change(c, &h, a.op, a.i, a.j),
            }
        }
    };
    let form = choice(3);
    match form {
        0 => {
            // the callback for the event itself
            let mut act = Some(act);
            shared.lock().unwrap().0.set_namespace_event_callback("/a/b", "go", move |_: &Args, _| {
                if let Some(a) = act.take() {
                    a()
                }
            });
            w.net.feed(&text_frame(b"42/a/b,[\"go\"]"))
        }
        1 => {
            let mut act = Some(act);
            shared.lock().unwrap().0.set_namespace_fallback_callback("/a/b", move |_: &Args, _| {
                if let Some(a) = act.take() {
                    a()
                }
            });
            w.net.feed(&text_frame(b"42/a/b,[\"go\"]"))
        }
        _ => {
            shared.lock().unwrap().0.emit("q").callback(move |_: &Args| act()).args().send();
            w.run();
            let id = packet(&w.sent()[0]).id.unwrap();
            w.net.feed(&text_frame(&ack("/", id, b"[]")))
        }
    }
    w.run();
    check(!w.ended(), "the connection ended");
    let s = w.sent();
    check(s.len() == emits, "what a callback emits is not sent");
    // the acks of what was emitted inside
    let mut k = acts.iter().enumerate().filter(|a| a.1.op >= 4);
    for f in s.iter() {
        let p = packet(f);
        let (k, a) = k.next().unwrap();
        if a.op == 4 {
            cover("acked");
            check(p.kind == b'2' && p.id.is_some(), "not the packet that was emitted");
            w.net.feed(&text_frame(&ack("/", p.id.unwrap(), b"[4]")));
            w.run();
            check(fired.lock().unwrap().pop() == Some((k, vec![4])), "the ack callback is not invoked");
        } else {
            check(p.kind == b'5' && p.ns == "/a", "not the packet that was emitted")
        }
    }
    if form == 1 {
        shared.lock().unwrap().0.clear_namespace_fallback_callback("/a/b")
    }
    shared.lock().unwrap().1.probe(&w, &hits);
    cover("done");
    log(&[n as u8, form as u8]);
}

/// a callback that replaces or clears itself, or its fallback, while it runs
pub fn itself(n: usize) {
    let (w, c) = World::open();
    let hits: Hits = Default::default();
    let c = Arc::new(Mutex::new(c));
    let what = choice(4);
    let fb = choice(2) == 1;
    let (c2, h2) = (c.clone(), hits.clone());
    let f = move |_: &Args, _: Option<AckBuilder>| {
        let mut c = c2.lock().unwrap();
        h2.lock().unwrap().push((1, 3, 7, "q".into()));
        match what {
            0 => c.set_event_callback("x", cb(&h2, 2)),
            1 => c.clear_event_callback("x"),
            2 => c.set_fallback_callback(cb(&h2, 3)),
            _ => c.clear_fallback_callback(),
        }
    };
    if fb {
        c.lock().unwrap().set_fallback_callback(f)
    } else {
        c.lock().unwrap().set_event_callback("x", f)
    }
    let e = text_frame(&event("/", "x", b",7,\"q\""));
    let mut want = Vec::new();
    let (mut ev, mut fbk) = if fb { (0, 1) } else { (1, 0) };
    for _ in 0..n {
        w.net.feed(&e);
        let k = if ev > 0 { ev } else { fbk };
        if k > 0 {
            want.push(k)
        }
        if k == 1 {
            match what {
                0 => ev = 2,
                1 => ev = 0,
                2 => fbk = 3,
                _ => fbk = 0,
            }
        }
    }
    w.run();
    check(!w.ended(), "the connection ended");
    let got: Vec<usize> = hits.lock().unwrap().iter().map(|h| h.0).collect();
    check(got == want, "a change made inside a callback does not count");
    cover("done");
    log(&[n as u8]);
}

/// sends of n packets in a connection that takes few bytes at a time, with reads in between
pub fn order(n: usize) {
    let (w, mut c) = World::open();
    let kept: Arc<Mutex<Vec<AckBuilder>>> = Default::default();
    let k = kept.clone();
    c.set_fallback_callback(move |_: &Args, a: Option<AckBuilder>| k.lock().unwrap().extend(a));
    w.net.feed(&text_frame(b"426[\"x\"]"));
    w.net.feed(&text_frame(b"427[\"x\"]"));
    w.run();
    let step = [usize::MAX, 1, 5, 11][choice(4)];
    w.net.with(|x| x.room = 0);
    turns(2);
    let mut want: Vec<(u8, Vec<u8>)> = Vec::new();
    let mut pongs = 0;
    for i in 0..n {
        let d = b'0' + i as u8;
        match choice(5) {
            0 => {
                match c.emit("t").args().arg(&(i as u8)) {
                    Ok(b) => b.send(),
                    Err(_) => check(false, "a number is no argument"),
                }
                want.push((1, vec![b'4', b'2', b'[', b'"', b't', b'"', b',', d, b']']))
            }
            1 => {
                let r = c.namespace_emit("/a", "b").binary(true).args().arg(&Bin(&[d])).and_then(|b| b.arg(&Bin(&[d, d])));
                match r {
                    Ok(b) => b.send(),
                    Err(_) => check(false, "bytes are no argument"),
                }
                want.push((1, b"452-/a,[\"b\",{\"_placeholder\":true,\"num\":0},{\"_placeholder\":true,\"num\":1}]".to_vec()));
                want.push((2, vec![4, d]));
                want.push((2, vec![4, d, d]));
            }
            2 => {
                let a = kept.lock().unwrap().pop();
                if let Some(a) = a {
                    let id = kept.lock().unwrap().len() as u8 + b'6';
                    match a.binary(true).args().arg(&Bin(&[d])) {
                        Ok(b) => b.send(),
                        Err(_) => check(false, "bytes are no argument"),
                    }
                    want.push((1, [&b"461-"[..], &[id], b"[{\"_placeholder\":true,\"num\":0}]"].concat()));
                    want.push((2, vec![4, d]));
                }
            }
            3 => {
                w.net.feed(&text_frame(b"2"));
                pongs += 1
            }
            _ => w.net.feed(&frame(9, true, b"hi")),
        }
        if choice(2) == 1 {
            w.run();
            w.net.with(|x| x.room = step);
            w.run();
        }
    }
    turns(0);
    for _ in 0..500 {
        w.run();
        if w.net.with(|x| x.room > 0) && step != usize::MAX {
            break;
        }
        w.net.with(|x| x.room = step);
        if step == usize::MAX {
            w.run();
            break;
        }
    }
    check(!w.ended(), "the connection ended");
    let s = w.sent();
    let mut at = 0;
    let mut open = 0; // attachments that still belong to the last header
    for f in s.iter() {
        if f.0 == 10 || (f.0 == 1 && f.1 == b"3") {
            check(open == 0, "a frame between a header and its attachments");
            if f.0 == 1 {
                pongs -= 1
            }
            continue;
        }
        check(at < want.len() && *f == want[at], "not the frames of the packets in order");
        at += 1;
        if f.0 == 1 {
            open = match f.1[2] {
                b'2' if f.1[1] == b'5' => 2,
                b'1' if f.1[1] == b'6' => 1,
                _ => 0,
            }
        } else {
            open -= 1
        }
    }
    check(at == want.len() && open == 0, "frames are missing");
    check(pongs == 0, "not one pong per ping");
    if at > 2 {
        cover("sent")
    }
    log(&[at as u8]);
}

/// n packets from the server in any split into reads and frames
pub fn stream(n: usize) {
    let (w, mut c) = World::open();
    let seen: Seen = Default::default();
    for (i, ns) in NSP.iter().enumerate() {
        c.set_namespace_fallback_callback(ns, record(&seen, i))
    }
    let s = seen.clone();
    c.emit("e").callback(move |a: &Args| s.lock().unwrap().push((9, content(a)))).args().send();
    w.run();
    let id = packet(&w.sent()[0]).id.unwrap();
    let mut all = Vec::new();
    let mut want = Vec::new();
    let mut acked = false;
    // what comes between a packet and each of its attachments
    let between = match choice(if n > 1 { 2 } else { 6 }) {
        0 => Vec::new(),
        1 => text_frame(b"3"),
        2 => text_frame(b"2"),
        3 => text_frame(b"2probe"),
        4 => frame(9, true, b"hi"),
        _ => frame(10, true, b"hi"),
    };
    for _ in 0..n {
        // whole, or in two or three frames
        let cut = choice(3);
        let mut put = |op: u8, b: &[u8]| {
            if op == 2 {
                all.extend_from_slice(&between)
            }
            match cut {
                0 => all.extend(frame(op, true, b)),
                1 => {
                    let m = b.len() / 2;
                    all.extend(frame(op, false, &b[..m]));
                    all.extend(frame(9, true, b""));
                    all.extend(frame(0, true, &b[m..]));
                }
                _ => {
                    all.extend(frame(op, false, &b[..1]));
                    all.extend(frame(0, false, b""));
                    all.extend(frame(0, true, &b[1..]));
                }
            }
        };
        match choice(4) {
            0 => {
                let d = byte();
                assume(d.is_ascii_digit());
                put(1, &event("/", "x", &[b',', d]));
                want.push((0, vec![text_arg("\"x\""), vec![b't', d]]));
            }
            1 => {
                let b = byte();
                put(1, b"451-/a,[\"y\",{\"_placeholder\":true,\"num\":0},2]");
                put(2, &[4, b]);
                want.push((1, vec![text_arg("\"y\""), vec![b'b', b], text_arg("2")]));
            }
            2 => {
                let (b, d) = (byte(), byte());
                // the second attachment first
                put(1, b"452-/a,[\"z\",{\"_placeholder\":true,\"num\":1},{\"_placeholder\":true,\"num\":0}]");
                put(2, &[4, b]);
                put(2, &[4, d, b]);
                want.push((1, vec![text_arg("\"z\""), vec![b'b', d, b], vec![b'b', b]]));
            }
            _ => {
                assume(!acked);
                acked = true;
                let b = byte();
                put(1, format!("461-{}[{{\"_placeholder\":true,\"num\":0}}]", id).as_bytes());
                put(2, &[4, b, 5]);
                want.push((9, vec![vec![b'b', b, 5]]));
            }
        }
    }
    // in one go, byte by byte, in small pieces, or with a pause somewhere
    let how = choice(3 + all.len() / 8);
    if how == 0 {
        w.net.feed(&all);
        w.run()
    } else if how < 3 {
        w.net.with(|x| x.chunk = if how == 1 { 1 } else { 7 });
        w.net.feed(&all);
        w.run()
    } else {
        let m = (how - 3) * 8 + choice(8);
        w.net.feed(&all[..m]);
        w.run();
        let early = seen.lock().unwrap().len();
        check(early <= want.len() && seen.lock().unwrap()[..] == want[..early], "something else is delivered");
        w.net.feed(&all[m..]);
        w.run()
    }
    check(!w.ended(), "the connection ended");
    check(*seen.lock().unwrap() == want, "not the events in order, each once and complete");
    cover("delivered");
    log(&[want.len() as u8]);
}

/// after the header: how much of the attachments arrives, and a text message where one is due
pub fn interrupted(n: usize) {
    let (w, mut c) = World::open();
    let seen: Seen = Default::default();
    for (i, ns) in NSP.iter().enumerate() {
        c.set_namespace_fallback_callback(ns, record(&seen, i))
    }
    let count = 1 + choice(3);
    let ph: Vec<String> = (0..count).map(|i| format!(",{{\"_placeholder\":true,\"num\":{}}}", i)).collect();
    w.net.feed(&text_frame(format!("45{}-[\"x\"{}]", count, ph.concat()).as_bytes()));
    let before = choice(count);
    for _ in 0..before {
        w.net.feed(&att_frame(&[byte()]));
    }
    w.run();
    check(seen.lock().unwrap().is_empty() && !w.ended(), "an event before its attachments");
    // a text message of any n bytes
    let mut t = b"4".to_vec();
    t.extend(bytes(n));
    if std::str::from_utf8(&t).is_err() {
        assume(false)
    }
    w.net.feed(&text_frame(&t));
    w.run();
    check(seen.lock().unwrap().is_empty(), "an event whose attachment is text");
    check(w.ended(), "text where an attachment is due is no error");
    w.net.feed(&att_frame(&[1]));
    w.net.feed(&text_frame(&event("/", "x", b"")));
    w.run();
    check(seen.lock().unwrap().is_empty(), "something is delivered after the error");
    check(matches!(close(&w, c), Some(Err(Error::ProcessingError(_)))), "no error is reported");
    cover("refused");
    log(&[count as u8]);
}

fn client_of(c: &mut Client, seen: &Seen) {
    for (i, ns) in NSP.iter().enumerate() {
        c.set_namespace_fallback_callback(ns, record(seen, i))
    }
}

/// good messages, then perhaps a bad one of some sort with a free byte, then good ones
pub fn violation(n: usize) {
    let (w, mut c) = World::open();
    let seen: Seen = Default::default();
    client_of(&mut c, &seen);
    let good = |k: usize| if k == 0 { text_frame(&event("/", "x", b",1")) } else { [text_frame(b"451-/a,[\"y\",{\"_placeholder\":true,\"num\":0}]"), att_frame(&[3])].concat() };
    let mut all = Vec::new();
    let before = choice(n + 1);
    for _ in 0..before {
        all.extend(good(choice(2)))
    }
    let b = byte();
    let bad = choice(15);
    let mut none = false;
    let ascii = |b: u8| (0x20..0x7f).contains(&b);
    match bad {
        0 => {
            // an engine.io type that does not exist
            assume(b < 0x80 && !(b'1'..=b'4').contains(&b));
            all.extend(text_frame(&[b]))
        }
        1 => all.extend(text_frame(b"")),
        2 => {
            assume(b != 4);
            all.extend(binary_frame(&[b, 1]))
        }
        3 => all.extend(binary_frame(b"")),
        4 => {
            // an attachment that belongs to nothing
            all.extend(binary_frame(&[4, b]))
        }
        5 => {
            // a socket.io type that does not exist
            assume(ascii(b) && !b"012356".contains(&b));
            all.extend(text_frame(&[b'4', b]))
        }
        6 => all.extend(text_frame(OPEN)),
        7 => {
            // an event whose name is no string
            assume(b.is_ascii_digit());
            all.extend(text_frame(&[b'4', b'2', b'[', b, b']']))
        }
        8 => all.extend(text_frame(b"42[]")),
        9 => {
            assume(b.is_ascii_digit());
            all.extend(text_frame(&[b'4', b'3', b, b'[', b']']))
        }
        10 => {
            assume(ascii(b) && b != b'}');
            all.extend(text_frame(&[b'4', b'2', b'[', b'"', b'x', b'"', b',', b'{', b, b']']))
        }
        11 => {
            // the name is an attachment, and no text
            assume(b >= 0x80);
            all.extend(text_frame(b"451-[{\"_placeholder\":true,\"num\":0},\"x\"]"));
            all.extend(att_frame(&[b]))
        }
        12 => all.extend(text_frame(b"45[\"x\"]")),
        13 => {
            // arguments where none may be
            assume(b == b'0' || b == b'1');
            all.extend(text_frame(&[b'4', b, b'[', b'1', b']']))
        }
        _ => {
            // a frame the websocket protocol does not know, or nothing bad at all
            if choice(2) == 0 {
                all.extend(frame(3, true, &[b]))
            } else {
                cover("none");
                none = true
            }
        }
    }
    let after = choice(2) + none as usize;
    for k in 0..after {
        all.extend(good(k))
    }
    w.net.with(|x| x.chunk = if choice(2) == 0 { usize::MAX } else { 5 });
    w.net.feed(&all);
    w.run();
    let got = seen.lock().unwrap().len();
    if none {
        check(got == before + after && !w.ended(), "good messages are not delivered");
        check(matches!(close(&w, c), Some(Ok(()))), "an error without a reason");
        return;
    }
    cover("violated");
    check(got == before, "what came before the error is not delivered, or what came with it or after it is");
    check(w.ended(), "an error does not end the connection");
    w.net.feed(&good(0));
    w.run();
    check(seen.lock().unwrap().len() == before, "something is delivered after the end");
    check(matches!(close(&w, c), Some(Err(e)) if !matches!(e, Error::Timeout(_) | Error::AlreadyClosed)), "close reports no error");
    log(&[bad as u8, before as u8]);
}

/// a text message of any n bytes: delivered, inert, or the end, as its decoding says
pub fn message(n: usize) {
    let t = bytes(n);
    any_message(t)
}
/// n free bytes between the engine.io type and the arguments
pub fn headed(n: usize) {
    let mut t = bytes(n);
    t.extend_from_slice(if choice(2) == 0 { b"[\"x\",1]" } else { b"[]" });
    any_message(t)
}
/// n free bytes as the first argument
pub fn named(n: usize) {
    let mut t = b"2[".to_vec();
    t.extend(bytes(n));
    t.push(b']');
    any_message(t)
}
fn any_message(rest: Vec<u8>) {
    use socket_io_protocol::socket::{deserialize, Data, DeserializeResult};
    let (w, mut c) = World::open();
    let seen: Seen = Default::default();
    client_of(&mut c, &seen);
    let mut t = vec![b'4'];
    t.extend(rest);
    let t = match String::from_utf8(t) {
        Ok(t) => t,
        Err(_) => {
            assume(false);
            return;
        }
    };
    // what it means: 0 nothing, 1 an event, 2 an error, 3 more is needed
    let mut dec = socket_io_protocol::engine::Decoder::new();
    let ws = |t: &str| async_tungstenite::tungstenite::Message::Text(t.to_string());
    let _ = dec.decode(ws(std::str::from_utf8(OPEN).unwrap()));
    let want = match dec.decode(ws(&t)) {
        Ok(socket_io_protocol::engine::Packet::Message(m)) => match deserialize(m) {
            Err(_) => 2,
            Ok(DeserializeResult::DataNeeded(_)) => 3,
            Ok(DeserializeResult::Packet(p)) => match p.data() {
                Data::Event { args, .. } => match args.get(0).map(|a| a.deserialize::<String>()) {
                    Some(Ok(_)) => 1,
                    _ => 2,
                },
                Data::Ack { .. } => 2,
                _ => 0,
            },
        },
        _ => 2,
    };
    w.net.feed(&text_frame(t.as_bytes()));
    w.run();
    let got = seen.lock().unwrap().len();
    // only the three namespaces have callbacks
    check(got <= (want == 1) as usize, "a callback for what is no event");
    check(w.ended() == (want == 2), if want == 2 { "an error does not end the connection" } else { "the connection ends without an error" });
    w.net.feed(&text_frame(&event("/", "x", b"")));
    w.run();
    match want {
        2 => {
            cover("violated");
            check(seen.lock().unwrap().is_empty(), "something is delivered after the end");
            check(matches!(close(&w, c), Some(Err(Error::ProcessingError(_)))), "close reports no error")
        }
        3 => {
            cover("asks");
            check(seen.lock().unwrap().is_empty() && w.ended(), "text where an attachment is due is no error")
        }
        _ => {
            if want == 1 {
                cover("event")
            }
            check(seen.lock().unwrap().len() == got + 1, "the next event is not delivered")
        }
    }
    log(&[want]);
}
