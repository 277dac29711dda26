//! C21: connecting.  C22: closing.  C23: addresses.
use crate::acks::*;
use crate::route::*;
use crate::sym::*;
use crate::wire::*;
use crate::world::*;
use futures::future::FutureObj;
use futures::task::{Spawn, SpawnError};
use socket_io_client::{Client, Error};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// fields of an open packet, read independently
#[derive(serde::Deserialize)]
#[serde(rename_all = "camelCase")]
#[allow(dead_code)]
struct Opened {
    sid: String,
    ping_interval: u64,
    ping_timeout: u64,
}
fn well_formed(t: &[u8]) -> bool {
    t.first() == Some(&b'0') && std::str::from_utf8(t).is_ok() && serde_json::from_slice::<Opened>(&t[1..]).is_ok()
}

pub fn connecting() -> (World, Connect) {
    let w = World::new();
    let mut c = w.connecting("http://h/socket.io/");
    w.run_with(&mut c);
    check(!c.done(), "connected without a server");
    (w, c)
}
pub fn upgraded() -> (World, Connect) {
    let (w, mut c) = connecting();
    let req = w.net.take();
    w.net.feed(&answer(&req));
    w.run_with(&mut c);
    check(!c.done(), "connected without an open packet");
    (w, c)
}
fn wait(w: &World, c: &mut Connect) {
    for d in [4, 6, 50, 100] {
        futures_timer::advance(Duration::from_secs(d));
        w.run_with(c);
        if c.done() {
            return;
        }
    }
}
/// it is an error by now, or once the time is over
fn refused(w: &World, c: &mut Connect, silent: bool) {
    w.run_with(c);
    if silent {
        check(!c.done(), "an end without a reason")
    }
    wait(w, c);
    match &c.out {
        None => check(false, "connecting never ends"),
        Some(Ok(_)) => check(false, "connected without an open packet"),
        Some(Err(e)) => {
            check(!silent || matches!(e, Error::Timeout(_)), "not a timeout");
            log(&[matches!(e, Error::Timeout(_)) as u8])
        }
    }
}

/// what the peer may do about the handshake; n free bytes in the answer
pub fn handshake(n: usize) {
    let (w, mut c) = connecting();
    let req = w.net.take();
    let good = answer(&req);
    let how = choice(8);
    match how {
        0 => {
            // nothing
            cover("silent");
            return refused(&w, &mut c, true);
        }
        1 => w.net.with(|x| x.eof = true),
        2 => w.net.with(|x| x.fail = true),
        3 => {
            // any bytes
            w.net.feed(&bytes(n));
            w.net.with(|x| x.eof = true)
        }
        4 => {
            // any status
            let mut v = b"HTTP/1.1 ".to_vec();
            let mut s = Vec::new();
            for _ in 0..3 {
                let d = byte();
                assume(d.is_ascii_digit());
                s.push(d)
            }
            assume(s != b"101" && s[0] != b'0');
            v.extend(s);
            v.extend_from_slice(&good[12..]);
            w.net.feed(&v)
        }
        5 => {
            // the accept key with another byte
            let at = good.windows(8).position(|x| x == b"Accept: ").unwrap() + 8;
            let k = at + choice(28);
            let mut v = good.clone();
            // natively the key is another one each time
            const ALPHA: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=";
            let old = ALPHA.iter().position(|x| *x == good[k]).unwrap();
            let d = byte() as usize;
            assume(d > 0 && d < ALPHA.len());
            v[k] = ALPHA[(old + d) % ALPHA.len()];
            w.net.feed(&v)
        }
        6 => {
            // not all of it
            let k = choice(good.len() / 8) * 8 + choice(8);
            w.net.feed(&good[..k.min(good.len() - 1)]);
            match choice(3) {
                0 => return refused(&w, &mut c, true),
                1 => w.net.with(|x| x.eof = true),
                _ => w.net.with(|x| x.fail = true),
            }
        }
        _ => {
            // in pieces, then the open packet
            cover("open");
            w.net.with(|x| x.chunk = 1 + choice(3));
            w.net.feed(&good);
            w.run_with(&mut c);
            check(!c.done(), "an end before the open packet");
            w.net.feed(&text_frame(OPEN));
            w.run_with(&mut c);
            check(matches!(c.out, Some(Ok(_))), "a correct server is refused");
            return;
        }
    }
    cover("refused");
    refused(&w, &mut c, false)
}

/// anything but an open packet first, then perhaps an open packet
pub fn before_open(n: usize) {
    let (w, mut c) = upgraded();
    let b = byte();
    let how = choice(13);
    let late = choice(2) == 1;
    turns(2);
    match how {
        0 => w.net.with(|x| x.eof = true),
        1 => w.net.with(|x| x.fail = true),
        2 => w.net.feed(&frame(8, true, &[3, 0xe8])),
        3 => {
            w.net.feed(&frame(8, true, b""));
            w.net.with(|x| x.eof = true)
        }
        4 => w.net.feed(&text_frame(b"")),
        5 => {
            assume(b < 0x80);
            w.net.feed(&text_frame(&[b]))
        }
        6 => w.net.feed(&binary_frame(&[b, 1])),
        7 => {
            assume((0x20..0x7f).contains(&b));
            w.net.feed(&text_frame(&[b'4', b'2', b'[', b'"', b, b'"', b']']))
        }
        8 => w.net.feed(&text_frame(b"2probe")),
        9 => w.net.feed(&text_frame(&[b'0', b])),
        10 => {
            // any text
            let t = bytes(n);
            if std::str::from_utf8(&t).is_err() {
                assume(false)
            }
            w.net.feed(&text_frame(&t))
        }
        11 => {
            // a piece of an open packet
            let k = choice(OPEN.len());
            w.net.feed(&text_frame(OPEN)[..k]);
            w.net.with(|x| x.eof = true)
        }
        _ => w.net.feed(&frame(3 + (b & 3), true, b"x")),
    }
    if late {
        w.net.feed(&text_frame(OPEN))
    }
    // before the end of the connection it would be the first
    assume(!late || how > 1 && how != 11);
    cover("refused");
    refused(&w, &mut c, false)
}

/// the open packet with one byte replaced by any, in one or two frames
pub fn opening(n: usize) {
    let (w, mut c) = upgraded();
    let mut t = OPEN.to_vec();
    let at = n * 10 + choice(10);
    assume(at < t.len());
    let b = byte();
    t[at] = b;
    if std::str::from_utf8(&t).is_err() {
        assume(false)
    }
    if choice(2) == 0 {
        w.net.feed(&text_frame(&t))
    } else {
        w.net.feed(&frame(9, true, b"p"));
        w.net.feed(&frame(1, false, &t[..9]));
        w.net.feed(&frame(10, true, b"p"));
        w.net.feed(&frame(0, true, &t[9..]))
    }
    if well_formed(&t) {
        cover("open");
        w.run_with(&mut c);
        check(matches!(c.out, Some(Ok(_))), "a well-formed open packet is refused");
        log(&[1]);
    } else {
        cover("refused");
        refused(&w, &mut c, false)
    }
}

/// silence after some part of the conversation, in which the time runs out, or nearly
pub fn silence(n: usize) {
    let _ = n;
    let (w, mut c) = upgraded();
    match choice(3) {
        0 => {}
        1 => w.net.feed(&frame(9, true, b"p")),
        _ => w.net.feed(&frame(1, false, b"0{")),
    }
    w.run_with(&mut c);
    if choice(2) == 0 {
        cover("silent");
        refused(&w, &mut c, true);
        // nothing is left behind that still talks
        drop(c);
        w.run();
        check(w.ended(), "the task goes on although nobody wants the client")
    } else {
        futures_timer::advance(Duration::from_secs(9));
        w.run_with(&mut c);
        check(!c.done(), "an end before the time is over");
        w.abandon();
        let (w, mut c) = upgraded();
        futures_timer::advance(Duration::from_secs(9));
        w.run_with(&mut c);
        w.net.feed(&text_frame(OPEN));
        w.run_with(&mut c);
        check(matches!(c.out, Some(Ok(_))), "a server that answers in time is refused");
        cover("open")
    }
}

/// the open packet and what follows it come in one read, and at every split
pub fn together(n: usize) {
    let (w, mut c) = connecting();
    let req = w.net.take();
    let mut v = answer(&req);
    v.extend(text_frame(OPEN));
    for _ in 0..n {
        v.extend(text_frame(b"2"));
    }
    let after = choice(3);
    turns(3);
    if after == 1 {
        v.extend(frame(8, true, b""))
    }
    let how = choice(4);
    w.net.with(|x| x.chunk = [usize::MAX, 1, 20, 64][how]);
    w.net.feed(&v);
    if after == 2 {
        w.net.with(|x| x.eof = true)
    }
    w.run_with(&mut c);
    check(matches!(c.out, Some(Ok(_))), "a correct server is refused");
    cover("open");
    log(&[how as u8]);
}

pub fn closing(mut c: Client) -> (Task<Result<(), Error>>, Arc<Mutex<Option<Client>>>) {
    let back: Arc<Mutex<Option<Client>>> = Default::default();
    let b = back.clone();
    let t = Task::new(async move {
        let r = c.close().await;
        *b.lock().unwrap() = Some(c);
        r
    });
    (t, back)
}
fn close_again(w: &World, back: &Arc<Mutex<Option<Client>>>, times: usize) {
    for _ in 0..times {
        let c = back.lock().unwrap().take();
        check(c.is_some(), "the first close is not over");
        let (mut t, b) = closing(c.unwrap());
        t.step();
        check(matches!(t.out, Some(Err(Error::AlreadyClosed))), "a later close is not refused at once");
        *back.lock().unwrap() = b.lock().unwrap().take();
    }
    w.run();
}

/// how the connection stands, what arrives while closing, what the peer does then
pub fn close_it(n: usize) {
    let (w, mut c) = if choice(2) == 0 { World::open() } else { World::fresh() };
    let seen: Seen = Default::default();
    for (i, ns) in NSP.iter().enumerate() {
        c.set_namespace_fallback_callback(ns, record(&seen, i))
    }
    let mut want = 0;
    turns(1);
    let ended = choice(6);
    match ended {
        0 => {}
        1 => {
            // an event before closing, a binary one not complete
            w.net.feed(&text_frame(&event("/", "x", b"")));
            w.net.feed(&text_frame(b"451-/a,[\"y\",{\"_placeholder\":true,\"num\":0}]"));
            want += 1
        }
        2 => w.net.feed(&text_frame(b"49")),
        3 => w.net.with(|x| x.fail = true),
        4 => w.net.with(|x| x.eof = true),
        // engine.io is closed, nothing more comes
        _ => w.net.feed(&text_frame(b"1")),
    }
    // the client may or may not have noticed
    if choice(2) == 0 {
        w.run()
    }
    let error = (2..5).contains(&ended);
    w.net.with(|x| x.chunk = if choice(2) == 0 { usize::MAX } else { 3 });
    let (mut t, back) = closing(c);
    w.run_with(&mut t);
    if error {
        cover("error");
        check(t.done(), "close waits although the connection has ended");
        check(matches!(&t.out, Some(Err(e)) if !matches!(e, Error::Timeout(_) | Error::AlreadyClosed)), "the error is not reported");
        close_again(&w, &back, 2);
        return;
    }
    check(!t.done(), "close does not wait for the peer");
    let s = w.sent();
    check(s.len() == 1 && s[0].0 == 8, "not exactly one close frame");
    // what is due may never come
    let due = ended == 1 && choice(2) == 0;
    if ended == 1 && !due {
        w.net.feed(&att_frame(&[byte()]));
        want += 1
    }
    for _ in 0..n {
        match if due || ended == 5 { 3 } else { choice(4) } {
            0 => {
                w.net.feed(&text_frame(&event("/", "x", b"")));
                want += 1
            }
            1 => {
                w.net.feed(&text_frame(b"451-/a,[\"y\",{\"_placeholder\":true,\"num\":0}]"));
                w.net.feed(&att_frame(&[byte()]));
                want += 1
            }
            2 => w.net.feed(&text_frame(b"2")),
            _ => w.net.feed(&frame(9, true, b"p")),
        }
        if choice(2) == 1 {
            w.run_with(&mut t);
            check(!t.done(), "close does not wait for the peer");
        }
    }
    w.run_with(&mut t);
    check(!t.done(), "close does not wait for the peer");
    check(seen.lock().unwrap().len() == want, "packets that arrive while closing are not delivered");
    let end = choice(6);
    let ok = end < 2;
    match end {
        0 => {
            w.net.feed(&frame(8, true, b""));
            w.net.with(|x| x.eof = true)
        }
        1 => {
            w.net.feed(&frame(8, true, &[3, 0xe8, b'b', b'y', b'e']));
            w.run_with(&mut t);
            w.net.with(|x| x.eof = true)
        }
        2 => w.net.with(|x| x.fail = true),
        3 => w.net.with(|x| x.eof = true),
        4 => w.net.feed(&text_frame(b"49")),
        _ => {}
    }
    w.run_with(&mut t);
    if end == 5 {
        futures_timer::advance(Duration::from_secs(9));
        w.run_with(&mut t);
        check(!t.done(), "close gives up too early");
        futures_timer::advance(Duration::from_secs(1));
        w.run_with(&mut t);
        cover("timeout");
        check(matches!(t.out, Some(Err(Error::Timeout(_)))), "no timeout although the peer never answers")
    } else if ok {
        cover("closed");
        check(matches!(t.out, Some(Ok(()))), "the peer answers, but close does not succeed")
    } else {
        cover("broken");
        check(matches!(&t.out, Some(Err(e)) if !matches!(e, Error::Timeout(_) | Error::AlreadyClosed)), "the error is not reported")
    }
    check(seen.lock().unwrap().len() == want, "something else is delivered");
    close_again(&w, &back, 2);
    log(&[want as u8, end as u8]);
}

/// the peer closes first
pub fn peer_closes(n: usize) {
    let (w, mut c) = World::open();
    let seen: Seen = Default::default();
    c.set_fallback_callback(record(&seen, 0));
    turns(1);
    for _ in 0..n {
        w.net.feed(&text_frame(&event("/", "x", b"")));
    }
    if choice(2) == 1 {
        // attachments that never come
        w.net.feed(&text_frame(b"452-[\"x\",{\"_placeholder\":true,\"num\":0}]"));
        if choice(2) == 1 {
            w.net.feed(&att_frame(&[7]))
        }
    }
    if choice(2) == 1 {
        w.net.feed(&text_frame(b"1"))
    }
    w.net.feed(&frame(8, true, if choice(2) == 0 { b"" } else { &[3, 0xe8] }));
    if choice(2) == 1 {
        w.run()
    }
    let (mut t, back) = closing(c);
    if choice(2) == 1 {
        w.run_with(&mut t)
    }
    w.net.with(|x| x.eof = true);
    w.run_with(&mut t);
    check(matches!(t.out, Some(Ok(()))), "the peer closes, but close does not succeed");
    check(seen.lock().unwrap().len() == n, "events before the close are not delivered");
    let s = w.sent();
    check(s.len() == 1 && s[0].0 == 8, "not exactly one close frame");
    close_again(&w, &back, 1);
    cover("closed");
    log(&[n as u8]);
}

/// what is emitted before closing goes out before the close frame
pub fn flush(n: usize) {
    let (w, mut c) = World::open();
    let step = [usize::MAX, 1, 7][choice(3)];
    w.net.with(|x| x.room = if choice(2) == 0 { step } else { 0 });
    turns(2);
    let mut want: Vec<(u8, Vec<u8>)> = Vec::new();
    for i in 0..n {
        let d = b'0' + i as u8;
        if choice(2) == 0 {
            c.emit("t").args().send();
            want.push((1, b"42[\"t\"]".to_vec()))
        } else {
            match c.emit("b").binary(true).args().arg(&Bin(&[d])) {
                Ok(b) => b.send(),
                Err(_) => check(false, "bytes are no argument"),
            }
            want.push((1, b"451-[\"b\",{\"_placeholder\":true,\"num\":0}]".to_vec()));
            want.push((2, vec![4, d]));
        }
        if choice(2) == 1 {
            w.run()
        }
    }
    let (mut t, _back) = closing(c);
    for _ in 0..300 {
        w.run_with(&mut t);
        if step == usize::MAX {
            w.net.with(|x| x.room = step);
            w.run_with(&mut t);
            break;
        }
        if w.net.with(|x| x.room > 0) {
            break;
        }
        w.net.with(|x| x.room = step);
    }
    let mut s = w.sent();
    check(s.pop().map(|f| f.0) == Some(8), "no close frame at the end");
    check(s == want, "not the frames of the packets in order before the close frame");
    w.net.feed(&frame(8, true, b""));
    w.net.with(|x| x.eof = true);
    w.run_with(&mut t);
    check(matches!(t.out, Some(Ok(()))), "the peer answers, but close does not succeed");
    cover("closed");
    log(&[n as u8]);
}

#[derive(Debug)]
struct Unreachable;
impl std::fmt::Display for Unreachable {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("unreachable")
    }
}
impl std::error::Error for Unreachable {}

/// an executor that takes no tasks
struct Full;
impl Spawn for Full {
    fn spawn_obj(&self, _: FutureObj<'static, ()>) -> Result<(), SpawnError> {
        Err(SpawnError::shutdown())
    }
}

/// n = 0: a connector or an executor that fails; n = 1: faults while the handshake is written
pub fn attempts(n: usize) {
    let w = World::new();
    if n == 0 {
        let (net, pool) = (w.net.clone(), w.pool.clone());
        let (fails, full) = (choice(2) == 1, choice(2) == 1);
        let mut c: Connect = Task::new(async move {
            let connect = move |_: String, _: u16| {
                let r = if fails { Err(Unreachable) } else { Ok(net.clone()) };
                async move { r }
            };
            if full {
                Client::connect("http://h/socket.io/", connect, &Full).await
            } else {
                Client::connect("http://h/socket.io/", connect, &pool).await
            }
        });
        w.run_with(&mut c);
        if fails {
            cover("refused");
            check(matches!(c.out, Some(Err(Error::ConnectionError(_)))), "not the error of the connector");
            check(w.net.take().is_empty(), "something is sent without a connection");
            return;
        }
        check(!c.done(), "connected without a server");
        let req = w.net.take();
        w.net.feed(&answer(&req));
        if choice(2) == 1 {
            w.net.feed(&text_frame(OPEN));
        }
        w.run_with(&mut c);
        if full {
            cover("refused");
            check(matches!(c.out, Some(Err(_))), "connected without a task");
            drop(c);
            w.run();
            check(Arc::strong_count(&w.net.0) == 2, "the connection is not released");
            return;
        }
        if !c.done() {
            w.net.feed(&text_frame(OPEN));
            w.run_with(&mut c)
        }
        check(matches!(c.out, Some(Ok(_))), "a correct server is refused");
        return cover("open");
    }
    // the request goes out in pieces, and perhaps not all of it
    let step = [1, 7, 64][choice(3)];
    let last = choice(4);
    w.net.with(|x| x.room = 0);
    let mut c = w.connecting("http://h/socket.io/");
    w.run_with(&mut c);
    let mut req = Vec::new();
    for i in 0..400 {
        check(!c.done(), "an end before the request is out");
        req.extend(w.net.take());
        if req.ends_with(b"\r\n\r\n") {
            break;
        }
        if last < 3 && i == last {
            cover("refused");
            w.net.with(|x| x.wfail = true);
            w.run_with(&mut c);
            check(matches!(&c.out, Some(Err(e)) if !matches!(e, Error::Timeout(_))), "the error of the connection is not reported");
            return;
        }
        w.net.with(|x| x.room = step);
        w.run_with(&mut c)
    }
    w.net.feed(&answer(&req));
    w.net.feed(&text_frame(OPEN));
    w.run_with(&mut c);
    check(matches!(c.out, Some(Ok(_))), "a correct server is refused");
    cover("open");
    log(&[step as u8])
}
