//! C25: a client whose connection has ended.  C26: dropping a client.  And routing amid other things (C14).
use crate::acks::*;
use crate::life::{closing, connecting, upgraded};
use crate::route::*;
use crate::sym::*;
use crate::wire::*;
use crate::world::*;
use socket_io_client::protocol::Args;
use socket_io_client::{AckBuilder, Client, Error};
use std::future::Future;
use std::sync::{Arc, Mutex};
use std::task::Context;
use std::time::Duration;

/// n other things happen; then every event is tried
pub fn meanwhile(n: usize) {
    let (w, mut c) = World::open();
    let hits: Hits = Default::default();
    let mut t = Table::new();
    let full = choice(2) == 1;
    for i in 0..2 {
        t.change(&mut c, &hits, 0, i, 0);
        if full {
            t.change(&mut c, &hits, 2, i, 0)
        }
    }
    for k in 0..n {
        let i = choice(2);
        let ns = NSP[i];
        let pre = if i > 0 { "/a," } else { "" };
        match choice(9) {
            0 => {
                // a callback for an ack, which comes at once
                let h = hits.clone();
                c.namespace_emit(ns, "x").callback(move |_: &Args| h.lock().unwrap().push((99, 0, 0, String::new()))).args().send();
                w.run();
                let id = packet(w.sent().last().unwrap()).id.unwrap();
                w.net.feed(&text_frame(&ack(ns, id, b"[]")));
                w.run();
                let got = std::mem::take(&mut *hits.lock().unwrap());
                check(got.len() == 1 && got[0].0 == 99, "an ack reaches something else")
            }
            1 => {
                // one that does not come
                c.namespace_emit(ns, "x").callback(|_: &Args| check(false, "a callback without an ack")).args().send()
            }
            2 => drop(c.namespace_emit(ns, "x").callback(|_: &Args| check(false, "a callback without an ack")).args()),
            3 => w.net.feed(&text_frame(format!("40{}", pre).as_bytes())),
            4 => w.net.feed(&text_frame(format!("41{}", pre).as_bytes())),
            5 => {
                w.net.feed(&text_frame(format!("451-{}[\"x\",{{\"_placeholder\":true,\"num\":0}},\"q\"]", pre).as_bytes()));
                w.net.feed(&att_frame(&[k as u8]));
                w.run();
                let got = std::mem::take(&mut *hits.lock().unwrap());
                check(got.len() == 1 && Some(got[0].0) == t.hit(i, 0) && got[0].1 == 3 && got[0].3 == "q", "the wrong callback")
            }
            6 => t.change(&mut c, &hits, 1, 2, 1),
            7 => t.change(&mut c, &hits, 3, 2, 0),
            _ => c.clear_namespace_event_callback(ns, "none"),
        }
        w.run();
        check(!w.ended(), "the connection ended");
    }
    check(hits.lock().unwrap().is_empty(), "a callback without an event");
    t.probe(&w, &hits);
    cover(if full { "fallback" } else { "event" });
    log(&[n as u8]);
}

/// the connection ends in any way; then n uses of the client and of what came from it
pub fn over(n: usize) {
    let (w, mut c) = World::open();
    let hits: Arc<Mutex<usize>> = Default::default();
    let kept: Arc<Mutex<Vec<AckBuilder>>> = Default::default();
    let (h, k) = (hits.clone(), kept.clone());
    c.set_fallback_callback(move |_: &Args, a: Option<AckBuilder>| {
        *h.lock().unwrap() += 1;
        k.lock().unwrap().extend(a)
    });
    for i in 0..n {
        w.net.feed(&text_frame(format!("42{}[\"x\"]", i).as_bytes()))
    }
    let h = hits.clone();
    c.emit("e").callback(move |_: &Args| *h.lock().unwrap() += 1).args().send();
    w.run();
    check(*hits.lock().unwrap() == n, "the events are not delivered");
    let id = packet(&w.sent()[0]).id.unwrap();
    let how = choice(11);
    let mut open = Some(c);
    let mut closed = false;
    match how {
        0 => {
            w.net.feed(&frame(8, true, b""));
            w.net.with(|x| x.eof = true)
        }
        1 => w.net.feed(&text_frame(b"42[]")),
        2 => w.net.with(|x| x.fail = true),
        3 => w.net.with(|x| x.eof = true),
        4 => {
            w.net.with(|x| x.wfail = true);
            open.as_mut().unwrap().emit("lost").args().send()
        }
        5 => w.net.feed(&binary_frame(&[4])),
        10 => {
            w.net.feed(&text_frame(b"1"));
            w.run();
            w.net.with(|x| x.eof = true)
        }
        9 => {
            // closing is given up by whoever waited for it
            let c = open.as_mut().unwrap();
            let mut t = Box::pin(c.close());
            let waker = futures::task::noop_waker();
            let r = t.as_mut().poll(&mut Context::from_waker(&waker));
            check(r.is_pending(), "close does not wait for the peer");
            if choice(2) == 1 {
                w.run()
            }
            drop(t);
            closed = true
        }
        _ => {
            let (mut t, back) = closing(open.take().unwrap());
            w.run_with(&mut t);
            match how {
                6 => {
                    w.net.feed(&frame(8, true, b""));
                    w.net.with(|x| x.eof = true)
                }
                // still closing until the time is over
                7 => futures_timer::advance(Duration::from_secs(10)),
                _ => w.net.with(|x| x.fail = true),
            }
            w.run_with(&mut t);
            check(t.done(), "close does not end");
            open = back.lock().unwrap().take();
            closed = true
        }
    }
    w.run();
    check(w.ended(), "the connection does not end");
    w.net.take();
    let mut c: Client = open.unwrap();
    for _ in 0..n {
        match choice(8) {
            0 => c.emit("y").args().send(),
            1 => {
                let h = hits.clone();
                let b = c.namespace_emit("/a", "y").binary(true).callback(move |_: &Args| *h.lock().unwrap() += 1).args();
                match b.arg(&Bin(&[1])) {
                    Ok(b) => b.send(),
                    Err(_) => check(false, "an argument is refused"),
                }
            }
            2 => {
                if let Some(a) = kept.lock().unwrap().pop() {
                    a.args().send()
                }
            }
            3 => {
                let h = hits.clone();
                c.set_event_callback("x", move |_: &Args, _: Option<AckBuilder>| *h.lock().unwrap() += 1)
            }
            4 => c.clear_fallback_callback(),
            5 => w.net.feed(&text_frame(&event("/", "x", b""))),
            6 => {
                w.net.feed(&text_frame(&ack("/", id, b"[]")));
                w.net.feed(&text_frame(b"2"))
            }
            _ => {
                let (mut t, back) = closing(c);
                w.run_with(&mut t);
                check(t.done(), "close waits although the connection has ended");
                check(matches!(t.out, Some(Err(Error::AlreadyClosed))) == closed, "not what the first or a later close reports");
                closed = true;
                let b = back.lock().unwrap().take();
                c = b.unwrap()
            }
        }
        w.run();
        check(*hits.lock().unwrap() == n, "a callback after the connection has ended");
        check(w.net.take().is_empty(), "something is sent after the connection has ended")
    }
    drop(c);
    w.run();
    cover("over");
    log(&[how as u8]);
}

/// while closing: kept acknowledgements and what the peer sends
pub fn closing_down(n: usize) {
    let (w, mut c) = World::open();
    let kept: Arc<Mutex<Vec<AckBuilder>>> = Default::default();
    let k = kept.clone();
    c.set_fallback_callback(move |_: &Args, a: Option<AckBuilder>| k.lock().unwrap().extend(a));
    for i in 0..n {
        w.net.feed(&text_frame(format!("42{}[\"x\"]", i).as_bytes()))
    }
    w.run();
    let (mut t, _back) = closing(c);
    let mut want = 0;
    let at = choice(n + 1);
    let mut shut = false;
    for i in 0..n {
        if i == at {
            w.run_with(&mut t);
            shut = true
        }
        let a = kept.lock().unwrap().pop();
        a.unwrap().args().send();
        want += !shut as usize
    }
    w.run_with(&mut t);
    check(!t.done(), "close does not wait for the peer");
    let s = w.sent();
    check(s.len() == want + 1 && s[..want].iter().all(|f| f.0 == 1 && f.1.starts_with(b"43")), "not the acks that were sent before closing");
    check(s[want].0 == 8, "something after the close frame");
    w.net.feed(&frame(8, true, b""));
    w.net.with(|x| x.eof = true);
    w.run_with(&mut t);
    check(matches!(t.out, Some(Ok(()))), "the peer answers, but close does not succeed");
    check(w.sent().is_empty(), "something is sent after the connection has ended");
    cover("closed");
    log(&[n as u8]);
}

/// the client is dropped in any state; n packets arrive afterwards
pub fn dropped(n: usize) {
    let seen: Arc<Mutex<usize>> = Default::default();
    let kept: Arc<Mutex<Vec<AckBuilder>>> = Default::default();
    let gone = choice(11);
    let w = match gone {
        0 => {
            let (w, t) = connecting();
            drop(t);
            w
        }
        1 => {
            let (w, mut t) = connecting();
            let req = w.net.take();
            let a = answer(&req);
            w.net.feed(&a[..a.len() / 2]);
            w.run_with(&mut t);
            drop(t);
            w
        }
        2 | 3 => {
            let (w, t) = upgraded();
            if gone == 3 {
                // it is dropped before it has noticed
                w.net.feed(&text_frame(OPEN));
                w.run()
            }
            drop(t);
            w
        }
        _ => {
            let (w, mut c) = World::open();
            let (s, k) = (seen.clone(), kept.clone());
            c.set_fallback_callback(move |_: &Args, a: Option<AckBuilder>| {
                *s.lock().unwrap() += 1;
                k.lock().unwrap().extend(a)
            });
            w.net.feed(&text_frame(b"427[\"x\"]"));
            w.run();
            check(*seen.lock().unwrap() == 1, "the event is not delivered");
            let s = seen.clone();
            c.emit("e").callback(move |_: &Args| *s.lock().unwrap() += 1).args().send();
            match gone {
                4 => {}
                5 => w.run(),
                10 => {
                    w.net.feed(&text_frame(b"1"));
                    w.run()
                }
                6 => {
                    w.net.feed(&text_frame(b"451-[\"x\",{\"_placeholder\":true,\"num\":0}]"));
                    w.run()
                }
                7 => {
                    // a write that cannot go on
                    w.net.with(|x| x.room = 3);
                    w.run()
                }
                _ => {
                    let (mut t, back) = closing(c);
                    w.run_with(&mut t);
                    if gone == 9 {
                        // given up
                        futures_timer::advance(Duration::from_secs(10));
                        w.run_with(&mut t);
                        check(t.done(), "close does not end");
                        drop(back.lock().unwrap().take())
                    }
                    drop(t);
                    w.run();
                    return dropped_then(n, &w, &seen, &kept);
                }
            }
            drop(c);
            w
        }
    };
    dropped_then(n, &w, &seen, &kept)
}
fn dropped_then(n: usize, w: &World, seen: &Arc<Mutex<usize>>, kept: &Arc<Mutex<Vec<AckBuilder>>>) {
    let before = *seen.lock().unwrap();
    for i in 0..n {
        match choice(3) {
            0 => w.net.feed(&text_frame(&event("/", "x", b""))),
            1 => w.net.feed(&text_frame(&ack("/", i as u64, b"[]"))),
            _ => {
                if let Some(a) = kept.lock().unwrap().pop() {
                    a.args().send()
                }
            }
        }
        if choice(2) == 1 {
            w.run()
        }
    }
    w.run();
    check(w.ended(), "the connection task goes on without a client");
    check(*seen.lock().unwrap() == before, "a callback after the client is gone");
    // the two that are left belong to the harness
    check(Arc::strong_count(&w.net.0) == 2, "the connection is not released");
    w.net.take();
    if let Some(a) = kept.lock().unwrap().pop() {
        a.args().send()
    }
    w.run();
    check(w.net.take().is_empty(), "something is sent without a client");
    cover("gone");
    log(&[n as u8]);
}

/// close while the connection takes nothing; then it may take all, and the peer may answer
pub fn blocked(n: usize) {
    let (w, mut c) = World::open();
    let room = choice(3) * 4;
    w.net.with(|x| x.room = room);
    for _ in 0..n {
        c.emit("a").args().send();
        if choice(2) == 1 {
            w.run()
        }
    }
    let (mut t, back) = closing(c);
    w.run_with(&mut t);
    check(!t.done(), "close does not wait for the peer");
    let end = choice(4);
    match end {
        0 => {}
        1 => {
            w.net.with(|x| x.room = usize::MAX);
            w.run_with(&mut t);
            let s = w.sent();
            check(s.len() == n + 1 && s[n].0 == 8, "not what was sent before and the close frame");
            w.net.feed(&frame(8, true, b""));
            w.net.with(|x| x.eof = true)
        }
        2 => {
            w.net.with(|x| x.room = usize::MAX);
            w.run_with(&mut t)
        }
        _ => w.net.with(|x| x.wfail = true),
    }
    w.run_with(&mut t);
    if end == 1 {
        cover("closed");
        check(matches!(t.out, Some(Ok(()))), "the peer answers, but close does not succeed")
    } else {
        if !t.done() {
            futures_timer::advance(Duration::from_secs(10));
            w.run_with(&mut t);
            cover("timeout");
            check(matches!(t.out, Some(Err(Error::Timeout(_)))), "no timeout although the peer never answers");
        }
        check(matches!(t.out, Some(Err(_))), "close succeeds without an answer");
        check(end != 3 || n == 0 || !matches!(t.out, Some(Err(Error::AlreadyClosed))), "the error is not reported")
    }
    let c = back.lock().unwrap().take();
    check(c.is_some(), "close does not end");
    let (mut t, _b) = closing(c.unwrap());
    t.step();
    check(matches!(t.out, Some(Err(Error::AlreadyClosed))), "a later close is not refused at once");
    drop(t);
    w.run();
    check(w.ended(), "the connection task goes on after close");
    log(&[end as u8, n as u8]);
}

/// packets on a connection that holds back what it is given until it is flushed
pub fn held(n: usize) {
    let (w, mut c) = World::open();
    w.net.with(|x| x.hold = true);
    turns(1);
    let mut want = Vec::new();
    for i in 0..n {
        match choice(3) {
            0 => {
                c.emit("t").args().send();
                want.push((1, b"42[\"t\"]".to_vec()))
            }
            1 => {
                match c.emit("b").binary(true).args().arg(&Bin(&[i as u8])) {
                    Ok(b) => b.send(),
                    Err(_) => check(false, "bytes are no argument"),
                }
                want.push((1, b"451-[\"b\",{\"_placeholder\":true,\"num\":0}]".to_vec()));
                want.push((2, vec![4, i as u8]))
            }
            _ => {
                w.run();
                w.net.feed(&text_frame(b"2"));
                want.push((1, b"3".to_vec()))
            }
        }
        if choice(2) == 1 {
            w.run();
            check(w.net.with(|x| x.held.is_empty()), "the connection is not flushed")
        }
    }
    w.run();
    check(w.net.with(|x| x.held.is_empty()), "the connection is not flushed");
    let mut s = w.sent();
    // a pong may wait for packets that were sent first
    let sort = |v: &mut Vec<(u8, Vec<u8>)>| {
        let p = v.iter().filter(|f| f.1 == b"3").count();
        v.retain(|f| f.1 != b"3");
        p
    };
    check(sort(&mut s) == sort(&mut want) && s == want, "not the frames of the packets in order");
    cover("sent");
    let (mut t, _back) = closing(c);
    w.run_with(&mut t);
    let s = w.sent();
    check(s.len() == 1 && s[0].0 == 8, "not exactly one close frame");
    w.net.feed(&frame(8, true, b""));
    w.net.with(|x| x.eof = true);
    w.run_with(&mut t);
    check(matches!(t.out, Some(Ok(()))), "the peer answers, but close does not succeed");
    log(&[n as u8]);
}
