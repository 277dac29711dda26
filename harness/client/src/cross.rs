//! Two threads: whatever one of the client's threads does within the other's doing, the outcome is that of
//! one after the other.
use crate::acks::Bin;
use crate::life::closing;
use crate::sym::*;
use crate::world::*;
use socket_io_client::protocol::Args;
use socket_io_client::{AckBuilder, Client, Error};
use std::sync::{Arc, Mutex};
use std::time::Duration;

type Closing = (Task<Result<(), Error>>, Arc<Mutex<Option<Client>>>);

/// what callbacks have seen
type Calls = Arc<Mutex<Vec<u8>>>;

/// what the connection task has to do
#[derive(Clone, Copy, PartialEq)]
pub enum T {
    Event,
    Asked,
    Binary,
    Ack,
    Ping,
    Queued,
    Wrong,
    Eof,
    CloseFrame,
    Closing,
    /// nothing: it is another thread that does it
    By(O),
}
/// what another thread does
#[derive(Clone, Copy, PartialEq)]
pub enum O {
    Set,
    Clear,
    SetFallback,
    ClearFallback,
    Emit,
    EmitCallback,
    EmitBinary,
    /// more attachments than anything else has
    EmitMany,
    Kept,
    Close,
    Drop,
}

struct Both {
    w: World,
    c: Option<Client>,
    kept: Option<AckBuilder>,
    closing: Option<Closing>,
    calls: Calls,
    dropped: bool,
}

fn tell(calls: &Calls, k: u8) -> impl FnMut(&Args, Option<AckBuilder>) + Send + 'static {
    let l = calls.clone();
    move |a: &Args, ack: Option<AckBuilder>| {
        let n = a.get(1).and_then(|x| x.deserialize::<Vec<u8>>().ok()).map_or(0, |v| v.len());
        l.lock().unwrap().extend_from_slice(&[k, a.len() as u8, n as u8, ack.is_some() as u8]);
        if let Some(b) = ack {
            b.args().arg(&k).unwrap().send()
        }
    }
}

impl Both {
    fn new(fallback: bool) -> Both {
        let (w, mut c) = World::open();
        let calls: Calls = Default::default();
        let kept: Arc<Mutex<Option<AckBuilder>>> = Default::default();
        let k = kept.clone();
        c.set_event_callback("k", move |_: &Args, a: Option<AckBuilder>| *k.lock().unwrap() = a);
        c.set_event_callback("a", tell(&calls, 1));
        if fallback {
            c.set_fallback_callback(tell(&calls, 2))
        }
        let l = calls.clone();
        c.emit("e").callback(move |a: &Args| l.lock().unwrap().extend_from_slice(&[3, a.len() as u8])).args().send();
        w.net.feed(&text_frame(b"427[\"k\"]"));
        w.run();
        c.clear_event_callback("k");
        w.sent();
        let kept = kept.lock().unwrap().take();
        check(kept.is_some(), "no acknowledgement");
        Both { w, c: Some(c), kept, closing: None, calls, dropped: false }
    }
    fn prepare(&mut self, t: T) {
        match t {
            T::Event => self.w.net.feed(&text_frame(b"42[\"a\",[1,2]]")),
            T::Asked => self.w.net.feed(&text_frame(b"4211[\"a\",[1]]")),
            T::Binary => {
                self.w.net.feed(&text_frame(b"451-[\"a\",{\"_placeholder\":true,\"num\":0}]"));
                self.w.net.feed(&binary_frame(&[4, 1, 2, 3]))
            }
            T::Ack => self.w.net.feed(&text_frame(b"430[1]")),
            T::Ping => self.w.net.feed(&text_frame(b"2")),
            T::Queued => self.c.as_mut().unwrap().emit("q").binary(true).args().arg(&vec![9u8, 9]).unwrap().send(),
            T::Wrong => self.w.net.feed(&text_frame(b"42[]")),
            T::Eof => self.w.net.with(|n| n.eof = true),
            T::CloseFrame => self.w.net.feed(&frame(8, true, b"")),
            T::Closing => self.act(O::Close),
            T::By(_) => {}
        }
    }
    fn act(&mut self, o: O) {
        if o == O::Kept {
            if let Some(k) = self.kept.take() {
                k.binary(true).args().arg(&vec![8u8, 8]).unwrap().send()
            }
            return;
        }
        let c = match self.c.as_mut() {
            Some(c) => c,
            None => return,
        };
        match o {
            O::Set => c.set_event_callback("a", tell(&self.calls, 4)),
            O::Clear => c.clear_event_callback("a"),
            O::SetFallback => c.set_fallback_callback(tell(&self.calls, 5)),
            O::ClearFallback => c.clear_fallback_callback(),
            O::Emit => c.emit("o").args().arg("x").unwrap().send(),
            O::EmitCallback => {
                let l = self.calls.clone();
                c.emit("o").callback(move |a: &Args| l.lock().unwrap().extend_from_slice(&[6, a.len() as u8])).args().send()
            }
            O::EmitBinary => c.emit("o").binary(true).args().arg(&vec![7u8]).unwrap().arg(&vec![7u8, 7]).unwrap().send(),
            O::EmitMany => {
                let mut b = c.emit("m").binary(true).args();
                for _ in 0..70 {
                    b.arg_ref(&Bin(&[7])).unwrap()
                }
                b.send()
            }
            O::Close => {
                let mut t = closing(self.c.take().unwrap());
                t.0.step();
                self.closing = Some(t)
            }
            O::Drop => {
                self.dropped = true;
                drop(self.c.take())
            }
            O::Kept => {}
        }
    }
    /// everything that can be seen of what happened
    fn outcome(mut self) -> Vec<u8> {
        self.w.run();
        let mut out = std::mem::take(&mut *self.calls.lock().unwrap());
        let ended = self.w.ended();
        for (op, p) in self.w.sent() {
            if op == 8 && self.dropped {
                continue; // a task that is busy when the client goes may still send it
            }
            out.push(100 + op);
            out.extend_from_slice(&p)
        }
        out.push(200 + ended as u8);
        if let Some((t, back)) = &mut self.closing {
            self.w.net.feed(&frame(8, true, b""));
            self.w.net.with(|n| n.eof = true);
            self.w.run_with(t);
            if !t.done() {
                futures_timer::advance(Duration::from_secs(10));
                self.w.run_with(t)
            }
            out.push(match &t.out {
                Some(Ok(())) => 210,
                Some(Err(Error::Timeout(_))) => 211,
                Some(Err(Error::AlreadyClosed)) => 212,
                Some(Err(_)) => 213,
                None => 214,
            });
            self.c = back.lock().unwrap().take();
        } else {
            // what comes later
            for t in [&b"42[\"a\"]"[..], b"42[\"o\"]", b"431[4]", b"430[4]"] {
                self.w.net.feed(&text_frame(t));
                self.w.run()
            }
        }
        out.push(220);
        out.extend_from_slice(&self.calls.lock().unwrap());
        for (op, p) in self.w.sent() {
            out.push(100 + op);
            out.extend_from_slice(&p)
        }
        out.push(230 + self.w.ended() as u8);
        out
    }
}

fn scenario(t: T, o: O, fallback: bool, order: usize) -> Vec<u8> {
    let mut s = Both::new(fallback);
    s.prepare(t);
    let p: *mut Both = &mut s;
    // the two threads use different parts
    let task = move || unsafe {
        match t {
            T::By(o) => (*p).act(o),
            _ => (*p).w.r.clone().run(),
        }
    };
    let other = move || unsafe { (*p).act(o) };
    match order {
        0 => {
            task();
            other()
        }
        1 => {
            other();
            task()
        }
        _ if order % 2 == 0 => interleave(order / 2, task, other),
        _ => interleave(order / 2, other, task),
    }
    s.outcome()
}

fn cross(ts: &[T], os: &[O], n: usize) {
    let t = ts[choice(ts.len())];
    let o = os[choice(os.len())];
    let fallback = choice(2) == 1;
    let (ab, ba) = (scenario(t, o, fallback, 0), scenario(t, o, fallback, 1));
    log(&ab);
    log(&ba);
    let x = scenario(t, o, fallback, 2 + n);
    if x == ba {
        cover("other first")
    }
    if x == ab {
        cover("task first")
    }
    check(x == ab || x == ba, "the outcome is that of no order of the two threads");
}

const TABLE: [O; 4] = [O::Set, O::Clear, O::SetFallback, O::ClearFallback];
const SENDS: [O; 4] = [O::Emit, O::EmitCallback, O::EmitBinary, O::Kept];
const ALL: [O; 8] = [O::Set, O::Clear, O::SetFallback, O::ClearFallback, O::Emit, O::EmitCallback, O::EmitBinary, O::Kept];

pub fn routing(n: usize) {
    cross(&[T::Event, T::Asked, T::Binary], &TABLE, n)
}
/// two uses from different threads
fn uses(os: &[O], n: usize) {
    let t: Vec<T> = os.iter().map(|o| T::By(*o)).collect();
    cross(&t, &[O::Kept], n)
}
pub fn acks(n: usize) {
    cross(&[T::Ack], &ALL, n)
}
pub fn answers(n: usize) {
    cross(&[T::Asked], &SENDS, n)
}
pub fn pongs(n: usize) {
    cross(&[T::Ping], &ALL, n)
}
pub fn sends(n: usize) {
    if choice(2) == 1 {
        // one switch is enough to come between two parts of a packet
        let many: &[O] = if n < 2 { &[O::Emit, O::EmitCallback, O::EmitBinary, O::EmitMany] } else { &[O::Emit, O::EmitCallback, O::EmitBinary] };
        return uses(many, n);
    }
    cross(&[T::Queued, T::Binary], &SENDS, n)
}
pub fn errors(n: usize) {
    cross(&[T::Wrong], &ALL, n)
}
pub fn closes(n: usize) {
    if choice(2) == 1 {
        return uses(&[O::Close], n);
    }
    cross(&[T::Event, T::Asked, T::Ping, T::Queued, T::Wrong, T::Eof, T::CloseFrame], &[O::Close], n)
}
pub fn ends(n: usize) {
    if choice(2) == 1 {
        return uses(&[O::Close, O::Drop], n);
    }
    cross(&[T::Wrong, T::Eof, T::CloseFrame, T::Closing], &SENDS, n)
}
pub fn drops(n: usize) {
    if choice(2) == 1 {
        return uses(&[O::Drop], n);
    }
    cross(&[T::Event, T::Asked, T::Binary, T::Ack, T::Ping, T::Queued, T::Wrong, T::Eof, T::CloseFrame, T::Closing], &[O::Drop], n)
}
