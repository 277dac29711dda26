//! A client of the real crate on a scripted connection, driven by hand.
use crate::sym::*;
use futures::future::FutureObj;
use futures::io::{AsyncRead, AsyncWrite};
use futures::task::{waker, ArcWake, Spawn, SpawnError};
use sha1::{Digest, Sha1};
use socket_io_client::{Client, Error};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

pub const OPEN: &[u8] = b"0{\"sid\":\"s\",\"upgrades\":[],\"pingInterval\":25000,\"pingTimeout\":5000}";

/// both directions of the connection
pub struct Net {
    pub inbox: VecDeque<u8>,
    pub eof: bool,
    pub fail: bool,
    pub outbox: Vec<u8>,
    /// bytes a read returns at most
    pub chunk: usize,
    /// bytes the connection still takes
    pub room: usize,
    pub wfail: bool,
    /// what is written waits for a flush
    pub hold: bool,
    pub held: Vec<u8>,
    rwaker: Option<Waker>,
    wwaker: Option<Waker>,
}
#[derive(Clone)]
pub struct Stream(pub Arc<Mutex<Net>>);

impl Stream {
    pub fn new() -> Stream {
        Stream(Arc::new(Mutex::new(Net {
            inbox: VecDeque::new(),
            eof: false,
            fail: false,
            outbox: Vec::new(),
            chunk: usize::MAX,
            room: usize::MAX,
            wfail: false,
            hold: false,
            held: Vec::new(),
            rwaker: None,
            wwaker: None,
        })))
    }
    /// changes what the peer has done; whoever waits is woken
    pub fn with<T>(&self, f: impl FnOnce(&mut Net) -> T) -> T {
        let (r, a, b) = {
            let mut n = self.0.lock().unwrap();
            let r = f(&mut n);
            (r, n.rwaker.take(), n.wwaker.take())
        };
        if let Some(w) = a {
            w.wake()
        }
        if let Some(w) = b {
            w.wake()
        }
        r
    }
    pub fn feed(&self, b: &[u8]) {
        self.with(|n| n.inbox.extend(b))
    }
    pub fn take(&self) -> Vec<u8> {
        std::mem::take(&mut self.0.lock().unwrap().outbox)
    }
}

impl AsyncRead for Stream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut n = self.0.lock().unwrap();
        if n.inbox.is_empty() {
            if n.fail {
                return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
            }
            if n.eof {
                return Poll::Ready(Ok(0));
            }
            n.rwaker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let k = n.inbox.len().min(buf.len()).min(n.chunk);
        for x in buf[..k].iter_mut() {
            *x = n.inbox.pop_front().unwrap()
        }
        Poll::Ready(Ok(k))
    }
}

impl AsyncWrite for Stream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut n = self.0.lock().unwrap();
        if n.wfail {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        let k = buf.len().min(n.room);
        if k == 0 && !buf.is_empty() {
            n.wwaker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        n.room -= if n.room == usize::MAX { 0 } else { k };
        if n.hold {
            n.held.extend_from_slice(&buf[..k])
        } else {
            n.outbox.extend_from_slice(&buf[..k])
        }
        Poll::Ready(Ok(k))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut n = self.0.lock().unwrap();
        let h = std::mem::take(&mut n.held);
        n.outbox.extend_from_slice(&h);
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

pub struct Flag(pub AtomicBool);
impl ArcWake for Flag {
    fn wake_by_ref(s: &Arc<Self>) {
        s.0.store(true, SeqCst);
        // another thread may take over at once
        let e = EAGER.with(|e| e.borrow().clone());
        if let Some(e) = e {
            e.run()
        }
    }
}
thread_local! {
    static EAGER: RefCell<Option<Running>> = RefCell::new(None);
}
/// the tasks the client has spawned, and what the peer does about the bytes it is sent
#[derive(Clone)]
pub struct Running {
    tasks: Rc<RefCell<Vec<Task<()>>>>,
    pool: Pool,
    net: Stream,
    #[allow(clippy::type_complexity)]
    server: Rc<RefCell<Option<Box<dyn FnMut(&Stream)>>>>,
}
impl Running {
    /// runs what was spawned until it waits
    pub fn run(&self) {
        let mut tasks = match self.tasks.try_borrow_mut() {
            Ok(t) => t,
            Err(_) => return, // one of them is what wakes
        };
        for i in 0..1000 {
            if i > 20 {
                // polled again and again until another thread has gone on
                std::thread::yield_now()
            }
            let new = std::mem::take(&mut *self.pool.0.lock().unwrap());
            for f in new {
                tasks.push(Task::new(f))
            }
            let mut any = false;
            for t in tasks.iter_mut() {
                any |= t.step()
            }
            if let Some(s) = self.server.borrow_mut().as_mut() {
                s(&self.net)
            }
            if !any {
                return;
            }
        }
        check(false, "the connection task never rests")
    }
}

/// a future that is polled exactly when it has been woken
pub struct Task<T> {
    fut: Option<Pin<Box<dyn Future<Output = T>>>>,
    flag: Arc<Flag>,
    pub out: Option<T>,
}
impl<T> Task<T> {
    pub fn new(f: impl Future<Output = T> + 'static) -> Task<T> {
        Task::boxed(Box::pin(f))
    }
    pub fn boxed(f: Pin<Box<dyn Future<Output = T>>>) -> Task<T> {
        Task { fut: Some(f), flag: Arc::new(Flag(AtomicBool::new(true))), out: None }
    }
    pub fn woken(&self) -> bool {
        self.fut.is_some() && self.flag.0.load(SeqCst)
    }
    pub fn done(&self) -> bool {
        self.fut.is_none()
    }
    /// whether there was anything to do
    pub fn step(&mut self) -> bool {
        if !self.woken() {
            return false;
        }
        self.flag.0.store(false, SeqCst);
        let w = waker(self.flag.clone());
        let f = self.fut.as_mut().unwrap();
        if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(&w)) {
            self.fut = None;
            self.out = Some(v);
        }
        true
    }
}

#[derive(Clone)]
pub struct Pool(pub Arc<Mutex<Vec<FutureObj<'static, ()>>>>);
impl Spawn for Pool {
    fn spawn_obj(&self, f: FutureObj<'static, ()>) -> Result<(), SpawnError> {
        self.0.lock().unwrap().push(f);
        Ok(())
    }
}

pub struct World {
    pub net: Stream,
    pub pool: Pool,
    pub r: Running,
}

/// a frame from the server
pub fn frame(op: u8, fin: bool, p: &[u8]) -> Vec<u8> {
    let mut v = vec![op | if fin { 0x80 } else { 0 }];
    if p.len() < 126 {
        v.push(p.len() as u8)
    } else {
        let short = p.len() <= 0xffff;
        v.push(if short { 126 } else { 127 });
        v.extend_from_slice(&p.len().to_be_bytes()[if short { 6 } else { 0 }..])
    }
    v.extend_from_slice(p);
    v
}
pub fn text_frame(p: &[u8]) -> Vec<u8> {
    frame(1, true, p)
}
pub fn binary_frame(p: &[u8]) -> Vec<u8> {
    frame(2, true, p)
}

/// frames of the client: kind and content; the rest that is no whole frame
pub fn parse(mut b: &[u8]) -> (Vec<(u8, Vec<u8>)>, usize) {
    let mut out = Vec::new();
    loop {
        if b.len() < 6 {
            break;
        }
        let op = b[0];
        let l = (b[1] & 0x7f) as usize;
        let ext = match l {
            126 => 2,
            127 => 8,
            _ => 0,
        };
        if b.len() < 6 + ext {
            break;
        }
        let at = 2 + ext;
        let l = if ext == 0 { l } else { b[2..at].iter().fold(0, |x, d| x << 8 | *d as usize) };
        if b.len() < at + 4 + l {
            break;
        }
        let m = &b[at..at + 4];
        let p: Vec<u8> = b[at + 4..at + 4 + l].iter().enumerate().map(|(i, x)| x ^ m[i % 4]).collect();
        check(op & 0x80 != 0, "the client fragments");
        out.push((op & 15, p));
        b = &b[at + 4 + l..];
    }
    (out, b.len())
}

/// the server's answer to the handshake request
pub fn answer(req: &[u8]) -> Vec<u8> {
    let r = String::from_utf8_lossy(req).into_owned();
    let key = r
        .split("\r\n")
        .find_map(|l| {
            let (k, v) = l.split_once(": ")?;
            if k.eq_ignore_ascii_case("sec-websocket-key") {
                Some(v.to_string())
            } else {
                None
            }
        })
        .unwrap_or_default();
    let mut h = Sha1::new();
    h.update(key.as_bytes());
    h.update(b"258EAFA5-E914-47DA-95CA-C5AB0DC85B11");
    let a = base64::encode(h.finalize());
    format!("HTTP/1.1 101 Switching Protocols\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Accept: {}\r\n\r\n", a).into_bytes()
}

pub type Connect = Task<Result<Client, Error>>;

impl World {
    pub fn new() -> World {
        turns(0);
        let (net, pool) = (Stream::new(), Pool(Arc::new(Mutex::new(Vec::new()))));
        let r = Running { tasks: Default::default(), pool: pool.clone(), net: net.clone(), server: Default::default() };
        World { net, pool, r }
    }
    /// from now on the connection task runs as soon as it is woken, even within the waking call
    pub fn eager(&self, server: impl FnMut(&Stream) + 'static) {
        *self.r.server.borrow_mut() = Some(Box::new(server));
        EAGER.with(|e| *e.borrow_mut() = Some(self.r.clone()))
    }
    pub fn connecting(&self, url: &'static str) -> Connect {
        let (net, pool) = (self.net.clone(), self.pool.clone());
        Task::new(async move { Client::from_stream(url, net, &pool).await })
    }
    /// runs what the client spawned until it waits
    pub fn run(&self) {
        self.r.run()
    }
    /// what the client spawned has ended
    pub fn ended(&self) -> bool {
        self.r.tasks.borrow().iter().all(|t| t.done())
    }
    /// nothing the client spawned is left
    pub fn abandon(&self) {
        self.r.tasks.borrow_mut().clear()
    }
    pub fn run_with<T>(&self, t: &mut Task<T>) {
        for _ in 0..1000 {
            let a = t.step();
            self.run();
            if !a && !t.woken() {
                return;
            }
        }
        check(false, "never rests")
    }
    /// a client whose connection has been open for a day
    pub fn open() -> (World, Client) {
        let (w, c) = World::fresh();
        futures_timer::advance(Duration::from_secs(86400));
        w.run();
        check(!w.ended(), "the connection ended");
        (w, c)
    }
    /// a client whose connection is open
    pub fn fresh() -> (World, Client) {
        let w = World::new();
        let mut c = w.connecting("http://h/socket.io/");
        w.run_with(&mut c);
        let req = w.net.take();
        w.net.feed(&answer(&req));
        w.net.feed(&text_frame(OPEN));
        w.run_with(&mut c);
        match c.out {
            Some(Ok(c)) => (w, c),
            _ => {
                check(false, "a correct server is refused");
                unreachable!()
            }
        }
    }
    /// what the client has sent since last time, whole frames
    pub fn sent(&self) -> Vec<(u8, Vec<u8>)> {
        let b = self.net.take();
        let (f, rest) = parse(&b);
        check(rest == 0, "a part of a frame is sent");
        f
    }
}
