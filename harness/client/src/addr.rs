//! C23: what the address says, and where the client connects.
use crate::sym::*;
use crate::world::*;
use socket_io_client::{Client, Error};
use std::cell::RefCell;
use std::rc::Rc;
use url::Url;

#[derive(Debug)]
struct No;
impl std::fmt::Display for No {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("no")
    }
}
impl std::error::Error for No {}

/// connects to the text and compares with what it says
fn try_it(t: String) {
    // what it says, by the url crate alone
    let says = match Url::parse(&t) {
        Ok(u) => {
            let tls = match u.scheme() {
                "http" | "ws" => Some(false),
                "https" | "wss" => Some(true),
                _ => None,
            };
            match (tls, u.host_str()) {
                (Some(tls), Some(h)) => {
                    let h = h.to_string();
                    // allowed by the URL standard, but not by the one for HTTP
                    assume(!h.bytes().any(|b| b"\"`{}".contains(&b)));
                    Some((tls, h, u))
                }
                _ => None,
            }
        }
        Err(_) => None,
    };
    let asked: Rc<RefCell<Vec<(String, u16)>>> = Default::default();
    let w = World::new();
    let (a, net, pool) = (asked.clone(), w.net.clone(), w.pool.clone());
    let tls = says.as_ref().map(|s| s.0).unwrap_or(false);
    let mut c: Connect = Task::new(async move {
        Client::connect(
            t,
            move |h, p| {
                a.borrow_mut().push((h, p));
                let r = if tls { Err(No) } else { Ok(net.clone()) };
                async move { r }
            },
            &pool,
        )
        .await
    });
    w.run_with(&mut c);
    match says {
        None => {
            cover("refused");
            check(asked.borrow().is_empty(), "a connection for what is no address");
            check(matches!(c.out, Some(Err(Error::UrlError(..)))), "no error about the address");
            log(&[0]);
        }
        Some((tls, host, u)) => {
            let port = u.port().unwrap_or(if tls { 443 } else { 80 });
            check(*asked.borrow() == vec![(host, port)], "a connection to somewhere else");
            log(&[1, port as u8, (port >> 8) as u8]);
            if tls {
                cover("tls");
                check(matches!(c.out, Some(Err(Error::ConnectionError(_)))), "not the error of the connection");
                return;
            }
            cover("plain");
            let mut want = b"GET ".to_vec();
            want.extend_from_slice(u.path().as_bytes());
            want.push(b'?');
            if let Some(q) = u.query() {
                want.extend_from_slice(q.as_bytes());
                if !q.is_empty() {
                    want.push(b'&')
                }
            }
            want.extend_from_slice(b"EIO=4&transport=websocket HTTP/1.1\r\n");
            let req = w.net.take();
            check(!c.done(), "an address is refused");
            check(req.starts_with(&want), "a request for something else");
        }
    }
}

fn ascii(n: usize) -> Vec<u8> {
    let v = bytes(n);
    assume(v.iter().all(|b| *b < 0x80));
    v
}
fn with(a: &str, v: Vec<u8>, b: &str) {
    match String::from_utf8(v) {
        Ok(s) => try_it(format!("{}{}{}", a, s, b)),
        Err(_) => assume(false),
    }
}

pub fn scheme(n: usize) {
    with("", ascii(n), "://h/")
}
/// a known scheme with one byte replaced, left out or added
pub fn scheme_near(n: usize) {
    let s = ["http", "https", "ws", "wss"][n % 4];
    let at = choice(s.len());
    let mut v = s.as_bytes().to_vec();
    match choice(3) {
        0 => v[at] = ascii(1)[0],
        1 => v.insert(at, ascii(1)[0]),
        _ => {
            v.remove(at);
        }
    }
    with("", v, "://h:81/p")
}
pub fn port(n: usize) {
    let s = ["http://h:", "https://h:", "ws://h:", "wss://h:"][choice(4)];
    with(s, ascii(n), "/p")
}
pub fn digits(n: usize) {
    let s = ["http://h:", "https://h:", "ws://h:", "wss://h:"][choice(4)];
    let mut v = ["", "8", "6553", "999", "0008"][choice(5)].as_bytes().to_vec();
    for _ in 0..n {
        let d = byte();
        assume(d.is_ascii_digit());
        v.push(d)
    }
    with(s, v, "/p")
}
pub fn path(n: usize) {
    if choice(2) == 0 {
        with("ws://h", ascii(n), "")
    } else {
        with("http://h/a/", bytes(n), "")
    }
}
pub fn query(n: usize) {
    with(["ws://h/p?", "http://h/?a=b&"][choice(2)], bytes(n), "")
}
pub fn host(n: usize) {
    with(["ws://", "https://a"][choice(2)], ascii(n), "/p")
}
pub fn text(n: usize) {
    with("", ascii(n), "")
}

/// addresses of many sorts
pub fn known(n: usize) {
    let schemes = ["http", "https", "ws", "wss", "HTTPS", "Ws", "ftp", "file", "httpx", "wsss", "mailto", ""];
    let hosts = ["h", "example.com", "EXAMPLE.com", "127.0.0.1", "[::1]", "[2001:db8::1]", "user:pw@h", "", "0x7f.1"];
    let ports = ["", ":80", ":443", ":8080", ":0", ":65535", ":65536", ":x"];
    let rest = ["", "/", "/socket.io/", "/a b", "/?", "/?x=1", "/p?x=1&y=%20#frag", "?q", "#f", "/../..//x", "/?EIO=3&transport=polling"];
    let s = schemes[choice(schemes.len())];
    let (h, p, r) = match n {
        0 => (hosts[choice(hosts.len())], ports[choice(ports.len())], rest[2]),
        _ => (hosts[choice(2)], ports[choice(3)], rest[choice(rest.len())]),
    };
    with(s, b"://".to_vec(), &format!("{}{}{}", h, p, r))
}
