//! Independent reference for the socket.io text grammar (no regex, no serde).

#[derive(Clone, Debug, PartialEq)]
pub struct Ref {
    pub kind: u8,
    pub count: Option<u64>,
    pub nsp: (usize, usize),
    pub id: Option<u64>,
    pub args: Vec<(usize, usize)>,
}

/// what decoding such a text must do
#[derive(PartialEq)]
pub enum Expect {
    Reject,
    Packet(Ref),
    /// asks for n attachments first, and then is a packet or an error
    Ask(u64, Option<Ref>),
}

fn digit(b: u8) -> bool {
    b >= b'0' && b <= b'9'
}

/// the decimal number at p: its end, and its value when it fits in 64 bits
fn number(s: &[u8], p: usize) -> (usize, Option<u64>) {
    let mut e = p;
    while e < s.len() && digit(s[e]) {
        e += 1;
    }
    let n = e - p;
    let max = b"18446744073709551615";
    if n > max.len() {
        // a leading zero makes it invalid anyway
        return (e, None);
    }
    if n == max.len() {
        let mut i = 0;
        while i < n && s[p + i] == max[i] {
            i += 1;
        }
        if i < n && s[p + i] > max[i] {
            return (e, None);
        }
    }
    let mut v = 0u64;
    for i in p..e {
        v = v.wrapping_mul(10).wrapping_add((s[i] - b'0') as u64);
    }
    (e, Some(v))
}

pub fn reference(s: &[u8]) -> Expect {
    match parse(s) {
        None => Expect::Reject,
        Some(r) => {
            let text = r.kind == b'2' || r.kind == b'3';
            match r.kind {
                b'0' | b'1' => {
                    if r.count.is_none() && r.id.is_none() && r.args.is_empty() {
                        Expect::Packet(r)
                    } else {
                        Expect::Reject
                    }
                }
                _ => {
                    let ev = r.kind == b'2' || r.kind == b'5';
                    let complete = if ev { !r.args.is_empty() } else { r.id.is_some() };
                    let count = match r.count {
                        Some(c) => c,
                        None if text => 0,
                        None => return Expect::Reject,
                    };
                    if text && count != 0 {
                        Expect::Reject
                    } else if count == 0 {
                        if complete {
                            Expect::Packet(r)
                        } else {
                            Expect::Reject
                        }
                    } else {
                        Expect::Ask(count, if complete { Some(r) } else { None })
                    }
                }
            }
        }
    }
}

fn parse(s: &[u8]) -> Option<Ref> {
    if s.is_empty() {
        return None;
    }
    let kind = s[0];
    if !(digit(kind) && kind != b'4' && kind < b'7') {
        return None;
    }
    let mut p = 1;
    let mut count = None;
    let mut nsp = (0, 0);
    let mut id = None;
    // a number directly after the kind is a count if a '-' follows, else the id
    let (e, v) = number(s, p);
    if e > p && e < s.len() && s[e] == b'-' {
        if s[p] == b'0' && e > p + 1 {
            return None;
        }
        count = Some(v?);
        p = e + 1;
    }
    if p < s.len() && s[p] == b'/' {
        let start = p;
        while p < s.len() && s[p] != b',' {
            p += 1;
        }
        if p == s.len() || p == start + 1 {
            return None;
        }
        nsp = (start, p);
        p += 1;
    }
    let (e, v) = number(s, p);
    if e > p {
        if s[p] == b'0' && e > p + 1 {
            return None;
        }
        id = Some(v?);
        p = e;
    }
    let mut args = Vec::new();
    if p < s.len() {
        if s[p] != b'[' {
            return None;
        }
        args = json_array(s, p)?;
    }
    Some(Ref { kind, count, nsp, id, args })
}

fn ws(s: &[u8], mut p: usize) -> usize {
    while p < s.len() && (s[p] == b' ' || s[p] == b'\t' || s[p] == b'\n' || s[p] == b'\r') {
        p += 1;
    }
    p
}

/// the elements of the JSON array that is exactly s[p..]
pub fn json_array(s: &[u8], p: usize) -> Option<Vec<(usize, usize)>> {
    let mut v = Vec::new();
    let e = array(s, p, &mut |a, b| v.push((a, b)))?;
    if e == s.len() {
        Some(v)
    } else {
        None
    }
}

fn array(s: &[u8], p: usize, f: &mut dyn FnMut(usize, usize)) -> Option<usize> {
    let mut p = ws(s, p + 1);
    if p < s.len() && s[p] == b']' {
        return Some(p + 1);
    }
    loop {
        p = ws(s, p);
        let e = value(s, p)?;
        f(p, e);
        p = ws(s, e);
        if p >= s.len() {
            return None;
        }
        match s[p] {
            b',' => p += 1,
            b']' => return Some(p + 1),
            _ => return None,
        }
    }
}

fn object(s: &[u8], p: usize) -> Option<usize> {
    let mut p = ws(s, p + 1);
    if p < s.len() && s[p] == b'}' {
        return Some(p + 1);
    }
    loop {
        p = ws(s, p);
        if p >= s.len() || s[p] != b'"' {
            return None;
        }
        p = ws(s, string(s, p)?);
        if p >= s.len() || s[p] != b':' {
            return None;
        }
        p = ws(s, value(s, ws(s, p + 1))?);
        if p >= s.len() {
            return None;
        }
        match s[p] {
            b',' => p += 1,
            b'}' => return Some(p + 1),
            _ => return None,
        }
    }
}

fn string(s: &[u8], p: usize) -> Option<usize> {
    let mut p = p + 1;
    while p < s.len() {
        match s[p] {
            b'"' => return Some(p + 1),
            b'\\' => {
                if p + 1 >= s.len() {
                    return None;
                }
                match s[p + 1] {
                    b'"' | b'\\' | b'/' | b'b' | b'f' | b'n' | b'r' | b't' => p += 2,
                    b'u' => {
                        if p + 6 > s.len() {
                            return None;
                        }
                        for i in 2..6 {
                            if !s[p + i].is_ascii_hexdigit() {
                                return None;
                            }
                        }
                        p += 6;
                    }
                    _ => return None,
                }
            }
            0..=0x1f => return None,
            _ => p += 1,
        }
    }
    None
}

fn word(s: &[u8], p: usize, w: &[u8]) -> Option<usize> {
    for i in 0..w.len() {
        if p + i >= s.len() || s[p + i] != w[i] {
            return None;
        }
    }
    Some(p + w.len())
}

/// the end of the JSON value that starts at p
pub fn value(s: &[u8], p: usize) -> Option<usize> {
    if p >= s.len() {
        return None;
    }
    match s[p] {
        b'[' => array(s, p, &mut |_, _| ()),
        b'{' => object(s, p),
        b'"' => string(s, p),
        b't' => word(s, p, b"true"),
        b'f' => word(s, p, b"false"),
        b'n' => word(s, p, b"null"),
        b'-' | b'0'..=b'9' => {
            let mut p = if s[p] == b'-' { p + 1 } else { p };
            if p >= s.len() || !digit(s[p]) {
                return None;
            }
            if s[p] == b'0' {
                p += 1;
            } else {
                while p < s.len() && digit(s[p]) {
                    p += 1;
                }
            }
            if p < s.len() && s[p] == b'.' {
                p += 1;
                if p >= s.len() || !digit(s[p]) {
                    return None;
                }
                while p < s.len() && digit(s[p]) {
                    p += 1;
                }
            }
            if p < s.len() && (s[p] == b'e' || s[p] == b'E') {
                p += 1;
                if p < s.len() && (s[p] == b'+' || s[p] == b'-') {
                    p += 1;
                }
                if p >= s.len() || !digit(s[p]) {
                    return None;
                }
                while p < s.len() && digit(s[p]) {
                    p += 1;
                }
            }
            Some(p)
        }
        _ => None,
    }
}
