//! Replays one input vector against the natively compiled code.
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static mut IN: Vec<u8> = Vec::new();
static POS: AtomicUsize = AtomicUsize::new(0);
static mut LOG: Vec<u8> = Vec::new();

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
#[allow(static_mut_refs)]
fn finish(status: &str) -> ! {
    let o = std::io::stdout();
    let mut o = o.lock();
    let _ = writeln!(o, "LOG {}", hex(unsafe { &LOG }));
    let _ = writeln!(o, "END {}", status);
    let _ = o.flush();
    std::process::exit(0)
}
#[allow(static_mut_refs)]
fn next() -> u8 {
    let i = POS.fetch_add(1, SeqCst);
    match unsafe { IN.get(i) } {
        Some(b) => *b,
        None => finish("short"),
    }
}
#[no_mangle]
extern "C" fn rsym_byte() -> u8 {
    next()
}
#[no_mangle]
extern "C" fn rsym_word() -> u64 {
    (0..8).fold(0, |w, i| w | (next() as u64) << (8 * i))
}
#[no_mangle]
extern "C" fn rsym_range(n: u64) -> u64 {
    let b = next() as u64;
    if b >= n {
        finish("range")
    }
    b
}
#[no_mangle]
extern "C" fn rsym_assume(c: bool) {
    if !c {
        finish("assumed")
    }
}
#[no_mangle]
unsafe extern "C" fn rsym_check(c: bool, p: *const u8, n: u64) {
    if !c {
        let m = std::slice::from_raw_parts(p, n as usize);
        finish(&format!("violation {}", String::from_utf8_lossy(m)))
    }
}
#[no_mangle]
extern "C" fn rsym_cover(_: *const u8, _: u64) {}
#[no_mangle]
#[allow(static_mut_refs)]
unsafe extern "C" fn rsym_log(p: *const u8, n: u64) {
    LOG.extend_from_slice(std::slice::from_raw_parts(p, n as usize))
}
#[no_mangle]
extern "C" fn rsym_conc(v: u64) -> u64 {
    v
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let idx: u64 = a[1].parse().unwrap();
    let size: u64 = a[2].parse().unwrap();
    // the input, or the file that has it
    let t = match a[3].strip_prefix('@') {
        Some(p) => std::fs::read_to_string(p).unwrap(),
        None => a[3].clone(),
    };
    let h = t.trim().as_bytes();
    let v: Vec<u8> = h.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect();
    unsafe { IN = v };
    match std::panic::catch_unwind(|| proto::rsym_entry(idx, size)) {
        Ok(()) => finish("ok"),
        Err(_) => finish("panic"),
    }
}
