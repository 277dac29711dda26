//! Interface to the symbolic executor (and, natively, to the replayer).
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
extern "C" {
    fn rsym_byte() -> u8;
    fn rsym_word() -> u64;
    fn rsym_range(n: u64) -> u64;
    fn rsym_assume(c: bool);
    fn rsym_check(c: bool, p: *const u8, n: u64);
    fn rsym_cover(p: *const u8, n: u64);
    fn rsym_log(p: *const u8, n: u64);
    fn rsym_conc(v: u64) -> u64;
    fn rsym_arm(f: Option<extern "C" fn()>, switches: u64);
}
/// any byte
pub fn byte() -> u8 {
    unsafe { rsym_byte() }
}
/// any 64-bit number
#[allow(dead_code)]
pub fn word() -> u64 {
    unsafe { rsym_word() }
}
/// a choice below n, explored one by one
pub fn choice(n: usize) -> usize {
    if n > 256 {
        // one byte at a time
        let c = choice((n + 255) / 256) * 256 + choice(256);
        assume(c < n);
        return c;
    }
    unsafe { rsym_range(n as u64) as usize }
}
pub fn assume(c: bool) {
    unsafe { rsym_assume(c) }
}
pub fn check(c: bool, m: &str) {
    unsafe { rsym_check(c, m.as_ptr(), m.len() as u64) }
}
pub fn cover(m: &str) {
    unsafe { rsym_cover(m.as_ptr(), m.len() as u64) }
}
/// part of the observable trace that the native run must reproduce
pub fn log(b: &[u8]) {
    unsafe { rsym_log(b.as_ptr(), b.len() as u64) }
}
pub fn log_u64(v: u64) {
    log(&v.to_le_bytes())
}
#[allow(dead_code)]
pub fn conc(v: u64) -> u64 {
    unsafe { rsym_conc(v) }
}
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(byte());
    }
    v
}
/// any text of n bytes
pub fn text(n: usize) -> String {
    match String::from_utf8(bytes(n)) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            unreachable!()
        }
    }
}
/// run something that must not panic
pub fn guard<T>(m: &str, f: impl FnOnce() -> T) -> Option<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Some(v),
        Err(e) => {
            std::mem::forget(e);
            check(false, m);
            None
        }
    }
}

static TURNS: AtomicUsize = AtomicUsize::new(0);
/// how many of the coming random picks of select! may differ from the first branch that is left
pub fn turns(n: usize) {
    TURNS.store(n, SeqCst)
}
#[no_mangle]
extern "C" fn rsym_order(n: usize) -> usize {
    // shuffling swaps place n-1 with the place returned
    let left = TURNS.load(SeqCst);
    if left == 0 || n < 2 {
        return n - 1;
    }
    let c = choice(n);
    if c > 0 {
        TURNS.store(left - 1, SeqCst)
    }
    n - 1 - c
}

static OTHER: std::sync::Mutex<Option<usize>> = std::sync::Mutex::new(None);
extern "C" fn other() {
    let p = OTHER.lock().unwrap().take();
    if let Some(p) = p {
        unsafe { (*Box::from_raw(p as *mut Box<dyn FnOnce()>))() }
    }
}
/// one thing is done, the other by a second thread, which starts at any moment of it or after it;
/// up to so many switches between the two, apart from those where one has to wait for the other
pub fn interleave(switches: usize, a: impl FnOnce(), b: impl FnOnce() + 'static) {
    let b: Box<dyn FnOnce()> = Box::new(b);
    *OTHER.lock().unwrap() = Some(Box::into_raw(Box::new(b)) as usize);
    unsafe { rsym_arm(Some(other), switches as u64) }
    a();
    unsafe { rsym_arm(None, 0) }
    other()
}
