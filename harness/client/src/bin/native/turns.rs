//! Two threads of which one runs at a time. Both are single-stepped; they take turns before the given
//! atomic operations (each thread's own count of them), when one waits for the other, and at its end.
//!
//! The schedule is a list of counts: after so many atomic operations of the first thread the second starts, after
//! so many of the second the first goes on, and so forth.
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::thread::JoinHandle;

#[repr(C)]
struct Action {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" {
    fn sigaction(n: i32, new: *const Action, old: *mut Action) -> i32;
    fn sched_yield() -> i32;
    static __executable_start: u8;
    static etext: u8;
}
const RIP: usize = 168;
const FLAGS: usize = 176;

static PLAN: [AtomicU64; 8] = [const { AtomicU64::new(u64::MAX) }; 8];
static STEP: AtomicUsize = AtomicUsize::new(0);
static ON: AtomicBool = AtomicBool::new(false);
static TURN: AtomicU32 = AtomicU32::new(0);
static ALIVE: [AtomicBool; 2] = [const { AtomicBool::new(false) }; 2];
static OPS: [AtomicU64; 2] = [const { AtomicU64::new(0) }; 2];
static PROGRESS: AtomicU64 = AtomicU64::new(0);
static mut JOIN: Option<JoinHandle<()>> = None;

thread_local! {
    static ME: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

pub fn schedule(s: &str) {
    for (p, k) in PLAN.iter().zip(s.split(',')) {
        p.store(k.parse().unwrap(), SeqCst)
    }
    ON.store(true, SeqCst);
    let a = Action { handler: trap as *const () as usize, mask: [0; 16], flags: 4 | 0x1000_0000, restorer: 0 };
    unsafe { sigaction(5, &a, std::ptr::null_mut()) };
}

unsafe fn atomic(ip: usize) -> bool {
    let (lo, hi) = (&raw const __executable_start as usize, &raw const etext as usize);
    if ip < lo || ip + 16 > hi {
        return false;
    }
    let mut p = ip as *const u8;
    loop {
        match *p {
            0xf0 => return true,
            0x66 | 0xf2 | 0xf3 | 0x2e | 0x3e | 0x26 | 0x64 | 0x65 | 0x40..=0x4f => p = p.add(1),
            0x86 | 0x87 => return *p.add(1) < 0xc0,
            _ => return false,
        }
    }
}

/// waits until it is this thread's turn; takes it if the other does nothing for long
fn wait(me: u32) {
    let mut seen = PROGRESS.load(SeqCst);
    let mut since = std::time::Instant::now();
    let mut n = 0;
    while TURN.load(SeqCst) != me {
        let now = PROGRESS.load(SeqCst);
        if now != seen {
            seen = now;
            since = std::time::Instant::now()
        } else if !ALIVE[1 - me as usize].load(SeqCst) || since.elapsed().as_millis() > 30 {
            TURN.store(me, SeqCst);
            return;
        }
        n += 1;
        if n > 200 {
            std::thread::sleep(std::time::Duration::from_micros(20))
        } else {
            unsafe { sched_yield() };
        }
    }
}

unsafe extern "C" fn trap(_: i32, _: *mut u8, ctx: *mut u8) {
    if !ON.load(SeqCst) {
        *(ctx.add(FLAGS) as *mut u64) &= !0x100;
        return;
    }
    let me = ME.with(|m| m.get());
    PROGRESS.fetch_add(1, SeqCst);
    wait(me);
    if !atomic(*(ctx.add(RIP) as *const u64) as usize) {
        return;
    }
    let k = OPS[me as usize].fetch_add(1, SeqCst);
    let i = STEP.load(SeqCst);
    if i < PLAN.len() && i as u32 % 2 == me && PLAN[i].load(SeqCst) == k {
        STEP.store(i + 1, SeqCst);
        if ALIVE[1 - me as usize].load(SeqCst) {
            TURN.store(1 - me, SeqCst);
            wait(me)
        }
    }
}

#[inline(never)]
fn stepping() {
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
}
#[inline(never)]
fn not_stepping() {
    unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") }
}

#[no_mangle]
#[allow(static_mut_refs)]
extern "C" fn rsym_arm(f: Option<extern "C" fn()>, _: u64) {
    if !ON.load(SeqCst) {
        return;
    }
    match f {
        Some(f) => {
            ALIVE[0].store(true, SeqCst);
            ALIVE[1].store(true, SeqCst);
            TURN.store(0, SeqCst);
            let t = std::thread::spawn(move || {
                ME.with(|m| m.set(1));
                wait_start();
                stepping();
                f();
                not_stepping();
                ALIVE[1].store(false, SeqCst);
                TURN.store(0, SeqCst);
            });
            unsafe { JOIN = Some(t) };
            stepping()
        }
        None => {
            not_stepping();
            println!("OPS {} {}", OPS[0].load(SeqCst), OPS[1].load(SeqCst));
            ALIVE[0].store(false, SeqCst);
            TURN.store(1, SeqCst);
            if let Some(t) = unsafe { JOIN.take() } {
                if t.join().is_err() {
                    super::finish("panic")
                }
            }
            println!("OPS {} {}", OPS[0].load(SeqCst), OPS[1].load(SeqCst));
            ON.store(false, SeqCst)
        }
    }
}
/// the second thread starts when it is its turn
fn wait_start() {
    while TURN.load(SeqCst) != 1 {
        if !ALIVE[0].load(SeqCst) {
            return;
        }
        std::thread::sleep(std::time::Duration::from_micros(20))
    }
}
