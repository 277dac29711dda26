//! Stands in for futures-timer: time passes when the harness says so.
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

struct State {
    fired: bool,
    waker: Option<Waker>,
}

static TIMERS: Mutex<Vec<(Duration, Arc<Mutex<State>>)>> = Mutex::new(Vec::new());

pub struct Delay {
    state: Arc<Mutex<State>>,
}

impl Delay {
    pub fn new(d: Duration) -> Delay {
        let state = Arc::new(Mutex::new(State { fired: false, waker: None }));
        TIMERS.lock().unwrap().push((d, state.clone()));
        Delay { state }
    }
    pub fn reset(&mut self, d: Duration) {
        let mut t = TIMERS.lock().unwrap();
        let state = Arc::new(Mutex::new(State { fired: false, waker: None }));
        t.push((d, state.clone()));
        self.state = state
    }
}

impl Future for Delay {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let mut s = self.state.lock().unwrap();
        if s.fired {
            return Poll::Ready(());
        }
        s.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

/// timers that are still waited for
pub fn pending() -> Vec<Duration> {
    let t = TIMERS.lock().unwrap();
    t.iter().filter(|(_, s)| Arc::strong_count(s) > 1 && !s.lock().unwrap().fired).map(|(d, _)| *d).collect()
}

/// lets d pass: every timer that is due fires; the others have less left
pub fn advance(d: Duration) {
    let mut wake = Vec::new();
    {
        let mut t = TIMERS.lock().unwrap();
        for (left, s) in t.iter_mut() {
            *left = left.checked_sub(d).unwrap_or(Duration::from_secs(0));
            let mut s = s.lock().unwrap();
            if *left == Duration::from_secs(0) && !s.fired {
                s.fired = true;
                wake.extend(s.waker.take());
            }
        }
    }
    for w in wake {
        w.wake()
    }
}
