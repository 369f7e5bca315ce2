//! Controlled interleavings of two library calls on two threads.
//!
//! The library has no scheduling points of its own. Every allocation, release and
//! clock reading it makes is turned into one: at the chosen point of the first call
//! the second one is run on another thread, to its end or to a chosen point of its
//! own, and then the first goes on.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::{Condvar, Mutex};
use std::time::Duration;

struct Points;

#[global_allocator]
static POINTS: Points = Points;

// SAFETY: hands everything on to the system's allocator.
unsafe impl GlobalAlloc for Points {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        point();
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        point();
        System.realloc(p, l, n)
    }
}

thread_local! {
    /// 0: no library call is running; 1: the first call's thread, 2: the second's
    static ARMED: Cell<u8> = const { Cell::new(0) };
    static ROLE: Cell<u8> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static STOP: Cell<u64> = const { Cell::new(0) };
}

#[derive(Default)]
struct State {
    job: Option<(usize, u64)>,
    /// the second call has ended, or waits at its point
    halted: bool,
    ended: bool,
    outcome: Option<String>,
    count: u64,
    /// the first call has ended
    first_ended: bool,
    blocked: bool,
}

static STATE: Mutex<State> = Mutex::new(State {
    job: None,
    halted: false,
    ended: false,
    outcome: None,
    count: 0,
    first_ended: false,
    blocked: false,
});
static CHANGED: Condvar = Condvar::new();

/// Runs library code: its allocations and clock readings are scheduling points.
pub fn lib<T>(f: impl FnOnce() -> T) -> T {
    let role = ROLE.with(Cell::get);
    ARMED.with(|a| a.set(role));
    crate::fine::enter();
    let r = f();
    crate::fine::leave();
    ARMED.with(|a| a.set(0));
    r
}

pub fn point() {
    let role = ARMED.with(Cell::get);
    if role == 0 {
        return;
    }
    let n = COUNT.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    if n != STOP.with(Cell::get) {
        return;
    }
    ARMED.with(|a| a.set(0));
    if role == 1 {
        let mut s = STATE.lock().unwrap();
        // B now; a B that waits for something A holds lets A go on
        s.job = s.job.take().map(|(op, stop)| (op, stop | GO));
        CHANGED.notify_all();
        while !s.halted {
            let (g, t) = CHANGED.wait_timeout(s, Duration::from_millis(60)).unwrap();
            s = g;
            if t.timed_out() && !s.halted {
                s.blocked = true;
                break;
            }
        }
    } else {
        let mut s = STATE.lock().unwrap();
        s.halted = true;
        CHANGED.notify_all();
        while !s.first_ended {
            let (g, t) = CHANGED.wait_timeout(s, Duration::from_millis(60)).unwrap();
            s = g;
            if t.timed_out() && !s.first_ended {
                s.blocked = true;
                break;
            }
        }
    }
    ARMED.with(|a| a.set(role));
}

const GO: u64 = 1 << 63;

/// One schedule: `a` up to point `k`, `b` up to point `m` (0: to its end), then `a` to
/// its end, then `b`. Gives the outcomes, the points each passed and whether one of
/// them was held up by the other.
pub struct Outcome {
    pub a: String,
    pub b: Option<String>,
    pub points_a: u64,
    pub points_b: u64,
    pub blocked: bool,
}

pub fn schedule(run: &dyn Fn(usize) -> String, a: usize, b: usize, k: u64, m: u64) -> Outcome {
    *STATE.lock().unwrap() = State { job: Some((b, m)), ..State::default() };
    ROLE.with(|r| r.set(1));
    COUNT.with(|c| c.set(0));
    STOP.with(|c| c.set(k));
    let out = run(a);
    ARMED.with(|x| x.set(0));
    ROLE.with(|r| r.set(0));
    let points_a = COUNT.with(Cell::get);
    let mut s = STATE.lock().unwrap();
    s.first_ended = true;
    let started = s.job.map_or(true, |j| j.1 & GO != 0);
    CHANGED.notify_all();
    while started && !s.ended {
        s = CHANGED.wait(s).unwrap();
    }
    Outcome { a: out, b: s.outcome.take(), points_a, points_b: s.count, blocked: s.blocked }
}

/// The second thread.
pub fn second(run: &dyn Fn(usize) -> String) -> ! {
    loop {
        let mut s = STATE.lock().unwrap();
        let (op, stop) = loop {
            match s.job {
                Some((op, stop)) if stop & GO != 0 => break (op, stop & !GO),
                _ => s = CHANGED.wait(s).unwrap(),
            }
        };
        s.job = None;
        drop(s);
        ROLE.with(|r| r.set(2));
        COUNT.with(|c| c.set(0));
        STOP.with(|c| c.set(stop));
        let out = run(op);
        ARMED.with(|x| x.set(0));
        ROLE.with(|r| r.set(0));
        let mut s = STATE.lock().unwrap();
        s.outcome = Some(out);
        s.count = COUNT.with(Cell::get);
        s.halted = true;
        s.ended = true;
        CHANGED.notify_all();
    }
}
