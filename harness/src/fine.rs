//! Scheduling points at every access to shared memory.
//!
//! A call is first run one machine instruction at a time (the processor's trap flag).
//! Every instruction of it that reads or writes the program's static data, or that is
//! an atomic operation, is remembered: only there can another thread be noticed. Then
//! breakpoints are set on all of these, so that the call can be preempted before
//! its k-th access, for every k.

use std::cell::{Cell, UnsafeCell};
use std::ffi::c_void;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};

const MOST: usize = 8192;

struct Places(UnsafeCell<[(usize, u8); MOST]>);
// SAFETY: written by one thread at a time (the traced one, or the one that sets the breakpoints)
unsafe impl Sync for Places {}
static PLACES: Places = Places(UnsafeCell::new([(0, 0); MOST]));
static KNOWN: AtomicUsize = AtomicUsize::new(0);
/// 0: nothing, 1: tracing, 2: breakpoints
static MODE: AtomicUsize = AtomicUsize::new(0);
static TRACED: AtomicU64 = AtomicU64::new(0);
static TEXT: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];
static LOST: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    /// library code is running and can be preempted
    static HERE: Cell<bool> = const { Cell::new(false) };
    static PASSED: Cell<u64> = const { Cell::new(0) };
    static STOP: Cell<u64> = const { Cell::new(0) };
    static STEPPED: Cell<usize> = const { Cell::new(0) };
    static OTHER: Cell<Option<*const dyn Fn()>> = const { Cell::new(None) };
}

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

extern "C" {
    fn sigaction(signal: i32, new: *const SigAction, old: *mut SigAction) -> i32;
    fn fork() -> i32;
    fn _exit(code: i32) -> !;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn mprotect(at: *mut c_void, n: usize, how: i32) -> i32;
    static __data_start: u8;
    static _end: u8;
    static __executable_start: u8;
    static etext: u8;
}

const RIP: usize = 16;
const FLAGS: usize = 17;
/// the number of the exception: 1 step, 3 breakpoint
const KIND: usize = 20;
const TRAP: i64 = 0x100;

fn places() -> &'static [(usize, u8)] {
    // SAFETY: see `Places`
    unsafe { &(&*PLACES.0.get())[..KNOWN.load(SeqCst)] }
}

fn is_data(a: usize) -> bool {
    let (from, to) = (std::ptr::addr_of!(__data_start) as usize, std::ptr::addr_of!(_end) as usize);
    let own = std::ptr::addr_of!(PLACES) as usize;
    (from..to).contains(&a) && !(own..own + std::mem::size_of::<Places>()).contains(&a)
}

/// Does the instruction at `p` touch static data, or is it an atomic operation?
unsafe fn shares(p: *const u8, regs: &[i64]) -> bool {
    const ORDER: [usize; 16] = [13, 14, 12, 11, 15, 10, 9, 8, 0, 1, 2, 3, 4, 5, 6, 7];
    let reg = |n: usize| regs[ORDER[n & 15]] as usize;
    let program = (TEXT[0].load(SeqCst)..TEXT[1].load(SeqCst)).contains(&(p as usize));
    let at = |i: usize| *p.add(i);
    let mut i = 0;
    let (mut lock, mut fs) = (false, false);
    loop {
        match at(i) {
            0x66 | 0x67 | 0xf2 | 0xf3 | 0x2e | 0x36 | 0x3e | 0x26 => (),
            0x64 | 0x65 => fs = true,
            0xf0 => lock = true,
            _ => break,
        }
        i += 1;
        if i > 14 {
            return false;
        }
    }
    if fs {
        return false;
    }
    let (mut x, mut b) = (0, 0);
    if at(i) & 0xf0 == 0x40 {
        x = usize::from(at(i) >> 1 & 1) * 8;
        b = usize::from(at(i) & 1) * 8;
        i += 1;
    }
    let op = at(i);
    let modrm = match op {
        0xc5 => i + 3,
        0xc4 => {
            x = usize::from(!at(i + 1) >> 6 & 1) * 8;
            b = usize::from(!at(i + 1) >> 5 & 1) * 8;
            i + 4
        }
        0x62 => i + 5,
        0x0f => match at(i + 1) {
            0x38 | 0x3a => i + 3,
            0x05..=0x09 | 0x0b | 0x30..=0x37 | 0x77 | 0x80..=0x8f | 0xa0..=0xa2 | 0xa8..=0xaa | 0xc8..=0xcf => return false,
            0x0d | 0x18..=0x1f => return false,
            _ => i + 2,
        },
        0xa4 | 0xa5 => return is_data(reg(6)) || is_data(reg(7)),
        0xa6 | 0xa7 => return is_data(reg(6)) || is_data(reg(7)),
        0xaa | 0xab | 0xae | 0xaf => return is_data(reg(7)),
        0xac | 0xad => return is_data(reg(6)),
        0x00..=0x3f if op & 7 < 4 => i + 1,
        0x63 | 0x69 | 0x6b | 0x80..=0x8f | 0xc0 | 0xc1 | 0xc6 | 0xc7 | 0xd0..=0xd3 | 0xd8..=0xdf | 0xf6 | 0xf7 | 0xfe | 0xff => {
            if op == 0x8d {
                return false;
            }
            i + 1
        }
        _ => return false,
    };
    let m = at(modrm);
    let (mode, rm) = (m >> 6, usize::from(m & 7));
    if mode == 3 {
        return false;
    }
    if program && (lock || op == 0x86 || op == 0x87) {
        return true;
    }
    let mut next = modrm + 1;
    let mut ea = if rm == 4 {
        let sib = at(next);
        next += 1;
        let index = usize::from(sib >> 3 & 7) | x;
        let base = usize::from(sib & 7) | b;
        let mut a = if index == 4 { 0 } else { reg(index).wrapping_shl(u32::from(sib >> 6)) };
        if sib & 7 == 5 && mode == 0 {
            a = a.wrapping_add(p.add(next).cast::<i32>().read_unaligned() as usize);
        } else {
            a = a.wrapping_add(reg(base));
        }
        a
    } else if rm == 5 && mode == 0 {
        // relative to the end of the instruction, up to its immediate operand
        (p as usize).wrapping_add(next + 4).wrapping_add(p.add(next).cast::<i32>().read_unaligned() as isize as usize)
    } else {
        reg(rm | b)
    };
    match mode {
        1 => ea = ea.wrapping_add(at(next) as i8 as isize as usize),
        2 => ea = ea.wrapping_add(p.add(next).cast::<i32>().read_unaligned() as isize as usize),
        _ => (),
    }
    is_data(ea)
}

unsafe fn put(at: usize, byte: u8) {
    (at as *mut u8).write_volatile(byte);
}

unsafe extern "C" fn trapped(_: i32, _: *mut c_void, context: *mut c_void) {
    let regs = std::slice::from_raw_parts_mut(context.cast::<u8>().add(40).cast::<i64>(), 23);
    match MODE.load(SeqCst) {
        1 => {
            TRACED.fetch_add(1, SeqCst);
            let p = regs[RIP] as usize;
            if HERE.with(Cell::get) && shares(p as *const u8, regs) && !places().iter().any(|x| x.0 == p) {
                let n = KNOWN.load(SeqCst);
                if n < MOST {
                    (*PLACES.0.get())[n] = (p, *(p as *const u8));
                    KNOWN.store(n + 1, SeqCst);
                } else {
                    LOST.store(1, SeqCst);
                }
            }
        }
        mode => {
            if regs[KIND] != 3 {
                // the instruction itself has been run: its breakpoint again
                let back = STEPPED.with(|s| s.replace(0));
                if back != 0 && mode == 2 {
                    put(back, 0xcc);
                }
                regs[FLAGS] &= !TRAP;
                return;
            }
            let p = regs[RIP] as usize - 1;
            let Some(place) = places().iter().find(|x| x.0 == p) else { return };
            regs[RIP] = p as i64;
            if mode != 2 {
                return;
            }
            if HERE.with(Cell::get) {
                let n = PASSED.with(|c| {
                    c.set(c.get() + 1);
                    c.get()
                });
                if n == STOP.with(Cell::get) {
                    clear();
                    HERE.with(|h| h.set(false));
                    if let Some(f) = OTHER.with(Cell::take) {
                        (*f)();
                    }
                    return;
                }
            }
            put(p, place.1);
            STEPPED.with(|s| s.set(p));
            regs[FLAGS] |= TRAP;
        }
    }
}

unsafe fn clear() {
    MODE.store(0, SeqCst);
    for (p, byte) in places() {
        put(*p, *byte);
    }
}

/// The signal handler; false where this cannot be done.
pub fn install() -> bool {
    // SAFETY: as documented for sigaction
    unsafe {
        TEXT[0].store(std::ptr::addr_of!(__executable_start) as usize, SeqCst);
        TEXT[1].store(std::ptr::addr_of!(etext) as usize, SeqCst);
        let a = SigAction { handler: trapped as usize, mask: [0; 16], flags: 4, restorer: 0 };
        sigaction(5, &a, std::ptr::null_mut()) == 0
    }
}

fn trap_flag(on: bool) {
    // SAFETY: changes the trap flag only
    unsafe {
        if on {
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        } else {
            std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        }
    }
}

/// Collects the places of what library code `run` runs.
pub fn trace<T>(run: impl FnOnce() -> T) -> T {
    MODE.store(1, SeqCst);
    let r = run();
    MODE.store(0, SeqCst);
    r
}

/// Runs with breakpoints; before the `k`-th access `other` is called.
pub fn at<T>(k: u64, other: &dyn Fn(), run: impl FnOnce() -> T) -> T {
    PASSED.with(|c| c.set(0));
    STOP.with(|c| c.set(k));
    // SAFETY: taken out again below, before `other` ends
    OTHER.with(|o| o.set(Some(unsafe { std::mem::transmute::<*const dyn Fn(), *const (dyn Fn() + 'static)>(other) })));
    // SAFETY: only this thread runs; the places are instructions of this program
    unsafe {
        for (p, _) in places() {
            mprotect((p & !4095) as *mut c_void, 4096, 7);
        }
        for (p, _) in places() {
            put(*p, 0xcc);
        }
    }
    MODE.store(2, SeqCst);
    let r = run();
    if MODE.load(SeqCst) == 2 {
        // SAFETY: as above
        unsafe { clear() };
    }
    OTHER.with(Cell::take);
    r
}

/// Around library code.
pub fn enter() {
    let mode = MODE.load(SeqCst);
    if mode != 0 {
        HERE.with(|h| h.set(true));
        if mode == 1 {
            trap_flag(true);
        }
    }
}

pub fn leave() {
    if HERE.with(|h| h.replace(false)) && MODE.load(SeqCst) == 1 {
        trap_flag(false);
    }
}

/// The number of instructions traced, and the places found.
pub fn known() -> String {
    let mut t = TRACED.load(SeqCst).to_string();
    if LOST.load(SeqCst) != 0 {
        t.push_str(" too-many");
    }
    for (p, _) in places() {
        t.push_str(&format!(" {:x}", p.wrapping_sub(TEXT[0].load(SeqCst))));
    }
    t
}

/// Takes over what `known` gave in a forked process.
pub fn learn(known: &str) -> bool {
    let mut n = 0;
    for w in known.split(' ').skip(1) {
        let Ok(offset) = usize::from_str_radix(w, 16) else { return false };
        let p = offset.wrapping_add(TEXT[0].load(SeqCst));
        // SAFETY: the only thread; instructions of this program
        unsafe { (*PLACES.0.get())[n] = (p, *(p as *const u8)) };
        n += 1;
    }
    KNOWN.store(n, SeqCst);
    !known.is_empty()
}

/// What `f` gives in a copy of this process; empty if that one ended otherwise.
pub fn forked(f: impl FnOnce() -> String) -> String {
    use std::io::{Read, Write};
    let Ok((mut from, mut to)) = std::io::pipe() else { return String::new() };
    // SAFETY: this process has one thread
    let pid = unsafe { fork() };
    if pid == 0 {
        drop(from);
        let t = f();
        let ok = to.write_all(t.as_bytes()).is_ok();
        // SAFETY: does not return
        unsafe { _exit(i32::from(!ok)) };
    }
    drop(to);
    let mut t = String::new();
    let read = from.read_to_string(&mut t).is_ok();
    let mut status = 0;
    // SAFETY: an own child
    unsafe { waitpid(pid, &mut status, 0) };
    if !read || status != 0 || pid < 0 {
        t.clear();
    }
    t
}
