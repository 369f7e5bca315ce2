//! The wall clock, owned by the explorer.
//!
//! `std::time::SystemTime::now` (and so `chrono::Utc::now`) ends in the C symbol
//! `clock_gettime`. The definition below wins over libc's at link time, so the
//! time the code under test sees is a per-thread value chosen by the driver.

use std::cell::Cell;

thread_local! {
    static NOW: Cell<Option<(i64, i64)>> = const { Cell::new(None) };
    static READS: Cell<u64> = const { Cell::new(0) };
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn syscall(num: i64, ...) -> i64;
}

#[cfg(target_arch = "x86_64")]
const SYS_CLOCK_GETTIME: i64 = 228;
#[cfg(target_arch = "aarch64")]
const SYS_CLOCK_GETTIME: i64 = 113;

/// # Safety
/// `ts` points to a writable timespec, as for libc's function.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, ts: *mut Timespec) -> i32 {
    // every CLOCK_REALTIME flavour
    if clock == 0 || clock == 5 || clock == 11 {
        crate::sched::point();
        if let Some((sec, nsec)) = NOW.with(Cell::get) {
            READS.with(|r| r.set(r.get() + 1));
            (*ts).sec = sec;
            (*ts).nsec = nsec;
            return 0;
        }
    }
    syscall(SYS_CLOCK_GETTIME, i64::from(clock), ts) as i32
}

/// Nanoseconds since the epoch.
pub type Nanos = i128;

pub const SEC: Nanos = 1_000_000_000;

pub fn set(t: Nanos) {
    assert!(t >= 0, "the virtual clock does not go before the epoch");
    NOW.with(|n| n.set(Some(((t / SEC) as i64, (t % SEC) as i64))));
}

pub fn release() {
    NOW.with(|n| n.set(None));
}

/// Proves that the code under test reads the virtual clock.
pub fn self_test() -> Result<(), String> {
    let t = 1_700_000_000 * SEC + 123_456_789;
    set(t);
    let seen = chrono::Utc::now();
    let got = i128::from(seen.timestamp()) * SEC + i128::from(seen.timestamp_subsec_nanos());
    release();
    if got != t {
        return Err(format!("virtual clock not in effect: wanted {t}, saw {got}"));
    }
    if READS.with(Cell::get) == 0 {
        return Err("virtual clock was not read".into());
    }
    Ok(())
}

/// `t` as a chrono timestamp; `None` when chrono cannot represent it.
pub fn utc(t: Nanos) -> Option<chrono::DateTime<chrono::Utc>> {
    let secs = i64::try_from(t.div_euclid(SEC)).ok()?;
    let sub = t.rem_euclid(SEC) as u32;
    let naive = chrono::NaiveDateTime::from_timestamp_opt(secs, sub)?;
    Some(chrono::DateTime::from_utc(naive, chrono::Utc))
}

pub fn nanos(t: chrono::DateTime<chrono::Utc>) -> Nanos {
    i128::from(t.timestamp()) * SEC + i128::from(t.timestamp_subsec_nanos())
}
