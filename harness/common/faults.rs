//! Interposed system-call wrappers: while armed on the calling thread they
//! shorten transfers, interrupt calls, fail one chosen call or end the process
//! there. Included by the C19 and C29 monitors only.
use std::cell::Cell;
use std::os::raw::{c_char, c_int, c_long, c_void};

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}

const EINTR: c_int = 4;
const EIO: c_int = 5;
const ENOSPC: c_int = 28;

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub enum Plan {
    Off,
    /// only count calls
    Count,
    /// shorten and/or interrupt calls, each with probability 1/rate
    Soft { short: bool, intr: bool, rate: u64, seed: u64 },
    /// call number `at` fails with `errno`
    Hard { at: u64, errno: c_int },
    /// call number `at` and every later one fail with `errno`; after `patience`
    /// failures the calls succeed again and the run counts as endless
    Dead { at: u64, errno: c_int, patience: u64 },
    /// only calls that change files are counted; the process dies in call number
    /// `at`, of which `part` (0..=8 eighths) of the bytes were still transferred
    Crash { at: u64, part: u8 },
}

thread_local! {
    static PLAN: Cell<Plan> = const { Cell::new(Plan::Off) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static SHORTENED: Cell<u64> = const { Cell::new(0) };
    static INTERRUPTED: Cell<u64> = const { Cell::new(0) };
    static FAILED: Cell<u64> = const { Cell::new(0) };
    static ENDLESS: Cell<bool> = const { Cell::new(false) };
    static RNG: Cell<u64> = const { Cell::new(1) };
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Seen {
    pub calls: u64,
    pub shortened: u64,
    pub interrupted: u64,
    pub failed: u64,
    /// the operation kept repeating calls that never succeed
    pub endless: bool,
}

/// Run f with the plan armed on this thread.
pub fn with<T>(p: Plan, f: impl FnOnce() -> T) -> (T, Seen) {
    CALLS.with(|c| c.set(0));
    SHORTENED.with(|c| c.set(0));
    INTERRUPTED.with(|c| c.set(0));
    FAILED.with(|c| c.set(0));
    ENDLESS.with(|c| c.set(false));
    if let Plan::Soft { seed, .. } = p {
        RNG.with(|c| c.set(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1));
    }
    PLAN.with(|c| c.set(p));
    let v = f();
    PLAN.with(|c| c.set(Plan::Off));
    let s = Seen { calls: CALLS.with(|c| c.get()), shortened: SHORTENED.with(|c| c.get()), interrupted: INTERRUPTED.with(|c| c.get()), failed: FAILED.with(|c| c.get()), endless: ENDLESS.with(|c| c.get()) };
    (v, s)
}

fn rnd() -> u64 {
    RNG.with(|c| {
        let mut x = c.get();
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        c.set(x);
        x >> 11
    })
}

enum Act {
    Pass,
    Len(usize),
    Fail(c_int),
    /// transfer so much, then die
    Last(usize),
}

fn die() -> ! {
    extern "C" {
        fn kill(pid: c_int, sig: c_int) -> c_int;
    }
    unsafe {
        kill(std::process::id() as c_int, 9);
    }
    loop {
        std::thread::yield_now()
    }
}

fn bump(c: &'static std::thread::LocalKey<Cell<u64>>) -> u64 {
    c.with(|c| {
        let v = c.get();
        c.set(v + 1);
        v
    })
}

#[derive(PartialEq)]
enum Kind {
    Read,
    Write,
    Seek,
    Open,
    /// renaming, removing, cutting
    Change,
}

fn decide(fd: c_int, n: usize, kind: Kind) -> Act {
    if fd >= 0 && fd < 3 {
        return Act::Pass;
    }
    let plan = match PLAN.try_with(|c| c.get()) {
        Ok(p) => p,
        Err(_) => return Act::Pass,
    };
    match plan {
        Plan::Off => Act::Pass,
        Plan::Count => {
            bump(&CALLS);
            Act::Pass
        }
        Plan::Crash { at, part } => {
            if matches!(kind, Kind::Write | Kind::Open | Kind::Change) && bump(&CALLS) == at {
                if kind == Kind::Write && part > 0 && n > 0 {
                    return Act::Last((n * part as usize / 8).max(1));
                }
                die();
            }
            Act::Pass
        }
        Plan::Soft { short, intr, rate, .. } => {
            bump(&CALLS);
            if kind == Kind::Seek || kind == Kind::Change {
                return Act::Pass;
            }
            let x = rnd();
            if intr && x % rate == 0 && (x >> 20) % 2 == 0 {
                bump(&INTERRUPTED);
                return Act::Fail(EINTR);
            }
            if short && n > 1 && x % rate == 0 && (kind == Kind::Read || kind == Kind::Write) {
                bump(&SHORTENED);
                let k = match (x >> 30) % 4 {
                    0 => 1,
                    1 => n - 1,
                    2 => (n / 2).max(1),
                    _ => 1 + (x >> 32) as usize % (n - 1),
                };
                return Act::Len(k);
            }
            Act::Pass
        }
        Plan::Hard { at, errno } => {
            if bump(&CALLS) == at {
                bump(&FAILED);
                let e = match (kind, errno) {
                    (Kind::Write, e) => e,
                    (_, _) => EIO,
                };
                return Act::Fail(e);
            }
            Act::Pass
        }
        Plan::Dead { at, errno, patience } => {
            if bump(&CALLS) >= at {
                if FAILED.with(|c| c.get()) >= patience {
                    ENDLESS.with(|c| c.set(true));
                    return Act::Pass;
                }
                bump(&FAILED);
                return Act::Fail(if kind == Kind::Write { errno } else { EIO });
            }
            Act::Pass
        }
    }
}

pub const WRITE_ERRORS: [c_int; 2] = [EIO, ENOSPC];

unsafe fn fail(e: c_int) -> c_long {
    *__errno_location() = e;
    -1
}

const SYS_READ: c_long = 0;
const SYS_WRITE: c_long = 1;
const SYS_LSEEK: c_long = 8;
const SYS_PREAD64: c_long = 17;
const SYS_PWRITE64: c_long = 18;
const SYS_READV: c_long = 19;
const SYS_WRITEV: c_long = 20;
const SYS_OPENAT: c_long = 257;

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    match decide(fd, n, Kind::Read) {
        Act::Pass => syscall(SYS_READ, fd as c_long, buf, n) as isize,
        Act::Len(k) => syscall(SYS_READ, fd as c_long, buf, k) as isize,
        Act::Last(k) => {
            syscall(SYS_READ, fd as c_long, buf, k);
            die()
        }
        Act::Fail(e) => fail(e) as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    match decide(fd, n, Kind::Write) {
        Act::Pass => syscall(SYS_WRITE, fd as c_long, buf, n) as isize,
        Act::Len(k) => syscall(SYS_WRITE, fd as c_long, buf, k) as isize,
        Act::Last(k) => {
            syscall(SYS_WRITE, fd as c_long, buf, k);
            die()
        }
        Act::Fail(e) => fail(e) as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize {
    match decide(fd, n, Kind::Read) {
        Act::Pass => syscall(SYS_PREAD64, fd as c_long, buf, n, off) as isize,
        Act::Len(k) => syscall(SYS_PREAD64, fd as c_long, buf, k, off) as isize,
        Act::Last(k) => {
            syscall(SYS_PREAD64, fd as c_long, buf, k, off);
            die()
        }
        Act::Fail(e) => fail(e) as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    match decide(fd, n, Kind::Write) {
        Act::Pass => syscall(SYS_PWRITE64, fd as c_long, buf, n, off) as isize,
        Act::Len(k) => syscall(SYS_PWRITE64, fd as c_long, buf, k, off) as isize,
        Act::Last(k) => {
            syscall(SYS_PWRITE64, fd as c_long, buf, k, off);
            die()
        }
        Act::Fail(e) => fail(e) as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const c_void, n: c_int) -> isize {
    // never shortened: a vector may hold single bytes
    match decide(fd, 1, Kind::Read) {
        Act::Fail(e) => fail(e) as isize,
        _ => syscall(SYS_READV, fd as c_long, iov, n as c_long) as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const c_void, n: c_int) -> isize {
    match decide(fd, 1, Kind::Write) {
        Act::Fail(e) => fail(e) as isize,
        _ => syscall(SYS_WRITEV, fd as c_long, iov, n as c_long) as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    match decide(fd, 0, Kind::Seek) {
        Act::Fail(e) => fail(e) as i64,
        _ => syscall(SYS_LSEEK, fd as c_long, off, whence as c_long) as i64,
    }
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    match decide(-1, 0, Kind::Open) {
        Act::Fail(e) => fail(e) as c_int,
        _ => syscall(SYS_OPENAT, -100 as c_long, path, flags as c_long, mode as c_long) as c_int,
    }
}

const SYS_FTRUNCATE: c_long = 77;
const SYS_RENAME: c_long = 82;
const SYS_UNLINK: c_long = 87;

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    match decide(fd, 0, Kind::Change) {
        Act::Fail(e) => fail(e) as c_int,
        _ => syscall(SYS_FTRUNCATE, fd as c_long, len) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    match decide(-1, 0, Kind::Change) {
        Act::Fail(e) => fail(e) as c_int,
        _ => syscall(SYS_RENAME, a, b) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    match decide(-1, 0, Kind::Change) {
        Act::Fail(e) => fail(e) as c_int,
        _ => syscall(SYS_UNLINK, a) as c_int,
    }
}

/// Whether the standard library really goes through the functions above.
pub fn live(dir: &str) -> bool {
    let p = format!("{}/probe", dir);
    let ((), a) = with(Plan::Count, || std::fs::write(&p, b"probe").unwrap());
    let (r, b) = with(Plan::Soft { short: true, intr: true, rate: 1, seed: 5 }, || std::fs::read(&p).unwrap_or_default());
    let (e, c) = with(Plan::Hard { at: 1, errno: EIO }, || std::fs::read(&p).is_err());
    let _ = std::fs::remove_file(&p);
    a.calls >= 2 && r == b"probe" && b.shortened + b.interrupted > 0 && e && c.failed == 1
}

/// Stop injecting on this thread; counts stay.
pub fn disarm() {
    PLAN.with(|c| c.set(Plan::Off));
}

/// Run f without faults, then go on.
pub fn pause<T>(f: impl FnOnce() -> T) -> T {
    let p = PLAN.with(|c| c.replace(Plan::Off));
    let v = f();
    PLAN.with(|c| c.set(p));
    v
}
