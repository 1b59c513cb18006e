//! What the process holds: open files, threads, heap, files in a directory.
//! Included by the C30 monitors only.
use common::*;
use std::time::{Duration, Instant};

#[repr(C)]
#[derive(Clone, Copy)]
struct Mallinfo2 {
    v: [usize; 10],
}
#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn mallinfo2() -> Mallinfo2;
    fn getrlimit(what: i32, l: *mut Rlimit) -> i32;
    fn setrlimit(what: i32, l: *const Rlimit) -> i32;
}

/// bytes handed out by the C allocator, which Rust and GMP both use
pub fn heap() -> usize {
    let m = unsafe { mallinfo2() };
    m.v[4] + m.v[7]
}

/// Start again with the allocator's per-thread caches off: what they keep for
/// reuse would count as handed out.
pub fn exact_heap() {
    use std::os::unix::process::CommandExt;
    const K: &str = "GLIBC_TUNABLES";
    if std::env::var_os(K).is_none() {
        let e = std::process::Command::new(std::env::current_exe().unwrap()).args(std::env::args_os().skip(1)).env(K, "glibc.malloc.tcache_count=0:glibc.malloc.arena_max=1").exec();
        panic!("cannot start again: {}", e);
    }
}

fn entries(p: &str) -> usize {
    std::fs::read_dir(p).map(|d| d.count()).unwrap_or(0)
}

pub fn fds() -> usize {
    entries("/proc/self/fd")
}

pub fn tasks() -> usize {
    entries("/proc/self/task")
}

pub struct Held {
    fds: usize,
    tasks: usize,
    heap: usize,
    dir: Vec<String>,
}

fn names(p: &std::path::Path) -> Vec<String> {
    let mut v: Vec<String> = snapshot(p).keys().cloned().collect();
    v.sort();
    v
}

fn settle(at_most: usize) -> usize {
    // workers of a finished pool need a moment to end
    let t = Instant::now();
    loop {
        let n = tasks();
        if n <= at_most || t.elapsed() > Duration::from_secs(30) {
            return n;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

/// The number of threads once it has not changed for a while.
fn stable() -> usize {
    let (mut n, mut since) = (tasks(), Instant::now());
    let t = Instant::now();
    while since.elapsed() < Duration::from_millis(150) && t.elapsed() < Duration::from_secs(30) {
        std::thread::sleep(Duration::from_millis(2));
        let k = tasks();
        if k != n {
            n = k;
            since = Instant::now();
        }
    }
    n
}

/// Lower the limit of open files to `spare` more than are open now.
pub fn few_files<T>(spare: u64, f: impl FnOnce() -> T) -> T {
    let mut old = Rlimit { cur: 0, max: 0 };
    let top = std::fs::read_dir("/proc/self/fd").unwrap().filter_map(|e| e.ok()?.file_name().to_str()?.parse::<u64>().ok()).max().unwrap_or(2);
    unsafe {
        getrlimit(7, &mut old);
        setrlimit(7, &Rlimit { cur: top + 1 + spare, max: old.max });
    }
    let v = f();
    unsafe {
        setrlimit(7, &old);
    }
    v
}

/// The largest number of threads seen while f runs, besides this and the watcher.
pub fn peak_threads<T>(f: impl FnOnce() -> T) -> (T, usize) {
    use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
    let before = tasks();
    let (stop, peak) = (AtomicBool::new(false), AtomicUsize::new(0));
    let v = std::thread::scope(|s| {
        s.spawn(|| {
            while !stop.load(Ordering::SeqCst) {
                peak.fetch_max(tasks(), Ordering::SeqCst);
                std::thread::sleep(Duration::from_micros(300));
            }
        });
        let v = f();
        stop.store(true, Ordering::SeqCst);
        v
    });
    (v, peak.load(Ordering::SeqCst).saturating_sub(before + 1))
}

/// Run `f` a few times, then `times` more, and see that nothing more is held.
/// `per` bytes of heap per run are put down to the allocator.
pub fn watch(m: &Mon, what: &str, dir: &std::path::Path, warm: usize, times: usize, per: usize, mut f: impl FnMut(usize)) {
    m.case(format!("{} {} times, after {} times", what, times, warm));
    for i in 0..warm {
        f(i);
    }
    let base = stable();
    let a = Held { fds: fds(), tasks: base, heap: heap(), dir: names(dir) };
    for i in 0..times {
        f(warm + i);
    }
    let t = settle(a.tasks);
    m.check(t <= a.tasks, || format!("{} threads before, {} afterwards", a.tasks, t));
    let n = fds();
    m.check(n <= a.fds, || format!("{} files open before, {} afterwards", a.fds, n));
    let d = names(dir);
    m.check(d == a.dir, || format!("files before {:?}, afterwards {:?}", a.dir, d));
    let mut h = heap();
    let (mut from, mut at) = (a.heap, warm + times);
    // something kept once, or up to some size, is not a leak: a leak goes on
    for _ in 0..2 {
        if h <= from + per * times + 2048 {
            break;
        }
        m.count("heap grown, repeated again", 1);
        from = h;
        for i in 0..times {
            f(at + i);
        }
        at += times;
        settle(a.tasks);
        h = heap();
    }
    m.check(h <= from + per * times + 2048, || format!("{} bytes of memory held before, {} after {} runs and growing by {} in each", a.heap, h, at - warm, h.saturating_sub(from) / times));
    m.eval(times as u64 - 1);
    m.count("operations repeated", times as u64);
    m.distinct(&(what, times));
    m.sample(format!("{} x{}: heap {} -> {}, files {} -> {}, threads {} -> {}", what, times, a.heap, h, a.fds, n, a.tasks, t));
}
