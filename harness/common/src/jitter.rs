//! An allocator that delays threads at random moments.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};

/// Allocator that delays the calling thread at random moments while armed:
/// every worker allocates all the time, so this preempts workers in the middle
/// of their work and records who was delayed in which order.
pub struct Jitter;
pub static ARMED: AtomicU64 = AtomicU64::new(0);
pub static ORDER: AtomicU64 = AtomicU64::new(0);
pub static DELAYS: AtomicU64 = AtomicU64::new(0);
pub static NEXT_ID: AtomicU64 = AtomicU64::new(1);
thread_local! {
    static STATE: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}
fn jitter() {
    let rate = ARMED.load(Ordering::Relaxed);
    if rate == 0 {
        return;
    }
    let _ = STATE.try_with(|s| {
        let (mut id, mut x) = s.get();
        if id == 0 {
            id = NEXT_ID.fetch_add(1, Ordering::Relaxed);
            x = id.wrapping_mul(0x9E3779B97F4A7C15) ^ ORDER.load(Ordering::Relaxed) | 1;
        }
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        s.set((id, x));
        if (x >> 20) % rate == 0 {
            DELAYS.fetch_add(1, Ordering::Relaxed);
            let o = ORDER.load(Ordering::Relaxed);
            ORDER.store(o.wrapping_mul(1099511628211) ^ id, Ordering::Relaxed);
            match (x >> 50) % 4 {
                0 => std::thread::yield_now(),
                1 => std::thread::sleep(std::time::Duration::from_micros((x >> 30) % 300)),
                2 => std::thread::sleep(std::time::Duration::from_micros((x >> 30) % 2000)),
                _ => {
                    for _ in 0..(x >> 40) % 2000 {
                        std::hint::spin_loop()
                    }
                }
            }
        }
    });
}
unsafe impl GlobalAlloc for Jitter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        jitter();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
