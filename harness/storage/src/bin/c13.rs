//! C13: single, batch and parallel recovery of any blocks.
use common::*;
use proof_of_storage::proof_of_storage::prover::{copy_and_pad, seal};
use proof_of_storage::proof_of_storage::verifier::*;
use common::jitter::{Jitter, ARMED, DELAYS, NEXT_ID, ORDER};
use std::sync::atomic::{AtomicBool, Ordering};
use storage_mon::*;

#[global_allocator]
static A: Jitter = Jitter;

type Units = Vec<Vec<u8>>;

fn expect(c: &Cfg, data: &[u8], b: usize) -> Units {
    let mut v = origin_units(c, data, b);
    for u in v.iter_mut() {
        u.push(0);
    }
    v
}

fn same(m: &Mon, what: &str, got: &[Units], idx: &[usize], c: &Cfg, data: &[u8]) {
    m.check(got.len() == idx.len(), || format!("{}: {} blocks asked for, {} returned", what, idx.len(), got.len()));
    for (k, (&b, g)) in idx.iter().zip(got).enumerate() {
        let e = expect(c, data, b);
        m.check(*g == e, || {
            let u = g.iter().zip(&e).position(|(a, b)| a != b);
            format!("{}: block {} (position {} of {:?}) is not recovered, first bad unit {:?} of {}, {} units returned", what, b, k, idx, u, e.len(), g.len())
        });
    }
    m.count("blocks recovered", idx.len() as u64);
}

/// what single_unseal_prepare hands out for the given blocks
fn collect(m: &Mon, path: &str, idx: &[usize], c: &Cfg) -> (Vec<Units>, Vec<Vec<u8>>, Vec<Vec<Units>>) {
    let par = c.params();
    let (mut bl, mut be, mut de) = (vec![], vec![], vec![]);
    for &b in idx {
        let (x, y, z) = m.must("single_unseal_prepare", || single_unseal_prepare(path, b, &par));
        bl.push(x);
        be.push(y);
        de.push(z);
    }
    (bl, be, de)
}

fn run(m: &Mon, r: &mut Rng, c: &Cfg, thread_counts: &[usize]) {
    let s = Scratch::new("c13");
    let (o, z) = (s.path("origin"), s.path("sealed"));
    let (data, flavour) = r.content(c.data_l());
    let iv = r.bytes(128);
    let p = prime(c.unit_pl());
    let par = c.params();
    std::fs::write(&o, &data).unwrap();
    m.case(format!("sealing {}; content {}", c.show(), flavour));
    m.must("copy_and_pad", || copy_and_pad(&o, &z, c.data_l(), c.unit_l));
    m.must("seal", || {
        let _ = seal(&par, &z, &p, &iv);
    });
    let replica = std::fs::read(&z).unwrap();

    // byte ranges, batch
    for _ in 0..3 {
        let a = r.below(c.blocks);
        let e = r.range(a + 1, c.blocks);
        let end = if r.coin() { e * c.block_pl() } else { (e - 1) * c.block_pl() + r.range(1, c.block_pl()) };
        m.case(format!("{}: blocks {}..{} as bytes {}..{}", c.show(), a, e, a * c.block_pl(), end));
        let (idx, mut bl, be, de) = m.must("batch_unseal_prepare", || batch_unseal_prepare(&z, a * c.block_pl(), end, &par));
        m.check(idx == (a..e).collect::<Vec<_>>(), || format!("blocks {}..{} expected, {:?} chosen", a, e, idx));
        m.must("batch_unseal_and_verify", || {
            let _ = batch_unseal_and_verify(&par, &o, &idx, &bl, &be, &de, &p, &iv);
        });
        let t = *r.pick(thread_counts);
        let got = m.must("batch_unseal_parallel", || batch_unseal_parallel(&par, &idx, &bl, &be, &de, &p, &iv, t));
        same(m, &format!("parallel recovery with {} threads", t), &got, &idx, c, &data);
        let got = m.must("batch_unseal", || batch_unseal(&par, &idx, &mut bl, &be, &de, &p, &iv));
        same(m, "batch recovery", &got, &idx, c, &data);
        m.distinct(&(c, a, e, t, "range"));
    }

    // any set, any order, repeats
    for k in 0..4 {
        let idx: Vec<usize> = match k {
            0 => vec![r.below(c.blocks)],
            1 => {
                let mut v: Vec<usize> = (0..c.blocks).collect();
                r.shuffle(&mut v);
                v
            }
            2 => vec![],
            _ => {
                let n = r.range(1, 2 * c.blocks);
                (0..n).map(|_| r.below(c.blocks)).collect()
            }
        };
        let (bl, be, de) = collect(m, &z, &idx, c);
        for &t in thread_counts {
            m.case(format!("{}: blocks {:?} with {} threads", c.show(), idx, t));
            if r.coin() {
                ORDER.store(0, Ordering::Relaxed);
                let d0 = DELAYS.load(Ordering::Relaxed);
                NEXT_ID.store(1, Ordering::Relaxed);
                ARMED.store(*r.pick(&[20u64, 100, 600]), Ordering::Relaxed);
                let got = catch(|| batch_unseal_parallel(&par, &idx, &bl, &be, &de, &p, &iv, t));
                ARMED.store(0, Ordering::Relaxed);
                let got = m.must("batch_unseal_parallel with injected delays", || got.unwrap());
                same(m, &format!("parallel recovery with {} threads and injected delays", t), &got, &idx, c, &data);
                let d = DELAYS.load(Ordering::Relaxed) - d0;
                m.count("delays injected into workers", d);
                if d > 1 {
                    m.distinct(&("schedule", t, ORDER.load(Ordering::Relaxed)));
                    m.count("recoveries under injected delays", 1);
                }
            }
            let got = m.must("batch_unseal_parallel", || batch_unseal_parallel(&par, &idx, &bl, &be, &de, &p, &iv, t));
            same(m, &format!("parallel recovery with {} threads", t), &got, &idx, c, &data);
            m.count("parallel recoveries", 1);
            m.distinct(&(c, &idx, t));
        }
        m.case(format!("{}: blocks {:?} sequentially", c.show(), idx));
        let mut bl2 = bl.clone();
        let got = m.must("batch_unseal", || batch_unseal(&par, &idx, &mut bl2, &be, &de, &p, &iv));
        same(m, "batch recovery", &got, &idx, c, &data);
    }
    m.count(&format!("long mode {}", c.mode_l), 1);
    m.count(&format!("short mode {}", c.mode_s), 1);
    m.check(std::fs::read(&z).unwrap() == replica, || "recovering blocks changed the replica".into());
    m.sample(c.show());
}

/// Very long lists of blocks.
fn long_lists(m: &Mon, r: &mut Rng, c: &Cfg, n: usize, ts: &[usize]) {
    let s = Scratch::new("c13");
    let (o, z) = (s.path("origin"), s.path("sealed"));
    let data = r.bytes(c.data_l());
    let iv = r.bytes(128);
    let p = prime(c.unit_pl());
    let par = c.params();
    std::fs::write(&o, &data).unwrap();
    m.case(format!("sealing {}", c.show()));
    m.must("copy_and_pad", || copy_and_pad(&o, &z, c.data_l(), c.unit_l));
    m.must("seal", || {
        let _ = seal(&par, &z, &p, &iv);
    });
    let mut idx: Vec<usize> = (0..n).map(|i| if i < c.blocks { i } else { r.below(c.blocks) }).collect();
    r.shuffle(&mut idx);
    m.case(format!("{}: {} entries", c.show(), n));
    let (bl, be, de) = collect(m, &z, &idx, c);
    let whole = |what: &str, got: &[Units]| {
        m.check(got.len() == n, || format!("{}: {} blocks asked for, {} returned", what, n, got.len()));
        for (k, (&b, g)) in idx.iter().zip(got).enumerate() {
            m.check(*g == expect(c, &data, b), || format!("{}: block {} (position {} of {}) is not recovered", what, b, k, n));
        }
        m.count("blocks recovered in lists of many hundreds", n as u64);
    };
    for &t in ts {
        m.case(format!("{}: {} entries with {} threads", c.show(), n, t));
        let got = m.must("batch_unseal_parallel", || batch_unseal_parallel(&par, &idx, &bl, &be, &de, &p, &iv, t));
        whole(&format!("parallel recovery with {} threads", t), &got);
        m.distinct(&(c, n, t, "long list"));
    }
    m.case(format!("{}: {} entries sequentially", c.show(), n));
    let mut bl2 = bl.clone();
    let got = m.must("batch_unseal", || batch_unseal(&par, &idx, &mut bl2, &be, &de, &p, &iv));
    whole("batch recovery", &got);
}

/// Blocks beyond 2 and 4 GB of a replica.
fn far_blocks(m: &Mon, r: &mut Rng, c: &Cfg, targets: &[usize]) {
    let s = Scratch::new("c13");
    let (o, z) = (s.path("origin"), s.path("sealed"));
    let iv = r.bytes(128);
    let p = prime(c.unit_pl());
    let par = c.params();
    let f = match far(c, r, &o, &z, targets, &p, &iv) {
        Some(f) => f,
        None => {
            m.count("replicas beyond 4 GB the file system has no room for", 1);
            return;
        }
    };
    let check = |what: &str, got: &[Units], idx: &[usize]| {
        m.check(got.len() == idx.len(), || format!("{}: {} blocks asked for, {} returned", what, idx.len(), got.len()));
        for (g, b) in got.iter().zip(idx) {
            m.check(g.concat() == pad(&f.blocks[b], c.unit_l), || format!("{}: block {} at byte {} of the replica is not recovered", what, b, b * c.block_pl()));
        }
        m.count("blocks recovered beyond 2 GB", idx.len() as u64);
    };
    let idx: Vec<usize> = f.blocks.keys().rev().cloned().collect();
    m.case(format!("blocks {:?} of {}", idx, c.show()));
    let (mut bl, be, de) = collect(m, &z, &idx, c);
    let got = m.must("batch_unseal_parallel", || batch_unseal_parallel(&par, &idx, &bl, &be, &de, &p, &iv, 4));
    check("parallel recovery", &got, &idx);
    let got = m.must("batch_unseal", || batch_unseal(&par, &idx, &mut bl, &be, &de, &p, &iv));
    check("batch recovery", &got, &idx);
    for w in idx.iter().rev().filter(|b| f.blocks.contains_key(&(**b + 1))) {
        let want = vec![*w, *w + 1];
        m.case(format!("blocks {:?} as a byte range of {}", want, c.show()));
        let (i, mut bl, be, de) = m.must("batch_unseal_prepare", || batch_unseal_prepare(&z, w * c.block_pl(), (w + 2) * c.block_pl(), &par));
        m.check(i == want, || format!("blocks {:?} expected, {:?} chosen", want, i));
        let got = m.must("batch_unseal", || batch_unseal(&par, &i, &mut bl, &be, &de, &p, &iv));
        check("batch recovery", &got, &i);
        m.must("batch_unseal_and_verify", || {
            let _ = batch_unseal_and_verify(&par, &o, &i, &collect(m, &z, &i, c).0, &be, &de, &p, &iv);
        });
    }
    m.distinct(&(c, "far"));
}

/// Background threads that keep the cores busy, so that workers are preempted at odd moments.
fn with_noise<T>(n: usize, f: impl FnOnce() -> T) -> T {
    let stop = AtomicBool::new(false);
    std::thread::scope(|s| {
        for k in 0..n {
            let stop = &stop;
            s.spawn(move || {
                let mut i = k as u64;
                while !stop.load(Ordering::Relaxed) {
                    i = i.wrapping_mul(6364136223846793005).wrapping_add(1);
                    if i % 7 == 0 {
                        std::thread::yield_now();
                    }
                    if i % 100_003 == 0 {
                        std::thread::sleep(std::time::Duration::from_micros(i % 500));
                    }
                }
            });
        }
        let v = f();
        stop.store(true, Ordering::Relaxed);
        v
    })
}

fn main() {
    let m = Mon::new("C13", "", "exploration", "seeded sealed files over every dependency mode; byte ranges, single blocks, permutations, repeats and the empty set; sequential and with 1 to 64 worker threads, many more blocks than threads and the reverse, with and without background load and with delays injected into the workers; distinct by configuration, block list and thread count, and by order in which delayed threads ran");
    m.case_limit(120);
    let mut cfgs = vec![];
    for mode_l in 0..=4 {
        for mode_s in 0..=3 {
            cfgs.push(Cfg { unit_l: 63, units: 3 + mode_l + mode_s, blocks: 14 + mode_l * 2, seal_rounds: 1 + (mode_l + mode_s) % 2, vde_rounds: 1, mode_l, cnt_l: [0, 3, 20, 5][mode_s], mode_s, cnt_s: [10, 3, 0, 20, 5][mode_l] });
        }
    }
    for (blocks, units) in [(1, 1), (1, 20), (60, 1), (300, 1), (2, 260)] {
        cfgs.push(Cfg { unit_l: 63, units, blocks, seal_rounds: 1, vde_rounds: if units * blocks > 100 { 0 } else { 1 }, mode_l: 0, cnt_l: 0, mode_s: 0, cnt_s: 40 });
    }
    cfgs.push(Cfg { unit_l: 127, units: 3, blocks: 9, seal_rounds: 2, vde_rounds: 2, mode_l: 0, cnt_l: 2, mode_s: 0, cnt_s: 4 });
    cfgs.push(Cfg { unit_l: 255, units: 2, blocks: 5, seal_rounds: 2, vde_rounds: 1, mode_l: 2, cnt_l: 3, mode_s: 2, cnt_s: 4 });
    cfgs.extend(extremes());
    let mut r = m.rng(1);
    for _ in 0..m.amount(100, 3000) {
        cfgs.push(Cfg::random(&mut r, 60));
    }
    let all = [1usize, 2, 3, 4, 5, 7, 8, 10, 16, 33, 64];
    for (i, c) in cfgs.iter().enumerate() {
        let mut r = m.rng(100 + i as u64);
        let t = if i % 3 == 0 { vec![1, 2, *r.pick(&all), *r.pick(&all)] } else { vec![*r.pick(&all), *r.pick(&all)] };
        if i % 4 == 0 {
            m.count("files recovered under background load", 1);
            with_noise(6, || run(m, &mut r, c, &t));
        } else {
            run(m, &mut r, c, &t);
        }
    }
    for (i, (n, blocks, units)) in [(500usize, 40usize, 2usize), (1100, 1100, 1), (2500, 30, 3), (9000, 12, 1)].into_iter().enumerate() {
        let mut r = m.rng(4000 + i as u64);
        let c = Cfg { unit_l: 63, units, blocks, seal_rounds: 1, vde_rounds: 1, mode_l: i, cnt_l: 2, mode_s: i, cnt_s: 3 };
        let ts = [2, *r.pick(&all), 8];
        long_lists(m, &mut r, &c, n, &ts);
    }
    let far = if reads_whole_files(m) { vec![] } else { far_cfgs() };
    parallel(far.len(), threads(), |i| {
        let mut r = m.rng(9000 + i as u64);
        far_blocks(m, &mut r, &far[i].0, &far[i].1);
    });
    // many short jobs on many thread counts: schedules
    let c = Cfg { unit_l: 63, units: 2, blocks: 24, seal_rounds: 2, vde_rounds: 1, mode_l: 0, cnt_l: 0, mode_s: 0, cnt_s: 3 };
    let every: Vec<usize> = if m.thorough() { (1..=64).collect() } else { vec![1, 2, 3, 4, 6, 8, 12, 16, 24, 25, 48, 64] };
    for k in 0..m.amount(8, 200) {
        let mut r = m.rng(5000 + k as u64);
        with_noise(if k % 2 == 0 { 8 } else { 0 }, || run(m, &mut r, &c, &every));
    }
    m.finish();
}
