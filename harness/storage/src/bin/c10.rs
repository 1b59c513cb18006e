//! C10, storage part: challenged indices are distinct, ascending, in range and uniform.
use common::*;
use proof_of_storage::proof_of_storage::verifier::create_challenges;

fn main() {
    let m = Mon::new("C10", "storage", "exploration", "every count up to the range size for ranges up to 24 wide at several offsets, and larger ranges; each list checked for count, order, distinctness and range; inclusion frequencies, neighbour co-occurrence and full-range draws; distinct by (count, range, list)");
    for lo in [0usize, 1, 7, 1000, usize::MAX / 2] {
        for w in 1..=24usize {
            for n in 0..=w {
                for rep in 0..3 {
                    m.case(format!("{} of {}..{} draw {}", n, lo, lo + w, rep));
                    let c = m.must("create_challenges", || create_challenges(n, (lo, lo + w)));
                    m.check(c.len() == n, || format!("{} asked for, {} returned", n, c.len()));
                    m.check(c.windows(2).all(|x| x[0] < x[1]), || format!("not distinct and ascending: {:?}", c));
                    m.check(c.iter().all(|&x| x >= lo && x < lo + w), || format!("outside {}..{}: {:?}", lo, lo + w, c));
                    m.count("indices checked", n as u64);
                    m.distinct(&(lo, w, &c));
                }
            }
        }
    }
    for (n, lo, w) in [(100usize, 0usize, 1000usize), (10, 5, 1 << 20), (500, 3, 600), (64, 0, usize::MAX - 1), (1000, 0, 1000)] {
        m.case(format!("{} of {}..+{}", n, lo, w));
        let c = m.must("create_challenges", || create_challenges(n, (lo, lo + w)));
        m.check(c.len() == n && c.windows(2).all(|x| x[0] < x[1]) && c.iter().all(|&x| x >= lo && x < lo + w), || format!("malformed list {:?}", &c[..c.len().min(20)]));
        let c2 = m.must("create_challenges", || create_challenges(n, (lo, lo + w)));
        m.check(n == w || c != c2, || "two successive draws are identical".to_string());
        m.distinct(&(lo, w, &c));
    }
    // wide ranges: every bit of the position within the range takes both values
    for k in 1..=62usize {
        for lo in [0usize, 1 << k, 12345] {
            let w = 1usize << k;
            let n = 300.min(w / 2);
            m.case(format!("{} of {}..+2^{}", n, lo, k));
            let reps = if n < 300 { 300 } else { 2 };
            let (mut zeros, mut ones) = (0usize, 0usize);
            for _ in 0..reps {
                let c = m.must("create_challenges", || create_challenges(n, (lo, lo + w)));
                m.check(c.len() == n && c.windows(2).all(|x| x[0] < x[1]) && c.iter().all(|&x| x >= lo && x < lo + w), || format!("malformed list {:?}", &c[..c.len().min(20)]));
                for x in c {
                    ones |= x - lo;
                    zeros |= !(x - lo);
                }
            }
            m.check(ones & zeros & (w - 1) == w - 1, || format!("drawing from 2^{} values, bits {:b} never change", k, !(ones & zeros) & (w - 1)));
            m.count("bits seen to take both values", k as u64);
            m.distinct(&(lo, w));
        }
    }
    // uniform inclusion and independence of neighbours
    for (n, lo, w) in [(1usize, 0usize, 2usize), (1, 3, 16), (1, 0, 64), (3, 0, 10), (10, 0, 16), (10, 100, 64), (8, 0, 256)] {
        m.case(format!("distribution of {} out of {}..{}", n, lo, lo + w));
        let reps = m.amount(60_000, 600_000);
        let mut counts = vec![0u64; w];
        let mut neigh = 0u64;
        for _ in 0..reps {
            let c = m.must("create_challenges", || create_challenges(n, (lo, lo + w)));
            for &x in &c {
                m.check(x >= lo && x < lo + w, || format!("{} outside {}..{}", x, lo, lo + w));
                counts[x - lo] += 1;
            }
            neigh += c.windows(2).filter(|p| p[1] == p[0] + 1).count() as u64;
        }
        m.eval(reps as u64);
        for (i, &c) in counts.iter().enumerate() {
            m.check(c > 0, || format!("index {} never drawn in {} lists of {}", lo + i, reps, n));
        }
        if let Some(e) = far_from_uniform(&counts) {
            m.violate(&format!("{} of {}..{}: inclusion is not uniform: {}", n, lo, lo + w, e));
        }
        if n > 1 {
            // E[neighbouring pairs per list] = (w-1) * n(n-1) / (w(w-1)) = n(n-1)/w; each list contributes at most n-1
            let (n, w) = (n as f64, w as f64);
            let e = n * (n - 1.0) / w * reps as f64;
            let sd = (n - 1.0) * (reps as f64).sqrt();
            m.check((neigh as f64 - e).abs() < 10.0 * sd + 50.0, || format!("{} of {}: neighbouring indices together {} times, {:.0} expected", n, w, neigh, e));
        }
        m.count("lists tallied", reps as u64);
    }
    m.sample(format!("10 of 0..1024: {:?}", create_challenges(10, (0, 1024))));
    m.finish();
}
