//! C10, space part: challenges are well formed and cover all slots.
use common::*;
use proof_of_space::proof_of_space::pospace::{CHALLENGE_COUNT, N};
use proof_of_space::proof_of_space::verifier::create_challenges;
use std::sync::atomic::{AtomicU32, Ordering};

fn main() {
    let m = Mon::new("C10", "space", "exploration", "lists of every count 0..200 for every slot width a space of addressable size can have (0..57), each value range-checked; uniformity over all values of small widths, per bit and per difference of neighbours at the deployed width, every one of its slots drawn at least once; distinct by (count, width, list)");
    // beyond 57 the bits of the space itself cannot be counted in a machine word
    for end in 0..=57usize {
        for n in (0..=24).chain([50, 99, 100, 101, 200]) {
            m.case(format!("{} challenges of {} bits", n, end));
            let c = m.must("create_challenges", || create_challenges(n, end));
            m.check(c.len() == n, || format!("{} challenges of {} bits asked for, {} returned", n, end, c.len()));
            for &v in &c {
                m.check((v as u128) < 1u128 << end, || format!("challenge {} is outside {} bits", v, end));
            }
            m.count("values range-checked", n as u64);
            m.distinct(&(n, end, &c));
            if end >= 32 && n >= 2 {
                let mut d = c.clone();
                d.sort();
                d.dedup();
                m.check(d.len() + 2 >= c.len(), || format!("{} challenges of {} bits collide: {:?}", n, end, &c[..n.min(10)]));
            }
            if n >= 200 {
                for b in 0..end {
                    let ones = c.iter().filter(|&&v| v >> b & 1 == 1).count();
                    m.check(ones > 0 && ones < n, || format!("bit {} of {} is {} in all of {} challenges", b, end, if ones == 0 { 0 } else { 1 }, n));
                    m.count("bits seen to take both values", 1);
                }
            }
            if end >= 20 && n >= 24 {
                let c2 = m.must("create_challenges", || create_challenges(n, end));
                m.check(c != c2, || "two successive draws are identical".to_string());
                m.count("successive draws compared", 1);
            }
        }
    }
    // uniform over small widths, also across list sizes
    for end in 1..=10usize {
        m.case(format!("distribution over {} bits", end));
        let mut counts = vec![0u64; 1 << end];
        let total = 400 << end;
        let mut drawn = 0;
        let mut k = 0;
        while drawn < total {
            let n = [1usize, 7, 100, 333][k % 4].min(total - drawn);
            k += 1;
            for v in m.must("create_challenges", || create_challenges(n, end)) {
                counts[v] += 1;
            }
            drawn += n;
        }
        for (v, &c) in counts.iter().enumerate() {
            m.check(c > 0, || format!("value {} of {} bits never drawn in {}", v, end, total));
        }
        if let Some(e) = far_from_uniform(&counts) {
            m.violate(&format!("{}-bit challenges are not uniform: {}", end, e));
        }
        m.count("values tallied", total as u64);
    }
    // deployed width: every slot, each bit, neighbouring challenges
    m.case(format!("coverage of all 2^{} slots", N));
    let hit: Vec<AtomicU32> = (0..1usize << N).map(|_| AtomicU32::new(0)).collect();
    let bits: Vec<AtomicU32> = (0..N).map(|_| AtomicU32::new(0)).collect();
    let diffs: Vec<AtomicU32> = (0..256).map(|_| AtomicU32::new(0)).collect();
    let lists = (40usize << N) / CHALLENGE_COUNT / 8 + 1;
    parallel(8 * 16, threads(), |_| {
        for _ in 0..lists / 16 + 1 {
            let c = m.must("create_challenges", || create_challenges(CHALLENGE_COUNT, N));
            for (i, &v) in c.iter().enumerate() {
                if v >= 1 << N {
                    m.violate(&format!("challenge {} outside the space", v));
                }
                hit[v].fetch_add(1, Ordering::Relaxed);
                if i % 16 == 0 {
                    for b in 0..N {
                        if v >> b & 1 == 1 {
                            bits[b].fetch_add(1, Ordering::Relaxed);
                        }
                    }
                }
                if i % 16 == 1 {
                    let d = v.wrapping_sub(c[i - 1]) & ((1 << N) - 1);
                    diffs[d >> (N - 8)].fetch_add(1, Ordering::Relaxed);
                }
            }
        }
    });
    let total: u64 = hit.iter().map(|x| x.load(Ordering::Relaxed) as u64).sum();
    m.eval(total);
    m.count("values tallied at the deployed width", total);
    for (v, c) in hit.iter().enumerate() {
        m.check(c.load(Ordering::Relaxed) > 0, || format!("slot {} never challenged in {} draws", v, total));
    }
    let hc: Vec<u64> = hit.iter().map(|x| x.load(Ordering::Relaxed) as u64).collect();
    if let Some(e) = far_from_uniform(&hc) {
        m.violate(&format!("challenges at the deployed width are not uniform: {}", e));
    }
    let per_list = (CHALLENGE_COUNT + 15) / 16;
    let nb = (total / CHALLENGE_COUNT as u64) * per_list as u64;
    for b in 0..N {
        let one = bits[b].load(Ordering::Relaxed) as u64;
        if let Some(e) = far_from_uniform(&[nb - one, one]) {
            m.violate(&format!("bit {} of the challenges is biased: {}", b, e));
        }
    }
    let dc: Vec<u64> = diffs.iter().map(|x| x.load(Ordering::Relaxed) as u64).collect();
    if let Some(e) = far_from_uniform(&dc) {
        m.violate(&format!("successive challenges are related: {}", e));
    }
    m.sample(format!("10 challenges of {} bits: {:?}", N, create_challenges(10, N)));
    m.assume("the draws use the operating system's generator and are not reproducible from the seed; bounds are chosen so that a fair generator fails with probability far below 1e-12");
    m.finish();
}
