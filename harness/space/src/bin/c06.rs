//! C06: delay functions and hashes compute their MiMC definition.
use ark_bls12_381::Fr;
use common::*;
use num_bigint::BigUint;
use proof_of_space::mimc::mimc_df::{mimc3_df, mimc5_df, MIMC3_DF_ROUNDS, MIMC5_DF_ROUNDS};
use proof_of_space::mimc::mimc_hash::*;
use space_mon::*;

fn bigs(v: &[Fr]) -> Vec<BigUint> {
    v.iter().map(to_big).collect()
}

fn main() {
    let m = Mon::new("C06", "", "exploration", "every function on the product of edge field elements and on seeded random inputs, keys, constants and message lengths, compared with a big-integer implementation of the definition; distinct by function and inputs, non-trivial when not all inputs are zero");
    let p = modulus();
    let mut r = m.rng(6);
    let e = edges();
    let mut jobs: Vec<(Fr, Fr)> = vec![];
    for a in &e {
        for b in &e {
            jobs.push((*a, *b));
        }
    }
    for _ in 0..m.amount(160000, 400000) {
        jobs.push((fr_mixed(&mut r), fr_mixed(&mut r)));
    }
    // the round counts are part of the definition a prover and a verifier share
    m.check(MIMC3_DF_ROUNDS == 322, || format!("exponent-3 delay function has {} rounds, 322 expected", MIMC3_DF_ROUNDS));
    m.check(MIMC5_DF_ROUNDS >= 10, || format!("exponent-5 delay function has {} rounds", MIMC5_DF_ROUNDS));
    m.check(MIMC5_HASH_ROUNDS >= 10, || format!("exponent-5 hash has {} rounds", MIMC5_HASH_ROUNDS));
    m.check(MIMC7_HASH_ROUNDS >= 91, || format!("exponent-7 hash has {} rounds", MIMC7_HASH_ROUNDS));
    let c_all: Vec<(Vec<Fr>, Vec<Fr>, Vec<Fr>, Vec<Fr>)> = (0..12)
        .map(|i| {
            let mut f = |n: usize| -> Vec<Fr> {
                match i {
                    0 => vec![Fr::from(0u64); n],
                    1 => vec![-Fr::from(1u64); n],
                    2 => (0..n).map(|_| fr_mixed(&mut r)).collect(),
                    _ => frs(&mut r, n),
                }
            };
            (f(MIMC3_DF_ROUNDS), f(MIMC5_DF_ROUNDS), f(MIMC5_HASH_ROUNDS), f(MIMC7_HASH_ROUNDS))
        })
        .collect();
    parallel(jobs.len(), threads(), |i| {
        let (a, b) = jobs[i];
        let (c3, c5, h5, h7) = &c_all[i % c_all.len()];
        let (ba, bb) = (to_big(&a), to_big(&b));
        m.case(format!("pair {} a={} b={}", i, show(&a), show(&b)));
        let cmp = |name: &str, got: Fr, want: BigUint| {
            m.check(to_big(&got) == want, || format!("{} of ({}, {}) with constants #{}: got {} expected {}", name, show(&a), show(&b), i % c_all.len(), show(&got), want.to_str_radix(16)));
            m.count(name, 1);
            m.distinct(&(name, to_big(&a).to_bytes_le(), to_big(&b).to_bytes_le(), i % c_all.len()));
            m.eval(1);
        };
        cmp("delay function, exponent 5", m.must("mimc5_df", || mimc5_df(a, b, c5)), big_feistel(&ba, &bb, &bigs(c5), 5, &p));
        cmp("hash, exponent 5", m.must("mimc5_hash", || mimc5_hash(a, b, h5)), big_mimc(&ba, &bb, &bigs(h5), MIMC5_HASH_ROUNDS, 5, &p));
        if i % 4 == 0 {
            cmp("delay function, exponent 3", m.must("mimc3_df", || mimc3_df(a, b, c3)), big_feistel(&ba, &bb, &bigs(c3), 3, &p));
            cmp("hash, exponent 7", m.must("mimc7_hash", || mimc7_hash(a, b, h7)), big_mimc(&ba, &bb, &bigs(h7), MIMC7_HASH_ROUNDS, 7, &p));
        }
    });
    // chained hashes, every short length and some long ones
    let lens: Vec<usize> = (0..=20).chain([31, 32, 33, 49, 50, 51, 64, 100, 128, 255, 256, 300]).collect();
    let reps = m.amount(160, 400);
    // lengths beyond any plausible limit, a few times each
    let long = [400usize, 512, 513, 1000, 1024, 1025, 2049, 4097];
    parallel(lens.len() * reps + 2 * long.len(), threads(), |k| {
        // the long ones first, so that no thread ends up with them alone
        let (i, len) = if k < 2 * long.len() { (lens.len() * reps + k, long[k / 2]) } else { (k - 2 * long.len(), lens[(k - 2 * long.len()) % lens.len()]) };
        let mut r = m.rng(600 + i as u64);
        let mut xs: Vec<Fr> = (0..len).map(|_| fr_mixed(&mut r)).collect();
        if r.one_in(5) && len > 1 {
            let v = xs[0];
            xs = vec![v; len];
        }
        let key = fr_mixed(&mut r);
        let (_, _, h5, h7) = &c_all[i % c_all.len()];
        m.case(format!("message of {} key={}", len, show(&key)));
        let g5 = m.must("multi_mimc5_hash", || multi_mimc5_hash(&xs, key, h5));
        let w5 = big_multi(&bigs(&xs), &to_big(&key), &bigs(h5), MIMC5_HASH_ROUNDS, 5, &p);
        m.check(to_big(&g5) == w5, || format!("chained exponent-5 hash of {} elements: got {} expected {}", len, show(&g5), w5.to_str_radix(16)));
        if len <= 64 || (len > 300 && len <= 1025) {
            let g7 = m.must("multi_mimc7_hash", || multi_mimc7_hash(&xs, key, h7));
            let w7 = big_multi(&bigs(&xs), &to_big(&key), &bigs(h7), MIMC7_HASH_ROUNDS, 7, &p);
            m.check(to_big(&g7) == w7, || format!("chained exponent-7 hash of {} elements: got {} expected {}", len, show(&g7), w7.to_str_radix(16)));
            m.eval(1);
        }
        m.count("chained messages", 1);
        m.distinct(&("chain", i));
        if i < 2 {
            m.sample(format!("chained exponent-5 hash of {} elements under key {} = {}", len, show(&key), show(&g5)));
        }
    });
    // wrong constant lists are refused
    let (a, b) = (fr(&mut r), fr(&mut r));
    for n in [0usize, 1, MIMC5_DF_ROUNDS - 1, MIMC5_DF_ROUNDS + 1, 2 * MIMC5_DF_ROUNDS] {
        let c = frs(&mut r, n);
        m.case(format!("delay function 5 with {} constants", n));
        m.check(catch(|| mimc5_df(a, b, &c)).is_err(), || format!("exponent-5 delay function accepted {} constants", n));
        m.count("wrong constant lists refused", 1);
    }
    for n in [0usize, 1, MIMC3_DF_ROUNDS - 1, MIMC3_DF_ROUNDS + 1] {
        let c = frs(&mut r, n);
        m.case(format!("delay function 3 with {} constants", n));
        m.check(catch(|| mimc3_df(a, b, &c)).is_err(), || format!("exponent-3 delay function accepted {} constants", n));
        m.count("wrong constant lists refused", 1);
    }
    m.finish();
}
