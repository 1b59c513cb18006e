//! C23 workload for the space crate: built with AddressSanitizer, whose report
//! is the verdict, and run under memcheck.
use ark_bls12_381::Fr;
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystem};
use common::*;
use proof_of_space::circuit::pospace_circuit::PospaceDemo;
use proof_of_space::mimc::{mimc_df::MIMC5_DF_ROUNDS, mimc_hash::MIMC5_HASH_ROUNDS};
use proof_of_space::proof_of_space::{pospace::{prepare_params, N}, prover::*, verifier::*};
use space_mon::*;

fn main() {
    let part = std::env::var("VERIF_PART").unwrap_or_else(|_| "plain".into());
    let m = Mon::new("C23", &part, "exploration", "space preparation, marking, responding and proving, all of them in several threads at once, and helpers and responses with ill-formed arguments, under AddressSanitizer, ThreadSanitizer and valgrind's memcheck; distinct by size and file content");
    m.case_limit(300);
    let mut r = m.rng(23);
    let dc = frs(&mut r, MIMC5_DF_ROUNDS);
    let hc = frs(&mut r, MIMC5_HASH_ROUNDS);
    let s = Scratch::new("c23");
    let memcheck = part == "memcheck-space";
    let tsan = part == "tsan-space";
    for n in 1..=if memcheck { m.amount(5, 8) } else { m.amount(10, 14) } {
        let path = s.path(&format!("t{}", n));
        let (key, mm) = (fr(&mut r), fr(&mut r));
        m.case(format!("space of parameter {}", n));
        let v = catch(|| {
            let _ = prepare_space(&path, n);
            let _ = mark_space(&path, key, mm, &dc, n);
            let ch: Vec<usize> = (0..200).map(|_| r.below(1 << n)).collect();
            let _ = response_1(&path, &ch, key, &hc, n);
            let _ = create_challenges(50, n);
        });
        m.count(if v.is_ok() { "calls that returned" } else { "calls that panicked (judged elsewhere)" }, 1);
        m.distinct(&n);
    }
    // ill-formed arguments: refused or answered, judged elsewhere
    for i in 0..if memcheck { m.amount(60, 600) } else { m.amount(600, 10_000) } {
        use proof_of_space::mimc::{mimc_df::*, mimc_hash::*};
        use proof_of_space::proof_of_space::convert::*;
        m.case(format!("ill-formed arguments, round {}", i));
        let mut calls = 0u64;
        let mut call = |f: &mut dyn FnMut()| {
            let _ = catch(|| f());
            calls += 1;
        };
        let bits: Vec<bool> = (0..r.below(200)).map(|_| r.coin()).collect();
        let k = r.below(40);
        let bytes = r.bytes(k);
        let (v, w) = (r.u64() as usize >> r.below(64), r.below(80));
        call(&mut || { std::hint::black_box(bytes_to_bits(&bytes)); });
        call(&mut || { std::hint::black_box(bits_to_bytes(&bits)); });
        call(&mut || { std::hint::black_box(bits_to_usize(&bits)); });
        call(&mut || { std::hint::black_box(usize_to_bits(v, w)); });
        let (a, b) = (fr(&mut r), fr(&mut r));
        let few = frs(&mut r, i % 7);
        let msg = frs(&mut r, i % 5);
        call(&mut || { std::hint::black_box(mimc3_df(a, b, &few)); });
        call(&mut || { std::hint::black_box(mimc5_df(a, b, &few)); });
        call(&mut || { std::hint::black_box(mimc7_hash(a, b, &few)); });
        call(&mut || { std::hint::black_box(multi_mimc7_hash(&msg, b, &few)); });
        call(&mut || { std::hint::black_box(multi_mimc5_hash(&msg, b, &few)); });
        call(&mut || { std::hint::black_box(multi_mimc5_hash(&msg, b, &hc)); });
        // a space of the wrong length, challenges outside of it
        let n = r.range(1, 9);
        let path = s.path("odd");
        let len = r.below(((1usize << n) * n + 7) / 8 + 20);
        std::fs::write(&path, r.bytes(len)).unwrap();
        let ch: Vec<usize> = (0..r.below(20)).map(|_| r.below(2 << n)).collect();
        call(&mut || { std::hint::black_box(response_1(&path, &ch, a, &hc, n)); });
        let few_dc: Vec<Fr> = dc[..r.below(4)].to_vec();
        call(&mut || { std::hint::black_box(mark_space(&path, a, b, &few_dc, n)); });
        let (cn, ce) = (r.below(5), r.range(1, 62));
        call(&mut || { std::hint::black_box(create_challenges(cn, ce)); });
        m.count("calls with ill-formed arguments", calls);
        m.distinct(&("hostile", i));
    }
    // everything at once on different spaces and on the same one
    m.case("marking, responding, hashing and synthesis at the same time");
    let shared = s.path("shared");
    let (key, mm) = (fr(&mut r), fr(&mut r));
    let n0 = 5;
    std::fs::write(&shared, make_table(n0, key, mm, &dc)).unwrap();
    for round in 0..if memcheck { 1 } else { m.amount(6, 60) } {
        let seeds: Vec<Rng> = (0..6).map(|k| Rng::new(r.u64(), k)).collect();
        std::thread::scope(|sc| {
            for (k, mut q) in seeds.into_iter().enumerate() {
                let (s, dc, hc, shared) = (&s, &dc, &hc, &shared);
                sc.spawn(move || {
                    let v = catch(|| {
                        let path = s.path(&format!("c{}-{}", round, k));
                        let _ = prepare_space(&path, 4 + k % 3);
                        let _ = mark_space(&path, fr(&mut q), fr(&mut q), dc, 4 + k % 3);
                        let ch: Vec<usize> = (0..100).map(|_| q.below(1 << n0)).collect();
                        let (xs, _, h) = response_1(shared, &ch, key, hc, n0);
                        let _ = create_challenges(20, 20);
                        let _ = prepare_params();
                        let x = xs.first().copied().unwrap_or(fr(&mut q));
                        let cs = ConstraintSystem::<Fr>::new_ref();
                        let yn = low_fr(&ref_df5(x + key, mm, dc), N);
                        let _ = PospaceDemo { key: Some(key), x: &[Some(x)], m: Some(mm), df_constants: dc, yn: &[Some(yn)], x_hash: Some(h), hash_constants: hc }.generate_constraints(cs.clone());
                        std::hint::black_box(cs.is_satisfied().is_ok());
                    });
                    m.count(if v.is_ok() { "calls that returned" } else { "calls that panicked (judged elsewhere)" }, 1);
                });
            }
        });
        m.count("threads marking and responding at the same time", 6);
        m.distinct(&("mixed", round));
    }
    if memcheck && !m.thorough() || tsan {
        m.sample(format!("last case ended at {:.1} s", m.elapsed()));
        m.finish();
    }
    m.case("prove and verify");
    let v = catch(|| {
        let p = construct_circuit(&dc, &hc);
        let (key, mm) = (fr(&mut r), fr(&mut r));
        let path = s.path("full");
        std::fs::write(&path, make_table(N, key, mm, &dc)).unwrap();
        let ch: Vec<usize> = (0..160).map(|_| r.below(1 << N)).collect();
        let (xs, idx, h): (Vec<Fr>, Vec<usize>, Fr) = response_1(&path, &ch, key, &hc, N);
        let (pvk, proof) = response_2(p, key, &xs, mm, &dc, &ch, &idx, h, &hc);
        accepts(|| verify(pvk, proof, key, mm, &ch, &idx, h))
    });
    m.count(if v == Ok(true) { "proofs made and accepted" } else { "proofs not made or not accepted (judged elsewhere)" }, 1);
    m.distinct("proof");
    m.sample(format!("last case ended at {:.1} s", m.elapsed()));
    m.finish();
}
