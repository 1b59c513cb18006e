//! C30, space part: operations give back everything they take.
#[path = "../../../common/held.rs"]
mod held;
use ark_bls12_381::Fr;
use common::*;
use held::*;
use proof_of_space::mimc::mimc_df::{mimc5_df, MIMC5_DF_ROUNDS};
use proof_of_space::mimc::mimc_hash::{multi_mimc5_hash, MIMC5_HASH_ROUNDS};
use proof_of_space::proof_of_space::convert::*;
use proof_of_space::proof_of_space::pospace::{prepare_params, N, RESPONSE_COUNT};
use proof_of_space::proof_of_space::prover::*;
use proof_of_space::proof_of_space::verifier::*;
use space_mon::*;

/// A true statement of the deployed size.
fn statement(key: Fr, m: Fr, dc: &[Fr], hc: &[Fr]) -> (Vec<Fr>, Vec<usize>, Vec<usize>, Fr) {
    let (mut xs, mut ch) = (vec![], vec![]);
    let mut x = 0u64;
    while xs.len() < RESPONSE_COUNT {
        let f = Fr::from(x);
        let y = low_bits(&ref_df5(f + key, m, dc), N);
        if !ch.contains(&y) {
            xs.push(f);
            ch.push(y);
        }
        x += 1;
    }
    let h = ref_hash5(&xs, key, hc, MIMC5_HASH_ROUNDS);
    (xs, ch, (0..RESPONSE_COUNT).collect(), h)
}

fn main() {
    held::exact_heap();
    let m = Mon::new("C30", "space", "exploration", "every operation, failing ones included, repeated with changing inputs; open files, threads, files and heap compared before and after; responses with only a few more files allowed; distinct by operation and space");
    m.case_limit(400);
    let mut r = m.rng(30);
    let sc = Scratch::new("c30");
    std::env::set_current_dir(sc.dir()).unwrap();
    std::env::set_var("TMPDIR", sc.dir());
    let dc = frs(&mut r, MIMC5_DF_ROUNDS);
    let hc = frs(&mut r, MIMC5_HASH_ROUNDS);
    let (space, work) = (sc.path("space"), sc.path("work"));
    for n in [3usize, 6, 9] {
        let (key, mm) = (fr(&mut r), fr(&mut r));
        let table = make_table(n, key, mm, &dc);
        std::fs::write(&space, &table).unwrap();
        std::fs::write(&work, &table).unwrap();
        for op in ["prepare_space", "mark_space", "response_1", "create_challenges", "prepare_params", "conversions", "functions", "failing response_1", "failing mark_space", "failing mimc5_df"] {
            let times = if op == "mark_space" { m.amount(3000, 16000) >> n } else { m.amount(300, 2000) };
            let run = |i: usize| match op {
                "prepare_space" => {
                    let _ = prepare_space(&work, n);
                }
                "mark_space" => {
                    let _ = mark_space(&work, key + Fr::from(i as u64), mm, &dc, n);
                }
                "response_1" => {
                    let ch: Vec<usize> = (0..200).map(|j| (i + 7 * j) % (1 << n)).collect();
                    let _ = response_1(&space, &ch, key, &hc, n);
                }
                "create_challenges" => {
                    let _ = create_challenges(1 + i % 60, n);
                }
                "prepare_params" => {
                    let _ = prepare_params();
                }
                "conversions" => {
                    let b = vec![i as u8; 1 + i % 50];
                    let _ = (bits_to_bytes(&bytes_to_bits(&b)), bits_to_usize(&usize_to_bits(i, 20)));
                }
                "functions" => {
                    let y = mimc5_df(Fr::from(i as u64), mm, &dc);
                    let _ = multi_mimc5_hash(&vec![y; 1 + i % 5], key, &hc);
                }
                "failing response_1" => {
                    let _ = response_1(&sc.path("nothing"), &vec![0], key, &hc, n);
                }
                "failing mark_space" => {
                    let _ = mark_space(&sc.path("nothing"), key, mm, &dc, n);
                }
                _ => {
                    let _ = mimc5_df(key, mm, &dc[..3].to_vec());
                }
            };
            watch(m, &format!("{} n={}", op, n), sc.dir(), 12, times, 8, |i| {
                let got = catch(|| run(i));
                if !op.starts_with("failing") {
                    if let Err(e) = got {
                        m.violate(&format!("{} failed: {}", op, e));
                    }
                }
            });
        }
        m.case(format!("response to 3000 challenges with room for 12 open files, n={}", n));
        // empty slots are passed over, so the whole list is read
        std::fs::write(&work, vec![0u8; table_bytes(n)]).unwrap();
        let ch: Vec<usize> = (0..3000).map(|j| j % (1 << n)).collect();
        if let Err(e) = few_files(12, || catch(|| response_1(&work, &ch, key, &hc, n))) {
            m.violate(&format!("failed: {}", e));
        }
        m.count("operations with few files", 1);
    }
    // sessions of the deployed size
    let (key, mm) = (fr(&mut r), fr(&mut r));
    let (xs, ch, idx, h) = statement(key, mm, &dc, &hc);
    let times = m.amount(3, 20);
    watch(m, "a session with a real proof", sc.dir(), 1, times, 65536, |i| {
        let got = catch(|| {
            let params = construct_circuit(&dc, &hc);
            let (pvk, proof) = response_2(params, key, &xs, mm, &dc, &ch, &idx, h, &hc);
            let wrong = if i % 2 == 1 { Fr::from(1u64) } else { Fr::from(0u64) };
            accepts(|| verify(pvk, proof, key, mm, &ch, &idx, h + wrong))
        });
        match got {
            Ok(v) => m.check(v == (i % 2 == 0), || "wrong verdict".into()),
            Err(e) => m.violate(&format!("failed: {}", e)),
        }
    });
    std::env::set_current_dir("/").unwrap();
    m.finish();
}
