//! C01: the marked space is exactly the delay function's preimage table.
use ark_bls12_381::Fr;
use common::*;
use proof_of_space::mimc::mimc_df::MIMC5_DF_ROUNDS;
use proof_of_space::proof_of_space::pospace::N;
use proof_of_space::proof_of_space::prover::{mark_space, prepare_space};
use space_mon::*;

fn check_table(m: &Mon, buf: &[u8], n: usize, key: Fr, mm: Fr, cs: &[Fr], what: &str) {
    m.check(buf.len() == table_bytes(n), || format!("{}: marked file is {} bytes, claimed {}", what, buf.len(), table_bytes(n)));
    let img = images(n, key, mm, cs);
    let mut pre: Vec<Vec<u32>> = vec![vec![]; 1 << n];
    for (x, &s) in img.iter().enumerate() {
        pre[s as usize].push(x as u32);
    }
    let mut filled = 0u64;
    for s in 0..1usize << n {
        let (x, flag) = get_slot(buf, n, s);
        if pre[s].is_empty() {
            m.check(!flag && x == 0, || format!("{}: slot {} has no preimage but holds x={} flag={}", what, s, x, flag));
        } else {
            m.check(flag, || format!("{}: slot {} has preimages {:?} but its flag is not set", what, s, pre[s]));
            m.check(pre[s].contains(&(x as u32)), || format!("{}: slot {} holds x={}, preimages are {:?}", what, s, x, pre[s]));
            filled += 1;
            if pre[s].len() > 1 {
                m.count("slots with several preimages", 1);
            }
        }
    }
    for i in (n + 1) << n..buf.len() * 8 {
        m.check(!get_bit(buf, i), || format!("{}: bit {} after the last slot is set", what, i));
    }
    m.count("slots checked", 1 << n);
    m.count("filled slots", filled);
    m.count("empty slots", (1u64 << n) - filled);
}

fn main() {
    let m = Mon::new("C01", "", "exploration", "prepare and mark spaces of every n with seeded key, seed and constants over absent, shorter, longer and garbage files; every slot decoded and compared with an independently computed preimage table; a case is distinct by (n, key, m, earlier content), non-trivial when the table has both filled and empty slots or n<2");
    let sc = Scratch::new("c01");
    let rounds = m.amount(16, 60);
    let top = m.amount(12, 15);
    let mut r = m.rng(1);
    let mut seen_n = vec![];
    for round in 0..rounds {
        for n in 0..=top {
            if round > 1 && n > m.amount(10, 12) {
                continue;
            }
            let key = fr_mixed(&mut r);
            let mm = fr_mixed(&mut r);
            let cs: Vec<Fr> = if r.one_in(8) { vec![Fr::from(0u64); MIMC5_DF_ROUNDS] } else { frs(&mut r, MIMC5_DF_ROUNDS) };
            let path = sc.path("space");
            let _ = std::fs::remove_file(&path);
            let before = match r.below(4) {
                0 => "absent",
                1 => {
                    let k = r.below(table_bytes(n) + 1);
                    std::fs::write(&path, r.bytes(k)).unwrap();
                    "shorter garbage"
                }
                2 => {
                    let k = table_bytes(n) + r.range(1, 64);
                    std::fs::write(&path, r.bytes(k)).unwrap();
                    "longer garbage"
                }
                _ => {
                    std::fs::write(&path, vec![0xffu8; table_bytes(n)]).unwrap();
                    "all ones"
                }
            };
            let what = format!("n={} key={} m={} earlier={}", n, show(&key), show(&mm), before);
            m.case(what.clone());
            m.must("prepare_space", || prepare_space(&path, n).unwrap());
            let b = std::fs::read(&path).unwrap();
            m.check(b.len() == table_bytes(n), || format!("{}: prepared file is {} bytes, claimed {}", what, b.len(), table_bytes(n)));
            m.check(b.iter().all(|&x| x == 0), || format!("{}: prepared file is not zero", what));
            m.must("mark_space", || {
                let _ = mark_space(&path, key, mm, &cs, n);
            });
            let buf = std::fs::read(&path).unwrap();
            check_table(m, &buf, n, key, mm, &cs, &what);
            m.distinct(&what);
            if !seen_n.contains(&n) {
                seen_n.push(n);
            }
            if r.one_in(3) {
                // marking again with the same parameters keeps a correct table
                m.case(format!("{} marked twice", what));
                m.must("mark_space", || {
                    let _ = mark_space(&path, key, mm, &cs, n);
                });
                check_table(m, &std::fs::read(&path).unwrap(), n, key, mm, &cs, &what);
            }
            if r.one_in(3) {
                // re-preparing clears an earlier session's marks
                let key2 = fr(&mut r);
                m.case(format!("{} then re-prepared for another key", what));
                m.must("prepare_space", || prepare_space(&path, n).unwrap());
                m.must("mark_space", || {
                    let _ = mark_space(&path, key2, mm, &cs, n);
                });
                check_table(m, &std::fs::read(&path).unwrap(), n, key2, mm, &cs, &what);
            }
            if m.counter("sampled") < 4 && n == 3 {
                m.count("sampled", 1);
                let slots: Vec<_> = (0..8).map(|s| get_slot(&buf, n, s)).collect();
                m.sample(format!("{} -> slots (x,flag) {:?}", what, slots));
            }
        }
    }
    // one space larger than a page cache line of slots, and the deployed size in depth
    let big: Vec<usize> = if m.thorough() { vec![13, 14, 15, 16, 17, 18, 19, N, N] } else { vec![15, N] };
    for n in big {
        let key = fr(&mut r);
        let mm = fr(&mut r);
        let cs = frs(&mut r, MIMC5_DF_ROUNDS);
        let path = sc.path("big");
        let what = format!("n={} key={}", n, show(&key));
        m.case(what.clone());
        m.must("prepare_space", || prepare_space(&path, n).unwrap());
        m.must("mark_space", || {
            let _ = mark_space(&path, key, mm, &cs, n);
        });
        check_table(m, &std::fs::read(&path).unwrap(), n, key, mm, &cs, &what);
        m.distinct(&what);
        seen_n.push(n);
    }
    m.count("distinct n", seen_n.len() as u64);
    drop(sc);
    m.finish();
}
