//! C21, space part: responding leaves every file alone and is repeatable.
use common::*;
use proof_of_space::mimc::mimc_df::MIMC5_DF_ROUNDS;
use proof_of_space::mimc::mimc_hash::MIMC5_HASH_ROUNDS;
use proof_of_space::proof_of_space::prover::*;
use proof_of_space::proof_of_space::verifier::create_challenges;
use space_mon::*;

fn main() {
    let m = Mon::new("C21", "space", "exploration", "directory snapshots around preparing, marking and responding, responses repeated after other responses; distinct by space and challenge list");
    let mut r = m.rng(7);
    for k in 0..m.amount(60, 600) {
        let s = Scratch::new("c21s");
        std::env::set_current_dir(s.dir()).unwrap();
        let f = s.path("space");
        std::fs::write(s.path("bystander"), r.bytes(500)).unwrap();
        let n = r.range(1, 10);
        let (key, mm) = (fr_mixed(&mut r), fr_mixed(&mut r));
        let cs = frs(&mut r, MIMC5_DF_ROUNDS);
        let hc = frs(&mut r, MIMC5_HASH_ROUNDS);
        m.case(format!("space {} of n={}", k, n));
        let before = snapshot(s.dir());
        m.must("prepare_space", || prepare_space(&f, n).unwrap());
        m.must("mark_space", || {
            let _ = mark_space(&f, key, mm, &cs, n);
        });
        let marked = snapshot(s.dir());
        let d = changes(&before, &marked, &["space"]);
        m.check(d.is_empty(), || format!("marking touched other files: {}", d.join("; ")));
        let lists: Vec<Vec<usize>> = (0..5).map(|_| { let k = r.range(1, 150); create_challenges(k, n) }).collect();
        let mut first = vec![];
        for rep in 0..2 {
            for (j, ch) in lists.iter().enumerate() {
                m.case(format!("space {} of n={}: challenge list {} of {} entries, time {}", k, n, j, ch.len(), rep + 1));
                let a = m.must("response_1", || response_1(&f, ch, key, &hc, n));
                let d = changes(&marked, &snapshot(s.dir()), &[]);
                m.check(d.is_empty(), || format!("responding changed files: {}", d.join("; ")));
                let a = (a.0.iter().map(show).collect::<Vec<_>>(), a.1, show(&a.2));
                if rep == 0 {
                    first.push(a);
                } else {
                    m.check(first[j] == a, || "asked twice, two answers".into());
                }
                m.count("responses watched", 1);
                m.distinct(&(k, ch));
            }
        }
        // a second marking of a marked space with the same parameters keeps it marked the same way
        std::env::set_current_dir("/").unwrap();
    }
    m.sample("5 challenge lists per space, each answered twice, in a watched directory");
    m.finish();
}
