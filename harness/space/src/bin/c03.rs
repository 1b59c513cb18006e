//! C03: an honest space prover is always accepted.
use ark_bls12_381::Fr;
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystem};
use common::*;
use proof_of_space::circuit::pospace_circuit::PospaceDemo;
use proof_of_space::mimc::mimc_df::MIMC5_DF_ROUNDS;
use proof_of_space::mimc::mimc_hash::MIMC5_HASH_ROUNDS;
use proof_of_space::proof_of_space::pospace::{pospace, prepare_params, CHALLENGE_COUNT, N, RESPONSE_COUNT};
use proof_of_space::proof_of_space::prover::{construct_circuit, response_1, response_2};
use proof_of_space::proof_of_space::verifier::{create_challenges, verify};
use space_mon::*;

/// a challenge list of the given kind with at least the required answerable entries
fn challenges(r: &mut Rng, kind: usize, img: &[u32]) -> (Vec<usize>, &'static str) {
    let slots = 1usize << N;
    let mut has = vec![false; slots];
    for &s in img {
        has[s as usize] = true;
    }
    let filled: Vec<usize> = (0..slots).filter(|&s| has[s]).collect();
    let empty: Vec<usize> = (0..slots).filter(|&s| !has[s]).collect();
    match kind {
        0 => {
            let mut c = create_challenges(CHALLENGE_COUNT, N);
            while c.iter().filter(|&&s| s < slots && has[s]).count() < RESPONSE_COUNT {
                c.extend(create_challenges(10, N));
            }
            (c, "as drawn by the verifier")
        }
        1 => {
            let s = *r.pick(&filled);
            (vec![s; RESPONSE_COUNT + 3], "one slot challenged again and again")
        }
        2 => {
            let mut c: Vec<usize> = filled[..RESPONSE_COUNT / 2].to_vec();
            c.extend(&filled[filled.len() - RESPONSE_COUNT + RESPONSE_COUNT / 2..]);
            (c, "lowest and highest filled slots")
        }
        3 => {
            let mut c: Vec<usize> = (0..120).map(|_| *r.pick(&empty)).collect();
            c.extend((0..RESPONSE_COUNT).map(|_| *r.pick(&filled)));
            (c, "exactly enough answerable, all at the end")
        }
        4 => {
            let mut c = vec![img[0] as usize, img[1] as usize, img[slots - 1] as usize, img[slots / 2] as usize, img[slots / 2 - 1] as usize];
            while c.len() < RESPONSE_COUNT {
                c.push(img[1 << r.below(N)] as usize);
            }
            (c, "slots of border x values")
        }
        _ => {
            let mut c: Vec<usize> = (0..3 * RESPONSE_COUNT).map(|_| if r.coin() { *r.pick(&filled) } else { *r.pick(&empty) }).collect();
            c.extend((0..RESPONSE_COUNT).map(|_| *r.pick(&filled)));
            (c, "filled and empty slots mixed")
        }
    }
}

fn main() {
    let m = Mon::new("C03", "", "exploration", "full sessions at the deployed size: table, first response, real proof, real verdict, over seeded and edge keys, seeds, constants and six kinds of challenge lists, plus the repository's own driver; and honest statements of every size at constraint level, steering the image y to border values by inverting the network; distinct by (key, m, constants, list), non-trivial: every session answers the full number of challenges");
    let mut r = m.rng(3);
    let e = edges();

    // honest statements at constraint level
    let cases = m.amount(600, 6000);
    parallel(cases, threads(), |i| {
        let mut r = m.rng(3000 + i as u64);
        let dc: Vec<Fr> = if i % 7 == 0 { vec![Fr::from(0u64); MIMC5_DF_ROUNDS] } else { (0..MIMC5_DF_ROUNDS).map(|_| fr_mixed(&mut r)).collect() };
        let hc: Vec<Fr> = (0..MIMC5_HASH_ROUNDS).map(|_| fr_mixed(&mut r)).collect();
        let (key, mm, x0);
        x0 = Fr::from(*r.pick(&[0u64, 1, (1 << N) - 1, 12345]));
        if i % 2 == 0 {
            let y = if i % 4 == 0 { e[(i / 4) % e.len()] } else { fr(&mut r) };
            let (l, rr) = ref_df5_inverse(y, fr_mixed(&mut r), &dc);
            key = l - x0;
            mm = rr;
        } else {
            key = fr_mixed(&mut r);
            mm = fr_mixed(&mut r);
        }
        let k = if i % 50 == 0 { RESPONSE_COUNT } else { r.range(1, 4) };
        let xs: Vec<Fr> = (0..k).map(|j| if j == 0 { x0 } else { Fr::from(r.below(1 << N) as u64) }).collect();
        let yn: Vec<Fr> = xs.iter().map(|x| low_fr(&ref_df5(*x + key, mm, &dc), N)).collect();
        let h = ref_hash5(&xs, key, &hc, MIMC5_HASH_ROUNDS);
        let desc = format!("constraints {}: key={} m={} x0={} y0={} responses={}", i, show(&key), show(&mm), show(&x0), show(&ref_df5(x0 + key, mm, &dc)), k);
        m.case(desc.clone());
        let ox: Vec<Option<Fr>> = xs.iter().map(|x| Some(*x)).collect();
        let oy: Vec<Option<Fr>> = yn.iter().map(|x| Some(*x)).collect();
        let cs = ConstraintSystem::<Fr>::new_ref();
        m.must("synthesis", || PospaceDemo { key: Some(key), x: &ox, m: Some(mm), df_constants: &dc, yn: &oy, x_hash: Some(h), hash_constants: &hc }.generate_constraints(cs.clone()).unwrap());
        m.check(cs.is_satisfied().unwrap(), || format!("{}: honest witness does not satisfy {:?}", desc, cs.which_is_unsatisfied()));
        let inst = cs.borrow().unwrap().instance_assignment.clone();
        let mut want = vec![Fr::from(1u64), key, mm];
        want.extend(&yn);
        want.push(h);
        m.check(inst == want, || format!("{}: public values differ from the statement the verifier checks", desc));
        m.count("honest statements satisfied", 1);
        m.count("answers in honest statements", k as u64);
        m.distinct(&desc);
    });

    // full sessions
    let sets: Vec<(Vec<Fr>, Vec<Fr>)> = vec![
        (frs(&mut r, MIMC5_DF_ROUNDS), frs(&mut r, MIMC5_HASH_ROUNDS)),
        ((0..MIMC5_DF_ROUNDS).map(|_| fr_mixed(&mut r)).collect(), (0..MIMC5_HASH_ROUNDS).map(|_| fr_mixed(&mut r)).collect()),
    ];
    m.case("circuit parameters");
    let params: Vec<_> = std::thread::scope(|s| {
        let hs: Vec<_> = sets.iter().map(|(dc, hc)| s.spawn(move || m.must("construct_circuit", || construct_circuit(dc, hc)))).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let sc = Scratch::new("c03");
    let n_sessions = m.amount(15, 120);
    let driver_runs = m.amount(1, 4);
    parallel(n_sessions + driver_runs, threads(), |job| {
        if job < driver_runs {
            // the repository's own driver; it fails honestly when fewer than the
            // required number of its drawn challenges are answerable (about 1 in
            // 400 runs), so three independent tries have to fail before it counts
            let mut last = String::new();
            for attempt in 0..3 {
                let path = sc.path(&format!("driver{}", job));
                let mut out = std::fs::OpenOptions::new().create(true).append(true).read(true).open(sc.path(&format!("result{}", job))).unwrap();
                m.case(format!("driver run {} attempt {}", job, attempt));
                let (dc, hc, key, mm) = m.must("prepare_params", prepare_params);
                match catch(|| pospace(&path, dc, hc, key, mm, &mut out)) {
                    Ok(_) => {
                        m.count("driver runs accepted", 1);
                        m.distinct(&show(&key));
                        return;
                    }
                    Err(e) => last = e,
                }
            }
            m.violate(&format!("the end-to-end driver failed three times in a row: {}", last));
        }
        let k = job - driver_runs;
        let mut r = m.rng(300 + k as u64);
        let (dc, hc) = &sets[k % sets.len()];
        let key = if k % 3 == 0 { fr_mixed(&mut r) } else { fr(&mut r) };
        let mm = if k % 3 == 1 { fr_mixed(&mut r) } else { fr(&mut r) };
        let img = images(N, key, mm, dc);
        let mut tab = vec![0u8; table_bytes(N)];
        for (x, &s) in img.iter().enumerate() {
            put_slot(&mut tab, N, s as usize, x, true);
        }
        // any preimage of a slot will do: border values win here
        for x in (0..N).map(|i| 1usize << i).chain([(1 << N) - 1, (1 << (N - 1)) - 1, 0]) {
            put_slot(&mut tab, N, img[x] as usize, x, true);
        }
        let path = sc.path(&format!("space{}", k));
        std::fs::write(&path, &tab).unwrap();
        let (ch, kind) = challenges(&mut r, k % 6, &img);
        let desc = format!("session {}: key={} m={} challenges {}", k, show(&key), show(&mm), kind);
        m.case(desc.clone());
        let (x, idx, h) = m.must("response_1", || response_1(&path, &ch, key, hc, N));
        let _ = std::fs::remove_file(&path);
        m.check(idx.len() == RESPONSE_COUNT, || format!("{}: only {} answers", desc, idx.len()));
        let (pvk, proof) = m.must("response_2", || response_2(params[k % sets.len()].clone(), key, &x, mm, dc, &ch, &idx, h, hc));
        if let Err(e) = catch(|| verify(pvk, proof, key, mm, &ch, &idx, h).accepted()).and_then(|a| if a { Ok(()) } else { Err("rejected".into()) }) {
            m.violate(&format!("{}: honest proof rejected: {}", desc, e));
        }
        m.count("honest proofs accepted", 1);
        m.count("answers proved", idx.len() as u64);
        m.distinct(&desc);
        m.sample(format!("{} -> first answered indices {:?}, digest {}", desc, &idx[..5.min(idx.len())], show(&h)));
    });
    drop(sc);
    m.finish();
}
