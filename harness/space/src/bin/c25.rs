//! C25, space part: parameters, challenges and proofs are fresh and random.
use ark_bls12_381::Fr;
use ark_ff::{BigInteger, PrimeField};
use common::*;
use proof_of_space::mimc::mimc_df::MIMC5_DF_ROUNDS;
use proof_of_space::mimc::mimc_hash::MIMC5_HASH_ROUNDS;
use proof_of_space::proof_of_space::pospace::{prepare_params, N, RESPONSE_COUNT};
use proof_of_space::proof_of_space::prover::{construct_circuit, response_2};
use proof_of_space::proof_of_space::verifier::{create_challenges, verify};
use space_mon::*;
use std::collections::HashMap;
use std::sync::Mutex;

const CH: usize = 24;

fn le(x: &Fr) -> Vec<u8> {
    x.into_repr().to_bytes_le()
}

fn elements(p: &(Vec<Fr>, Vec<Fr>, Fr, Fr)) -> Vec<Fr> {
    let mut v = p.0.clone();
    v.extend(&p.1);
    v.push(p.2);
    v.push(p.3);
    v
}

fn flat(c: &[usize]) -> Vec<u8> {
    c.iter().flat_map(|x| x.to_le_bytes()).collect()
}

fn toy() -> (Vec<Fr>, Vec<Fr>) {
    let mut r = Rng::new(77, 25);
    (frs(&mut r, MIMC5_DF_ROUNDS), frs(&mut r, MIMC5_HASH_ROUNDS))
}

fn child(job: &str) {
    if job == "circuit" {
        let (dc, hc) = toy();
        let p = construct_circuit(&dc, &hc);
        println!("CHILD alpha {:?}", p.vk.alpha_g1);
        println!("CHILD beta {:?}", p.vk.beta_g2);
        println!("CHILD gamma {:?}", p.vk.gamma_g2);
        println!("CHILD delta {:?}", p.vk.delta_g2);
        return;
    }
    for _ in 0..10 {
        for e in elements(&prepare_params()) {
            println!("CHILD element {}", hex_all(&le(&e)));
        }
        println!("CHILD challenges {}", hex_all(&flat(&create_challenges(CH, N))));
    }
}

struct Seen<'a> {
    m: &'a Mon,
    map: Mutex<HashMap<Vec<u8>, String>>,
}

impl Seen<'_> {
    fn add(&self, v: Vec<u8>, from: &str) {
        let mut g = self.map.lock().unwrap();
        if let Some(o) = g.insert(v.clone(), from.to_string()) {
            drop(g);
            self.m.violate(&format!("{} and {} drew the same value {}", o, from, hex(&v)));
        }
    }
}

fn main() {
    if let Some(j) = child_job() {
        child(&j);
        return;
    }
    let m = Mon::new("C25", "space", "exploration", "parameters and challenge lists drawn in many threads and processes at once and compared pairwise, bytes of the field elements and bits of their halves tallied; circuit parameters for the same constants made in several threads and processes; proofs of one statement made several times; distinct by drawn value");
    let seen = Seen { m, map: Mutex::new(HashMap::new()) };
    let per = MIMC5_DF_ROUNDS + MIMC5_HASH_ROUNDS + 2;
    // field elements
    let sets = m.amount(120_000, 400_000);
    m.case(format!("{} parameter sets", sets));
    let tally: Mutex<Vec<Vec<u64>>> = Mutex::new(vec![vec![0; 256]; 31]);
    let roles: Mutex<Vec<[u64; 2]>> = Mutex::new(vec![[0, 0]; per]);
    parallel(threads() * 2, threads(), |t| {
        let mut c = vec![vec![0u64; 256]; 31];
        let mut low = vec![[0u64; 2]; per];
        for k in 0..sets / (threads() * 2) {
            let p = m.must("prepare_params", prepare_params);
            m.check(p.0.len() == MIMC5_DF_ROUNDS && p.1.len() == MIMC5_HASH_ROUNDS, || format!("{} and {} constants", p.0.len(), p.1.len()));
            for (i, e) in elements(&p).iter().enumerate() {
                let b = le(e);
                for j in 0..31 {
                    c[j][b[j] as usize] += 1;
                }
                low[i][(b[0] & 1) as usize] += 1;
                // every element of the first sets; of the others the key and one constant
                if k < 200 || i == per - 2 || i == k % per {
                    seen.add(b, &format!("element {} of parameter set {} of thread {}", i, k, t));
                    m.count("field elements all different", 1);
                }
            }
        }
        let mut g = tally.lock().unwrap();
        for j in 0..31 {
            for v in 0..256 {
                g[j][v] += c[j][v];
            }
        }
        let mut g = roles.lock().unwrap();
        for i in 0..per {
            g[i][0] += low[i][0];
            g[i][1] += low[i][1];
        }
    });
    m.eval(sets as u64);
    m.count("parameter sets drawn", sets as u64);
    for (j, c) in tally.lock().unwrap().iter().enumerate() {
        if let Some(e) = far_from_uniform(c) {
            m.violate(&format!("byte {} of the drawn field elements is not uniform: {}", j, e));
        }
    }
    for (i, c) in roles.lock().unwrap().iter().enumerate() {
        if let Some(e) = far_from_uniform(c) {
            m.violate(&format!("the lowest bit of element {} is biased: {}", i, e));
        }
    }
    // challenge lists
    let n = m.amount(100_000, 400_000);
    m.case(format!("{} challenge lists", n));
    parallel(threads() * 2, threads(), |t| {
        for k in 0..n / (threads() * 2) {
            let c = m.must("create_challenges", || create_challenges(CH, N));
            seen.add(flat(&c), &format!("challenge list {} of thread {}", k, t));
            if k % 100 == 0 {
                m.distinct(&c);
            }
        }
    });
    m.eval(n as u64);
    m.count("challenge lists drawn", n as u64);
    // first draws of threads started together
    for round in 0..m.amount(20, 200) {
        m.case("first draws of threads started together");
        let gate = std::sync::Barrier::new(16);
        std::thread::scope(|sc| {
            for t in 0..16 {
                let (gate, seen) = (&gate, &seen);
                sc.spawn(move || {
                    gate.wait();
                    let c = m.must("create_challenges", || create_challenges(CH, N));
                    let p = m.must("prepare_params", prepare_params);
                    seen.add(flat(&c), &format!("the first challenges of fresh thread {}/{}", round, t));
                    for (i, e) in elements(&p).iter().enumerate() {
                        seen.add(le(e), &format!("element {} of fresh thread {}/{}", i, round, t));
                    }
                });
            }
        });
        m.count("threads started together", 16);
    }
    // processes started together
    for round in 0..m.amount(3, 12) {
        m.case("draws of processes started together");
        for (i, lines) in children(16, "draw").iter().enumerate() {
            m.check(lines.len() == 10 * (per + 1), || format!("a process drew {} values", lines.len()));
            for (k, (name, v)) in lines.iter().enumerate() {
                seen.add(v.clone().into_bytes(), &format!("{} {} of process {}/{}", name, k, round, i));
            }
            m.count("processes started together", 1);
        }
    }
    // circuit parameters for the same constants
    m.case("circuit parameters for the same constants");
    let (dc, hc) = toy();
    let (here, there) = std::thread::scope(|s| {
        let ts: Vec<_> = (0..m.amount(2, 6))
            .map(|_| {
                let (dc, hc) = (&dc, &hc);
                s.spawn(move || {
                    let a = m.must("construct_circuit", || construct_circuit(dc, hc));
                    a
                })
            })
            .collect();
        let c = s.spawn(|| children(m.amount(3, 6), "circuit"));
        (ts.into_iter().map(|t| t.join().unwrap()).collect::<Vec<_>>(), c.join().unwrap())
    });
    for (i, p) in here.iter().enumerate() {
        for (name, v) in [("alpha", format!("{:?}", p.vk.alpha_g1)), ("beta", format!("{:?}", p.vk.beta_g2)), ("gamma", format!("{:?}", p.vk.gamma_g2)), ("delta", format!("{:?}", p.vk.delta_g2))] {
            seen.add(v.into_bytes(), &format!("{} of circuit {}", name, i));
        }
        m.count("circuit parameter sets compared", 1);
    }
    for (i, l) in there.iter().enumerate() {
        m.check(l.len() == 4, || "a process made no circuit parameters".into());
        for (name, v) in l {
            seen.add(v.clone().into_bytes(), &format!("{} of the circuit of process {}", name, i));
        }
        m.count("circuit parameter sets compared", 1);
    }
    // proofs of one statement
    let mut r = m.rng(2525);
    let (key, mm) = (fr(&mut r), fr(&mut r));
    let xs: Vec<Fr> = (0..RESPONSE_COUNT).map(|_| Fr::from(r.below(1 << N) as u64)).collect();
    let ch: Vec<usize> = xs.iter().map(|x| low_bits(&ref_df5(*x + key, mm, &dc), N)).collect();
    let idx: Vec<usize> = (0..RESPONSE_COUNT).collect();
    let h = ref_hash5(&xs, key, &hc, MIMC5_HASH_ROUNDS);
    m.case(format!("proofs of one statement: key {} m {}", show(&key), show(&mm)));
    parallel(m.amount(8, 64), threads(), |i| {
        let (pvk, p) = m.must("response_2", || response_2(here[0].clone(), key, &xs, mm, &dc, &ch, &idx, h, &hc));
        for (name, v) in [("A", format!("{:?}", p.a)), ("B", format!("{:?}", p.b)), ("C", format!("{:?}", p.c))] {
            seen.add(v.into_bytes(), &format!("element {} of proof {} of the same statement", name, i));
        }
        m.check(accepts(|| verify(pvk, p, key, mm, &ch, &idx, h)), || "an honest proof is rejected".into());
        m.count("proofs of one statement compared", 1);
        m.eval(1);
        m.distinct(&("proof", i));
    });
    let k = seen.map.lock().unwrap().len();
    m.count("values all different from each other", k as u64);
    m.sample(format!("challenges: {:?}", create_challenges(10, N)));
    m.assume("the draws use the operating system's generator and are not reproducible from the seed; bounds are chosen so that a fair generator fails with probability far below 1e-12");
    m.finish();
}
