//! C26, space part: operations running at the same time do not disturb each other.
use ark_bls12_381::Fr;
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystem};
use common::jitter::{Jitter, ARMED, DELAYS};
use common::*;
use proof_of_space::circuit::pospace_circuit::PospaceDemo;
use proof_of_space::mimc::mimc_df::{mimc5_df, MIMC5_DF_ROUNDS};
use proof_of_space::mimc::mimc_hash::{multi_mimc5_hash, MIMC5_HASH_ROUNDS};
use proof_of_space::proof_of_space::convert::{bits_to_bytes, bits_to_usize, bytes_to_bits, usize_to_bits};
use proof_of_space::proof_of_space::pospace::{N, RESPONSE_COUNT};
use proof_of_space::proof_of_space::prover::{mark_space, prepare_space, response_1};
use proof_of_space::proof_of_space::verifier::create_challenges;
use space_mon::*;
use std::sync::atomic::Ordering;

#[global_allocator]
static A: Jitter = Jitter;

struct Space {
    n: usize,
    key: Fr,
    mm: Fr,
    dc: Vec<Fr>,
    hc: Vec<Fr>,
    img: Vec<u32>,
    path: String,
}

fn check_table(m: &Mon, s: &Space) -> Vec<u8> {
    let t = std::fs::read(&s.path).unwrap();
    m.check(t.len() == table_bytes(s.n), || format!("n={}: {} bytes", s.n, t.len()));
    let mut has = vec![false; 1 << s.n];
    s.img.iter().for_each(|&y| has[y as usize] = true);
    for y in 0..1usize << s.n {
        let (x, flag) = get_slot(&t, s.n, y);
        m.check(flag == has[y], || format!("n={} slot {}: flag {} when several spaces are marked at once", s.n, y, flag));
        m.check(!flag || s.img[x] as usize == y, || format!("n={} slot {} holds {}, whose image is {}, when several spaces are marked at once", s.n, y, x, s.img[x]));
        m.check(flag || x == 0, || format!("n={} empty slot {} holds {}", s.n, y, x));
    }
    t
}

fn read_op(m: &Mon, ov: &Overlaps, r: &mut Rng, s: &Space, t: &[u8]) {
    match r.below(6) {
        0 | 1 => {
            let ch: Vec<usize> = (0..r.range(1, 150)).map(|_| r.below(1 << s.n)).collect();
            let (mut xs, mut idx) = (vec![], vec![]);
            for (i, &c) in ch.iter().enumerate() {
                let (x, flag) = get_slot(t, s.n, c);
                if flag && xs.len() < RESPONSE_COUNT {
                    xs.push(Fr::from(x as u64));
                    idx.push(i);
                }
            }
            let got = ov.run("responding", || m.must("response_1", || response_1(&s.path, &ch, s.key, &s.hc, s.n)));
            m.check(got.0 == xs && got.1 == idx, || format!("n={}: answers differ when others respond too; challenges {:?}", s.n, &ch[..ch.len().min(20)]));
            m.check(got.2 == ref_hash5(&xs, s.key, &s.hc, MIMC5_HASH_ROUNDS), || format!("n={}: digest differs", s.n));
        }
        2 => {
            let (a, b) = (fr_mixed(r), fr_mixed(r));
            let y = ov.run("delay function", || m.must("mimc5_df", || mimc5_df(a, b, &s.dc)));
            m.check(y == ref_df5(a, b, &s.dc), || "a delay function value differs".into());
        }
        3 => {
            let k = r.below(20);
            let xs = frs(r, k);
            let h = ov.run("hash", || m.must("multi_mimc5_hash", || multi_mimc5_hash(&xs, s.key, &s.hc)));
            m.check(h == ref_hash5(&xs, s.key, &s.hc, MIMC5_HASH_ROUNDS), || "a digest differs".into());
        }
        4 => {
            let b = r.bytes(9);
            let (back, v, w) = ov.run("conversions", || m.must("conversions", || {
                let bits = bytes_to_bits(&b);
                (bits_to_bytes(&bits), bits_to_usize(&bits[..40].to_vec()), bits_to_usize(&usize_to_bits(b[0] as usize * 77, 20)))
            }));
            let want = b[..5].iter().rev().fold(0usize, |a, x| a << 8 | *x as usize);
            m.check(back == b && v == want && w == b[0] as usize * 77, || "a conversion differs".into());
        }
        _ => {
            let c = ov.run("challenges", || m.must("create_challenges", || create_challenges(30, s.n)));
            m.check(c.len() == 30 && c.iter().all(|&x| x < 1 << s.n), || format!("malformed challenges {:?}", c));
            let x = Fr::from(r.below(1 << N) as u64);
            let yn = low_fr(&ref_df5(x + s.key, s.mm, &s.dc), N);
            let h = ref_hash5(&[x], s.key, &s.hc, MIMC5_HASH_ROUNDS);
            let cs = ConstraintSystem::<Fr>::new_ref();
            ov.run("synthesis", || m.must("synthesis", || PospaceDemo { key: Some(s.key), x: &[Some(x)], m: Some(s.mm), df_constants: &s.dc, yn: &[Some(yn)], x_hash: Some(h), hash_constants: &s.hc }.generate_constraints(cs.clone()).unwrap()));
            m.check(cs.is_satisfied().unwrap(), || "an honest witness does not satisfy the circuit".into());
        }
    }
    m.eval(1);
}

fn main() {
    let m = Mon::new("C26", "space", "exploration", "rounds of 3 to 8 spaces of seeded keys and sizes in one directory, prepared and marked at once, then answered from eight threads at once together with delay functions, hashes, conversions, challenges and circuit synthesis, while further spaces are being marked; every result compared with the sequential reference; random delays injected into all threads; overlapping pairs recorded; distinct by the sizes and keys of a round");
    m.case_limit(240);
    let ov = Overlaps::new();
    for i in 0..m.amount(100, 1500) {
        let mut r = m.rng(2650 + i as u64);
        let s = Scratch::new("c26");
        let k = r.range(3, 8);
        let same_n = if r.coin() { Some(r.range(3, 10)) } else { None };
        let spaces: Vec<Space> = (0..2 * k)
            .map(|j| {
                let n = same_n.unwrap_or(r.range(1, 11));
                let (key, mm) = (fr_mixed(&mut r), fr_mixed(&mut r));
                let dc = frs(&mut r, MIMC5_DF_ROUNDS);
                let hc = frs(&mut r, MIMC5_HASH_ROUNDS);
                let img = images(n, key, mm, &dc);
                Space { n, key, mm, dc, hc, img, path: s.path(&format!("space{}", j)) }
            })
            .collect();
        let (a, b) = spaces.split_at(k);
        m.distinct(&spaces.iter().map(|s| (s.n, show(&s.key))).collect::<Vec<_>>());
        m.case(format!("round {}: {} spaces marked at once, n = {:?}", i, k, a.iter().map(|s| s.n).collect::<Vec<_>>()));
        ARMED.store(*r.pick(&[0u64, 300, 3000]), Ordering::Relaxed);
        let mark = |s: &Space| {
            ov.run("preparing", || m.must("prepare_space", || prepare_space(&s.path, s.n).unwrap()));
            ov.run("marking", || m.must("mark_space", || {
                let _ = mark_space(&s.path, s.key, s.mm, &s.dc, s.n);
            }));
        };
        let gate = std::sync::Barrier::new(k);
        std::thread::scope(|sc| {
            for s in a {
                let (gate, mark) = (&gate, &mark);
                sc.spawn(move || {
                    gate.wait();
                    mark(s);
                });
            }
        });
        let tabs: Vec<Vec<u8>> = a.iter().map(|s| check_table(m, s)).collect();
        m.count("spaces marked while others were being marked", k as u64);
        m.case(format!("round {}: responding and marking at once, n = {:?}", i, spaces.iter().map(|s| s.n).collect::<Vec<_>>()));
        let seeds: Vec<Rng> = (0..8).map(|k| Rng::new(r.u64(), k)).collect();
        std::thread::scope(|sc| {
            for mut q in seeds {
                let (tabs, ov) = (&tabs, &ov);
                sc.spawn(move || {
                    for _ in 0..15 {
                        let f = q.below(a.len());
                        read_op(m, ov, &mut q, &a[f], &tabs[f]);
                    }
                });
            }
            for s in b {
                let mark = &mark;
                sc.spawn(move || mark(s));
            }
        });
        ARMED.store(0, Ordering::Relaxed);
        m.count("reading operations at once", 8 * 15);
        for s in b {
            check_table(m, s);
        }
        m.count("spaces marked while others were answered", b.len() as u64);
        for (s, t) in a.iter().zip(&tabs) {
            m.check(std::fs::read(&s.path).unwrap() == *t, || "a space changed while it was answered".into());
        }
    }
    let (n, kinds) = ov.seen();
    m.count("operations seen overlapping another", n);
    m.count("distinct pairs of operations seen overlapping", kinds.len() as u64);
    m.count("delays injected", DELAYS.load(Ordering::Relaxed));
    m.sample(format!("overlapping pairs include {:?}", &kinds[..kinds.len().min(6)]));
    m.check(n > 100, || "the operations never overlapped".into());
    m.finish();
}
