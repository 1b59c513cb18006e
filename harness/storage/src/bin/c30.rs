//! C30, storage part: operations give back everything they take.
#[path = "../../../common/held.rs"]
mod held;
use common::*;
use held::*;
use proof_of_storage::proof_of_storage::common::*;
use proof_of_storage::proof_of_storage::merkle_tree::*;
use proof_of_storage::proof_of_storage::postorage::*;
use proof_of_storage::proof_of_storage::prover::*;
use proof_of_storage::proof_of_storage::verifier::*;
use rug::Integer;
use std::fs::OpenOptions;
use storage_mon::*;

struct Env {
    s: Scratch,
    c: Cfg,
    p: Integer,
    iv: Vec<u8>,
}

impl Env {
    fn new(c: &Cfg, r: &mut Rng) -> Env {
        let e = Env { s: Scratch::new("c30"), c: c.clone(), p: prime(c.unit_pl()), iv: r.bytes(128) };
        let data = r.bytes(c.data_l());
        std::fs::write(e.f("origin"), &data).unwrap();
        std::fs::write(e.f("padded"), pad(&data, c.unit_l)).unwrap();
        std::fs::write(e.f("work"), pad(&data, c.unit_l)).unwrap();
        std::fs::write(e.f("sealed"), ref_seal(c, &data, &e.p, &e.iv).bytes).unwrap();
        std::fs::write(e.f("unsealed"), &data).unwrap();
        for n in ["log", "stat"] {
            std::fs::write(e.f(n), b"").unwrap();
        }
        save_data(&e.f("params"), &e.p, &e.iv);
        e
    }
    fn f(&self, n: &str) -> String {
        self.s.path(n)
    }
    fn log(&self, n: &str) -> std::fs::File {
        OpenOptions::new().read(true).append(true).open(self.f(n)).unwrap()
    }
}

const OPS: [&str; 21] = [
    "copy_and_pad", "seal", "unseal", "copy_and_compress", "save_data", "load_data", "prepare_params", "create_random_file", "create_challenges",
    "single recovery", "batch recovery", "parallel recovery", "batch_unseal_and_verify", "commitment", "proof of membership", "driver", "dependencies and arithmetic",
    "failing audit", "failing parallel recovery", "failing load", "failing seal",
];

/// The i-th run of an operation; inputs differ from run to run.
fn operate(e: &Env, op: &str, i: usize) {
    let (c, par) = (&e.c, e.c.params());
    let b = i % c.blocks;
    match op {
        "copy_and_pad" => copy_and_pad(&e.f("origin"), &e.f("work"), c.data_l(), c.unit_l),
        "seal" => {
            let mut iv = e.iv.clone();
            iv[i % 128] ^= (i % 255) as u8 + 1;
            let _ = seal(&par, &e.f("work"), &e.p, &iv);
        }
        "unseal" => {
            let _ = unseal(&par, &e.f("work"), &e.p, &e.iv);
        }
        "copy_and_compress" => copy_and_compress(&e.f("padded"), &e.f("unsealed"), c.data_l(), c.unit_l, c.unit_pl()),
        "save_data" => save_data(&e.f("params"), &e.p, &e.iv),
        "load_data" => {
            let _ = load_data(&e.f("params"));
        }
        "prepare_params" => {
            let _ = prepare_params([64, 128, 256][i % 3]);
        }
        "create_random_file" => {
            let _ = create_random_file(&e.f("unsealed"), 300 + i);
        }
        "create_challenges" => {
            let _ = create_challenges(1 + i % 50, (0, 100 + i));
        }
        "single recovery" => {
            let (bl, id, dep) = single_unseal_prepare(&e.f("sealed"), b, &par);
            let got = batch_unseal(&par, &vec![b], &mut vec![bl], &vec![id], &vec![dep], &e.p, &e.iv);
            let _ = batch_verify(&e.f("origin"), b, &got[0], c.block_l(), c.unit_l);
        }
        "batch recovery" => {
            let (ix, mut bl, id, dep) = batch_unseal_prepare(&e.f("sealed"), b * c.block_pl(), c.padded_l(), &par);
            let _ = batch_unseal(&par, &ix, &mut bl, &id, &dep, &e.p, &e.iv);
        }
        "parallel recovery" => {
            let (ix, bl, id, dep) = batch_unseal_prepare(&e.f("sealed"), b * c.block_pl(), c.padded_l(), &par);
            let _ = batch_unseal_parallel(&par, &ix, &bl, &id, &dep, &e.p, &e.iv, 1 + i % 9);
        }
        "batch_unseal_and_verify" => {
            let (ix, bl, id, dep) = batch_unseal_prepare(&e.f("sealed"), b * c.block_pl(), c.padded_l(), &par);
            let _ = batch_unseal_and_verify(&par, &e.f("origin"), &ix, &bl, &id, &dep, &e.p, &e.iv);
        }
        "commitment" => {
            let _ = generate_merkle_tree_from_file(&e.f("origin"), c.data_l(), c.unit_l + i % 5);
        }
        "proof of membership" => {
            let leaves: Vec<Vec<u8>> = (0..c.blocks).map(|j| vec![(i + j) as u8; 40]).collect();
            let (lv, tree, root) = generate_merkle_tree_from_data(&leaves);
            let _ = verify_merkle_proof(generate_merkle_proof(&[b], &tree), root, &[b], &lv);
        }
        "driver" => {
            let (mut l, mut st) = (e.log("log"), e.log("stat"));
            seal_and_unseal(&par, &e.f("origin"), &e.f("work"), &e.f("unsealed"), &e.f("params"), &mut l, true, true, &mut st);
        }
        "dependencies and arithmetic" => {
            let _ = create_long_depend(50 + i % 7, i % 9, i % 4);
            let _ = create_short_depend(50 + i % 7, i % 9, i % 3);
            let mut x = vec![i as u8; c.unit_pl()];
            *x.last_mut().unwrap() = 0;
            let mut z = vec![1u8; c.unit_pl()];
            *z.last_mut().unwrap() = 0;
            let y = modadd(&x, &z, &e.p);
            let _ = modsub(&y, &z, &e.p);
            let _ = com_units(&to_units(&vecu8_xor(&x, &y), 16));
            let _ = (blake3_hash(&x), md5_hash(&y));
        }
        "failing audit" => {
            let (bl, id, dep) = single_unseal_prepare(&e.f("padded"), b, &par);
            let got = batch_unseal(&par, &vec![b], &mut vec![bl], &vec![id], &vec![dep], &e.p, &e.iv);
            batch_verify(&e.f("origin"), b, &got[0], c.block_l(), c.unit_l);
            panic!("accepted");
        }
        "failing parallel recovery" => {
            // blocks without their digests: the workers fail
            let (ix, bl, _, dep) = batch_unseal_prepare(&e.f("sealed"), 0, c.padded_l(), &par);
            let _ = batch_unseal_parallel(&par, &ix, &bl, &vec![], &dep, &e.p, &e.iv, 2);
        }
        "failing load" => {
            let _ = load_data(&e.f("nothing"));
        }
        _ => {
            let _ = seal(&par, &e.f("nothing"), &e.p, &e.iv);
        }
    }
}

fn main() {
    held::exact_heap();
    let m = Mon::new("C30", "storage", "exploration", "every operation, failing ones included, repeated with changing inputs; open files, threads, files and heap compared before and after; operations on many blocks with only a few more files allowed; threads counted while recovering in parallel; distinct by operation and configuration");
    m.case_limit(300);
    let mut r = m.rng(30);
    let rounds = m.amount(2, 12);
    for round in 0..rounds {
        let mut c = Cfg::random(&mut r, 12);
        c.blocks = c.blocks.max(2);
        c.mode_l = round % 4;
        c.mode_s = (round + 1) % 3;
        c.vde_rounds = 1;
        c.seal_rounds = 1;
        let e = Env::new(&c, &mut r);
        std::env::set_current_dir(e.s.dir()).unwrap();
        std::env::set_var("TMPDIR", e.s.dir());
        for op in OPS {
            let heavy = op == "driver" || op.contains("seal") || op.contains("recovery");
            let times = if heavy { m.amount(160, 900) } else { m.amount(300, 3000) };
            let what = format!("{} ({})", op, c.show());
            watch(m, &what, e.s.dir(), 12, times, 8, |i| {
                let got = catch(|| operate(&e, op, i));
                if !op.starts_with("failing") {
                    if let Err(x) = got {
                        m.violate(&format!("{} failed: {}", op, x));
                    }
                }
            });
        }
        // many blocks, few files
        let c = Cfg { unit_l: 63, units: 1, blocks: 400, seal_rounds: 1, vde_rounds: 1, mode_l: round % 4, cnt_l: 5, mode_s: round % 3, cnt_s: 1 };
        let e = Env::new(&c, &mut r);
        std::env::set_current_dir(e.s.dir()).unwrap();
        for op in OPS.iter().filter(|o| !o.starts_with("failing")) {
            m.case(format!("{} of 400 blocks with room for 12 open files", op));
            let got = few_files(12, || catch(|| operate(&e, op, 0)));
            if let Err(x) = got {
                m.violate(&format!("{} failed: {}", op, x));
            }
            m.count("operations with few files", 1);
            m.distinct(&("few files", op, round));
        }
        // no more workers than asked for
        for n in [1usize, 2, 3, 5, 8, 16] {
            m.case(format!("parallel recovery of 400 blocks by {} workers", n));
            let par = c.params();
            let (ix, bl, id, dep) = batch_unseal_prepare(&e.f("sealed"), 0, c.padded_l(), &par);
            let (_, peak) = peak_threads(|| batch_unseal_parallel(&par, &ix, &bl, &id, &dep, &e.p, &e.iv, n));
            m.check(peak <= n, || format!("{} workers asked for, {} threads seen", n, peak));
            m.count("parallel recoveries with threads counted", 1);
            m.count("worker threads seen", peak as u64);
            m.distinct(&("workers", n, round));
            // let them end
            let t = std::time::Instant::now();
            while tasks() > 2 && t.elapsed().as_secs() < 30 {
                std::thread::sleep(std::time::Duration::from_millis(1));
            }
        }
        std::env::set_current_dir("/").unwrap();
    }
    m.finish();
}
