//! C23 workload: built with a sanitizer, whose report is the verdict; the
//! monitor itself only watches that no thread outlives its call.
use common::*;
use proof_of_storage::proof_of_storage::merkle_tree::*;
use proof_of_storage::proof_of_storage::postorage::{load_data, prepare_params, save_data};
use proof_of_storage::proof_of_storage::prover::{copy_and_compress, copy_and_pad, seal, unseal};
use proof_of_storage::proof_of_storage::verifier::*;
use storage_mon::*;

fn tasks() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}

/// threads still there a while after the call
fn settled(base: usize) -> usize {
    let mut n = tasks();
    for _ in 0..300 {
        if n <= base {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(10));
        n = tasks();
    }
    n
}

fn run(m: &Mon, r: &mut Rng, c: &Cfg, ts: &[usize], base: usize) {
    let s = Scratch::new("c23");
    let (o, z, u) = (s.path("origin"), s.path("sealed"), s.path("unsealed"));
    let (data, _) = r.content(c.data_l());
    let iv = r.bytes(128);
    let p = prime(c.unit_pl());
    let par = c.params();
    std::fs::write(&o, &data).unwrap();
    m.case(format!("{}: pad and seal", c.show()));
    // what the calls return is judged by C12 and C13; here only how they behave
    let ended = |what: &str, v: Result<(), String>| {
        m.count(if v.is_ok() { "calls that returned" } else { "calls that panicked (judged elsewhere)" }, 1);
        let n = settled(base);
        m.check(n <= base, || format!("{}: {} threads left behind", what, n - base));
    };
    ended("copy_and_pad", catch(|| copy_and_pad(&o, &z, c.data_l(), c.unit_l)));
    ended("seal", catch(|| {
        let _ = seal(&par, &z, &p, &iv);
    }));
    for &t in ts {
        let n = r.range(0, 2 * c.blocks);
        let idx: Vec<usize> = (0..n).map(|_| r.below(c.blocks)).collect();
        m.case(format!("{}: {} threads, blocks {:?}", c.show(), t, idx));
        let got = catch(|| {
            let (mut bl, mut be, mut de) = (vec![], vec![], vec![]);
            for &b in &idx {
                let (x, y, w) = single_unseal_prepare(&z, b, &par);
                bl.push(x);
                be.push(y);
                de.push(w);
            }
            let got = batch_unseal_parallel(&par, &idx, &bl, &be, &de, &p, &iv, t);
            // read every byte of the result
            let sum: u64 = got.iter().flatten().flatten().map(|b| *b as u64).sum();
            let mut bl2 = bl.clone();
            let seq = batch_unseal(&par, &idx, &mut bl2, &be, &de, &p, &iv);
            std::hint::black_box((sum, seq));
        });
        ended("batch_unseal_parallel", got);
        m.count("parallel recoveries", 1);
        m.distinct(&(c, t, &idx));
    }
    // two recoveries at the same time
    m.case(format!("{}: concurrent recoveries", c.show()));
    let got = catch(|| {
        std::thread::scope(|sc| {
            for k in 0..3usize {
                let (par, z, p, iv, o) = (&par, &z, &p, &iv, &o);
                sc.spawn(move || {
                    let _ = catch(|| {
                        let (idx, bl, be, de) = batch_unseal_prepare(z, 0, c.padded_l(), par);
                        if k == 0 {
                            let _ = batch_unseal_and_verify(par, o, &idx, &bl, &be, &de, p, iv);
                        } else {
                            std::hint::black_box(batch_unseal_parallel(par, &idx, &bl, &be, &de, p, iv, k + 1));
                        }
                    });
                });
            }
        })
    });
    ended("concurrent recoveries", got);
    m.count("concurrent recoveries", 1);
    m.case(format!("{}: unseal and compress", c.show()));
    ended("unseal", catch(|| {
        let _ = unseal(&par, &z, &p, &iv);
    }));
    ended("copy_and_compress", catch(|| copy_and_compress(&z, &u, c.data_l(), c.unit_l, c.unit_pl())));
}

/// different files sealed, audited, committed and unsealed at the same time
fn mixed(m: &Mon, r: &mut Rng, n: usize, base: usize) {
    let s = Scratch::new("c23");
    let cfgs: Vec<(Cfg, Vec<u8>, Vec<u8>)> = (0..n)
        .map(|i| {
            let mut c = Cfg::random(r, 16);
            c.mode_l = i % 4;
            c.mode_s = (i + 1) % 3;
            let (d, _) = r.content(c.data_l());
            (c, d, r.bytes(128))
        })
        .collect();
    m.case(format!("{} files at once, first: {}", n, cfgs[0].0.show()));
    let got = catch(|| {
        std::thread::scope(|sc| {
            for (i, (c, d, iv)) in cfgs.iter().enumerate() {
                let (o, z, u, k) = (s.path(&format!("o{}", i)), s.path(&format!("z{}", i)), s.path(&format!("u{}", i)), s.path(&format!("k{}", i)));
                sc.spawn(move || {
                    let _ = catch(|| {
                        let par = c.params();
                        let p = prime(c.unit_pl());
                        std::fs::write(&o, d).unwrap();
                        copy_and_pad(&o, &z, c.data_l(), c.unit_l);
                        let (ids, ..) = seal(&par, &z, &p, iv);
                        save_data(&k, &p, iv);
                        let (_, tree, root) = generate_merkle_tree_from_data(&ids);
                        let _ = generate_merkle_tree_from_file(&o, c.data_l(), c.block_l());
                        let ix = create_challenges(c.blocks.min(3), (0, c.blocks));
                        let proof = generate_merkle_proof(&ix, &tree);
                        std::hint::black_box((proof.to_bytes(), root));
                        let (p, iv) = load_data(&k);
                        let (idx, bl, be, de) = batch_unseal_prepare(&z, 0, c.padded_l(), &par);
                        let _ = batch_unseal_and_verify(&par, &o, &idx, &bl, &be, &de, &p, &iv);
                        let got = batch_unseal_parallel(&par, &idx, &bl, &be, &de, &p, &iv, 2);
                        for (j, b) in idx.iter().enumerate() {
                            let _ = batch_verify(&o, *b, &got[j], c.block_l(), c.unit_l);
                        }
                        let _ = unseal(&par, &z, &p, &iv);
                        copy_and_compress(&z, &u, c.data_l(), c.unit_l, c.unit_pl());
                        let _ = create_random_file(&u, 100);
                        let _ = prepare_params(c.unit_pl());
                    });
                });
            }
        })
    });
    m.count(if got.is_ok() { "calls that returned" } else { "calls that panicked (judged elsewhere)" }, 1);
    let left = settled(base);
    m.check(left <= base, || format!("several files at once: {} threads left behind", left - base));
    m.count("whole sessions run at the same time", n as u64);
}

/// Ill-formed arguments: refused or answered, judged elsewhere; here only that
/// no memory outside of them is touched.
fn hostile(m: &Mon, r: &mut Rng, rounds: usize) {
    use proof_of_storage::proof_of_storage::{common::*, depend::*};
    use proof_of_storage::vde::{rug_sloth, rug_vde, sloth};
    let s = Scratch::new("c23");
    for i in 0..rounds {
        m.case(format!("ill-formed arguments, round {}", i));
        let mut n = 0u64;
        let mut call = |f: &mut dyn FnMut()| {
            let _ = catch(|| f());
            n += 1;
        };
        let (a, b) = (r.below(200), r.below(200));
        let (x, y) = (r.bytes(a), r.bytes(b));
        let l = r.range(1, 70);
        let odd: Vec<Vec<u8>> = (0..r.below(7)).map(|_| { let k = r.below(80); r.bytes(k) }).collect();
        call(&mut || { std::hint::black_box(to_units(&x, l).concat()); });
        call(&mut || { std::hint::black_box(com_units(&odd)); });
        call(&mut || { std::hint::black_box(vecu8_xor(&x, &y)); });
        let p = prime(64);
        call(&mut || { std::hint::black_box(modadd(&x, &y, &p)); });
        call(&mut || { std::hint::black_box(modsub(&x, &y, &p)); });
        call(&mut || { std::hint::black_box((md5_hash(&x), blake3_hash(&y))); });
        let f = s.path("f");
        std::fs::write(&f, &x).unwrap();
        let (at, len) = (r.below(300), r.below(300));
        call(&mut || { std::hint::black_box(read_file(&mut std::fs::File::open(&f).unwrap(), at, len)); });
        call(&mut || { std::hint::black_box(load_data(&f)); });
        let mode = "sloth".to_string();
        let (e, w) = (r.below(2), r.range(0, 70));
        call(&mut || { std::hint::black_box(rug_vde::vde(&x, &p, e, &mode, w)); });
        call(&mut || { std::hint::black_box(rug_vde::vde_inv(&x, &p, e, &mode, w)); });
        call(&mut || { std::hint::black_box(rug_sloth::sloth_inv(&int(&x), &p, 1)); });
        let q: num_bigint::BigInt = p.to_string().parse().unwrap();
        let xb = num_bigint::BigInt::from_bytes_le(num_bigint::Sign::Plus, &x[..x.len().min(64)]);
        call(&mut || { std::hint::black_box(sloth::sloth_inv(&xb, &q, 1)); });
        let (num, ix, cnt, md) = (r.range(1, 400), r.below(500), r.below(300), r.below(6));
        call(&mut || { std::hint::black_box(long_depend(ix, cnt, md)); });
        call(&mut || { std::hint::black_box(short_depend(num, ix, cnt, md)); });
        call(&mut || { std::hint::black_box(long_mode_random(num, &x, ix, cnt)); });
        call(&mut || { std::hint::black_box(short_depend_random(num, &x, ix, cnt)); });
        // recovery of ill-formed hand-outs
        let c = Cfg::random(r, 12);
        let (par, key, iv) = (c.params(), prime(c.unit_pl()), r.bytes(16));
        let z = s.path("z");
        let k = r.below(c.padded_l() + 100);
        std::fs::write(&z, r.bytes(k)).unwrap();
        let (b1, e1, b2) = (r.below(2 * c.padded_l()), r.below(2 * c.padded_l()), r.below(c.blocks + 3));
        call(&mut || { std::hint::black_box(single_unseal_prepare(&z, b2, &par)); });
        call(&mut || { std::hint::black_box(batch_unseal_prepare(&z, b1, e1, &par)); });
        let mut idx: Vec<usize> = (0..r.below(4)).map(|_| r.below(c.blocks + 1)).collect();
        let (mut bl, mut be, mut de) = (vec![], vec![], vec![]);
        for b in &idx {
            if let Ok((x, y, w)) = catch(|| single_unseal_prepare(&z, *b, &par)) {
                bl.push(x);
                be.push(y);
                de.push(w);
            }
        }
        match r.below(7) {
            0 => { bl.pop(); }
            1 => { be.pop(); }
            2 => { de.pop(); }
            3 => idx.push(0),
            4 => if let Some(b) = bl.last_mut() { b.pop(); },
            5 => if let Some(u) = bl.last_mut().and_then(|b| b.last_mut()) { u.truncate(r.below(5)); },
            _ => if let Some(d) = de.last_mut().and_then(|d| d.last_mut()) { d.pop(); },
        }
        call(&mut || { let mut bl = bl.clone(); std::hint::black_box(batch_unseal(&par, &idx, &mut bl, &be, &de, &key, &iv)); });
        call(&mut || { let _ = batch_unseal_and_verify(&par, &z, &idx, &bl, &be, &de, &key, &iv); });
        call(&mut || { std::hint::black_box(batch_unseal_parallel(&par, &idx, &bl, &be, &de, &key, &iv, 2)); });
        call(&mut || { let _ = batch_verify(&z, b2, &odd, c.block_l(), c.unit_l); });
        let lv: Vec<Vec<u8>> = (0..r.below(9)).map(|_| r.bytes(5)).collect();
        let ask: Vec<usize> = (0..r.below(5)).map(|_| r.below(12)).collect();
        call(&mut || {
            let (leaves, tree, root) = generate_merkle_tree_from_data(&lv);
            let proof = generate_merkle_proof(&ask, &tree);
            let _ = verify_merkle_proof(proof, root, &ask, &leaves);
        });
        call(&mut || { std::hint::black_box(generate_merkle_tree_from_file(&f, at, l).2); });
        m.count("calls with ill-formed arguments", n);
        m.distinct(&("hostile", i));
    }
}

fn main() {
    let part = std::env::var("VERIF_PART").unwrap_or_else(|_| "plain".into());
    let m = Mon::new("C23", &part, "exploration", "pad, seal, recover (1 to 64 threads, any list of blocks), concurrent recoveries, unseal and compress, and whole sessions on different files at the same time, and every operation with ill-formed arguments, under ThreadSanitizer and AddressSanitizer with the standard library instrumented and under valgrind's memcheck; distinct by configuration, thread count and block list");
    m.case_limit(240);
    if part == "memcheck" {
        m.assume("memcheck runs threads one at a time");
    } else {
        m.assume("code compiled from C and assembly (GMP, BLAKE3) is not instrumented; accesses it makes are not seen by the compiler's sanitizers");
    }
    // settle: the watchdog thread exists already
    std::thread::sleep(std::time::Duration::from_millis(50));
    let base = tasks();
    let all = [1usize, 2, 3, 4, 5, 8, 13, 16, 33, 64];
    let mut r = m.rng(23);
    for mode in 0..=4 {
        let c = Cfg { unit_l: 63, units: 2 + mode, blocks: 6 + 3 * mode, seal_rounds: 1 + mode % 2, vde_rounds: 1, mode_l: mode, cnt_l: 3, mode_s: mode.min(3), cnt_s: 3 };
        let ts: Vec<usize> = if part == "memcheck" { vec![all[mode], all[(mode + 5) % all.len()]] } else { all.to_vec() };
        run(m, &mut r, &c, &ts, base);
    }
    for _ in 0..if part == "memcheck" { 1 } else { m.amount(3, 40) } {
        mixed(m, &mut r, 6, base);
    }
    for i in 0..if part == "memcheck" { m.amount(0, 20) } else { m.amount(16, 300) } {
        let mut r = m.rng(2300 + i as u64);
        let c = Cfg::random(&mut r, 30);
        let ts = [*r.pick(&all), *r.pick(&all), 2];
        run(m, &mut r, &c, &ts, base);
    }
    hostile(m, &mut r, if part == "memcheck" { m.amount(12, 200) } else { m.amount(300, 5000) });
    m.sample(format!("last case ended at {:.1} s", m.elapsed()));
    m.finish();
}
