//! C21, storage part: which operations touch which files, and repeatability.
use common::*;
use proof_of_storage::proof_of_storage::merkle_tree::*;
use proof_of_storage::proof_of_storage::postorage::*;
use proof_of_storage::proof_of_storage::prover::*;
use proof_of_storage::proof_of_storage::verifier::*;
use storage_mon::*;

fn run(m: &Mon, r: &mut Rng, c: &Cfg) {
    let s = Scratch::new("c21");
    std::env::set_current_dir(s.dir()).unwrap();
    let (o, z, u, t) = (s.path("origin"), s.path("sealed"), s.path("unsealed"), s.path("params"));
    let data = r.content(c.data_l()).0;
    let par = c.params();
    let (p, iv) = prepare_params(c.unit_pl());
    std::fs::write(s.path("bystander"), r.bytes(1000)).unwrap();
    if r.coin() {
        std::fs::write(&z, r.bytes(50)).unwrap();
        std::fs::write(&u, r.bytes(5000)).unwrap();
    }
    let step = |name: &str, may: &[&str], f: &mut dyn FnMut()| {
        let before = snapshot(s.dir());
        m.case(format!("{}: {}", name, c.show()));
        f();
        let after = snapshot(s.dir());
        let d = changes(&before, &after, may);
        m.check(d.is_empty(), || format!("{} touched other files: {}", name, d.join("; ")));
        m.count(&format!("watched: {}", name), 1);
    };
    // readers of what is not there fail and leave nothing behind
    let (no, nz, nt) = (s.path("none"), s.path("nozone"), s.path("noparams"));
    step("load_data of a missing file", &[], &mut || {
        m.check(catch(|| load_data(&nt)).is_err(), || "parameters are loaded from a missing file".into());
    });
    step("single_unseal_prepare of a missing file", &[], &mut || {
        m.check(catch(|| single_unseal_prepare(&nz, 0, &par)).is_err(), || "a block is read from a missing file".into());
    });
    step("batch_unseal_prepare of a missing file", &[], &mut || {
        m.check(catch(|| batch_unseal_prepare(&nz, 0, c.padded_l(), &par)).is_err(), || "blocks are read from a missing file".into());
    });
    step("commitment to a missing file", &[], &mut || {
        m.check(catch(|| generate_merkle_tree_from_file(&no, c.data_l(), c.block_l())).is_err(), || "a missing file is committed to".into());
    });
    step("comparison with a missing file", &[], &mut || {
        let un = vec![vec![0u8; c.unit_pl()]; c.units];
        m.check(!accepts(|| batch_verify(&no, 0, &un, c.block_l(), c.unit_l)), || "an audit against a missing original is accepted".into());
    });
    step("sealing a missing file", &[], &mut || {
        m.check(catch(|| seal(&par, &nz, &p, &iv)).is_err(), || "a missing file is sealed".into());
        m.check(catch(|| unseal(&par, &nz, &p, &iv)).is_err(), || "a missing file is unsealed".into());
    });
    std::fs::write(&o, &data).unwrap();
    step("copy_and_pad", &["sealed"], &mut || m.must("copy_and_pad", || copy_and_pad(&o, &z, c.data_l(), c.unit_l)));
    step("save_data", &["params"], &mut || m.must("save_data", || save_data(&t, &p, &iv)));
    let mut ids: Vec<Vec<u8>> = vec![];
    step("seal", &["sealed"], &mut || {
        ids = m.must("seal", || {
            let (ids, ..) = seal(&par, &z, &p, &iv);
            ids
        })
    });
    let replica = std::fs::read(&z).unwrap();
    // a history of audits and other readers, each repeated
    let steps = r.range(3, 10);
    let mut hist = vec![];
    for _ in 0..steps {
        let op = r.below(8);
        hist.push(op);
        let n = r.range(1, c.blocks);
        let idx = create_challenges(n, (0, c.blocks));
        let mut answers: Vec<u64> = vec![];
        for _rep in 0..2 {
            match op {
                0 => step("single_unseal_prepare", &[], &mut || {
                    let v: Vec<_> = idx.iter().map(|&b| m.must("single_unseal_prepare", || single_unseal_prepare(&z, b, &par))).collect();
                    answers.push(hash64(&v));
                }),
                1 => step("batch_unseal_prepare", &[], &mut || {
                    let v = m.must("batch_unseal_prepare", || batch_unseal_prepare(&z, 0, n * c.block_pl(), &par));
                    answers.push(hash64(&v));
                }),
                2 | 3 => step("audit", &[], &mut || {
                    let (mut bl, mut be, mut de) = (vec![], vec![], vec![]);
                    for &b in &idx {
                        let (x, y, w) = m.must("single_unseal_prepare", || single_unseal_prepare(&z, b, &par));
                        bl.push(x);
                        be.push(y);
                        de.push(w);
                    }
                    let (k2, iv2) = m.must("load_data", || load_data(&t));
                    let got = if op == 2 { m.must("batch_unseal", || batch_unseal(&par, &idx, &mut bl, &be, &de, &k2, &iv2)) } else { m.must("batch_unseal_parallel", || batch_unseal_parallel(&par, &idx, &bl, &be, &de, &k2, &iv2, 4)) };
                    for (i, g) in got.iter().enumerate() {
                        m.check(accepts(|| batch_verify(&o, idx[i], g, c.block_l(), c.unit_l)), || format!("an honest audit of block {} is rejected after the history {:?}", idx[i], hist));
                    }
                    answers.push(hash64(&got));
                }),
                4 => step("audit in one", &[], &mut || {
                    let (ix, bl, be, de) = m.must("batch_unseal_prepare", || batch_unseal_prepare(&z, 0, n * c.block_pl(), &par));
                    let ok = accepts(|| batch_unseal_and_verify(&par, &o, &ix, &bl, &be, &de, &p, &iv));
                    m.check(ok, || format!("an honest audit is rejected after the history {:?}", hist));
                    answers.push(ok as u64);
                }),
                5 => step("commitment", &[], &mut || {
                    // any leaf size, over a part, the whole or more than the file
                    for (f, len) in [(&o, c.data_l()), (&o, c.data_l() - n), (&z, c.padded_l()), (&z, c.padded_l() + n), (&o, n)] {
                        for leaf in [1 + n * 7 % 50, c.unit_l, c.block_l() - 1, c.block_l() + n] {
                            let (l, _, ro) = m.must("generate_merkle_tree_from_file", || generate_merkle_tree_from_file(f, len, leaf));
                            answers.push(hash64(&(l, ro)));
                        }
                    }
                    let (l, tr, ro) = m.must("generate_merkle_tree_from_file", || generate_merkle_tree_from_file(&o, c.data_l(), c.block_l()));
                    let (l2, _, ro2) = m.must("generate_merkle_tree_from_data", || generate_merkle_tree_from_data(&ids));
                    let pr = m.must("generate_merkle_proof", || generate_merkle_proof(&idx, &tr)).to_bytes();
                    let ok = accepts(|| verify_merkle_proof(generate_merkle_proof(&idx, &tr), ro, &idx, &l));
                    answers.push(hash64(&(l, ro, l2, ro2, pr, ok)));
                }),
                7 => {
                    // an audit that fails must not touch anything either
                    let b = idx[0];
                    let mut bad = replica.clone();
                    let at = b * c.block_pl() + (idx.len() * 7) % c.block_pl();
                    bad[at] ^= 0x10;
                    if c.vde_rounds == 0 {
                        bad[b * c.block_pl()] ^= 1;
                    }
                    std::fs::write(&z, &bad).unwrap();
                    step("audit of a damaged replica", &[], &mut || {
                        let (mut bl, mut be, mut de) = (vec![], vec![], vec![]);
                        for &b in &idx {
                            let (x, y, w) = m.must("single_unseal_prepare", || single_unseal_prepare(&z, b, &par));
                            bl.push(x);
                            be.push(y);
                            de.push(w);
                        }
                        let a = accepts(|| batch_unseal_and_verify(&par, &o, &idx, &bl, &be, &de, &p, &iv));
                        let got = catch(|| batch_unseal(&par, &idx, &mut bl, &be, &de, &p, &iv));
                        let b = got.map(|g| (0..idx.len()).all(|i| accepts(|| batch_verify(&o, idx[i], &g[i], c.block_l(), c.unit_l)))).unwrap_or(false);
                        answers.push(hash64(&(a, b)));
                    });
                    std::fs::write(&z, &replica).unwrap();
                }
                _ => step("load_data", &[], &mut || {
                    let (k2, iv2) = m.must("load_data", || load_data(&t));
                    answers.push(hash64(&(k2.to_string(), iv2)));
                }),
            }
        }
        let half = answers.len() / 2;
        m.check(answers[..half] == answers[half..], || format!("asked twice, two answers (history {:?})", hist));
        m.count("operations repeated", 1);
    }
    m.check(std::fs::read(&z).unwrap() == replica, || "the replica changed between sealing and unsealing".into());
    m.distinct(&(c, &hist));
    // full unseal after that history
    step("unseal", &["sealed"], &mut || {
        m.must("unseal", || {
            let _ = unseal(&par, &z, &p, &iv);
        })
    });
    step("copy_and_compress", &["unsealed"], &mut || m.must("copy_and_compress", || copy_and_compress(&z, &u, c.data_l(), c.unit_l, c.unit_pl())));
    let got = std::fs::read(&u).unwrap();
    m.check(got == data, || format!("after the audits {:?} the data does not come back: {}", hist, first_diff(&got, &data)));
    m.sample(format!("{}; history {:?}", c.show(), hist));
    // read-only original and replica are enough for auditing
    std::env::set_current_dir("/").unwrap();
}

fn main() {
    let m = Mon::new("C21", "storage", "exploration", "directory snapshots (names, modes, bytes, a bystander file and the working directory included) around every step of seeded histories of padding, sealing, audits of every kind, commitments and parameter loads, each performed twice, followed by a full unseal; distinct by configuration and history");
    let mut r = m.rng(1);
    let mut cfgs = vec![];
    for ml in 0..=3 {
        for ms in 0..=2 {
            cfgs.push(Cfg { unit_l: 63, units: 3, blocks: 11, seal_rounds: 1, vde_rounds: 1, mode_l: ml, cnt_l: 3, mode_s: ms, cnt_s: 3 });
        }
    }
    for _ in 0..m.amount(150, 3000) {
        let b = *r.pick(&[6usize, 20, 60]);
        cfgs.push(Cfg::random(&mut r, b));
    }
    for (i, c) in cfgs.iter().enumerate() {
        let mut r = m.rng(100 + i as u64);
        run(m, &mut r, c);
    }
    m.finish();
}
