//! C22: the storage protocol end to end, honest and tampered with.
use common::*;
use proof_of_storage::proof_of_storage::common::{blake3_hash, gen_posdata};
use proof_of_storage::proof_of_storage::merkle_tree::*;
use proof_of_storage::proof_of_storage::postorage::*;
use proof_of_storage::proof_of_storage::prover::*;
use proof_of_storage::proof_of_storage::verifier::*;
use std::fs::OpenOptions;
use storage_mon::*;

fn open_log(p: &str) -> std::fs::File {
    OpenOptions::new().read(true).append(true).create(true).open(p).unwrap()
}

fn flip(path: &str, at: usize, bit: usize) {
    let mut b = std::fs::read(path).unwrap();
    b[at] ^= 1 << bit;
    std::fs::write(path, b).unwrap();
}

/// The whole protocol, step by step, as the two parties would run it.
fn protocol(m: &Mon, r: &mut Rng, par: &PosPara, what: &str, rounds: usize) {
    let s = Scratch::new("c22");
    let (o, z, u, t) = (s.path("origin"), s.path("sealed"), s.path("unsealed"), s.path("params"));
    let blocks = par.data_l / par.block_l;
    m.case(format!("{}: create, commit, seal", what));
    m.must("create_random_file", || create_random_file(&o, par.data_l).unwrap());
    let data = std::fs::read(&o).unwrap();
    m.check(data.len() == par.data_l, || format!("{} bytes created, {} asked for", data.len(), par.data_l));
    let (_, _, origin_root) = m.must("generate_merkle_tree_from_file", || generate_merkle_tree_from_file(&o, par.data_l, par.block_l));
    m.must("copy_and_pad", || copy_and_pad(&o, &z, par.data_l, par.unit_l));
    let (key, iv) = m.must("prepare_params", || prepare_params(par.unit_pl));
    let ids = m.must("seal", || {
        let (ids, ..) = seal(par, &z, &key, &iv);
        ids
    });
    m.must("save_data", || save_data(&t, &key, &iv));
    m.check(ids.len() == blocks, || format!("{} sealed blocks, {} expected", ids.len(), blocks));
    let (leaves, tree, root) = m.must("generate_merkle_tree_from_data", || generate_merkle_tree_from_data(&ids));
    for round in 0..rounds {
        let n = r.range(1, blocks.min(10));
        let rnd = r.u64() as u8;
        let idx = m.must("create_challenges", || create_challenges(n, (0, blocks)));
        m.case(format!("{}: round {} on blocks {:?}", what, round, idx));
        // first response: digest of the sealed blocks
        let (mut bl, mut be, mut de) = (vec![], vec![], vec![]);
        let mut msg = vec![rnd];
        for &b in &idx {
            let (x, y, w) = m.must("single_unseal_prepare", || single_unseal_prepare(&z, b, par));
            for un in &x {
                msg.extend_from_slice(un);
            }
            bl.push(x);
            be.push(y);
            de.push(w);
        }
        let h = m.must("blake3_hash", || blake3_hash(&msg));
        // second response: membership of the sealed blocks
        let proof = m.must("generate_merkle_proof", || generate_merkle_proof(&idx, &tree));
        // verifier
        let flat: Vec<u8> = std::iter::once(rnd).chain(bl.iter().flatten().flatten().cloned()).collect();
        m.check(h == blake3_hash(&flat), || "the digest of the handed-out blocks does not match".into());
        for (i, &b) in idx.iter().enumerate() {
            let id = blake3_hash(&bl[i].concat());
            m.check(id == ids[b], || format!("sealed block {} handed out does not match the digest sealing returned", b));
        }
        m.check(accepts(|| verify_merkle_proof(proof, root, &idx, &leaves)), || "the membership proof is rejected".into());
        let (k2, iv2) = m.must("load_data", || load_data(&t));
        let th = *r.pick(&[0usize, 1, 2, 5, 10, 16]);
        let got = if th == 0 { m.must("batch_unseal", || batch_unseal(par, &idx, &mut bl, &be, &de, &k2, &iv2)) } else { m.must("batch_unseal_parallel", || batch_unseal_parallel(par, &idx, &bl, &be, &de, &k2, &iv2, th)) };
        m.check(got.len() == idx.len(), || format!("{} blocks recovered of {}", got.len(), idx.len()));
        for (i, &b) in idx.iter().enumerate() {
            m.check(accepts(|| batch_verify(&o, b, &got[i], par.block_l, par.unit_l)), || format!("block {} is rejected ({} threads)", b, th));
        }
        m.count("challenge rounds passed", 1);
        m.count("blocks audited", idx.len() as u64);
        m.distinct(&(what.to_string(), &idx, th));
    }
    m.case(format!("{}: full unseal", what));
    m.must("unseal", || {
        let _ = unseal(par, &z, &key, &iv);
    });
    m.must("copy_and_compress", || copy_and_compress(&z, &u, par.data_l, par.unit_l, par.unit_pl));
    let (_, _, root2) = m.must("generate_merkle_tree_from_file", || generate_merkle_tree_from_file(&u, par.data_l, par.block_l));
    m.check(root2 == origin_root, || "the root of the recovered file is not the root of the original".into());
    m.check(std::fs::read(&u).unwrap() == data, || "the recovered file is not the original".into());
    m.count("protocols completed", 1);
    m.sample(what.to_string());
}

/// The drivers, honest and with something tampered between steps.
fn drivers(m: &Mon, r: &mut Rng, c: &Cfg) {
    let s = Scratch::new("c22d");
    let (o, z, u, t) = (s.path("origin"), s.path("sealed"), s.path("unsealed"), s.path("params"));
    let (mut f1, mut f2) = (open_log(&s.path("log")), open_log(&s.path("stat")));
    let par = c.params();
    let data = r.content(c.data_l()).0;
    std::fs::write(&o, &data).unwrap();
    let save = r.coin();
    m.case(format!("drivers: seal only: {}", c.show()));
    m.must("seal_and_unseal", || seal_and_unseal(&par, &o, &z, &u, &t, &mut f1, save, false, &mut f2));
    let replica = std::fs::read(&z).unwrap();
    let target = std::fs::read(&t).unwrap();
    let (key, iv) = m.must("load_data", || load_data(&t));
    let want = ref_seal(c, &data, &key, &iv);
    m.check(replica == want.bytes, || format!("the driver's replica is not the sealed original: {}", first_diff(&replica, &want.bytes)));
    let ths = [0usize, 1, 3, 10];
    for _ in 0..2 {
        let th = *r.pick(&ths);
        m.case(format!("drivers: audit with {} threads: {}", th, c.show()));
        m.check(accepts(|| test_unseal_single_and_verify(&par, &t, &o, &z, th)), || "the driver rejects intact storage".into());
        m.count("driver audits accepted", 1);
    }
    // tampering between steps
    for k in 0..m.amount(8, 20) {
        let th = *r.pick(&ths);
        let bit = r.below(8);
        let what = match k % 5 {
            0 => {
                let at = match r.below(3) {
                    0 => 0,
                    1 => 10 * c.block_pl() - 1,
                    _ => r.below(10 * c.block_pl()),
                };
                flip(&z, at, bit);
                format!("replica byte {}", at)
            }
            1 => {
                let at = match r.below(3) {
                    0 => 0,
                    1 => 10 * c.block_l() - 1,
                    _ => r.below(10 * c.block_l()),
                };
                flip(&o, at, bit);
                format!("original byte {}", at)
            }
            2 => {
                let mut iv2 = iv.clone();
                iv2[r.below(128)] ^= 1 << bit;
                let k2 = key.clone();
                save_data(&t, &k2, &iv2);
                "the saved secret".to_string()
            }
            3 => {
                save_data(&t, &rug::Integer::from(&key - 4u32), &iv);
                "the saved key".to_string()
            }
            _ => {
                let b = r.below(10);
                let mut d = replica.clone();
                d.truncate(b * c.block_pl() + r.below(c.block_pl()));
                std::fs::write(&z, d).unwrap();
                format!("replica cut within block {}", b)
            }
        };
        m.case(format!("drivers: audit with {} threads after tampering with {}: {}", th, what, c.show()));
        m.check(!accepts(|| test_unseal_single_and_verify(&par, &t, &o, &z, th)), || "the driver accepts".into());
        m.count("driver audits rejected after tampering", 1);
        m.distinct(&(c, what));
        std::fs::write(&z, &replica).unwrap();
        std::fs::write(&o, &data).unwrap();
        std::fs::write(&t, &target).unwrap();
    }
    // full run
    m.case(format!("drivers: seal and unseal: {}", c.show()));
    m.must("seal_and_unseal", || seal_and_unseal(&par, &o, &z, &u, &t, &mut f1, save, true, &mut f2));
    let got = std::fs::read(&u).unwrap();
    m.check(got == data, || format!("the driver's recovered file differs: {}", first_diff(&got, &data)));
    m.check(std::fs::read(&o).unwrap() == data, || "the driver changed the original".into());
    let n = r.range(1, c.blocks);
    for _ in 0..3 {
        m.case(format!("drivers: membership of {} leaves: {}", n, c.show()));
        m.check(accepts(|| merkle_tree_proof(&o, &u, c.data_l(), c.block_l(), n)), || "the driver rejects the recovered file".into());
        let at = match r.below(3) {
            0 => 0,
            1 => c.data_l() - 1,
            _ => r.below(c.data_l()),
        };
        flip(&u, at, r.below(8));
        m.case(format!("drivers: membership of {} leaves after tampering with byte {} of the recovered file: {}", n, at, c.show()));
        m.check(!accepts(|| merkle_tree_proof(&o, &u, c.data_l(), c.block_l(), n)), || "the driver accepts".into());
        std::fs::write(&u, &data).unwrap();
        m.count("driver commitments checked both ways", 1);
    }
    // other data in the same place: nothing of the earlier runs may stay
    for k in 0..2 {
        let data = r.content(c.data_l()).0;
        std::fs::write(&o, &data).unwrap();
        m.case(format!("drivers: seal again ({}): {}", k, c.show()));
        m.must("seal_and_unseal", || seal_and_unseal(&par, &o, &z, &u, &t, &mut f1, save, false, &mut f2));
        let th = *r.pick(&ths);
        m.check(accepts(|| test_unseal_single_and_verify(&par, &t, &o, &z, th)), || "the driver rejects the replica it has just made over an earlier one".into());
        m.count("driver runs over earlier ones", 1);
    }
    m.count("driver runs", 1);
}

/// The top driver with its fixed relative paths, in a working directory of its own.
fn top(m: &Mon, c: &Cfg, i: usize) {
    let s = Scratch::new("c22t");
    std::env::set_current_dir(s.dir()).unwrap();
    std::fs::create_dir_all("src/proof_of_storage/data").unwrap();
    let th = [0usize, 1, 4, 10][i % 4];
    let path = |d: [&str; 4]| -> String { d.join("/") };
    m.case(format!("top driver: seal, audit with {} threads: {}", th, c.show()));
    m.must("test_postorage", || test_postorage(c.params(), true, true, false, false, true, th));
    let (o, z, u) = (path(ORIGIN_DATA_DIR), path(SEALED_DATA_DIR), path(UNSEALED_DATA_DIR));
    m.check(std::fs::read(&o).unwrap().len() == c.data_l(), || "the original has the wrong size".into());
    m.check(std::fs::read(&z).unwrap().len() == c.padded_l(), || "the replica has the wrong size".into());
    m.case(format!("top driver: audit again: {}", c.show()));
    m.must("test_postorage", || test_postorage(c.params(), false, false, false, false, true, th));
    flip(&z, (i * 37) % (10 * c.block_pl()), i % 8);
    m.case(format!("top driver: audit after tampering: {}", c.show()));
    m.check(!accepts(|| test_postorage(c.params(), false, false, false, false, true, th)), || "accepts a damaged replica".into());
    m.case(format!("top driver: seal, unseal, membership: {}", c.show()));
    m.must("test_postorage", || test_postorage(c.params(), i % 2 == 0, true, true, true, false, th));
    m.check(std::fs::read(&o).unwrap() == std::fs::read(&u).unwrap(), || "the recovered file is not the original".into());
    flip(&u, (i * 101) % c.data_l(), i % 8);
    m.case(format!("top driver: membership after tampering: {}", c.show()));
    m.check(!accepts(|| test_postorage(c.params(), false, false, false, true, false, th)), || "accepts a damaged file".into());
    m.case(format!("top driver: seal and audit over earlier runs: {}", c.show()));
    m.must("test_postorage", || test_postorage(c.params(), false, true, false, false, true, th));
    m.count("top driver runs", 1);
    m.distinct(&("top", c, th));
    std::env::set_current_dir("/").unwrap();
}

fn main() {
    let m = Mon::new("C22", "", "exploration", "the protocol run step by step and through the crate's drivers over predefined configurations (with fewer blocks, the larger ones with fewer delay rounds; the two smaller ones whole in the thorough tier) and seeded ones, with challenge rounds on random blocks and thread counts, and with one thing tampered with between steps; distinct by configuration, challenged blocks and tampering");
    // predefined configurations are consistent
    let pre: Vec<(usize, PosPara)> = [1usize, 4, 16, 64].iter().map(|&l| (l, m.must("gen_posdata", || gen_posdata(l)))).collect();
    for (l, p) in &pre {
        m.case(format!("predefined configuration {}", l));
        m.check(p.data_l == l * 63 * 16 * 1024, || format!("holds {} bytes", p.data_l));
        m.check(p.unit_pl == p.unit_l + 1 && [64, 128, 256].contains(&p.unit_pl), || format!("units of {} padded to {}", p.unit_l, p.unit_pl));
        m.check(p.block_l % p.unit_l == 0 && p.data_l % p.block_l == 0, || "sizes are not whole multiples".into());
        m.check(p.block_pl == p.block_l / p.unit_l * p.unit_pl, || "padded block size does not match".into());
        m.check(p.data_l / p.block_l >= 10 && p.leaves_to_prove_count <= p.data_l / p.block_l, || "fewer blocks than challenged".into());
        m.check(p.seal_rounds > 0 && p.vde_rounds > 0, || "no sealing".into());
        m.count("predefined configurations", 1);
    }
    let mut r = m.rng(1);
    let mut jobs: Vec<(String, PosPara, usize)> = vec![];
    for (l, p) in &pre {
        let mut q = p.clone();
        if m.thorough() && *l <= 4 {
            jobs.push((format!("predefined configuration {}", l), q.clone(), 10));
        }
        q.data_l = q.block_l * [40, 12, 11, 11][[1, 4, 16, 64].iter().position(|x| x == l).unwrap()];
        if *l > 1 {
            q.vde_rounds = if *l == 4 { 3 } else { 0 };
        }
        if *l == 64 {
            q.seal_rounds = 1;
        }
        jobs.push((format!("predefined configuration {}, shortened", l), q, 4));
    }
    for _ in 0..m.amount(120, 3000) {
        let c = Cfg::random(&mut r, 60);
        jobs.push((c.show(), c.params(), 3));
    }
    let mut dr: Vec<Cfg> = vec![];
    for ml in 0..=3 {
        for ms in 0..=2 {
            dr.push(Cfg { unit_l: 63, units: 1 + (ml + ms) % 4, blocks: 10 + 2 * ml, seal_rounds: 1, vde_rounds: 1, mode_l: ml, cnt_l: 2, mode_s: ms, cnt_s: 3 });
        }
    }
    while dr.len() < m.amount(60, 1500) {
        let mut c = Cfg::random(&mut r, 60);
        c.vde_rounds = c.vde_rounds.max(1);
        if c.blocks >= 10 {
            dr.push(c);
        }
    }
    let n = jobs.len();
    parallel(n + dr.len(), threads(), |i| {
        let mut r = m.rng(100 + i as u64);
        if i < n {
            protocol(m, &mut r, &jobs[i].1, &jobs[i].0, jobs[i].2);
        } else {
            drivers(m, &mut r, &dr[i - n]);
        }
    });
    for i in 0..m.amount(12, 100) {
        top(m, &dr[i % dr.len()], i);
    }
    m.finish();
}
