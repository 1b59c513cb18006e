//! C26, storage part: operations running at the same time do not disturb each other.
use common::jitter::{Jitter, ARMED, DELAYS};
use common::*;
use proof_of_storage::proof_of_storage::depend::{long_depend, long_mode_random, short_depend_random};
use proof_of_storage::proof_of_storage::merkle_tree::{generate_merkle_proof, generate_merkle_tree_from_file, verify_merkle_proof};
use proof_of_storage::proof_of_storage::postorage::{load_data, save_data};
use proof_of_storage::proof_of_storage::prover::{copy_and_compress, copy_and_pad, create_long_depend, create_short_depend, seal, unseal};
use proof_of_storage::proof_of_storage::verifier::*;
use proof_of_storage::vde::rug_vde::{vde, vde_inv};
use rug::Integer;
use std::sync::atomic::Ordering;
use storage_mon::*;

#[global_allocator]
static A: Jitter = Jitter;

struct File {
    c: Cfg,
    data: Vec<u8>,
    iv: Vec<u8>,
    p: Integer,
    o: String,
    z: String,
    u: String,
    k: String,
    model: Sealed,
    root: [u8; 32],
}

fn tree_root(data: &[u8], block_l: usize) -> [u8; 32] {
    use rs_merkle::{algorithms::Sha256, Hasher, MerkleTree};
    let leaves: Vec<[u8; 32]> = data.chunks(block_l).map(Sha256::hash).collect();
    MerkleTree::<Sha256>::from_leaves(&leaves).root().unwrap()
}

fn padded(c: &Cfg, data: &[u8], b: usize) -> Vec<Vec<u8>> {
    let mut v = origin_units(c, data, b);
    v.iter_mut().for_each(|u| u.push(0));
    v
}

/// one random read-only operation on one file
fn read_op(m: &Mon, ov: &Overlaps, r: &mut Rng, f: &File) {
    let c = &f.c;
    let par = c.params();
    let idx: Vec<usize> = (0..r.range(1, 4)).map(|_| r.below(c.blocks)).collect();
    let hand = || {
        let (mut bl, mut be, mut de) = (vec![], vec![], vec![]);
        for &b in &idx {
            let (x, y, z) = single_unseal_prepare(&f.z, b, &par);
            bl.push(x);
            be.push(y);
            de.push(z);
        }
        (bl, be, de)
    };
    match r.below(10) {
        0 => {
            let (bl, be, de) = ov.run("hand-out", || m.must("single_unseal_prepare", hand));
            for (i, &b) in idx.iter().enumerate() {
                let want: Vec<Vec<u8>> = f.model.bytes[b * c.block_pl()..(b + 1) * c.block_pl()].chunks(c.unit_pl()).map(|x| x.to_vec()).collect();
                m.check(bl[i] == want, || format!("hand-out of block {} differs: {}", b, c.show()));
                m.check(b == 0 || be[i] == f.model.ids[b - 1], || format!("predecessor's digest of block {} differs: {}", b, c.show()));
                m.check(de[i].len() == f.model.deps[b].len(), || format!("{} dependencies of block {} handed out: {}", de[i].len(), b, c.show()));
                for (k, &d) in f.model.deps[b].iter().enumerate() {
                    m.check(de[i][k].concat() == f.model.bytes[d * c.block_pl()..(d + 1) * c.block_pl()], || format!("dependency {} of block {} differs: {}", d, b, c.show()));
                }
            }
        }
        1 | 2 => {
            let got = ov.run("batch recovery", || m.must("batch_unseal", || {
                let (mut bl, be, de) = hand();
                batch_unseal(&par, &idx, &mut bl, &be, &de, &f.p, &f.iv)
            }));
            for (i, &b) in idx.iter().enumerate() {
                m.check(got[i] == padded(c, &f.data, b), || format!("batch recovery of block {} differs: {}", b, c.show()));
            }
        }
        3 | 4 => {
            let t = r.range(1, 6);
            let got = ov.run("parallel recovery", || m.must("batch_unseal_parallel", || {
                let (bl, be, de) = hand();
                batch_unseal_parallel(&par, &idx, &bl, &be, &de, &f.p, &f.iv, t)
            }));
            m.check(got.len() == idx.len(), || format!("{} of {} blocks recovered: {}", got.len(), idx.len(), c.show()));
            for (i, &b) in idx.iter().enumerate() {
                m.check(got[i] == padded(c, &f.data, b), || format!("parallel recovery of block {} differs: {}", b, c.show()));
            }
        }
        5 => {
            let ok = ov.run("audit", || accepts(|| {
                let (bl, be, de) = hand();
                batch_unseal_and_verify(&par, &f.o, &idx, &bl, &be, &de, &f.p, &f.iv)
            }));
            m.check(ok, || format!("an audit of intact blocks {:?} fails: {}", idx, c.show()));
        }
        6 => {
            let (_, tree, root) = ov.run("commitment", || m.must("generate_merkle_tree_from_file", || generate_merkle_tree_from_file(&f.o, c.data_l(), c.block_l())));
            m.check(root == f.root, || format!("the commitment differs: {}", c.show()));
            let ix = m.must("create_challenges", || create_challenges(c.blocks.min(3), (0, c.blocks)));
            let leaves: Vec<[u8; 32]> = f.data.chunks(c.block_l()).map(<rs_merkle::algorithms::Sha256 as rs_merkle::Hasher>::hash).collect();
            let ok = ov.run("membership proof", || accepts(|| verify_merkle_proof(generate_merkle_proof(&ix, &tree), root, &ix, &leaves)));
            m.check(ok, || format!("a true membership proof fails: {}", c.show()));
        }
        7 => {
            let (p, iv) = ov.run("loading parameters", || m.must("load_data", || load_data(&f.k)));
            m.check(p == f.p && iv == f.iv, || "loaded parameters differ".into());
        }
        8 => {
            let x = le(&rand_below(r, &f.p), c.unit_pl());
            let t = r.range(1, 4);
            let y = ov.run("delay", || m.must("vde", || vde(&x, &f.p, t, &"sloth".to_string(), c.unit_pl())));
            m.check(int(&y) == ref_sloth(&int(&x), &f.p, t), || "a delayed value differs".into());
            let b = ov.run("delay inverse", || m.must("vde_inv", || vde_inv(&y, &f.p, t, &"sloth".to_string(), c.unit_pl())));
            m.check(int(&b) == int(&x), || "an inverse differs".into());
        }
        _ => {
            let (n, i, k) = (r.range(2, 400), r.below(400), r.range(0, 40));
            let i = i % n;
            let d = r.bytes(32);
            let got = ov.run("dependencies", || m.must("dependencies", || {
                (long_mode_random(n, &d, i.max(1), k), short_depend_random(n, &d, i, k), long_depend(i, k, 1), create_long_depend(n.min(40), k, 2), create_short_depend(n.min(40), k, 1))
            }));
            let n4 = n.min(40);
            m.check(got.0 == ref_long_random(n, &d, i.max(1), k), || format!("random long dependencies differ: {} {} {}", n, i, k));
            m.check(got.1 == ref_short_random(n, &d, i, k), || format!("random short dependencies differ: {} {} {}", n, i, k));
            m.check(got.2 == ref_long(i, k, 1), || format!("long dependencies differ: {} {}", i, k));
            m.check(got.3 == (0..n4).map(|j| ref_long(j, k, 2)).collect::<Vec<_>>(), || format!("table of long dependencies differs: {} {}", n4, k));
            m.check(got.4 == (0..n4).map(|j| ref_short(n4, j, k, 1)).collect::<Vec<_>>(), || format!("table of short dependencies differs: {} {}", n4, k));
        }
    }
    m.eval(1);
}

fn round(m: &Mon, ov: &Overlaps, r: &mut Rng, no: usize) {
    let s = Scratch::new("c26");
    let n = r.range(3, 8);
    let same = r.one_in(3);
    let first = Cfg::random(r, 40);
    let files: Vec<File> = (0..n)
        .map(|i| {
            let mut c = if same { first.clone() } else { Cfg::random(r, 40) };
            c.vde_rounds = c.vde_rounds.max(1);
            let (data, _) = r.content(c.data_l());
            let iv = r.bytes(128);
            let p = prime(c.unit_pl());
            let model = ref_seal(&c, &data, &p, &iv);
            let root = tree_root(&data, c.block_l());
            let f = File { o: s.path(&format!("origin{}", i)), z: s.path(&format!("sealed{}", i)), u: s.path(&format!("unsealed{}", i)), k: s.path(&format!("key{}", i)), c, data, iv, p, model, root };
            std::fs::write(&f.o, &f.data).unwrap();
            f
        })
        .collect();
    m.distinct(&files.iter().map(|f| f.c.clone()).collect::<Vec<_>>());
    let show: Vec<String> = files.iter().map(|f| f.c.show()).collect();
    // different files sealed at once
    m.case(format!("round {}: {} files sealed at once; first: {}", no, n, show[0]));
    ARMED.store(*r.pick(&[0u64, 60, 600]), Ordering::Relaxed);
    let gate = std::sync::Barrier::new(n);
    std::thread::scope(|sc| {
        for f in &files {
            let gate = &gate;
            sc.spawn(move || {
                gate.wait();
                let par = f.c.params();
                ov.run("padding", || m.must("copy_and_pad", || copy_and_pad(&f.o, &f.z, f.c.data_l(), f.c.unit_l)));
                let ids = ov.run("sealing", || m.must("seal", || seal(&par, &f.z, &f.p, &f.iv).0));
                ov.run("saving parameters", || m.must("save_data", || save_data(&f.k, &f.p, &f.iv)));
                m.check(ids == f.model.ids, || format!("block digests differ when several files are sealed at once: {}", f.c.show()));
            });
        }
    });
    for f in &files {
        let z = std::fs::read(&f.z).unwrap();
        m.check(z == f.model.bytes, || format!("replica differs when several files are sealed at once: {} ({})", first_diff(&z, &f.model.bytes), f.c.show()));
        m.count("files sealed while others were being sealed", 1);
    }
    // everything that reads, at once, on the same files
    m.case(format!("round {}: reading operations at once on {} files; first: {}", no, n, show[0]));
    let seeds: Vec<Rng> = (0..8).map(|k| Rng::new(r.u64(), k)).collect();
    std::thread::scope(|sc| {
        for mut q in seeds {
            let files = &files;
            sc.spawn(move || {
                for _ in 0..10 {
                    let f = q.below(files.len());
                    read_op(m, ov, &mut q, &files[f]);
                }
            });
        }
    });
    m.count("reading operations at once", 80);
    // some files unsealed while the others are audited
    m.case(format!("round {}: unsealing and auditing at once on {} files; first: {}", no, n, show[0]));
    let (a, b) = files.split_at(n / 2);
    let seeds: Vec<Rng> = (0..4).map(|k| Rng::new(r.u64(), k)).collect();
    std::thread::scope(|sc| {
        for f in a {
            sc.spawn(move || {
                let par = f.c.params();
                ov.run("unsealing", || m.must("unseal", || {
                    let _ = unseal(&par, &f.z, &f.p, &f.iv);
                }));
                ov.run("compressing", || m.must("copy_and_compress", || copy_and_compress(&f.z, &f.u, f.c.data_l(), f.c.unit_l, f.c.unit_pl())));
            });
        }
        for mut q in seeds {
            sc.spawn(move || {
                for _ in 0..5 {
                    let f = q.below(b.len());
                    read_op(m, ov, &mut q, &b[f]);
                }
            });
        }
    });
    ARMED.store(0, Ordering::Relaxed);
    for f in a {
        let u = std::fs::read(&f.u).unwrap();
        m.check(u == f.data, || format!("recovered file differs when others are audited: {} ({})", first_diff(&u, &f.data), f.c.show()));
        m.count("files unsealed while others were audited", 1);
    }
    for f in b {
        let z = std::fs::read(&f.z).unwrap();
        m.check(z == f.model.bytes, || format!("a replica changed while another file was unsealed: {}", first_diff(&z, &f.model.bytes)));
    }
    for f in &files {
        let o = std::fs::read(&f.o).unwrap();
        m.check(o == f.data, || "an original changed".to_string());
    }
}

fn main() {
    let m = Mon::new("C26", "storage", "exploration", "rounds of 3 to 8 files of seeded configurations in one directory: sealed at once, read by every audit, recovery and commitment operation from eight threads at once, half of them unsealed while the others are audited; every result compared with the sequential reference; random delays injected into all threads; overlapping pairs of operations recorded; distinct by the configurations of a round");
    m.case_limit(240);
    let ov = Overlaps::new();
    for i in 0..m.amount(70, 1500) {
        let mut r = m.rng(2600 + i as u64);
        round(m, &ov, &mut r, i);
    }
    let (n, kinds) = ov.seen();
    m.count("operations seen overlapping another", n);
    m.count("distinct pairs of operations seen overlapping", kinds.len() as u64);
    m.count("delays injected", DELAYS.load(Ordering::Relaxed));
    m.sample(format!("overlapping pairs include {:?}", &kinds[..kinds.len().min(6)]));
    m.check(n > 100, || "the operations never overlapped".into());
    m.finish();
}
