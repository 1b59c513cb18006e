//! C17: Merkle commitments.
use common::*;
use proof_of_storage::proof_of_storage::merkle_tree::*;
use rs_merkle::{algorithms::Sha256, MerkleProof};
use std::collections::BTreeSet;
use std::io::{Seek, SeekFrom, Write};
use storage_mon::*;

fn leaves_of(data: &[u8], leaf: usize) -> Vec<Vec<u8>> {
    data.chunks(leaf)
        .map(|c| {
            let mut v = c.to_vec();
            v.resize(leaf, 0);
            v
        })
        .collect()
}

/// Contents with equal leaves: neighbours, far apart, all of them, or none.
fn content(r: &mut Rng, len: usize, leaf: usize) -> Vec<u8> {
    let mut v = r.bytes(len);
    let n = len / leaf;
    match r.below(4) {
        0 => v = r.content(len).0,
        1 if n > 1 => {
            for _ in 0..r.range(1, 3) {
                // equal neighbours, also in runs
                let a = r.below(n - 1);
                for b in a + 1..(a + 1 + r.range(1, 4)).min(n) {
                    v.copy_within(a * leaf..(a + 1) * leaf, b * leaf);
                }
            }
        }
        2 if n > 1 => {
            for _ in 0..r.range(1, 4) {
                let (a, b) = (r.below(n), r.below(n));
                v.copy_within(a * leaf..(a + 1) * leaf, b * leaf);
            }
        }
        _ => {}
    }
    v
}

fn run(m: &Mon, r: &mut Rng, n: usize, leaf: usize, partial: usize) {
    let s = Scratch::new("c17");
    let f = s.path("file");
    let len = n * leaf - partial;
    let data = content(r, len, leaf);
    std::fs::write(&f, &data).unwrap();
    m.case(format!("{} leaves of {} bytes, {} missing from the last", n, leaf, partial));
    let (leaves, tree, root) = m.must("generate_merkle_tree_from_file", || generate_merkle_tree_from_file(&f, len, leaf));
    m.check(leaves.len() == n, || format!("{} leaves instead of {}", leaves.len(), n));
    let parts = leaves_of(&data, leaf);
    let (l2, t2, root2) = m.must("generate_merkle_tree_from_data", || generate_merkle_tree_from_data(&parts));
    m.check(leaves == l2, || format!("leaf {:?} from the file differs from the same leaf in memory", (0..n).find(|&i| leaves.get(i) != l2.get(i))));
    m.check(root == root2 && tree.root() == Some(root) && t2.root() == Some(root), || "the root from the file differs from the root of the same leaves in memory".into());
    let differ = parts.iter().collect::<BTreeSet<_>>().len();
    m.check(leaves.iter().collect::<BTreeSet<_>>().len() == differ, || "two different leaves have one digest, or equal ones two".into());
    let all_differ = differ == n;
    m.count(if all_differ { "commitments to different leaves" } else { "commitments with equal leaves" }, 1);
    m.count("commitments", 1);

    // every byte matters (all of them for small files)
    let positions: Vec<usize> = if len <= m.amount(700, 4000) { (0..len).collect() } else { (0..m.amount(60, 400)).map(|k| match k { 0 => 0, 1 => len - 1, 2 => leaf - 1, 3 => leaf.min(len - 1), _ => r.below(len) }).collect() };
    let mut fh = std::fs::OpenOptions::new().write(true).open(&f).unwrap();
    for &pos in &positions {
        let b = data[pos] ^ (1 << r.below(8));
        fh.seek(SeekFrom::Start(pos as u64)).unwrap();
        fh.write_all(&[b]).unwrap();
        m.case(format!("{} leaves of {} bytes, byte {} altered", n, leaf, pos));
        let (lx, _, rx) = m.must("generate_merkle_tree_from_file", || generate_merkle_tree_from_file(&f, len, leaf));
        m.check(rx != root, || format!("the root does not depend on byte {} of {}", pos, len));
        let changed: Vec<usize> = (0..n).filter(|&i| lx[i] != leaves[i]).collect();
        m.check(changed == vec![pos / leaf], || format!("altering byte {} changed leaves {:?}", pos, changed));
        fh.seek(SeekFrom::Start(pos as u64)).unwrap();
        fh.write_all(&[data[pos]]).unwrap();
        m.count("altered bytes that changed the root", 1);
    }
    m.distinct(&(n, leaf, partial, hash64(&data)));
    // order matters
    if n > 1 {
        let (a, b) = (r.below(n), r.below(n));
        if parts[a] != parts[b] {
            let mut p2 = parts.clone();
            p2.swap(a, b);
            let (_, _, rx) = m.must("generate_merkle_tree_from_data", || generate_merkle_tree_from_data(&p2));
            m.check(rx != root, || format!("exchanging leaves {} and {} keeps the root", a, b));
            m.count("exchanged leaves", 1);
        }
        let mut p2 = parts.clone();
        p2.pop();
        let (_, _, rx) = m.must("generate_merkle_tree_from_data", || generate_merkle_tree_from_data(&p2));
        m.check(rx != root, || "dropping the last leaf keeps the root".into());
    }
    // membership
    let sets: Vec<Vec<usize>> = if n <= 6 { (1..1usize << n).map(|b| (0..n).filter(|i| b >> i & 1 == 1).collect()).collect() } else {
        let mut v: Vec<Vec<usize>> = vec![vec![0], vec![n - 1], (0..n).collect(), vec![0, n - 1]];
        for _ in 0..m.amount(12, 60) {
            let k = r.range(1, n.min(12));
            let mut s = BTreeSet::new();
            while s.len() < k {
                s.insert(r.below(n));
            }
            v.push(s.into_iter().collect());
        }
        v
    };
    for idx in &sets {
        let what = format!("{} leaves, proof for {:?}", n, idx);
        m.case(what.clone());
        let proof = || m.must("generate_merkle_proof", || generate_merkle_proof(idx, &tree));
        let bytes = proof().to_bytes();
        m.check(accepts(|| verify_merkle_proof(proof(), root, idx, &leaves)), || "an honest membership proof is rejected".into());
        m.count("honest proofs accepted", 1);
        // altered leaf
        let mut bad = leaves.clone();
        let v = *r.pick(idx);
        bad[v][r.below(32)] ^= 1 << r.below(8);
        m.check(!accepts(|| verify_merkle_proof(proof(), root, idx, &bad)), || format!("accepted with leaf {} altered", v));
        if n > 1 {
            let mut bad = leaves.clone();
            let o = (v + 1 + r.below(n - 1)) % n;
            bad[v] = leaves[o];
            m.check(parts[o] == parts[v] || !accepts(|| verify_merkle_proof(proof(), root, idx, &bad)), || format!("accepted with leaf {} in the place of leaf {}", o, v));
        }
        // altered root
        let mut badroot = root;
        badroot[r.below(32)] ^= 1 << r.below(8);
        m.check(!accepts(|| verify_merkle_proof(proof(), badroot, idx, &leaves)), || "accepted for another root".into());
        m.check(!accepts(|| verify_merkle_proof(proof(), [0u8; 32], idx, &leaves)), || "accepted for the zero root".into());
        // altered index
        let mut other: BTreeSet<usize> = idx.iter().cloned().collect();
        if other.len() < n && all_differ {
            other.remove(&v);
            let mut o = r.below(n);
            while idx.contains(&o) {
                o = (o + 1) % n;
            }
            other.insert(o);
            let other: Vec<usize> = other.into_iter().collect();
            m.check(!accepts(|| verify_merkle_proof(proof(), root, &other, &leaves)), || format!("accepted as a proof for {:?}", other));
            m.count("other index sets rejected", 1);
            // claimed at another position
            let mut moved = leaves.clone();
            moved[o] = leaves[v];
            m.check(!accepts(|| verify_merkle_proof(proof(), root, &other, &moved)), || format!("leaf {} is accepted at position {}", v, o));
        }
        let mut out = idx.clone();
        out[0] = n + r.below(3);
        m.check(!accepts(|| verify_merkle_proof(proof(), root, &out, &leaves)), || format!("accepted for the index {} of {} leaves", out[0], n));
        // altered proof
        if !bytes.is_empty() {
            let mut b = bytes.clone();
            let i = r.below(b.len());
            b[i] ^= 1 << r.below(8);
            m.check(!accepts(|| verify_merkle_proof(MerkleProof::<Sha256>::try_from(b).unwrap(), root, idx, &leaves)), || format!("accepted with byte {} of the proof altered", i));
            let short = bytes[..bytes.len() - 32].to_vec();
            m.check(!accepts(|| verify_merkle_proof(MerkleProof::<Sha256>::try_from(short).unwrap(), root, idx, &leaves)), || "accepted with the last digest of the proof missing".into());
            m.count("altered proofs rejected", 2);
        }
        m.count("altered leaves and roots rejected", 4);
        m.distinct(&(n, leaf, idx));
    }
    m.sample(format!("{} leaves of {} bytes, {} sets proved", n, leaf, sets.len()));
}

/// More leaves than 16 bits count.
fn many(m: &Mon, r: &mut Rng, n: usize) {
    let leaf = 5;
    let s = Scratch::new("c17");
    let f = s.path("file");
    let data = r.bytes(n * leaf);
    std::fs::write(&f, &data).unwrap();
    m.case(format!("{} leaves of {} bytes", n, leaf));
    let (leaves, tree, root) = m.must("generate_merkle_tree_from_file", || generate_merkle_tree_from_file(&f, n * leaf, leaf));
    let (l2, _, root2) = m.must("generate_merkle_tree_from_data", || generate_merkle_tree_from_data(&leaves_of(&data, leaf)));
    m.check(leaves.len() == n && leaves == l2 && root == root2, || "the commitment to the file differs from that to the same leaves in memory".into());
    for k in 0..8 {
        let b = (1 << 16) + r.below(n - (1 << 16));
        let a = b & 0xffff;
        let idx: Vec<usize> = match k % 4 {
            0 => vec![b],
            1 => vec![n - 1],
            2 => [a, b].to_vec(),
            _ => (0..10).map(|_| r.below(n)).chain([b]).collect::<BTreeSet<_>>().into_iter().collect(),
        };
        m.case(format!("{} leaves, proof for {:?}", n, idx));
        let proof = || m.must("generate_merkle_proof", || generate_merkle_proof(&idx, &tree));
        m.check(accepts(|| verify_merkle_proof(proof(), root, &idx, &leaves)), || "an honest membership proof is rejected".into());
        for &v in &idx {
            let mut bad = leaves.clone();
            bad[v][r.below(32)] ^= 1 << r.below(8);
            m.check(!accepts(|| verify_merkle_proof(proof(), root, &idx, &bad)), || format!("accepted with leaf {} altered", v));
        }
        if idx == [b] {
            m.check(!accepts(|| verify_merkle_proof(proof(), root, &[a], &leaves)), || format!("a proof for leaf {} is accepted for leaf {}", b, a));
        }
        m.count("proofs for leaves beyond 65536", 1);
        m.distinct(&(n, &idx));
    }
}

fn main() {
    let m = Mon::new("C17", "", "exploration", "every leaf count up to 20 and powers of two with neighbours, leaf sizes from 1 byte; every byte of small files altered; every subset of up to 6 leaves and random sets of more; altered leaves, roots, indices and proofs; distinct by leaf count, size and proved set");
    let mut cases = vec![];
    for n in 1..=20usize {
        cases.push((n, 32, 0));
        cases.push((n, 1 + n % 7 + 8, 0));
        cases.push((n, 20, n % 19));
    }
    for n in [31usize, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000] {
        cases.push((n, 24, 0));
    }
    cases.push((16, 63 * 64, 0));
    cases.push((3, 70_000, 0));
    cases.push((5, 63 * 64, 100));
    cases.push((2, 1_100_000, 0));
    let mut r = m.rng(1);
    for _ in 0..m.amount(1500, 20000) {
        let (a, b) = (r.range(1, 90), r.range(8, 300));
        cases.push((a, b, if r.one_in(3) { r.below(b) } else { 0 }));
    }
    parallel(cases.len(), threads(), |i| {
        let (n, l, p) = cases[i];
        let mut r = m.rng(100 + i as u64);
        run(m, &mut r, n, l, p);
    });
    many(m, &mut r, 65_536 + 1);
    many(m, &mut r, 131_072 + 77);
    m.finish();
}
