//! C14: audits accept intact storage and reject damaged storage.
use common::*;
use proof_of_storage::proof_of_storage::prover::{copy_and_pad, seal};
use proof_of_storage::proof_of_storage::verifier::*;
use rug::Integer;
use storage_mon::*;

struct Env<'a> {
    c: &'a Cfg,
    o: String,
    z: String,
    p: Integer,
    iv: Vec<u8>,
}

/// The audit paths the crate offers, by name, for one set of blocks.
fn audits(e: &Env, idx: &[usize], threads: usize) -> Vec<(String, bool)> {
    let par = e.c.params();
    let c = e.c;
    let mut out = vec![];
    // single hand-outs, sequential recovery
    out.push((
        "single hand-outs, batch recovery".to_string(),
        accepts(|| {
            let (mut bl, mut be, mut de) = (vec![], vec![], vec![]);
            for &b in idx {
                let (x, y, z) = single_unseal_prepare(&e.z, b, &par);
                bl.push(x);
                be.push(y);
                de.push(z);
            }
            let idxv = idx.to_vec();
            let got = batch_unseal(&par, &idxv, &mut bl, &be, &de, &e.p, &e.iv);
            (0..idx.len()).all(|i| batch_verify(&e.o, idx[i], &got[i], c.block_l(), c.unit_l).accepted())
        }),
    ));
    out.push((
        format!("single hand-outs, parallel recovery with {} threads", threads),
        accepts(|| {
            let (mut bl, mut be, mut de) = (vec![], vec![], vec![]);
            for &b in idx {
                let (x, y, z) = single_unseal_prepare(&e.z, b, &par);
                bl.push(x);
                be.push(y);
                de.push(z);
            }
            let idxv = idx.to_vec();
            let got = batch_unseal_parallel(&par, &idxv, &bl, &be, &de, &e.p, &e.iv, threads);
            (0..idx.len()).all(|i| batch_verify(&e.o, idx[i], &got[i], c.block_l(), c.unit_l).accepted())
        }),
    ));
    out.push((
        "single hand-outs, recovery and comparison in one".to_string(),
        accepts(|| {
            let (mut bl, mut be, mut de) = (vec![], vec![], vec![]);
            for &b in idx {
                let (x, y, z) = single_unseal_prepare(&e.z, b, &par);
                bl.push(x);
                be.push(y);
                de.push(z);
            }
            batch_unseal_and_verify(&par, &e.o, &idx.to_vec(), &bl, &be, &de, &e.p, &e.iv)
        }),
    ));
    // contiguous sets also go through the range hand-out
    if idx.windows(2).all(|w| w[1] == w[0] + 1) && !idx.is_empty() {
        let (a, z) = (idx[0] * c.block_pl(), (idx[idx.len() - 1] + 1) * c.block_pl());
        out.push((
            "range hand-out, recovery and comparison in one".to_string(),
            accepts(|| {
                let (ix, bl, be, de) = batch_unseal_prepare(&e.z, a, z, &par);
                if ix != idx {
                    return false;
                }
                batch_unseal_and_verify(&par, &e.o, &ix, &bl, &be, &de, &e.p, &e.iv).accepted()
            }),
        ));
    }
    out
}

fn choose_set(r: &mut Rng, blocks: usize, must: usize) -> Vec<usize> {
    if blocks > 300 && r.coin() {
        // a long audit, the wanted block anywhere in it
        let n = r.range(200, blocks);
        let mut v: Vec<usize> = (0..blocks).filter(|b| *b != must).collect();
        r.shuffle(&mut v);
        v.truncate(n);
        let at = if r.coin() { v.len() } else { r.below(v.len()) };
        v.insert(at, must);
        return v;
    }
    if r.coin() {
        // contiguous
        let a = r.range(0, must);
        let z = r.range(must, blocks - 1);
        (a.max(must.saturating_sub(3))..=z.min(must + 3)).collect()
    } else {
        let mut v = vec![must];
        for _ in 0..r.below(4) {
            let x = r.below(blocks);
            if !v.contains(&x) {
                v.push(x);
            }
        }
        if r.coin() {
            v.sort();
        } else {
            r.shuffle(&mut v);
        }
        v
    }
}

fn run(m: &Mon, r: &mut Rng, c: &Cfg, damages: usize) {
    let s = Scratch::new("c14");
    let mut e = Env { c, o: s.path("origin"), z: s.path("sealed"), p: prime(c.unit_pl()), iv: r.bytes(128) };
    let data = r.content(c.data_l()).0;
    std::fs::write(&e.o, &data).unwrap();
    let par = c.params();
    m.case(format!("sealing {}", c.show()));
    m.must("copy_and_pad", || copy_and_pad(&e.o, &e.z, c.data_l(), c.unit_l));
    m.must("seal", || {
        let _ = seal(&par, &e.z, &e.p, &e.iv);
    });
    let replica = std::fs::read(&e.z).unwrap();
    let model = ref_seal(c, &data, &e.p, &e.iv);

    // honest audits
    let full: Vec<usize> = (0..c.blocks).collect();
    let t = r.below(c.blocks);
    for idx in [full.clone(), choose_set(r, c.blocks, t)] {
        m.case(format!("honest audit of {:?}: {}", idx, c.show()));
        let th = r.range(1, 9);
        for (how, ok) in audits(&e, &idx, th) {
            m.check(ok, || format!("intact storage is rejected ({})", how));
            m.count("honest audits accepted", 1);
        }
        m.distinct(&(c, &idx, "honest"));
    }

    for k in 0..damages {
        let target = match k % 4 {
            0 => 0,
            1 => c.blocks - 1,
            _ => r.below(c.blocks),
        };
        let idx = choose_set(r, c.blocks, target);
        let mut z = replica.clone();
        let mut o = data.clone();
        let (p0, iv0) = (e.p.clone(), e.iv.clone());
        let bp = c.block_pl();
        let what = match r.below(19) {
            0 | 1 => {
                // one bit of the audited block; first and last byte included
                let pos = match r.below(4) {
                    0 => 0,
                    1 => bp - 1,
                    _ => r.below(bp),
                };
                let bit = r.below(8);
                z[target * bp + pos] ^= 1 << bit;
                format!("bit {} of byte {} of sealed block {}", bit, pos, target)
            }
            2 => {
                if target == 0 {
                    continue;
                }
                let pos = r.below(bp);
                z[(target - 1) * bp + pos] ^= 1 << r.below(8);
                format!("one bit of byte {} of block {}, which block {} chains from", pos, target - 1, target)
            }
            3 => {
                let d = &model.deps[target];
                if d.is_empty() {
                    continue;
                }
                let b = *r.pick(d);
                let pos = r.below(bp);
                z[b * bp + pos] ^= 1 << r.below(8);
                format!("one bit of byte {} of block {}, which block {} depends on", pos, b, target)
            }
            4 | 5 => {
                let pos = match r.below(4) {
                    0 => 0,
                    1 => c.block_l() - 1,
                    2 => r.below(c.units) * c.unit_l + c.unit_l - 1,
                    _ => r.below(c.block_l()),
                };
                let bit = r.below(8);
                o[target * c.block_l() + pos] ^= 1 << bit;
                format!("bit {} of byte {} of original block {}", bit, pos, target)
            }
            6 => {
                let i = r.below(e.iv.len());
                e.iv[i] ^= 1 << r.below(8);
                format!("byte {} of the secret", i)
            }
            7 => {
                let mut q = e.p.clone();
                q -= 4u32 * (1 + r.below(1000) as u32);
                e.p = q;
                "the key".to_string()
            }
            8 => {
                let len = target * bp + r.below(bp);
                z.truncate(len);
                format!("replica truncated to {} bytes, within block {}", len, target)
            }
            9 => {
                let b = r.below(c.blocks);
                if b == target || c.blocks < 2 {
                    continue;
                }
                let x: Vec<u8> = z[b * bp..(b + 1) * bp].to_vec();
                z[target * bp..(target + 1) * bp].copy_from_slice(&x);
                format!("sealed block {} replaced by block {}", target, b)
            }
            10 => {
                // the original, unsealed
                let x = pad(&data[target * c.block_l()..(target + 1) * c.block_l()], c.unit_l);
                z[target * bp..(target + 1) * bp].copy_from_slice(&x);
                format!("block {} stored unsealed", target)
            }
            11 | 12 => {
                // two alterations that cancel in a sum or an exclusive or
                let bl = c.block_l();
                let (i, j) = (r.below(bl), r.below(bl));
                if i == j {
                    continue;
                }
                let base = target * bl;
                match r.below(3) {
                    0 => {
                        let bit = 1u8 << r.below(8);
                        o[base + i] ^= bit;
                        o[base + j] ^= bit;
                        format!("the same bit of bytes {} and {} of original block {}", i, j, target)
                    }
                    1 => {
                        o[base + i] = o[base + i].wrapping_add(1);
                        o[base + j] = o[base + j].wrapping_sub(1);
                        format!("bytes {} and {} of original block {}, up and down by one", i, j, target)
                    }
                    _ => {
                        if o[base + i] == o[base + j] {
                            continue;
                        }
                        o.swap(base + i, base + j);
                        format!("bytes {} and {} of original block {}, exchanged", i, j, target)
                    }
                }
            }
            13 => {
                if c.units < 2 {
                    continue;
                }
                let (u, v) = (r.below(c.units), r.below(c.units));
                let at = |u: usize| target * c.block_l() + u * c.unit_l;
                if u == v || o[at(u)..at(u) + c.unit_l] == o[at(v)..at(v) + c.unit_l] {
                    continue;
                }
                for k in 0..c.unit_l {
                    o.swap(at(u) + k, at(v) + k);
                }
                format!("units {} and {} of original block {}, exchanged", u, v, target)
            }
            14 => {
                if c.units < 2 {
                    continue;
                }
                let (u, v) = (r.below(c.units), r.below(c.units));
                let w = c.unit_pl();
                let at = |u: usize| target * bp + u * w;
                if z[at(u)..at(u) + w] == z[at(v)..at(v) + w] {
                    continue;
                }
                for k in 0..w {
                    z.swap(at(u) + k, at(v) + k);
                }
                format!("units {} and {} of sealed block {}, exchanged", u, v, target)
            }
            15 => {
                let b = r.below(c.blocks);
                if b == target {
                    continue;
                }
                for k in 0..bp {
                    z.swap(target * bp + k, b * bp + k);
                }
                format!("sealed blocks {} and {}, exchanged", target, b)
            }
            16 => {
                let b = r.below(c.blocks);
                if b == target {
                    continue;
                }
                for k in 0..c.block_l() {
                    o.swap(target * c.block_l() + k, b * c.block_l() + k);
                }
                format!("original blocks {} and {}, exchanged", target, b)
            }
            17 => {
                let n = r.range(1, bp);
                let a = r.below(bp - n + 1);
                let x = r.bytes(n);
                z[target * bp + a..target * bp + a + n].copy_from_slice(&x);
                if z == replica {
                    continue;
                }
                format!("bytes {}..{} of sealed block {} overwritten", a, a + n, target)
            }
            _ => {
                let u = r.below(c.units);
                for b in z[target * bp + u * c.unit_pl()..target * bp + (u + 1) * c.unit_pl()].iter_mut() {
                    *b = 0;
                }
                format!("unit {} of block {} zeroed", u, target)
            }
        };
        // zeros stand for bytes past the end of a file
        let mut zz = z.clone();
        zz.resize(replica.len(), 0);
        if zz == replica && o == data && e.p == p0 && e.iv == iv0 {
            m.count("damages that changed nothing", 1);
            continue;
        }
        let mut idx = idx;
        if what == "the key" || what.contains("secret") {
            if what.contains("secret") && !idx.contains(&0) {
                idx.push(0);
            }
        }
        std::fs::write(&e.z, &z).unwrap();
        std::fs::write(&e.o, &o).unwrap();
        m.case(format!("audit of {:?} with damage to {}: {}", idx, what, c.show()));
        let th = r.range(1, 9);
        for (how, ok) in audits(&e, &idx, th) {
            m.check(!ok, || format!("damage is not noticed ({})", how));
            m.count("damaged audits rejected", 1);
        }
        let kind: String = what.chars().filter(|c| !c.is_ascii_digit()).collect();
        m.count(&format!("damage: {}", kind.split_whitespace().collect::<Vec<_>>().join(" ")), 1);
        m.distinct(&(c, &idx, &what));
        m.sample(format!("{:?}: {}", idx, what));
        e.p = p0;
        e.iv = iv0;
    }
    std::fs::write(&e.z, &replica).unwrap();
    std::fs::write(&e.o, &data).unwrap();
    // intact again
    m.case(format!("audit of everything after repair: {}", c.show()));
    for (how, ok) in audits(&e, &full, 4) {
        m.check(ok, || format!("restored storage is rejected ({})", how));
    }
}

/// Damage beyond 2 and 4 GB of the replica and of the original.
fn far_audits(m: &Mon, r: &mut Rng, c: &Cfg, targets: &[usize]) {
    use std::os::unix::fs::FileExt;
    let s = Scratch::new("c14");
    let e = Env { c, o: s.path("origin"), z: s.path("sealed"), p: prime(c.unit_pl()), iv: r.bytes(128) };
    let f = match far(c, r, &e.o, &e.z, targets, &e.p, &e.iv) {
        Some(f) => f,
        None => {
            m.count("replicas beyond 4 GB the file system has no room for", 1);
            return;
        }
    };
    let open = |p: &str| std::fs::OpenOptions::new().read(true).write(true).open(p).unwrap();
    let (fo, fz) = (open(&e.o), open(&e.z));
    let flip = |f: &std::fs::File, at: usize, bit: u8| {
        let mut b = [0u8];
        f.read_exact_at(&mut b, at as u64).unwrap();
        b[0] ^= bit;
        f.write_all_at(&b, at as u64).unwrap();
    };
    let judge = |idx: &[usize], want: bool, what: &str| {
        m.case(format!("audit of {:?}, {}: {}", idx, what, c.show()));
        for (how, ok) in audits(&e, idx, 3) {
            m.check(ok == want, || if want { format!("intact storage is rejected ({})", how) } else { format!("damage is not noticed ({})", how) });
            m.count(if want { "honest audits beyond 2 GB accepted" } else { "damaged audits beyond 2 GB rejected" }, 1);
        }
        m.distinct(&(c, idx, what));
    };
    let all: Vec<usize> = f.blocks.keys().cloned().collect();
    judge(&all, true, "intact");
    for &b in &all {
        let bit = 1u8 << r.below(8);
        let pos = b * c.block_pl() + r.below(c.block_pl());
        flip(&fz, pos, bit);
        judge(&[b], false, &format!("byte {} of the replica altered", pos));
        flip(&fz, pos, bit);
        let pos = b * c.block_l() + r.below(c.block_l());
        flip(&fo, pos, bit);
        judge(&[b], false, &format!("byte {} of the original altered", pos));
        flip(&fo, pos, bit);
        let n = *r.pick(&f.needs[&b]);
        let pos = n * c.block_pl() + r.below(c.block_pl());
        flip(&fz, pos, bit);
        judge(&[b], false, &format!("byte {} of the replica altered, in block {} it needs", pos, n));
        flip(&fz, pos, bit);
    }
    judge(&all, true, "repaired");
}

/// The comparison of large blocks: alterations near and beyond round places.
fn compare_large(m: &Mon, r: &mut Rng, unit_l: usize, units: usize, blocks: usize) {
    let s = Scratch::new("c14");
    let o = s.path("origin");
    let data = r.bytes(unit_l * units * blocks);
    std::fs::write(&o, &data).unwrap();
    for b in 0..blocks {
        let mut un: Vec<Vec<u8>> = data[b * unit_l * units..(b + 1) * unit_l * units].chunks(unit_l).map(|u| [u, &[0u8][..]].concat()).collect();
        m.case(format!("comparing block {} of {} units of {} with itself", b, units, unit_l));
        m.check(accepts(|| batch_verify(&o, b, &un, unit_l * units, unit_l)), || "the original block is rejected".into());
        let mut at: Vec<usize> = vec![0, units - 1, units - 2, units / 2];
        let mut k = 16;
        while k < units {
            at.extend([k - 1, k, k + 1]);
            k *= 2;
        }
        for _ in 0..m.amount(6, 60) {
            at.push(r.below(units));
        }
        for u in at.into_iter().filter(|u| *u < units) {
            let (i, bit) = (r.below(unit_l), r.below(8));
            un[u][i] ^= 1 << bit;
            m.case(format!("comparing block {} with bit {} of byte {} of unit {} flipped; {} units of {}", b, bit, i, u, units, unit_l));
            m.check(!accepts(|| batch_verify(&o, b, &un, unit_l * units, unit_l)), || "the altered block is accepted".into());
            un[u][i] ^= 1 << bit;
            m.count("alterations of large blocks noticed by the comparison", 1);
            m.distinct(&(unit_l, units, b, u, i, bit));
        }
        un.pop();
        m.case("comparing a large block with its last unit missing");
        m.check(!accepts(|| batch_verify(&o, b, &un, unit_l * units, unit_l)), || "a block that lacks its last unit is accepted".into());
    }
}

/// The comparison itself, at every byte.
fn compare_everywhere(m: &Mon, r: &mut Rng, unit_l: usize, units: usize, blocks: usize) {
    let s = Scratch::new("c14");
    let o = s.path("origin");
    let mut data = r.bytes(unit_l * units * blocks);
    if blocks > 2 {
        // a hole, and a block of ones
        data[unit_l * units..2 * unit_l * units].fill(0);
        data[2 * unit_l * units..3 * unit_l * units].fill(0xff);
    }
    std::fs::write(&o, &data).unwrap();
    for b in 0..blocks {
        let mut un: Vec<Vec<u8>> = data[b * unit_l * units..(b + 1) * unit_l * units].chunks(unit_l).map(|u| [u, &[0u8][..]].concat()).collect();
        m.case(format!("comparing block {} of {} with itself", b, blocks));
        m.check(accepts(|| batch_verify(&o, b, &un, unit_l * units, unit_l)), || "the original block is rejected".into());
        for u in 0..units {
            for i in 0..unit_l {
                let bit = r.below(8);
                un[u][i] ^= 1 << bit;
                m.case(format!("comparing block {} with bit {} of byte {} of unit {} flipped; {} units of {}", b, bit, i, u, units, unit_l));
                m.check(!accepts(|| batch_verify(&o, b, &un, unit_l * units, unit_l)), || "the altered block is accepted".into());
                un[u][i] ^= 1 << bit;
                m.count("altered bytes noticed by the comparison", 1);
                m.distinct(&(unit_l, units, b, u, i, bit));
            }
        }
        // pairs of alterations that cancel in a sum or an exclusive or
        let len = unit_l * units;
        for k in 0..m.amount(4, 40) * len {
            let (i, j) = if k < len { (k, (k + 1) % len) } else { (r.below(len), r.below(len)) };
            if i == j {
                continue;
            }
            let (a, z) = ((i / unit_l, i % unit_l), (j / unit_l, j % unit_l));
            let (x, y) = (un[a.0][a.1], un[z.0][z.1]);
            let what = match r.below(3) {
                0 => {
                    let bit = 1u8 << r.below(8);
                    un[a.0][a.1] ^= bit;
                    un[z.0][z.1] ^= bit;
                    "the same bit flipped in both"
                }
                1 => {
                    un[a.0][a.1] = x.wrapping_add(1);
                    un[z.0][z.1] = y.wrapping_sub(1);
                    "one up, the other down"
                }
                _ => {
                    un[a.0][a.1] = y;
                    un[z.0][z.1] = x;
                    "exchanged"
                }
            };
            if un[a.0][a.1] != x || un[z.0][z.1] != y {
                m.case(format!("comparing block {} with bytes {} and {} altered ({}); {} units of {}", b, i, j, what, units, unit_l));
                m.check(!accepts(|| batch_verify(&o, b, &un, unit_l * units, unit_l)), || "the altered block is accepted".into());
                m.count("altered pairs of bytes noticed by the comparison", 1);
            }
            un[a.0][a.1] = x;
            un[z.0][z.1] = y;
        }
        for ob in 0..blocks {
            if ob != b {
                m.case(format!("comparing block {} with block {}", b, ob));
                m.check(!accepts(|| batch_verify(&o, ob, &un, unit_l * units, unit_l)), || "another block is accepted".into());
            }
        }
        un.pop();
        m.case("comparing a block with its last unit missing");
        m.check(!accepts(|| batch_verify(&o, b, &un, unit_l * units, unit_l)), || "a block that lacks its last unit is accepted".into());
    }
}

fn main() {
    let m = Mon::new("C14", "", "exploration", "seeded sealed files over every dependency mode; honest audits of every block and of random sets; single damages to the audited block, its chain and dependency blocks, the original, the secret and the key, truncation, replay and unsealed storage, through every audit path; the comparison itself with every byte altered; distinct by configuration, block set and damage");
    m.case_limit(120);
    let mut cfgs = vec![];
    for mode_l in 0..=4 {
        for mode_s in 0..=3 {
            cfgs.push(Cfg { unit_l: 63, units: 2 + (mode_l + mode_s) % 5, blocks: 8 + 3 * mode_l, seal_rounds: 1 + mode_s % 2, vde_rounds: 1, mode_l, cnt_l: [0, 3, 20, 5][mode_s], mode_s, cnt_s: [10, 3, 0, 20, 5][mode_l] });
        }
    }
    cfgs.push(Cfg { unit_l: 63, units: 1, blocks: 1, seal_rounds: 1, vde_rounds: 1, mode_l: 0, cnt_l: 0, mode_s: 0, cnt_s: 4 });
    cfgs.push(Cfg { unit_l: 63, units: 3, blocks: 2, seal_rounds: 1, vde_rounds: 1, mode_l: 0, cnt_l: 0, mode_s: 0, cnt_s: 4 });
    cfgs.push(Cfg { unit_l: 127, units: 3, blocks: 6, seal_rounds: 2, vde_rounds: 2, mode_l: 0, cnt_l: 2, mode_s: 0, cnt_s: 4 });
    cfgs.push(Cfg { unit_l: 255, units: 2, blocks: 4, seal_rounds: 1, vde_rounds: 1, mode_l: 2, cnt_l: 3, mode_s: 2, cnt_s: 4 });
    cfgs.splice(0..0, [
        Cfg { unit_l: 63, units: 4200, blocks: 2, seal_rounds: 1, vde_rounds: 1, mode_l: 0, cnt_l: 1, mode_s: 0, cnt_s: 2 },
        Cfg { unit_l: 63, units: 1, blocks: 1100, seal_rounds: 1, vde_rounds: 1, mode_l: 0, cnt_l: 1, mode_s: 0, cnt_s: 2 },
        Cfg { unit_l: 63, units: 2, blocks: 3, seal_rounds: 20, vde_rounds: 1, mode_l: 0, cnt_l: 1, mode_s: 0, cnt_s: 2 },
        Cfg { unit_l: 63, units: 2, blocks: 3, seal_rounds: 1, vde_rounds: 40, mode_l: 0, cnt_l: 1, mode_s: 0, cnt_s: 2 },
    ]);
    let mut r = m.rng(1);
    for _ in 0..m.amount(250, 4000) {
        let mut c = Cfg::random(&mut r, 60);
        c.vde_rounds = c.vde_rounds.max(1);
        cfgs.push(c);
    }
    let d = m.amount(40, 60);
    parallel(cfgs.len(), threads(), |i| {
        let mut r = m.rng(100 + i as u64);
        run(m, &mut r, &cfgs[i], d);
    });
    let far = if reads_whole_files(m) { vec![] } else { far_cfgs() };
    parallel(far.len(), threads(), |i| {
        let mut r = m.rng(9000 + i as u64);
        far_audits(m, &mut r, &far[i].0, &far[i].1);
    });
    for (u, n, b) in [(63usize, 4096usize, 2usize), (63, 20_000, 2), (255, 3000, 2), (63, 70_000, 1)] {
        compare_large(m, &mut r, u, n, b);
    }
    for (u, n, b) in [(63usize, 3usize, 4usize), (63, 1, 2), (127, 2, 2), (255, 1, 2), (5, 7, 2)] {
        compare_everywhere(m, &mut r, u, n, b);
    }
    m.finish();
}
