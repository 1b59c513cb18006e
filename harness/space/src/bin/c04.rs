//! C04: the space verifier accepts a proof only for the statement it proves.
use ark_bls12_381::{Bls12_381, Fr, G1Affine, G2Affine};
use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_groth16::{PreparedVerifyingKey, Proof};
use common::*;
use proof_of_space::mimc::mimc_df::MIMC5_DF_ROUNDS;
use proof_of_space::mimc::mimc_hash::MIMC5_HASH_ROUNDS;
use proof_of_space::proof_of_space::pospace::{N, RESPONSE_COUNT};
use proof_of_space::proof_of_space::prover::{construct_circuit, response_1, response_2};
use proof_of_space::proof_of_space::verifier::verify;
use space_mon::*;

#[derive(Clone)]
struct Session {
    pvk: PreparedVerifyingKey<Bls12_381>,
    proof: Proof<Bls12_381>,
    key: Fr,
    m: Fr,
    ch: Vec<usize>,
    idx: Vec<usize>,
    h: Fr,
    xs: Vec<Fr>,
    empty: Vec<usize>,
}

impl Session {
    fn accepted(&self) -> bool {
        accepts(|| verify(self.pvk.clone(), self.proof.clone(), self.key, self.m, &self.ch, &self.idx, self.h))
    }
}

fn g1(r: &mut Rng) -> G1Affine {
    G1Affine::prime_subgroup_generator().mul(fr(r)).into_affine()
}
fn g2(r: &mut Rng) -> G2Affine {
    G2Affine::prime_subgroup_generator().mul(fr(r)).into_affine()
}

fn main() {
    let m = Mon::new("C04", "", "exploration", "real proofs from independent sessions; every public value, answered challenge, index list and proof element altered in turn, at every position and at random; statements, keys and proofs crossed between sessions; proofs made from false witnesses; distinct by alteration, non-trivial: the unaltered proof was accepted immediately before and after");
    let mut r = m.rng(4);
    let dc = frs(&mut r, MIMC5_DF_ROUNDS);
    let hc = frs(&mut r, MIMC5_HASH_ROUNDS);
    m.case("parameters");
    let (pa, pb) = std::thread::scope(|s| {
        let a = s.spawn(|| m.must("construct_circuit", || construct_circuit(&dc, &hc)));
        let b = s.spawn(|| m.must("construct_circuit", || construct_circuit(&dc, &hc)));
        (a.join().unwrap(), b.join().unwrap())
    });
    let sc = Scratch::new("c04");
    // honest sessions 0..4 (0..2 share key and m; 3 uses the second parameter set),
    // then provers with false witnesses
    let ns = 4;
    let key0 = fr(&mut r);
    let m0 = fr(&mut r);
    let keys = [key0, key0, fr(&mut r), key0];
    let ms = [m0, m0, fr(&mut r), m0];
    let out: std::sync::Mutex<Vec<Option<Session>>> = std::sync::Mutex::new(vec![None; ns]);
    parallel(ns, threads(), |i| {
        let mut r = m.rng(400 + i as u64);
        let (mut key, mm) = (keys[i], ms[i]);
        let mut img = images(N, key, mm, &dc);
        // in session 2 slot 0 can be answered
        while i == 2 && !img.contains(&0) {
            key = fr(&mut r);
            img = images(N, key, mm, &dc);
        }
        let mut has = vec![false; 1 << N];
        let mut tab = vec![0u8; table_bytes(N)];
        for (x, &s) in img.iter().enumerate() {
            has[s as usize] = true;
            put_slot(&mut tab, N, s as usize, x, true);
        }
        // all challenge values distinct, so that every index names a different statement
        let mut pool: Vec<usize> = (0..1 << N).collect();
        for j in 0..400 {
            let k = j + r.below(pool.len() - j);
            pool.swap(j, k);
        }
        let mut ch: Vec<usize> = pool[..160].to_vec();
        let mut extra = 160;
        while ch.iter().filter(|&&s| has[s]).count() < RESPONSE_COUNT + 5 {
            ch.push(pool[extra]);
            extra += 1;
        }
        if i == 2 {
            // its last answer is for slot 0
            let last = ch.iter().enumerate().filter(|(_, &s)| s != 0 && has[s]).nth(RESPONSE_COUNT - 1).unwrap().0;
            ch.retain(|&s| s != 0);
            ch.insert(last, 0);
            let last = ch.iter().enumerate().filter(|(_, &s)| has[s]).nth(RESPONSE_COUNT - 1).unwrap().0;
            ch.truncate(last.max(150) + 1);
        }
        let path = sc.path(&format!("s{}", i));
        std::fs::write(&path, &tab).unwrap();
        m.case(format!("honest session {}", i));
        let (xs, idx, h) = m.must("response_1", || response_1(&path, &ch, key, &hc, N));
        let _ = std::fs::remove_file(&path);
        let p = if i == 3 { pb.clone() } else { pa.clone() };
        let (pvk, proof) = m.must("response_2", || response_2(p, key, &xs, mm, &dc, &ch, &idx, h, &hc));
        let empty = ch.iter().cloned().filter(|&s| !has[s]).collect();
        let s = Session { pvk, proof, key, m: mm, ch, idx, h, xs, empty };
        out.lock().unwrap()[i] = Some(s);
    });
    let ss: Vec<Session> = out.into_inner().unwrap().into_iter().map(|x| x.unwrap()).collect();
    let mut usable = vec![];
    for (i, s) in ss.iter().enumerate() {
        if s.idx.len() == RESPONSE_COUNT && s.accepted() {
            usable.push(i);
        }
    }
    m.count("honest proofs accepted before alteration", usable.len() as u64);
    if usable.len() < ns {
        // an honest proof that is refused is C03's matter; rejection of the rest is still checked
        m.count("honest proofs refused (see C03)", (ns - usable.len()) as u64);
    }

    // (name, statement) pairs that all must be rejected
    let mut bad: Vec<(String, Session)> = vec![];
    let one = Fr::from(1u64);
    for (i, s) in ss.iter().enumerate().take(3) {
        let t = |name: String, f: &mut dyn FnMut(&mut Session), bad: &mut Vec<(String, Session)>| {
            let mut c = s.clone();
            f(&mut c);
            bad.push((format!("session {}: {}", i, name), c));
        };
        for (nm, d) in [("+1", one), ("-1", -one), ("negated", Fr::from(0u64)), ("random", fr(&mut r)), ("zero", Fr::from(0u64))] {
            let alter = |v: Fr| match nm {
                "negated" => -v,
                "zero" | "random" => d,
                _ => v + d,
            };
            t(format!("key {}", nm), &mut |c| c.key = alter(c.key), &mut bad);
            t(format!("m {}", nm), &mut |c| c.m = alter(c.m), &mut bad);
            t(format!("digest {}", nm), &mut |c| c.h = alter(c.h), &mut bad);
        }
        t("key and m exchanged".into(), &mut |c| std::mem::swap(&mut c.key, &mut c.m), &mut bad);
        t("key and digest exchanged".into(), &mut |c| std::mem::swap(&mut c.key, &mut c.h), &mut bad);
        t("m and digest exchanged".into(), &mut |c| std::mem::swap(&mut c.m, &mut c.h), &mut bad);
        t("key+1, m-1".into(), &mut |c| {
            c.key += one;
            c.m -= one
        }, &mut bad);
        for p in 0..s.idx.len() {
            let pos = s.idx[p];
            t(format!("answered challenge {} +1", p), &mut |c| c.ch[pos] += 1, &mut bad);
            t(format!("answered challenge {} low bit", p), &mut |c| c.ch[pos] ^= 1, &mut bad);
            t(format!("answered challenge {} top bit", p), &mut |c| c.ch[pos] ^= 1 << (N - 1), &mut bad);
            t(format!("answered challenge {} + 2^N", p), &mut |c| c.ch[pos] += 1 << N, &mut bad);
            t(format!("answered challenge {} random", p), &mut |c| c.ch[pos] = (c.ch[pos] + 1 + r.below((1 << N) - 1)) % (1 << N), &mut bad);
            // index lists
            t(format!("index {} dropped", p), &mut |c| {
                c.idx.remove(p);
            }, &mut bad);
            t(format!("index {} repeated in place", p), &mut |c| c.idx.insert(p, pos), &mut bad);
            t(format!("index {} out of range", p), &mut |c| c.idx[p] = c.ch.len(), &mut bad);
            if p > 0 {
                t(format!("index {} replaced by its predecessor", p), &mut |c| c.idx[p] = c.idx[p - 1], &mut bad);
                t(format!("indices {} and {} exchanged", p - 1, p), &mut |c| c.idx.swap(p - 1, p), &mut bad);
                t(format!("challenges {} and {} exchanged", p - 1, p), &mut |c| {
                    let (a, b) = (c.idx[p - 1], c.idx[p]);
                    c.ch.swap(a, b)
                }, &mut bad);
                t(format!("challenge {} +1 and {} -1", p - 1, p), &mut |c| {
                    let (a, b) = (c.idx[p - 1], c.idx[p]);
                    c.ch[a] += 1;
                    c.ch[b] = c.ch[b].wrapping_sub(1) & ((1 << N) - 1);
                }, &mut bad);
            }
            // another, unanswered challenge claimed instead
            let unanswered: Vec<usize> = (0..s.ch.len()).filter(|k| !s.idx.contains(k)).collect();
            let u = *r.pick(&unanswered);
            t(format!("answer {} claimed for unanswered challenge {}", p, u), &mut |c| {
                c.idx[p] = u;
                c.idx.sort();
            }, &mut bad);
        }
        // answers claimed for challenges that were never made
        for p in 0..s.idx.len() {
            t(format!("indices from {} on beyond the challenges by their number", p), &mut |c| {
                let n = c.ch.len();
                c.idx[p..].iter_mut().for_each(|k| *k += n)
            }, &mut bad);
            t(format!("no challenge at index {} or beyond", p), &mut |c| {
                let k = c.idx[p];
                c.ch.truncate(k)
            }, &mut bad);
        }
        t("the last index one beyond the challenges, the last of which it answers".into(), &mut |c| {
            let k = *c.idx.last().unwrap();
            c.ch.truncate(k + 1);
            *c.idx.last_mut().unwrap() = k + 1;
        }, &mut bad);
        t("no challenges".into(), &mut |c| c.ch.clear(), &mut bad);
        t("no index".into(), &mut |c| c.idx.clear(), &mut bad);
        t("reversed indices".into(), &mut |c| c.idx.reverse(), &mut bad);
        t("one index too many".into(), &mut |c| {
            let u = (0..c.ch.len()).rev().find(|k| !c.idx.contains(k)).unwrap();
            c.idx.push(u);
            c.idx.sort();
        }, &mut bad);
        t("all the same index".into(), &mut |c| {
            let v = c.idx[0];
            for k in c.idx.iter_mut() {
                *k = v
            }
        }, &mut bad);
        for k in 1..5 {
            t(format!("indices rotated by {}", k), &mut |c| c.idx.rotate_left(k), &mut bad);
            t(format!("challenges rotated by {}", k), &mut |c| c.ch.rotate_left(k), &mut bad);
        }
        for k in 0..m.amount(40, 400) {
            t(format!("random permutation {} of the answered challenges", k), &mut |c| {
                let mut p: Vec<usize> = c.idx.clone();
                r.shuffle(&mut p);
                if p == c.idx {
                    p.swap(0, 1);
                }
                let old = c.ch.clone();
                for (a, b) in c.idx.clone().iter().zip(&p) {
                    c.ch[*a] = old[*b];
                }
            }, &mut bad);
        }
        // the proof itself
        let g = G1Affine::prime_subgroup_generator();
        let h2 = G2Affine::prime_subgroup_generator();
        t("A negated".into(), &mut |c| c.proof.a = -c.proof.a, &mut bad);
        t("B negated".into(), &mut |c| c.proof.b = -c.proof.b, &mut bad);
        t("C negated".into(), &mut |c| c.proof.c = -c.proof.c, &mut bad);
        t("A + G".into(), &mut |c| c.proof.a = c.proof.a + g, &mut bad);
        t("B + H".into(), &mut |c| c.proof.b = c.proof.b + h2, &mut bad);
        t("C + G".into(), &mut |c| c.proof.c = c.proof.c + g, &mut bad);
        t("A and C exchanged".into(), &mut |c| std::mem::swap(&mut c.proof.a, &mut c.proof.c), &mut bad);
        t("A at infinity".into(), &mut |c| c.proof.a = G1Affine::default(), &mut bad);
        t("B at infinity".into(), &mut |c| c.proof.b = G2Affine::default(), &mut bad);
        t("C at infinity".into(), &mut |c| c.proof.c = G1Affine::default(), &mut bad);
        t("all at infinity".into(), &mut |c| c.proof = Proof { a: G1Affine::default(), b: G2Affine::default(), c: G1Affine::default() }, &mut bad);
        for k in 0..m.amount(10, 60) {
            t(format!("random proof {}", k), &mut |c| c.proof = Proof { a: g1(&mut r), b: g2(&mut r), c: g1(&mut r) }, &mut bad);
            t(format!("random C {}", k), &mut |c| c.proof.c = g1(&mut r), &mut bad);
        }
        // crossed with the other sessions
        for (j, o) in ss.iter().enumerate() {
            if j == i {
                continue;
            }
            t(format!("proof of session {}", j), &mut |c| c.proof = o.proof.clone(), &mut bad);
            t(format!("challenges of session {}", j), &mut |c| c.ch = o.ch.clone(), &mut bad);
            t(format!("challenges and indices of session {}", j), &mut |c| {
                c.ch = o.ch.clone();
                c.idx = o.idx.clone()
            }, &mut bad);
            t(format!("digest of session {}", j), &mut |c| c.h = o.h, &mut bad);
            t(format!("whole statement of session {}", j), &mut |c| {
                c.key = o.key;
                c.m = o.m;
                c.ch = o.ch.clone();
                c.idx = o.idx.clone();
                c.h = o.h;
            }, &mut bad);
            t(format!("A of session {}", j), &mut |c| c.proof.a = o.proof.a, &mut bad);
            t(format!("B of session {}", j), &mut |c| c.proof.b = o.proof.b, &mut bad);
            t(format!("C of session {}", j), &mut |c| c.proof.c = o.proof.c, &mut bad);
        }
        t("verifying key of the other parameter set".into(), &mut |c| c.pvk = ss[3].pvk.clone(), &mut bad);
    }
    parallel(bad.len(), threads(), |i| {
        let (name, s) = &bad[i];
        m.case(name.clone());
        m.check(!s.accepted(), || format!("accepted: {}", name));
        m.count("altered statements rejected", 1);
        m.distinct(name);
    });
    m.sample(format!("rejected alterations include: {}; {}; {}", bad[0].0, bad[bad.len() / 2].0, bad[bad.len() - 1].0));

    // proofs made by dishonest provers through the same proving code
    let s = &ss[0];
    let hash = |xs: &[Fr]| ref_hash5(xs, s.key, &hc, MIMC5_HASH_ROUNDS);
    let mut cheats: Vec<(&'static str, Session)> = vec![];
    let mut add = |name: &'static str, f: &mut dyn FnMut(&mut Session)| {
        let mut c = s.clone();
        f(&mut c);
        cheats.push((name, c));
    };
    add("one wrong x, digest of the true x", &mut |c| c.xs[7] += one);
    add("one wrong x, digest of the claimed x", &mut |c| {
        c.xs[49 % RESPONSE_COUNT] += one;
        c.h = hash(&c.xs);
    });
    add("an empty slot answered with a made-up x", &mut |c| {
        let pos = c.ch.iter().position(|s| c.empty.contains(s)).unwrap();
        let k = (0..c.idx.len()).min_by_key(|&k| (c.idx[k] as i64 - pos as i64).abs()).unwrap();
        c.idx[k] = pos;
        c.xs[k] = Fr::from(3u64);
        c.h = hash(&c.xs);
    });
    add("one challenge answered every time", &mut |c| {
        for k in 0..c.idx.len() {
            c.idx[k] = c.idx[0];
            c.xs[k] = c.xs[0];
        }
        c.h = hash(&c.xs);
    });
    add("last two answers are the same challenge", &mut |c| {
        let l = c.idx.len() - 1;
        c.idx[l] = c.idx[l - 1];
        c.xs[l] = c.xs[l - 1];
        c.h = hash(&c.xs);
    });
    add("another seed", &mut |c| c.m += one);
    add("another key", &mut |c| {
        c.key += one;
    });
    add("answers of two challenges exchanged", &mut |c| {
        c.xs.swap(0, 1);
        c.h = hash(&c.xs);
    });
    parallel(cheats.len(), threads(), |i| {
        let (name, c) = &cheats[i];
        m.case(format!("cheating prover: {}", name));
        // the prover claims statement c; whatever it outputs must not convince
        match catch(|| response_2(pa.clone(), c.key, &c.xs, c.m, &dc, &c.ch, &c.idx, c.h, &hc)) {
            Ok((pvk, proof)) => {
                let ok = accepts(|| verify(pvk, proof, c.key, c.m, &c.ch, &c.idx, c.h));
                m.check(!ok, || format!("accepted a cheating prover: {}", name));
            }
            Err(_) => m.count("cheating provers stopped while proving", 1),
        }
        m.count("cheating provers rejected", 1);
        m.distinct(&("cheat", name));
    });
    for i in usable {
        m.check(ss[i].accepted(), || format!("the same honest proof of session {} was accepted first and rejected later", i));
    }
    drop(sc);
    m.finish();
}
