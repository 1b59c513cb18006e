//! C24: a prover with a lost, damaged or foreign space is accepted only for true answers.
use ark_bls12_381::Fr;
use common::*;
use proof_of_space::mimc::mimc_df::MIMC5_DF_ROUNDS;
use proof_of_space::mimc::mimc_hash::MIMC5_HASH_ROUNDS;
use proof_of_space::proof_of_space::pospace::{N, RESPONSE_COUNT};
use proof_of_space::proof_of_space::prover::{construct_circuit, mark_space, prepare_space, response_1, response_2};
use proof_of_space::proof_of_space::verifier::verify;
use space_mon::*;

const KINDS: usize = 25;

/// The damaged space, the challenges, and whether the honest verdict is known to be "accept".
fn damage(r: &mut Rng, kind: usize, tab: &[u8], other: &[u8], filled: &[usize], empty: &[usize]) -> (Vec<u8>, Vec<usize>, bool, String) {
    let mut t = tab.to_vec();
    // twice as many challenges as answers wanted, about two thirds of them answerable
    let mut ch: Vec<usize> = vec![];
    let want = r.range(RESPONSE_COUNT + 6, RESPONSE_COUNT + RESPONSE_COUNT / 2);
    while ch.len() < 2 * RESPONSE_COUNT {
        let s = if ch.len() < want { *r.pick(filled) } else { *r.pick(empty) };
        if !ch.contains(&s) {
            ch.push(s);
        }
    }
    r.shuffle(&mut ch);
    let ans: Vec<usize> = ch.iter().copied().filter(|s| get_slot(tab, N, *s).1).take(RESPONSE_COUNT).collect();
    let which = |r: &mut Rng| match r.below(3) {
        0 => 0,
        1 => ans.len() - 1,
        _ => r.below(ans.len()),
    };
    let (ok, what) = match kind {
        0 => (true, "nothing".to_string()),
        1 => {
            for _ in 0..1000 {
                let s = r.below(1 << N);
                if !ch.contains(&s) {
                    let x = r.below(1 << N);
                    put_slot(&mut t, N, s, x, r.coin());
                }
            }
            (true, "a thousand slots nobody asks for overwritten".to_string())
        }
        2 | 3 => {
            let k = which(r);
            let (x, _) = get_slot(&t, N, ans[k]);
            let b = r.below(N);
            put_slot(&mut t, N, ans[k], x ^ (1 << b), true);
            (false, format!("bit {} of the answer to challenge {} flipped", b, k))
        }
        4 => {
            // the flag of an empty challenged slot set: it comes before the last answer
            let last = ch.iter().position(|s| *s == ans[ans.len() - 1]).unwrap();
            let e: Vec<usize> = ch[..last].iter().copied().filter(|s| !get_slot(tab, N, *s).1).collect();
            if e.is_empty() {
                return (t, ch, true, "nothing (no empty slot asked for)".into());
            }
            let s = *r.pick(&e);
            let x = *r.pick(&[0usize, 1, (1 << N) - 1, 12345]);
            put_slot(&mut t, N, s, x, true);
            (false, format!("empty slot {} claims {}", s, x))
        }
        5 => {
            // every empty slot claims something
            for &s in empty {
                put_slot(&mut t, N, s, r.below(1 << N), true);
            }
            (false, "every empty slot claims a made-up value".to_string())
        }
        6 => {
            t.iter_mut().for_each(|b| *b = 0);
            (false, "the whole space wiped".to_string())
        }
        7 => {
            t.iter_mut().for_each(|b| *b = 0xff);
            (false, "the whole space set to ones".to_string())
        }
        8 => {
            t = r.bytes(t.len());
            (false, "the whole space overwritten with noise".to_string())
        }
        9 => {
            let k = t.len() / 2 + r.below(1000);
            t.truncate(k);
            (false, format!("the space truncated to {} bytes", k))
        }
        10 => {
            t.insert(0, 0);
            t.pop();
            (false, "the space shifted by one byte".to_string())
        }
        11 => {
            t = other.to_vec();
            (false, "the space of another key".to_string())
        }
        12 => {
            let (i, j) = (which(r), which(r));
            if get_slot(&t, N, ans[i]).0 == get_slot(&t, N, ans[j]).0 {
                return (t, ch, true, "nothing (the same answer picked twice)".into());
            }
            let (a, b) = (get_slot(&t, N, ans[i]).0, get_slot(&t, N, ans[j]).0);
            put_slot(&mut t, N, ans[i], b, true);
            put_slot(&mut t, N, ans[j], a, true);
            (false, format!("answers {} and {} exchanged", i, j))
        }
        13 => {
            // only a part of the table was ever computed, the rest is made up
            let kept = r.range(40, 90);
            for s in 0..1usize << N {
                if r.below(100) >= kept {
                    put_slot(&mut t, N, s, r.below(1 << N), true);
                }
            }
            (false, format!("{} of 100 slots kept, the others made up", kept))
        }
        14 => {
            let k = which(r);
            let (x, _) = get_slot(&t, N, ans[k]);
            put_slot(&mut t, N, ans[k], x.wrapping_add(1) & ((1 << N) - 1), true);
            (false, format!("answer {} one too high", k))
        }
        15 => {
            // all answers but one wiped: too few
            for &s in ans.iter().skip(1) {
                put_slot(&mut t, N, s, 0, false);
            }
            ch.retain(|s| ans.contains(s));
            (false, "only one answer left".to_string())
        }
        16 => {
            // one answer short of the required number
            put_slot(&mut t, N, ans[which(r)], 0, false);
            ch.retain(|s| ans.contains(s));
            (false, "one answer short".to_string())
        }
        17 => {
            // exactly one byte of the answered range, whatever it hits
            let k = which(r);
            let bit = (N + 1) * ans[k] + r.below(N);
            t[bit / 8] ^= 1 << (bit % 8);
            (false, format!("one stored bit below answer {} flipped", k))
        }
        19 => {
            // flags lost, the x bits still there; enough other answers remain
            let more: Vec<usize> = ch.iter().copied().filter(|s| get_slot(tab, N, *s).1).collect();
            let spare = more.len() - RESPONSE_COUNT.min(more.len());
            let n = spare.min(1 + r.below(5));
            for _ in 0..n {
                let s = ans[which(r)];
                let (x, _) = get_slot(&t, N, s);
                put_slot(&mut t, N, s, x, false);
            }
            (more.len() >= RESPONSE_COUNT, format!("the flags of up to {} answerable slots lost", n))
        }
        20 => {
            for &s in &ch {
                if !get_slot(tab, N, s).1 {
                    put_slot(&mut t, N, s, r.below(1 << N), false);
                }
            }
            (true, "noise in every empty slot asked for, flags untouched".to_string())
        }
        21 => {
            let n = r.range(1, 5000);
            t.extend(r.bytes(n));
            (true, format!("{} bytes appended", n))
        }
        22 => {
            // nothing kept but the slots asked for, the file cut after the last of them
            let mut u = vec![0u8; table_bytes(N)];
            for &s in &ch {
                let (x, f) = get_slot(tab, N, s);
                put_slot(&mut u, N, s, x, f);
            }
            let last = *ch.iter().max().unwrap();
            u.truncate((last + 1) * (N + 1) / 8 + 1);
            t = u;
            (true, "only the slots asked for kept, the file cut after the last".to_string())
        }
        23 => {
            // unread answerable slots after the last answer are damaged
            let last = ch.iter().position(|s| *s == ans[ans.len() - 1]).unwrap();
            for &s in &ch[last + 1..] {
                put_slot(&mut t, N, s, r.below(1 << N), true);
            }
            (true, "every slot asked for after the last answer made up".to_string())
        }
        18 => {
            // the same x in every slot
            let x = r.below(1 << N);
            for s in 0..1usize << N {
                put_slot(&mut t, N, s, x, true);
            }
            (false, format!("every slot claims {}", x))
        }
        _ => {
            // slots hold their own index
            for s in 0..1usize << N {
                put_slot(&mut t, N, s, s, true);
            }
            (false, "every slot claims its own index".to_string())
        }
    };
    (t, ch, ok, what)
}

fn main() {
    let m = Mon::new("C24", "", "exploration", "full sessions at the deployed size from really marked spaces that were then damaged, wiped, truncated, shifted, exchanged, replaced or made up in 25 ways; the first response, a real proof and the real verdict; accepted exactly when the full number of different challenges is answered and every answer is a preimage by our own delay function; distinct by (space, damage, challenges), non-trivial when the space differs from the marked one");
    let mut r = m.rng(24);
    let spaces = m.amount(2, 4);
    let dc = frs(&mut r, MIMC5_DF_ROUNDS);
    let hc = frs(&mut r, MIMC5_HASH_ROUNDS);
    let keys: Vec<(Fr, Fr)> = (0..spaces).map(|i| if i == 0 { (fr(&mut r), fr(&mut r)) } else { (fr_mixed(&mut r), fr_mixed(&mut r)) }).collect();
    let sc = Scratch::new("c24");
    m.case("marking the spaces and making the circuit parameters");
    let (params, tables) = std::thread::scope(|s| {
        let p = s.spawn(|| m.must("construct_circuit", || construct_circuit(&dc, &hc)));
        let ts: Vec<_> = keys
            .iter()
            .enumerate()
            .map(|(i, (k, mm))| {
                let (dc, sc) = (&dc, &sc);
                s.spawn(move || {
                    let path = sc.path(&format!("marked{}", i));
                    m.must("prepare_space", || prepare_space(&path, N).unwrap());
                    m.must("mark_space", || {
                        let _ = mark_space(&path, *k, *mm, dc, N);
                    });
                    std::fs::read(&path).unwrap()
                })
            })
            .collect();
        (p.join().unwrap(), ts.into_iter().map(|t| t.join().unwrap()).collect::<Vec<_>>())
    });
    for t in &tables {
        m.check(t.len() == table_bytes(N), || format!("a marked space has {} bytes", t.len()));
    }
    let lists: Vec<(Vec<usize>, Vec<usize>)> = tables.iter().map(|t| (0..1usize << N).partition(|s| get_slot(t, N, *s).1)).collect();
    let jobs = m.amount(54, 400);
    parallel(jobs, threads(), |j| {
        let mut r = m.rng(2400 + j as u64);
        let kind = j % KINDS;
        let sp = (j / KINDS) % spaces;
        let (key, mm) = keys[sp];
        let (t, ch, good, what) = damage(&mut r, kind, &tables[sp], &tables[(sp + 1) % spaces], &lists[sp].0, &lists[sp].1);
        let desc = format!("session {}: space {} (key {} m {}), {}", j, sp, show(&key), show(&mm), what);
        m.case(desc.clone());
        let path = sc.path(&format!("space{}", j));
        std::fs::write(&path, &t).unwrap();
        let res = catch(|| response_1(&path, &ch, key, &hc, N));
        let _ = std::fs::remove_file(&path);
        let (xs, idx, h) = match res {
            Ok(v) => v,
            Err(e) => {
                m.check(!good, || format!("{}: an honest prover cannot answer: {}", desc, e));
                m.count("damaged spaces that cannot even be read", 1);
                return;
            }
        };
        let wrong = (0..xs.len().min(idx.len())).filter(|&k| idx[k] >= ch.len() || low_bits(&ref_df5(xs[k] + key, mm, &dc), N) != ch[idx[k]]).count();
        let truth = wrong == 0
            && xs.len() == RESPONSE_COUNT
            && idx.len() == RESPONSE_COUNT
            && idx.windows(2).all(|w| w[0] < w[1])
            && h == ref_hash5(&xs, key, &hc, MIMC5_HASH_ROUNDS);
        m.check(!good || truth, || format!("{}: {} answers, {} of them wrong", desc, xs.len(), wrong));
        let accepted = match catch(|| response_2(params.clone(), key, &xs, mm, &dc, &ch, &idx, h, &hc)) {
            Ok((pvk, proof)) => {
                m.count("proofs judged by the verifier", 1);
                accepts(|| verify(pvk, proof, key, mm, &ch, &idx, h))
            }
            Err(_) => {
                m.count("provers stopped while proving", 1);
                false
            }
        };
        m.check(accepted == truth, || {
            if truth {
                format!("{}: {} true answers, yet rejected", desc, xs.len())
            } else {
                format!("{}: accepted with {} answers of which {} are wrong", desc, xs.len(), wrong)
            }
        });
        m.count(if truth { "sessions with true answers accepted" } else { "sessions with wrong or missing answers rejected" }, 1);
        m.count("wrong answers presented", wrong as u64);
        if kind != 0 {
            m.distinct(&desc);
        }
        m.sample(format!("{} -> {} answers, {} wrong, accepted: {}", desc, xs.len(), wrong, accepted));
    });
    drop(sc);
    m.finish();
}
