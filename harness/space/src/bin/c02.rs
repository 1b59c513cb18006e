//! C02: the first response answers exactly the answerable challenges, correctly.
use ark_bls12_381::Fr;
use common::*;
use proof_of_space::mimc::mimc_df::MIMC5_DF_ROUNDS;
use proof_of_space::mimc::mimc_hash::MIMC5_HASH_ROUNDS;
use proof_of_space::proof_of_space::pospace::{N, RESPONSE_COUNT};
use proof_of_space::proof_of_space::prover::{mark_space, prepare_space, response_1};
use space_mon::*;

fn run(m: &Mon, path: &str, buf: &[u8], n: usize, ch: &Vec<usize>, key: Fr, hc: &Vec<Fr>, what: &str) {
    m.case(what.to_string());
    let (mut xs, mut idx) = (vec![], vec![]);
    let mut crossing = 0u64;
    for (i, &c) in ch.iter().enumerate() {
        if xs.len() == RESPONSE_COUNT {
            break;
        }
        let (x, flag) = get_slot(buf, n, c);
        if flag {
            xs.push(Fr::from(x as u64));
            idx.push(i);
            if ((n + 1) * c) % 8 + n + 1 > 8 {
                crossing += 1;
            }
        }
    }
    let h = ref_hash5(&xs, key, hc, MIMC5_HASH_ROUNDS);
    let (gx, gi, gh) = m.must("response_1", || response_1(path, ch, key, hc, n));
    let show_ch = || if ch.len() > 40 { format!("{:?}...", &ch[..40]) } else { format!("{:?}", ch) };
    m.check(gi == idx, || format!("{}: answered indices {:?}, expected {:?}; challenges {}", what, gi, idx, show_ch()));
    m.check(gx == xs, || {
        let k = gx.iter().zip(&xs).position(|(a, b)| a != b);
        format!("{}: answers differ at {:?} (got {}, expected {} answers)", what, k, gx.len(), xs.len())
    });
    m.check(gh == h, || format!("{}: digest {} expected {}", what, show(&gh), show(&h)));
    let after = std::fs::read(path).unwrap();
    m.check(after == buf, || format!("{}: responding changed the space: {}", what, first_diff(&after, buf)));
    m.count("answers compared", idx.len() as u64);
    m.count("answers crossing a byte border", crossing);
    m.count("empty slots challenged", ch.iter().take(idx.last().map(|x| x + 1).unwrap_or(ch.len())).count() as u64 - idx.len() as u64);
    if idx.len() == RESPONSE_COUNT {
        m.count("responses that reached the limit", 1);
    } else {
        m.count("responses below the limit", 1);
    }
    if !idx.is_empty() {
        m.distinct(&(what.to_string(), ch.clone()));
    }
    if m.counter("sampled") < 4 && idx.len() > 2 && n > 2 {
        m.count("sampled", 1);
        m.sample(format!("{} challenges {} -> answered indices {:?}", what, show_ch(), &idx[..idx.len().min(10)]));
    }
}

/// Spaces whose bits are counted in more than 32 bits, in a sparse file.
/// False when a response takes the whole space into memory, so that bigger ones are left out.
fn far(m: &Mon, path: &str, n: usize, r: &mut Rng) -> bool {
    use std::os::unix::fs::FileExt;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).unwrap();
    let slots = 1usize << n;
    let bytes = ((n + 1) * slots + 7) / 8;
    if f.set_len(bytes as u64).is_err() {
        m.count("spaces beyond 4 GB the file system has no room for", 1);
        return true;
    }
    let border = |bits: usize| (1usize << bits) / (n + 1);
    let mut held: std::collections::BTreeMap<usize, usize> = Default::default();
    let near: Vec<usize> = [31usize, 32, 34, 35].iter().flat_map(|&b| (0..6).map(move |d| (b, d))).map(|(b, d)| border(b) + d).chain((0..6).map(|d| slots - 1 - d)).chain([0, 1, 7, 8]).collect();
    let more: Vec<usize> = (0..40).map(|_| r.below(slots)).collect();
    for s in near.iter().cloned().chain(more) {
        if s >= slots || r.one_in(4) {
            continue;
        }
        let x = if r.one_in(5) { slots - 1 } else { r.below(slots) };
        for i in 0..=n {
            let at = (n + 1) * s + i;
            let mut b = [0u8];
            f.read_exact_at(&mut b, (at / 8) as u64).unwrap();
            b[0] &= !(1 << (at % 8));
            if i == n || x >> i & 1 == 1 {
                b[0] |= 1 << (at % 8);
            }
            f.write_all_at(&b, (at / 8) as u64).unwrap();
        }
        held.insert(s, x);
    }
    let key = fr(r);
    let hc = frs(r, MIMC5_HASH_ROUNDS);
    for k in 0..12 {
        let mut ch: Vec<usize> = near.iter().cloned().filter(|s| *s < slots).chain(held.keys().cloned()).chain((0..30).map(|_| r.below(slots))).collect();
        r.shuffle(&mut ch);
        if k % 2 == 0 {
            ch.truncate(RESPONSE_COUNT / 2 + k);
        }
        let what = format!("sparse space n={} list {}", n, k);
        m.case(what.clone());
        let idx: Vec<usize> = (0..ch.len()).filter(|&i| held.contains_key(&ch[i])).take(RESPONSE_COUNT).collect();
        let xs: Vec<Fr> = idx.iter().map(|&i| Fr::from(held[&ch[i]] as u64)).collect();
        let mut got = None;
        let heavy = costly(|| got = Some(m.must("response_1", || response_1(path, &ch, key, &hc, n))));
        let (gx, gi, gh) = got.unwrap();
        m.check(gi == idx, || format!("{}: answered indices {:?}, expected {:?}; challenges {:?}", what, gi, idx, ch));
        m.check(gx == xs, || format!("{}: answers differ at {:?}", what, gx.iter().zip(&xs).position(|(a, b)| a != b)));
        m.check(gh == ref_hash5(&xs, key, &hc, MIMC5_HASH_ROUNDS), || format!("{}: wrong digest", what));
        m.count("answers compared beyond 2^31 bits", idx.len() as u64);
        m.distinct(&(what, ch));
        if heavy {
            m.count("responses that take the whole space into memory: bigger spaces left out", 1);
            return false;
        }
    }
    true
}

fn main() {
    let m = Mon::new("C02", "", "exploration", "spaces of n=0..20 with seeded slot contents (synthetic at several fill rates, and really marked ones); challenge lists with repetitions, border slots, empty slots, too few and too many answerable entries; indices, values, digest and the untouched file compared with a slot decoder of our own; distinct by (space, challenge list), non-trivial when at least one challenge is answered");
    let sc = Scratch::new("c02");
    let mut r = m.rng(2);
    let path = sc.path("space");
    let rounds = m.amount(160, 400);
    for round in 0..rounds {
        for n in 0..=N {
            if n > 16 && round >= m.amount(6, 20) {
                continue;
            }
            let slots = 1usize << n;
            let fill = *r.pick(&[0usize, 3, 32, 63, 90, 100]);
            let mut buf = vec![0u8; table_bytes(n)];
            let noise = r.one_in(3);
            for s in 0..slots {
                if r.below(100) < fill {
                    let x = if r.one_in(8) { slots - 1 } else { r.below(slots) };
                    put_slot(&mut buf, n, s, x, true);
                } else if noise {
                    // bits of an x without the flag: still an empty slot
                    put_slot(&mut buf, n, s, r.below(slots), false);
                }
            }
            std::fs::write(&path, &buf).unwrap();
            let key = fr_mixed(&mut r);
            let hc = frs(&mut r, MIMC5_HASH_ROUNDS);
            for kind in 0..6 {
                let len = *r.pick(&[0usize, 1, 2, RESPONSE_COUNT - 1, RESPONSE_COUNT, RESPONSE_COUNT + 1, 2 * RESPONSE_COUNT, 4 * RESPONSE_COUNT]);
                let mut ch: Vec<usize> = match kind {
                    0 => (0..len).map(|_| r.below(slots)).collect(),
                    1 => {
                        let c = r.below(slots);
                        vec![c; len]
                    }
                    2 => (0..len).map(|_| *r.pick(&[0, slots - 1, slots / 2, slots.saturating_sub(2)])).collect(),
                    3 => (0..len).map(|i| i % slots).collect(),
                    4 => (0..len).map(|i| slots - 1 - i % slots).collect(),
                    _ => (0..len * 3).map(|_| r.below(slots)).collect(),
                };
                if r.one_in(4) {
                    ch.sort();
                }
                run(m, &path, &buf, n, &ch, key, &hc, &format!("round {} n={} fill={}% kind={}", round, n, fill, kind));
            }
        }
    }
    // every slot of small spaces, one at a time
    for n in 1..=m.amount(7, 9) {
        let slots = 1usize << n;
        let mut buf = vec![0u8; table_bytes(n)];
        for s in 0..slots {
            if r.below(3) > 0 {
                put_slot(&mut buf, n, s, r.below(slots), true);
            }
        }
        std::fs::write(&path, &buf).unwrap();
        let key = fr(&mut r);
        let hc = frs(&mut r, MIMC5_HASH_ROUNDS);
        for s in 0..slots {
            run(m, &path, &buf, n, &vec![s], key, &hc, &format!("single slot {} n={}", s, n));
        }
    }
    let _ = (21..=33).all(|n| far(m, &path, n, &mut r));
    // really marked spaces
    for k in 0..m.amount(4, 12) {
        let n = *r.pick(&[4usize, 7, 9, 11, 12]);
        let key = fr_mixed(&mut r);
        let mm = fr_mixed(&mut r);
        let cs = frs(&mut r, MIMC5_DF_ROUNDS);
        let hc = frs(&mut r, MIMC5_HASH_ROUNDS);
        m.must("prepare_space", || prepare_space(&path, n).unwrap());
        m.must("mark_space", || {
            let _ = mark_space(&path, key, mm, &cs, n);
        });
        let buf = std::fs::read(&path).unwrap();
        if buf.len() < table_bytes(n) {
            m.count("marked files too short to decode (another property's matter)", 1);
            continue;
        }
        for j in 0..10 {
            let ch: Vec<usize> = (0..r.range(1, 4 * RESPONSE_COUNT)).map(|_| r.below(1 << n)).collect();
            run(m, &path, &buf, n, &ch, key, &hc, &format!("marked {} n={} list {}", k, n, j));
        }
    }
    drop(sc);
    m.finish();
}
