//! C05: no private values satisfy the space circuit's constraints for a false statement.
use ark_bls12_381::Fr;
use ark_ff::{BigInteger, FpParameters, PrimeField};
use common::*;
use proof_of_space::circuit::pospace_circuit::PospaceDemo;
use proof_of_space::mimc::{mimc_df::MIMC5_DF_ROUNDS, mimc_hash::MIMC5_HASH_ROUNDS};
use proof_of_space::proof_of_space::pospace::{N, RESPONSE_COUNT};
use space_mon::r1cs::*;
use space_mon::*;
use std::sync::Mutex;

#[derive(Clone)]
struct Point {
    key: Fr,
    m: Fr,
    xs: Vec<Fr>,
}

struct Env {
    dc: Vec<Fr>,
    hc: Vec<Fr>,
}

impl Env {
    fn ys(&self, p: &Point) -> Vec<Fr> {
        p.xs.iter().map(|x| ref_df5(*x + p.key, p.m, &self.dc)).collect()
    }
    fn hash(&self, xs: &[Fr], key: Fr) -> Fr {
        ref_hash5(xs, key, &self.hc, MIMC5_HASH_ROUNDS)
    }
    fn synth(&self, p: &Point, yn: &[Fr], h: Fr) -> Result<Vec<Fr>, String> {
        let xs: Vec<Option<Fr>> = p.xs.iter().map(|x| Some(*x)).collect();
        let yn: Vec<Option<Fr>> = yn.iter().map(|x| Some(*x)).collect();
        assignment(PospaceDemo { key: Some(p.key), x: &xs, m: Some(p.m), df_constants: &self.dc, yn: &yn, x_hash: Some(h), hash_constants: &self.hc })
    }
    fn honest(&self, p: &Point) -> Result<Vec<Fr>, String> {
        let yn: Vec<Fr> = self.ys(p).iter().map(|y| low_fr(y, N)).collect();
        self.synth(p, &yn, self.hash(&p.xs, p.key))
    }
    fn setup(&self, k: usize) -> R1cs {
        let none = vec![None; k];
        R1cs::setup(PospaceDemo { key: None, x: &none, m: None, df_constants: &self.dc, yn: &none, x_hash: None, hash_constants: &self.hc })
    }
    fn random(&self, k: usize, r: &mut Rng) -> Point {
        Point { key: fr(r), m: fr(r), xs: (0..k).map(|_| if r.coin() { Fr::from(r.below(1 << N) as u64) } else { fr(r) }).collect() }
    }
    /// a point whose image number i is y
    fn with_image(&self, k: usize, i: usize, y: Fr, r: &mut Rng) -> Point {
        let (l, rr) = ref_df5_inverse(y, fr(r), &self.dc);
        let xs: Vec<Fr> = (0..k).map(|_| Fr::from(r.below(1 << N) as u64)).collect();
        Point { key: l - xs[i], m: rr, xs }
    }
}

/// Columns of the circuit for k answers, learned from honest runs.
struct Layout {
    cs: R1cs,
    roles: Roles,
    key: usize,
    m: usize,
    yn: Vec<usize>,
    h: usize,
    /// per answer: columns holding x, and columns holding x + key
    x: Vec<Vec<(usize, bool)>>,
    bits: Vec<(Vec<Option<usize>>, Vec<Option<usize>>)>,
    values: Vec<Option<usize>>,
}

fn layout(m: &Mon, e: &Env, k: usize, runs: usize, r: &mut Rng) -> Option<Layout> {
    let cs = m.must("setup of the space circuit", || e.setup(k));
    let pts: Vec<Point> = (0..runs).map(|_| e.random(k, r)).collect();
    let mut zs = vec![];
    for p in &pts {
        match e.honest(p) {
            Ok(z) if z.len() == cs.vars => zs.push(z),
            _ => return None,
        }
    }
    let roles = Roles { runs: zs };
    let col = |f: &dyn Fn(&Point) -> Fr| -> Vec<Fr> { pts.iter().map(|p| f(p)).collect() };
    let public = |f: &dyn Fn(&Point) -> Fr| roles.matching(&col(f), 1, cs.inst).first().cloned();
    let key = public(&|p| p.key)?;
    let mm = public(&|p| p.m)?;
    let h = public(&|p| e.hash(&p.xs, p.key))?;
    let mut yn = vec![];
    let mut x = vec![];
    let mut bits = vec![];
    let mut values = vec![];
    let mut taken = std::collections::HashSet::new();
    for i in 0..k {
        yn.push(public(&|p| low_fr(&e.ys(p)[i], N))?);
        let mut c: Vec<(usize, bool)> = roles.matching(&col(&|p| p.xs[i]), 1, cs.vars).into_iter().map(|v| (v, false)).collect();
        c.extend(roles.matching(&col(&|p| p.xs[i] + p.key), 1, cs.vars).into_iter().map(|v| (v, true)));
        if c.is_empty() {
            return None;
        }
        x.push(c);
        let ys = col(&|p| e.ys(p)[i]);
        let all = bit_columns(&cs, &roles, &ys, 256, &mut taken);
        let low = bit_columns(&cs, &roles, &ys, N, &mut taken);
        let low = if low.iter().all(|c| c.is_none()) { vec![] } else { low };
        bits.push((all, low));
        values.push(roles.matching(&ys, 1, cs.vars).first().cloned());
    }
    Some(Layout { cs, roles, key, m: mm, yn, h, x, bits, values })
}

/// Is the statement in this satisfying assignment true of the x it contains?
fn truth(e: &Env, l: &Layout, z: &[Fr]) -> Result<(), String> {
    let (key, mm, h) = (z[l.key], z[l.m], z[l.h]);
    // candidates for x that really have the claimed image
    let mut good: Vec<Vec<Fr>> = vec![];
    for (i, cols) in l.x.iter().enumerate() {
        let mut c: Vec<Fr> = cols.iter().map(|&(v, plus)| if plus { z[v] - key } else { z[v] }).collect();
        c.sort();
        c.dedup();
        c.retain(|x| low_fr(&ref_df5(*x + key, mm, &e.dc), N) == z[l.yn[i]]);
        if c.is_empty() {
            return Err(format!("answer {}: no private x has an image with low bits {}", i, show(&z[l.yn[i]])));
        }
        good.push(c);
    }
    let mut pick = vec![0usize; good.len()];
    for _ in 0..256 {
        let xs: Vec<Fr> = pick.iter().zip(&good).map(|(a, g)| g[*a]).collect();
        if e.hash(&xs, key) == h {
            return Ok(());
        }
        let mut i = 0;
        while i < pick.len() {
            pick[i] += 1;
            if pick[i] < good[i].len() {
                break;
            }
            pick[i] = 0;
            i += 1;
        }
        if i == pick.len() {
            break;
        }
    }
    Err(format!("the public digest {} is not the hash of the answered x", show(&h)))
}

fn target<'a>(l: &'a Layout, cs: &'a R1cs, t: &'a (dyn Fn(&[Fr]) -> Result<(), String> + Sync)) -> Target<'a> {
    let mut seeds = vec![l.key, l.m];
    seeds.extend(l.x.iter().map(|c| c[0].0));
    let mut outputs = l.yn.clone();
    outputs.push(l.h);
    Target { cs, roles: &l.roles, seeds, outputs, bits: l.bits.clone(), values: l.values.clone(), low_width: N, truth: t }
}

fn points(e: &Env, k: usize, n: usize, r: &mut Rng) -> Vec<(String, Point)> {
    let mut out = vec![];
    for i in 0..n {
        out.push((format!("random {}", i), e.random(k, r)));
    }
    let zero = Fr::from(0u64);
    let one = Fr::from(1u64);
    let mut p = e.random(k, r);
    p.key = zero;
    out.push(("key 0".into(), p.clone()));
    p.m = zero;
    p.xs[0] = zero;
    out.push(("key, m and x 0".into(), p));
    let mut p = e.random(k, r);
    for x in p.xs.iter_mut() {
        *x = -p.key - e.dc[0];
    }
    out.push(("first round base 0".into(), p));
    let mut p = e.random(k, r);
    for x in p.xs.iter_mut() {
        *x = -p.key;
    }
    out.push(("hash base 0".into(), p));
    for (n, y) in [("0", zero), ("1", one), ("-1", -one), ("2^20", Fr::from(1u64 << N)), ("-2^20", -Fr::from(1u64 << N))] {
        for i in [0, k - 1] {
            out.push((format!("image {} at {}", n, i), e.with_image(k, i, y, r)));
        }
    }
    out
}

/// images whose alias y + modulus differs from modulus - 1 first at bit j
fn alias_images(r: &mut Rng) -> Vec<(usize, Fr)> {
    let m = modulus();
    let max = &m - 1u8;
    let one = num_bigint::BigUint::from(1u8);
    let mut out = vec![];
    for j in 0..255usize {
        if max.bit(j as u64) {
            continue;
        }
        // agree with modulus - 1 above j, set bit j, and stay below modulus - 1 in the rest
        let hi = (&max >> (j + 1)) << (j + 1);
        let below = &max % (&one << j);
        let a = hi + (&one << j) + num_bigint::BigUint::from_bytes_le(&r.bytes(40)) % (below + 1u8);
        if a >= m && &a - &m < m {
            out.push((j, from_big(&(&a - &m))));
        }
    }
    out
}

fn main() {
    let m = Mon::new(
        "C05",
        "",
        "exploration",
        "one evaluation is one attempt to complete forged values to an assignment of the recorded constraints; distinct are (attack family, answers, point)",
    );
    m.assume("a value counts as the prover's x if its column holds x (or x + key) in every honest run");
    m.assume("the verifier's circuit is the one synthesized without values, as construct_circuit does");
    let mut r = m.rng(5);
    let e = Env { dc: frs(&mut r, MIMC5_DF_ROUNDS), hc: frs(&mut r, MIMC5_HASH_ROUNDS) };
    assert_eq!(<Fr as PrimeField>::Params::MODULUS_BITS, 255);
    let _ = Fr::from(1u64).into_repr().to_bits_le();
    let ks: Vec<usize> = if m.thorough() { vec![1, 2, 3, 4, 5, 8] } else { vec![1, 2, 3] };
    let total = Mutex::new(Tally::default());
    let add = |t: &Tally| {
        let mut g = total.lock().unwrap();
        g.attempts += t.attempts;
        g.contradictions += t.contradictions;
        g.true_statements += t.true_statements;
        for (k, v) in &t.by_family {
            *g.by_family.entry(k).or_insert(0) += v;
        }
    };
    let report = |f: Forgery| -> ! {
        let pubs: Vec<String> = f.public.iter().take(8).map(show).collect();
        m.violate(&format!("a satisfying assignment proves a false statement: {}; found by: {}; public inputs {}", f.why, f.family, pubs.join(", ")))
    };
    for &k in &ks {
        let t0 = m.elapsed();
        m.case(format!("learn the circuit for {} answers", k));
        let l = match layout(m, &e, k, 40, &mut r) {
            Some(l) => l,
            None => {
                m.count("circuits whose honest runs could not be read", 1);
                continue;
            }
        };
        m.count(&format!("constraints recorded, {} answers", k), l.cs.len() as u64);
        m.count(&format!("columns recorded, {} answers", k), l.cs.vars as u64);
        let found: usize = l.bits.iter().map(|b| b.0.iter().flatten().count() + b.1.iter().flatten().count()).sum();
        m.count(&format!("bit columns identified, {} answers", k), found as u64);
        let t = |z: &[Fr]| truth(&e, &l, z);
        let tg = target(&l, &l.cs, &t);
        // (name, point, stride, offset): families that go over every column are
        // split into slices, complete at the first points and sampled at the rest
        let mut pts: Vec<(String, Point, usize, usize)> = vec![];
        let mut whole = std::collections::HashSet::new();
        for (n, (name, p)) in points(&e, k, m.amount(10, 30), &mut r).into_iter().enumerate() {
            let full = n < m.amount(if k == 1 { 3 } else { 1 }, 8);
            let slices = 16;
            let s = if full { slices } else { m.amount(1, 4) };
            let stride = if full { slices } else { 16 };
            for o in 0..s {
                pts.push((name.clone(), p.clone(), stride, (o + r.below(stride)) % stride));
                if full {
                    pts.last_mut().unwrap().3 = o;
                }
                if o == 0 {
                    whole.insert(pts.len() - 1);
                }
            }
        }
        for i in 0..k {
            for (j, y) in alias_images(&mut r) {
                pts.push((format!("alias leaving modulus - 1 at bit {} (answer {})", j, i), e.with_image(k, i, y, &mut r), 500, 0));
            }
        }
        parallel(pts.len(), threads(), |i| {
            if m.late() {
                return;
            }
            let mut r = m.rng(50_000 + (k * 10_000 + i) as u64);
            let (name, p, stride, off) = &pts[i];
            m.case(format!("{} answers, point {}", k, name));
            let w = match e.honest(p) {
                Ok(w) if w.len() == l.cs.vars => w,
                _ => {
                    m.count("honest points that could not be synthesized", 1);
                    return;
                }
            };
            if l.cs.violated(&w).is_none() {
                m.count("honest points that satisfy the circuit", 1);
            }
            let mut tally = Tally::default();
            let alias = *stride == 500;
            let amt = Amount { stride: *stride, off: *off, whole: alias || whole.contains(&i), wild: 4, brief: alias };
            let f = tg.attack(&w, &amt, &mut r, &mut tally);
            if let Some(f) = f {
                report(f);
            }
            // what the synthesizer itself computes when given false claims
            let mut yn: Vec<Fr> = (0..k).map(|_| Fr::from(0u64)).collect();
            if let (Ok(z0), Ok(z1)) = (e.synth(p, &yn, fr(&mut r)), e.synth(p, &vec![Fr::from((1u64 << N) - 1); k], fr(&mut r))) {
                if z0.len() == l.cs.vars && z1.len() == l.cs.vars {
                    tally.attempts += 3;
                    *tally.by_family.entry("statement the synthesizer is satisfied by").or_insert(0) += 3;
                    for z in [&z0, &z1] {
                        match l.cs.violated(z) {
                            None => match t(z) {
                                Ok(()) => tally.true_statements += 1,
                                Err(why) => report(Forgery { family: "prover claims wrong challenges".into(), why, public: z[1..l.cs.inst].to_vec() }),
                            },
                            Some(_) => tally.contradictions += 1,
                        }
                    }
                    let mut pins = vec![];
                    for v in 1..l.cs.vars {
                        if z0[v] == z1[v] && !l.yn.contains(&v) && v != l.h {
                            pins.push((v, z0[v]));
                        }
                    }
                    if let Some(val) = Solver::consequences(&l.cs, &pins, true) {
                        for i in 0..k {
                            if let Some(x) = val[l.yn[i]] {
                                yn[i] = x;
                            }
                        }
                        if let Ok(z) = e.synth(p, &yn, fr(&mut r)) {
                            match l.cs.violated(&z) {
                                None => match t(&z) {
                                    Ok(()) => tally.true_statements += 1,
                                    Err(why) => report(Forgery { family: "the circuit proves another function".into(), why, public: z[1..l.cs.inst].to_vec() }),
                                },
                                Some(_) => tally.contradictions += 1,
                            }
                        }
                    } else {
                        tally.contradictions += 1;
                    }
                }
            }
            for (fam, _) in &tally.by_family {
                m.distinct(&(fam, k, i));
            }
            m.eval(tally.attempts);
            add(&tally);
        });
        if std::env::var("VERIF_DEBUG").is_ok() {
            eprintln!("{} answers: {:.1} s, {} attempts", k, m.elapsed() - t0, total.lock().unwrap().attempts);
        }
        let t0 = m.elapsed();
        // the monitor's own strength: how often it notices a removed constraint
        if k == 1 {
            let n = if m.thorough() || std::env::var("VERIF_SELF").is_ok() { l.cs.len() } else { 24 };
            let seen = Mutex::new((0u64, vec![]));
            let picks: Vec<usize> = if n == l.cs.len() { (0..n).collect() } else { (0..n).map(|_| r.below(l.cs.len())).collect() };
            let base: Vec<(Vec<Fr>, bool)> = pts.iter().enumerate().filter(|(i, p)| *i == 0 || *i == 16 || p.2 == 500).filter_map(|(_, (_, p, s, _))| e.honest(p).ok().map(|w| (w, *s != 500))).collect();
            parallel(picks.len(), threads(), |i| {
                if m.late() {
                    return;
                }
                let mut r = m.rng(90_000 + i as u64);
                let weak = l.cs.without(picks[i]);
                let tg = target(&l, &weak, &t);
                let mut tally = Tally::default();
                let hit = base.iter().any(|(w, full)| tg.attack(w, &Amount { stride: if *full { 1 } else { 500 }, off: 0, whole: true, wild: 2, brief: !*full }, &mut r, &mut tally).is_some());
                let mut g = seen.lock().unwrap();
                if hit {
                    g.0 += 1
                } else {
                    g.1.push(picks[i])
                }
            });
            let g = seen.into_inner().unwrap();
            m.count("self check: circuits with one constraint removed", picks.len() as u64);
            m.count("self check: of these broken by the attacks", g.0);
            if std::env::var("VERIF_DEBUG").is_ok() {
                eprintln!("self check {:.1} s", m.elapsed() - t0);
                let mut v = g.1.clone();
                v.sort();
                v.dedup();
                eprintln!("not broken: {:?}", v);
                for k in v {
                    eprintln!("{} : {:?} * {:?} = {:?}", k, l.cs.a[k].iter().map(|x| x.1).collect::<Vec<_>>(), l.cs.b[k].iter().map(|x| x.1).collect::<Vec<_>>(), l.cs.c[k].iter().map(|x| x.1).collect::<Vec<_>>());
                }
            }
        }
    }
    // the deployed size, sampled
    let k = RESPONSE_COUNT;
    m.case(format!("learn the circuit for {} answers", k));
    match layout(m, &e, k, 40, &mut r) {
        None => m.count("circuits whose honest runs could not be read", 1),
        Some(l) => {
            m.count("constraints recorded, deployed size", l.cs.len() as u64);
            let t = |z: &[Fr]| truth(&e, &l, z);
            let n = m.amount(8, 64);
            parallel(n, threads(), |i| {
                if m.late() {
                    return;
                }
                let mut r = m.rng(70_000 + i as u64);
                m.case(format!("deployed size, point {}", i));
                let p = e.random(k, &mut r);
                let w = match e.honest(&p) {
                    Ok(w) if w.len() == l.cs.vars => w,
                    _ => return,
                };
                if l.cs.violated(&w).is_none() {
                    m.count("honest points that satisfy the circuit", 1);
                }
                // bit attacks on two answers per point, output attacks on a few
                let mut tg = target(&l, &l.cs, &t);
                let picks = [i * 2 % k, (i * 2 + 1) % k, r.below(k)];
                tg.bits = picks.iter().map(|&q| l.bits[q].clone()).collect();
                tg.values = picks.iter().map(|&q| l.values[q]).collect();
                tg.outputs = picks.iter().map(|&q| l.yn[q]).chain([l.h]).collect();
                let mut tally = Tally::default();
                let amt = Amount { stride: 401, off: i, whole: true, wild: 1, brief: true };
                if let Some(f) = tg.attack(&w, &amt, &mut r, &mut tally) {
                    report(f);
                }
                // the families without a column, at one answer
                if i < 2 || m.thorough() {
                    tg.bits.truncate(1);
                    tg.values.truncate(1);
                    tg.outputs.truncate(1);
                    tg.outputs.push(l.h);
                    let amt = Amount { stride: 100_000, off: 99_999, whole: true, wild: 1, brief: false };
                    if let Some(f) = tg.attack(&w, &amt, &mut r, &mut tally) {
                        report(f);
                    }
                }
                for (fam, _) in &tally.by_family {
                    m.distinct(&(fam, k, i));
                }
                m.eval(tally.attempts);
                add(&tally);
            });
        }
    }
    if std::env::var("VERIF_DEBUG").is_ok() {
        eprintln!("deployed size done at {:.1} s", m.elapsed());
    }
    let t = total.lock().unwrap();
    m.count("forging attempts", t.attempts);
    m.count("attempts ending in a violated constraint", t.contradictions);
    m.count("attempts ending in a true statement", t.true_statements);
    for (k, v) in &t.by_family {
        m.count(&format!("attempts: {}", k), *v);
    }
    m.sample(format!("families: {}", t.by_family.keys().cloned().collect::<Vec<_>>().join("; ")));
    drop(t);
    m.finish();
}
