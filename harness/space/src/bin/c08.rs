//! C08: no private values satisfy a component circuit for a false output.
use ark_bls12_381::Fr;
use ark_ff::{Field, One, Zero};
use common::*;
use num_bigint::BigUint;
#[path = "../../shared/circuits.rs"]
#[allow(dead_code)]
mod circuits;
use circuits::*;
use space_mon::r1cs::*;
use space_mon::*;
use std::sync::Mutex;

struct Layout {
    cs: R1cs,
    roles: Roles,
    /// columns holding each private field input
    inputs: Vec<Vec<usize>>,
    outputs: Vec<usize>,
    bits: Vec<Option<usize>>,
}

fn layout(c: &Circuit, cs: R1cs, runs: usize, r: &mut Rng) -> Option<Layout> {
    let ins: Vec<Vec<Fr>> = (0..runs).map(|_| c.random(r, false)).collect();
    let mut zs = vec![];
    for i in &ins {
        match c.honest(i) {
            Ok(z) if z.len() == cs.vars => zs.push(z),
            _ => return None,
        }
    }
    let roles = Roles { runs: zs };
    let refs: Vec<Vec<Fr>> = ins.iter().map(|i| c.reference(i)).collect();
    let nout = refs[0].len();
    let mut outputs = vec![];
    for o in 0..nout {
        let want: Vec<Fr> = refs.iter().map(|v| v[o]).collect();
        match roles.matching(&want, 1, cs.inst).into_iter().find(|v| !outputs.contains(v)) {
            Some(v) => outputs.push(v),
            // an output that is never the right value: take the public values in order
            None if cs.inst == nout + 1 => outputs.push(o + 1),
            None => return None,
        }
    }
    let fields = match c.kind {
        Kind::Equal(_) => 0,
        Kind::Pow => 1,
        _ => c.arity(),
    };
    let mut inputs = vec![];
    for k in 0..fields {
        let want: Vec<Fr> = ins.iter().map(|i| i[k]).collect();
        let v = roles.matching(&want, 1, cs.vars);
        if v.is_empty() {
            return None;
        }
        inputs.push(v);
    }
    let mut taken = Default::default();
    let bits = match c.kind {
        Kind::Equal(_) => bit_columns(&cs, &roles, &ins.iter().map(|i| i[0]).collect::<Vec<_>>(), EQUAL_BITS, &mut taken),
        Kind::Pow => bit_columns(&cs, &roles, &ins.iter().map(|i| i[1]).collect::<Vec<_>>(), POW_BITS, &mut taken),
        _ => vec![],
    };
    Some(Layout { cs, roles, inputs, outputs, bits })
}

fn spelled(l: &Layout, z: &[Fr]) -> Result<Option<BigUint>, String> {
    let mut s = BigUint::from(0u8);
    for (i, c) in l.bits.iter().enumerate() {
        match c {
            None => return Ok(None),
            Some(c) => {
                if !z[*c].is_zero() && !z[*c].is_one() {
                    return Err(format!("bit {} has the value {}", i, show(&z[*c])));
                }
                s.set_bit(i as u64, z[*c].is_one());
            }
        }
    }
    Ok(Some(s))
}

fn truth(c: &Circuit, l: &Layout, z: &[Fr]) -> Result<(), String> {
    let out: Vec<Fr> = l.outputs.iter().map(|&o| z[o]).collect();
    match c.kind {
        Kind::Equal(d) => {
            let (x1, x2) = (out[0], out[1]);
            if x1 != low_of(&x2, d) {
                return Err(format!("{} claimed as the low {} bits of {}", show(&x1), d, show(&x2)));
            }
            if let Some(s) = spelled(l, z)? {
                if s != to_big(&x2) {
                    return Err(format!("bits spell {:x}, not the value {}", s, show(&x2)));
                }
            }
            Ok(())
        }
        Kind::Pow => {
            let s = spelled(l, z)?;
            for &g in &l.inputs[0] {
                let g = z[g];
                match &s {
                    Some(e) => {
                        if g.pow(e.to_u64_digits()) == out[0] {
                            return Ok(());
                        }
                    }
                    None => {
                        let mut y = Fr::one();
                        for _ in 0..1usize << POW_BITS {
                            if y == out[0] {
                                return Ok(());
                            }
                            y *= g;
                        }
                    }
                }
            }
            Err(format!("{} claimed as a power of {} with exponent {:?}", show(&out[0]), show(&z[l.inputs[0][0]]), s))
        }
        _ => {
            let mut pick = vec![0usize; l.inputs.len()];
            for _ in 0..64 {
                let inp: Vec<Fr> = pick.iter().zip(&l.inputs).map(|(k, c)| z[c[*k]]).collect();
                if c.reference(&inp) == out {
                    return Ok(());
                }
                let mut i = 0;
                while i < pick.len() {
                    pick[i] += 1;
                    if pick[i] < l.inputs[i].len() {
                        break;
                    }
                    pick[i] = 0;
                    i += 1;
                }
                if i == pick.len() {
                    break;
                }
            }
            Err(format!("output {} is not that of the private inputs", show(&out[0])))
        }
    }
}

fn target<'a>(c: &Circuit, l: &'a Layout, cs: &'a R1cs, t: &'a (dyn Fn(&[Fr]) -> Result<(), String> + Sync)) -> Target<'a> {
    let low_width = match c.kind {
        Kind::Equal(d) => d,
        _ => 1,
    };
    let bits = if l.bits.is_empty() { vec![] } else { vec![(l.bits.clone(), vec![])] };
    Target { cs, roles: &l.roles, seeds: l.inputs.iter().map(|v| v[0]).collect(), outputs: l.outputs.clone(), values: vec![], bits, low_width, truth: t }
}

/// values whose alias (value + modulus) leaves modulus - 1 at each of its zero bits
fn alias_values(r: &mut Rng) -> Vec<Fr> {
    let m = modulus();
    let max = &m - 1u8;
    let one = BigUint::from(1u8);
    let mut out = vec![];
    for j in 0..255usize {
        if !max.bit(j as u64) {
            let hi = (&max >> (j + 1)) << (j + 1);
            let a = hi + (&one << j) + BigUint::from_bytes_le(&r.bytes(40)) % ((&max % (&one << j)) + 1u8);
            if a >= m && &a - &m < m {
                out.push(from_big(&(&a - &m)));
            }
        }
    }
    out
}

fn main() {
    let m = Mon::new(
        "C08",
        "",
        "exploration",
        "one evaluation is one attempt to complete forged values to an assignment of the recorded constraints; distinct are (circuit, attack family, point)",
    );
    m.assume("a column counts as a private input if it holds that input in every honest run");
    let mut r = m.rng(8);
    let mut kinds = vec![Kind::Df3, Kind::Df5, Kind::Pow];
    for n in if m.thorough() { vec![1, 2, 3, 5, 9] } else { vec![1, 2, 3] } {
        kinds.push(Kind::Hash5(n));
        kinds.push(Kind::Hash7(n));
    }
    let ds: Vec<usize> = if m.thorough() { (1..=EQUAL_BITS).collect() } else { vec![1, 2, 8, 20, 64, 128, 200, 253, 254, 255, 256] };
    kinds.extend(ds.into_iter().map(Kind::Equal));
    let total = Mutex::new(Tally::default());
    let mut self_total = (0u64, 0u64);
    for kind in kinds {
        let c = Circuit::new(kind, &mut r);
        m.case(format!("learn {}", c.name()));
        let cs = m.must("setup", || c.setup());
        let l = match layout(&c, cs, 40, &mut r) {
            Some(l) => l,
            None => {
                m.count("circuits whose honest runs could not be read", 1);
                continue;
            }
        };
        m.count("constraints recorded", l.cs.len() as u64);
        m.count("bit columns identified", l.bits.iter().flatten().count() as u64);
        let t = |z: &[Fr]| truth(&c, &l, z);
        let report = |f: Forgery| -> ! {
            let pubs: Vec<String> = f.public.iter().take(8).map(show).collect();
            m.violate(&format!("{}: a satisfying assignment has a false output: {}; found by: {}; public values {}", c.name(), f.why, f.family, pubs.join(", ")))
        };
        let tg = target(&c, &l, &l.cs, &t);
        let mut pts: Vec<(Vec<Fr>, usize, usize, bool)> = vec![];
        let slices = 16;
        let full = m.amount(2, 3);
        for n in 0..m.amount(6, 12) {
            let p = c.random(&mut r, n % 2 == 1);
            for o in 0..slices {
                if n < full {
                    pts.push((p.clone(), slices, o, false));
                } else if o == n % slices {
                    pts.push((p.clone(), slices, 0, false));
                }
            }
        }
        for p in c.special(&mut r) {
            pts.push((p, slices, r.below(slices), false));
        }
        if let Kind::Equal(_) = kind {
            for v in alias_values(&mut r) {
                pts.push((vec![v], 500, 0, true));
            }
        }
        parallel(pts.len(), threads(), |i| {
            if m.late() {
                return;
            }
            let mut r = m.rng(80_000 + i as u64);
            let (p, stride, off, brief) = &pts[i];
            m.case(format!("{} inputs {}", c.name(), p.iter().map(show).collect::<Vec<_>>().join(",")));
            let w = match c.honest(p) {
                Ok(w) if w.len() == l.cs.vars => w,
                _ => return,
            };
            let mut tally = Tally::default();
            // the synthesizer's own values
            tally.attempts += 1;
            if l.cs.violated(&w).is_none() {
                if let Err(why) = t(&w) {
                    report(Forgery { family: "the synthesizer's own values".into(), why, public: w[1..l.cs.inst].to_vec() });
                }
                tally.true_statements += 1;
            } else {
                tally.contradictions += 1;
            }
            let amt = Amount { stride: *stride, off: *off, whole: *brief || *off == 0 || i % 3 == 0, wild: 3, brief: *brief };
            if let Some(f) = tg.attack(&w, &amt, &mut r, &mut tally) {
                report(f);
            }
            for (fam, _) in &tally.by_family {
                m.distinct(&(fam, c.name(), i));
            }
            m.eval(tally.attempts);
            let mut g = total.lock().unwrap();
            g.attempts += tally.attempts;
            g.contradictions += tally.contradictions;
            g.true_statements += tally.true_statements;
            for (k, v) in &tally.by_family {
                *g.by_family.entry(k).or_insert(0) += v;
            }
        });
        // the monitor's own strength
        let all = m.thorough() || std::env::var("VERIF_SELF").is_ok();
        if !matches!(kind, Kind::Equal(d) if d != 20) && !matches!(kind, Kind::Hash5(n) | Kind::Hash7(n) if n != 2) {
            let n = if all { l.cs.len() } else { 12 };
            let picks: Vec<usize> = if all { (0..n).collect() } else { (0..n).map(|_| r.below(l.cs.len())).collect() };
            let base: Vec<(Vec<Fr>, bool)> = pts.iter().enumerate().filter(|(i, p)| *i == 0 || *i == slices || p.3).filter_map(|(_, p)| c.honest(&p.0).ok().map(|w| (w, p.3))).collect();
            let seen = Mutex::new((0u64, vec![]));
            parallel(picks.len(), threads(), |i| {
                if m.late() {
                    return;
                }
                let mut r = m.rng(90_000 + i as u64);
                let weak = l.cs.without(picks[i]);
                let tg = target(&c, &l, &weak, &t);
                let mut tally = Tally::default();
                let hit = base.iter().any(|(w, brief)| tg.attack(w, &Amount { stride: if *brief { 500 } else { 1 }, off: 0, whole: true, wild: 2, brief: *brief }, &mut r, &mut tally).is_some());
                let mut g = seen.lock().unwrap();
                if hit {
                    g.0 += 1
                } else {
                    g.1.push(picks[i])
                }
            });
            let mut g = seen.into_inner().unwrap();
            self_total.0 += picks.len() as u64;
            self_total.1 += g.0;
            if std::env::var("VERIF_DEBUG").is_ok() {
                g.1.sort();
                g.1.dedup();
                eprintln!("{}: {} of {} removals broken; not: {:?}", c.name(), g.0, picks.len(), g.1);
                for k in g.1.iter().take(12) {
                    let k = *k;
                    eprintln!("{} : {:?} * {:?} = {:?}", k, l.cs.a[k].iter().map(|x| x.1).collect::<Vec<_>>(), l.cs.b[k].iter().map(|x| x.1).collect::<Vec<_>>(), l.cs.c[k].iter().map(|x| x.1).collect::<Vec<_>>());
                }
            }
        }
        if std::env::var("VERIF_DEBUG").is_ok() {
            eprintln!("{} done at {:.1} s", c.name(), m.elapsed());
        }
        m.count("circuits attacked", 1);
    }
    m.count("self check: circuits with one constraint removed", self_total.0);
    m.count("self check: of these broken by the attacks", self_total.1);
    let t = total.lock().unwrap();
    m.count("forging attempts", t.attempts);
    m.count("attempts ending in a violated constraint", t.contradictions);
    m.count("attempts ending in a true statement", t.true_statements);
    for (k, v) in &t.by_family {
        m.count(&format!("attempts: {}", k), *v);
    }
    m.sample(format!("families: {}", t.by_family.keys().cloned().collect::<Vec<_>>().join("; ")));
    drop(t);
    m.finish();
}
