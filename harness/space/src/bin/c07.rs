//! C07: component circuits accept every honest witness and agree with the native code.
use ark_bls12_381::{Bls12_381, Fr};
use ark_ff::Field;
use ark_groth16::{create_random_proof, generate_random_parameters, prepare_verifying_key, verify_proof, Proof, ProvingKey};
use ark_relations::r1cs::ConstraintSynthesizer;
use common::*;
use proof_of_space::mimc::mimc_df::{mimc3_df, mimc5_df};
use proof_of_space::mimc::mimc_hash::{multi_mimc5_hash, multi_mimc7_hash};
#[path = "../../shared/circuits.rs"]
#[allow(dead_code)]
mod circuits;
use circuits::*;
use space_mon::*;
use std::sync::atomic::{AtomicUsize, Ordering};

struct Gen;
impl Use for Gen {
    type Out = Result<ProvingKey<Bls12_381>, String>;
    fn with<C: ConstraintSynthesizer<Fr>>(self, c: C) -> Self::Out {
        catch(|| generate_random_parameters::<Bls12_381, _, _>(c, &mut rand::thread_rng())).and_then(|r| r.map_err(|e| format!("{:?}", e)))
    }
}
struct Prove<'a>(&'a ProvingKey<Bls12_381>);
impl<'a> Use for Prove<'a> {
    type Out = Result<Proof<Bls12_381>, String>;
    fn with<C: ConstraintSynthesizer<Fr>>(self, c: C) -> Self::Out {
        catch(|| create_random_proof(c, self.0, &mut rand::thread_rng())).and_then(|r| r.map_err(|e| format!("{:?}", e)))
    }
}

fn native(c: &Circuit, i: &[Fr]) -> Vec<Fr> {
    match c.kind {
        Kind::Df3 => vec![mimc3_df(i[0], i[1], &c.cs)],
        Kind::Df5 => vec![mimc5_df(i[0], i[1], &c.cs)],
        Kind::Hash5(_) => vec![multi_mimc5_hash(&i[1..].to_vec(), i[0], &c.cs)],
        Kind::Hash7(_) => vec![multi_mimc7_hash(&i[1..].to_vec(), i[0], &c.cs)],
        Kind::Equal(d) => vec![low_of(&i[0], d), i[0]],
        Kind::Pow => vec![i[0].pow(to_big(&i[1]).to_u64_digits())],
    }
}

fn main() {
    let m = Mon::new(
        "C07",
        "",
        "exploration",
        "one evaluation is one honest witness checked against all constraints of the valueless circuit and against the native outputs, or one proof checked; distinct are (circuit, inputs)",
    );
    let mut r = m.rng(7);
    let mut kinds = vec![Kind::Df3, Kind::Df5, Kind::Pow];
    for n in 1..=m.amount(6, 16) {
        kinds.push(Kind::Hash5(n));
        kinds.push(Kind::Hash7(n));
    }
    kinds.extend((1..=EQUAL_BITS).map(Kind::Equal));
    let circuits: Vec<Circuit> = kinds.iter().map(|k| Circuit::new(*k, &mut r)).collect();

    // every honest witness satisfies the circuit and carries the native outputs
    parallel(circuits.len(), threads(), |ci| {
        let c = &circuits[ci];
        let mut r = m.rng(7_000 + ci as u64);
        m.case(format!("{}: setup", c.name()));
        let cs = m.must("setup", || c.setup());
        let mut ins = c.special(&mut r);
        let n = match c.kind {
            Kind::Equal(_) => m.amount(20, 100),
            _ => m.amount(60, 1000),
        };
        for k in 0..n {
            ins.push(c.random(&mut r, k % 2 == 0));
        }
        for i in &ins {
            let text = format!("{} inputs {}", c.name(), i.iter().map(show).collect::<Vec<_>>().join(","));
            m.case(text.clone());
            let z = match c.honest(i) {
                Ok(z) => z,
                Err(e) => m.violate(&format!("synthesis of an honest witness failed: {}", e)),
            };
            m.check(z.len() == cs.vars, || format!("the circuit with values has {} columns, without {}", z.len(), cs.vars));
            if let Some(k) = cs.violated(&z) {
                m.violate(&format!("the honest witness violates constraint {} of {}", k, cs.len()));
            }
            let want = m.must("native function", || native(c, i));
            m.check(c.reference(i) == want, || "the native function differs from its definition".into());
            m.check(z[1..cs.inst] == want[..], || format!("public outputs {:?}, native {:?}", z[1..cs.inst].iter().map(show).collect::<Vec<_>>(), want.iter().map(show).collect::<Vec<_>>()));
            m.count("honest witnesses accepted", 1);
            m.distinct(&text);
        }
    });

    // and proofs made from them verify for exactly those outputs
    let mut provable: Vec<usize> = vec![];
    for (i, k) in kinds.iter().enumerate() {
        let take = match k {
            Kind::Equal(d) => [1usize, 20, 255, 256].contains(d) || (m.thorough() && d % 16 == 0),
            Kind::Hash5(n) => *n <= 3 || m.thorough(),
            Kind::Hash7(n) => *n <= 2 || m.thorough(),
            _ => true,
        };
        if take {
            provable.push(i);
        }
    }
    let done = AtomicUsize::new(0);
    parallel(provable.len(), threads(), |pi| {
        let c = &circuits[provable[pi]];
        let mut r = m.rng(77_000 + pi as u64);
        m.case(format!("{}: parameters", c.name()));
        let pk = match c.run(None, Gen) {
            Ok(p) => p,
            Err(e) => m.violate(&format!("no parameters: {}", e)),
        };
        let pvk = prepare_verifying_key(&pk.vk);
        let mut ins: Vec<Vec<Fr>> = vec![c.random(&mut r, false)];
        let sp = c.special(&mut r);
        for _ in 0..m.amount(2, 12) {
            ins.push(r.pick(&sp).clone());
        }
        for i in &ins {
            let text = format!("proof of {} inputs {}", c.name(), i.iter().map(show).collect::<Vec<_>>().join(","));
            m.case(text.clone());
            let want = c.reference(i);
            let proof = match c.run(Some(i), Prove(&pk)) {
                Ok(p) => p,
                Err(e) => m.violate(&format!("an honest proof could not be made: {}", e)),
            };
            m.check(verify_proof(&pvk, &proof, &want).unwrap_or(false), || "an honest proof is rejected".into());
            m.count("honest proofs accepted", 1);
            for k in 0..want.len() {
                for d in [Fr::from(1u64), -Fr::from(1u64), fr(&mut r)] {
                    let mut bad = want.clone();
                    bad[k] += d;
                    m.check(!verify_proof(&pvk, &proof, &bad).unwrap_or(false), || format!("the proof is also accepted for another output {}", k));
                    m.count("wrong outputs rejected", 1);
                }
            }
            m.distinct(&text);
        }
        done.fetch_add(1, Ordering::Relaxed);
    });
    m.count("circuits proved", done.load(Ordering::Relaxed) as u64);
    m.sample(format!("{} circuits, equality for every difficulty 1..={}", circuits.len(), EQUAL_BITS));
    m.finish();
}
