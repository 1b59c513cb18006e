//! The component circuits as (setup, honest run, reference) triples.
use ark_bls12_381::Fr;
use ark_ff::{BigInteger, Field, One, PrimeField, Zero};
use common::Rng;
use num_bigint::BigUint;
use proof_of_space::circuit::{equal_circuit, mimc3_df_circuit::MiMC3DFDemo, mimc5_df_circuit::MiMC5DFDemo, mimc5_hash_circuit::MiMC5HashDemo, mimc7_hash_circuit::MiMC7HashDemo, pow_circuit};
use proof_of_space::mimc::mimc_df::{MIMC3_DF_ROUNDS, MIMC5_DF_ROUNDS};
use proof_of_space::mimc::mimc_hash::{MIMC5_HASH_ROUNDS, MIMC7_HASH_ROUNDS};

use space_mon::r1cs::{assignment, R1cs};
use space_mon::{big_feistel, big_multi, edges, fr, fr_mixed, frs, from_big, modulus, to_big};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Df3,
    Df5,
    Hash5(usize),
    Hash7(usize),
    /// difficulty
    Equal(usize),
    Pow,
}

pub struct Circuit {
    pub kind: Kind,
    pub cs: Vec<Fr>,
}

pub const EQUAL_BITS: usize = equal_circuit::INPUT_SIZE;
pub const POW_BITS: usize = pow_circuit::INPUT_SIZE;

pub fn bits_of(x: &Fr, n: usize) -> Vec<Option<u8>> {
    let b = x.into_repr().to_bits_le();
    (0..n).map(|i| Some((i < b.len() && b[i]) as u8)).collect()
}

/// Hands the circuit, whatever its type, to a generic user.
pub trait Use {
    type Out;
    fn with<C: ark_relations::r1cs::ConstraintSynthesizer<Fr>>(self, c: C) -> Self::Out;
}

struct Assign;
impl Use for Assign {
    type Out = Result<Vec<Fr>, String>;
    fn with<C: ark_relations::r1cs::ConstraintSynthesizer<Fr>>(self, c: C) -> Self::Out {
        assignment(c)
    }
}
struct Setup;
impl Use for Setup {
    type Out = R1cs;
    fn with<C: ark_relations::r1cs::ConstraintSynthesizer<Fr>>(self, c: C) -> R1cs {
        R1cs::setup(c)
    }
}

impl Circuit {
    pub fn new(kind: Kind, r: &mut Rng) -> Circuit {
        let n = match kind {
            Kind::Df3 => MIMC3_DF_ROUNDS,
            Kind::Df5 => MIMC5_DF_ROUNDS,
            Kind::Hash5(_) => MIMC5_HASH_ROUNDS,
            Kind::Hash7(_) => MIMC7_HASH_ROUNDS,
            _ => 0,
        };
        Circuit { kind, cs: frs(r, n) }
    }
    pub fn name(&self) -> String {
        format!("{:?}", self.kind)
    }
    /// number of private inputs
    pub fn arity(&self) -> usize {
        match self.kind {
            Kind::Df3 | Kind::Df5 => 2,
            Kind::Hash5(n) | Kind::Hash7(n) => n + 1,
            Kind::Equal(_) => 1,
            Kind::Pow => 2,
        }
    }
    /// Inputs: (left, right), (key, message..), (value), (base, exponent).
    pub fn run<U: Use>(&self, inp: Option<&[Fr]>, u: U) -> U::Out {
        let g = |i: usize| inp.map(|v| v[i]);
        match self.kind {
            Kind::Df3 => u.with(MiMC3DFDemo::verif_new(g(0), g(1), &self.cs)),
            Kind::Df5 => u.with(MiMC5DFDemo::verif_new(g(0), g(1), &self.cs)),
            Kind::Hash5(n) => {
                let xs: Vec<Option<Fr>> = (0..n).map(|i| g(i + 1)).collect();
                u.with(MiMC5HashDemo::verif_new(&xs, g(0), &self.cs))
            }
            Kind::Hash7(n) => {
                let xs: Vec<Option<Fr>> = (0..n).map(|i| g(i + 1)).collect();
                u.with(MiMC7HashDemo::verif_new(&xs, g(0), &self.cs))
            }
            Kind::Equal(d) => {
                let bits = match g(0) {
                    Some(x) => bits_of(&x, EQUAL_BITS),
                    None => vec![None; EQUAL_BITS],
                };
                u.with(equal_circuit::EqualDemo { x1: g(0).map(|x| low_of(&x, d)), x2: g(0), x_bits: &bits, difficulty: d })
            }
            Kind::Pow => {
                let bits = match g(1) {
                    Some(x) => bits_of(&x, POW_BITS),
                    None => vec![None; POW_BITS],
                };
                u.with(pow_circuit::PowDemo { g: g(0), x_bits: &bits })
            }
        }
    }
    pub fn setup(&self) -> R1cs {
        self.run(None, Setup)
    }
    pub fn honest(&self, inp: &[Fr]) -> Result<Vec<Fr>, String> {
        self.run(Some(inp), Assign)
    }
    /// public values by definition
    pub fn reference(&self, inp: &[Fr]) -> Vec<Fr> {
        let p = modulus();
        let b = |v: &[Fr]| v.iter().map(to_big).collect::<Vec<BigUint>>();
        match self.kind {
            Kind::Df3 => vec![from_big(&big_feistel(&to_big(&inp[0]), &to_big(&inp[1]), &b(&self.cs), 3, &p))],
            Kind::Df5 => vec![from_big(&big_feistel(&to_big(&inp[0]), &to_big(&inp[1]), &b(&self.cs), 5, &p))],
            Kind::Hash5(_) => vec![from_big(&big_multi(&b(&inp[1..]), &to_big(&inp[0]), &b(&self.cs), MIMC5_HASH_ROUNDS, 5, &p))],
            Kind::Hash7(_) => vec![from_big(&big_multi(&b(&inp[1..]), &to_big(&inp[0]), &b(&self.cs), MIMC7_HASH_ROUNDS, 7, &p))],
            Kind::Equal(d) => vec![low_of(&inp[0], d), inp[0]],
            Kind::Pow => vec![from_big(&to_big(&inp[0]).modpow(&to_big(&inp[1]), &p))],
        }
    }
    pub fn random(&self, r: &mut Rng, mixed: bool) -> Vec<Fr> {
        let v = |r: &mut Rng| if mixed { fr_mixed(r) } else { fr(r) };
        match self.kind {
            Kind::Pow => {
                let e = if mixed && r.one_in(3) { *r.pick(&[0usize, 1, 2, (1 << POW_BITS) - 1, 1 << (POW_BITS - 1)]) } else { r.below(1 << POW_BITS) };
                vec![v(r), Fr::from(e as u64)]
            }
            _ => (0..self.arity()).map(|_| v(r)).collect(),
        }
    }
    /// inputs at which something degenerates
    pub fn special(&self, r: &mut Rng) -> Vec<Vec<Fr>> {
        let z = Fr::zero();
        let o = Fr::one();
        let mut out = vec![];
        match self.kind {
            Kind::Df3 | Kind::Df5 => {
                out.push(vec![z, z]);
                out.push(vec![-self.cs[0], fr(r)]);
                out.push(vec![-self.cs[0], -self.cs[1] - self.cs[0]]);
                out.push(vec![-self.cs[0], -self.cs[1]]);
                out.push(vec![-o, o]);
            }
            Kind::Hash5(n) | Kind::Hash7(n) => {
                out.push(vec![z; n + 1]);
                let k = fr(r);
                let mut v = vec![k];
                v.resize(n + 1, -k);
                out.push(v);
                let mut v = frs(r, n + 1);
                v[0] = z;
                out.push(v);
            }
            Kind::Equal(_) => {
                for e in edges() {
                    out.push(vec![e]);
                }
                // around every power of two
                for j in [1u32, 8, 20, 63, 64, 127, 128, 254] {
                    let p = BigUint::from(1u8) << j;
                    out.push(vec![from_big(&p)]);
                    out.push(vec![from_big(&(&p - 1u8))]);
                    out.push(vec![from_big(&(modulus() - &p))]);
                }
            }
            Kind::Pow => {
                for g in [z, o, -o, fr(r)] {
                    for e in [0u64, 1, 2, 3, (1 << POW_BITS) - 1, 1 << (POW_BITS - 1)] {
                        out.push(vec![g, Fr::from(e)]);
                    }
                }
                // an element of small order
                let t = fr(r).pow((((modulus() - 1u8) >> 5usize) as BigUint).to_u64_digits());
                out.push(vec![t, Fr::from(r.below(1 << POW_BITS) as u64)]);
            }
        }
        out
    }
}

/// low d bits as a field element
pub fn low_of(x: &Fr, d: usize) -> Fr {
    from_big(&(to_big(x) % (BigUint::from(1u8) << d)))
}
