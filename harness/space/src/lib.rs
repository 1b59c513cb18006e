//! Reference implementations, written from the definitions, and helpers for
//! the proof-of-space monitors. Nothing here calls the code under test.
pub mod r1cs;

use ark_bls12_381::Fr;
use ark_ff::{BigInteger, Field, FpParameters, One, PrimeField, UniformRand, Zero};
use common::Rng;
use num_bigint::BigUint;

pub fn fr(r: &mut Rng) -> Fr {
    let mut b = r.bytes(48);
    b[47] &= 0x3f;
    Fr::from_le_bytes_mod_order(&b)
}

pub fn modulus() -> BigUint {
    let m = <Fr as PrimeField>::Params::MODULUS;
    BigUint::from_bytes_le(&m.to_bytes_le())
}

pub fn to_big(x: &Fr) -> BigUint {
    BigUint::from_bytes_le(&x.into_repr().to_bytes_le())
}

pub fn from_big(x: &BigUint) -> Fr {
    Fr::from_le_bytes_mod_order(&x.to_bytes_le())
}

pub fn edges() -> Vec<Fr> {
    let one = Fr::one();
    let two = one + one;
    let half = two.inverse().unwrap();
    vec![
        Fr::zero(),
        one,
        two,
        -one,
        -two,
        half,
        -half,
        Fr::from(255u64),
        Fr::from(256u64),
        Fr::from((1u64 << 20) - 1),
        Fr::from(1u64 << 20),
        Fr::from(u64::MAX),
        from_big(&(BigUint::from(1u8) << 254)),
        from_big(&((BigUint::from(1u8) << 254) - 1u8)),
        from_big(&((BigUint::from(1u8) << 128) - 1u8)),
    ]
}

/// random element, sometimes an edge value
pub fn fr_mixed(r: &mut Rng) -> Fr {
    if r.one_in(4) {
        let e = edges();
        *r.pick(&e)
    } else if r.one_in(6) {
        Fr::from(r.u64() >> (r.below(60) as u64))
    } else {
        fr(r)
    }
}

pub fn frs(r: &mut Rng, n: usize) -> Vec<Fr> {
    (0..n).map(|_| fr(r)).collect()
}

// ---- big-integer references, independent of the field arithmetic crate

pub fn big_pow(x: &BigUint, e: u32, p: &BigUint) -> BigUint {
    let mut r = BigUint::from(1u8);
    for _ in 0..e {
        r = r * x % p;
    }
    r
}

/// Feistel MiMC: (l, r) <- (r + (l + c)^e, l) for every constant; the left half is the result.
pub fn big_feistel(l: &BigUint, r: &BigUint, cs: &[BigUint], e: u32, p: &BigUint) -> BigUint {
    let (mut l, mut r) = (l.clone(), r.clone());
    for c in cs {
        let t = big_pow(&((&l + c) % p), e, p);
        let nl = (t + &r) % p;
        r = l;
        l = nl;
    }
    l
}

/// Keyed MiMC permutation: x, then per round t = state + key + c (no constant in round 0), state = t^e; plus key.
pub fn big_mimc(x: &BigUint, k: &BigUint, cs: &[BigUint], rounds: usize, e: u32, p: &BigUint) -> BigUint {
    let mut h = x.clone();
    for i in 0..rounds {
        let t = if i == 0 { (&h + k) % p } else { (&h + k + &cs[i]) % p };
        h = big_pow(&t, e, p);
    }
    (h + k) % p
}

/// Miyaguchi-Preneel chaining: r <- r + x + E_r(x).
pub fn big_multi(xs: &[BigUint], k: &BigUint, cs: &[BigUint], rounds: usize, e: u32, p: &BigUint) -> BigUint {
    let mut r = k.clone();
    for x in xs {
        let h = big_mimc(x, &r, cs, rounds, e, p);
        r = (r + x + h) % p;
    }
    r
}

// ---- fast references over the field type

fn p5(t: Fr) -> Fr {
    let t2 = t * t;
    t2 * t2 * t
}

pub fn ref_df5(l: Fr, r: Fr, cs: &[Fr]) -> Fr {
    let (mut l, mut r) = (l, r);
    for c in cs {
        let n = p5(l + c) + r;
        r = l;
        l = n;
    }
    l
}

pub fn ref_hash5(xs: &[Fr], key: Fr, cs: &[Fr], rounds: usize) -> Fr {
    let mut r = key;
    for x in xs {
        let mut h = *x;
        for i in 0..rounds {
            let t = if i == 0 { h + r } else { h + r + cs[i] };
            h = p5(t);
        }
        h += r;
        r = r + x + h;
    }
    r
}

pub fn low_bits(y: &Fr, n: usize) -> usize {
    let v = y.into_repr().0[0] as usize;
    if n >= 64 {
        v
    } else {
        v & ((1usize << n) - 1)
    }
}

// ---- the slot table

pub fn table_bytes(n: usize) -> usize {
    ((n + 1) * (1usize << n) + 7) / 8
}

pub fn get_bit(buf: &[u8], i: usize) -> bool {
    buf[i / 8] >> (i % 8) & 1 == 1
}

pub fn set_bit(buf: &mut [u8], i: usize, v: bool) {
    if v {
        buf[i / 8] |= 1 << (i % 8)
    } else {
        buf[i / 8] &= !(1 << (i % 8))
    }
}

pub fn get_slot(buf: &[u8], n: usize, s: usize) -> (usize, bool) {
    let base = (n + 1) * s;
    let mut x = 0usize;
    for j in 0..n {
        if get_bit(buf, base + j) {
            x |= 1 << j;
        }
    }
    (x, get_bit(buf, base + n))
}

pub fn put_slot(buf: &mut [u8], n: usize, s: usize, x: usize, flag: bool) {
    let base = (n + 1) * s;
    for j in 0..n {
        set_bit(buf, base + j, x >> j & 1 == 1);
    }
    set_bit(buf, base + n, flag);
}

/// image slot of every x below 2^n
pub fn images(n: usize, key: Fr, m: Fr, cs: &[Fr]) -> Vec<u32> {
    let count = 1usize << n;
    let mut out = vec![0u32; count];
    let th = common::threads();
    let chunk = (count + th - 1) / th;
    std::thread::scope(|sc| {
        for (ci, o) in out.chunks_mut(chunk.max(1)).enumerate() {
            sc.spawn(move || {
                for (j, v) in o.iter_mut().enumerate() {
                    let x = ci * chunk + j;
                    *v = low_bits(&ref_df5(Fr::from(x as u64) + key, m, cs), n) as u32;
                }
            });
        }
    });
    out
}

/// a correct table (the last x wins a slot)
pub fn make_table(n: usize, key: Fr, m: Fr, cs: &[Fr]) -> Vec<u8> {
    let mut buf = vec![0u8; table_bytes(n)];
    for (x, &s) in images(n, key, m, cs).iter().enumerate() {
        put_slot(&mut buf, n, s as usize, x, true);
    }
    buf
}

pub fn show(x: &Fr) -> String {
    to_big(x).to_str_radix(16)
}

pub fn rand_fr_std() -> Fr {
    Fr::rand(&mut rand::thread_rng())
}

/// Inputs (left, right) of the delay network whose outputs are (y, other).
pub fn ref_df5_inverse(y: Fr, other: Fr, cs: &[Fr]) -> (Fr, Fr) {
    let (mut l, mut r) = (y, other);
    for c in cs.iter().rev() {
        let pl = r;
        let pr = l - p5(pl + c);
        l = pl;
        r = pr;
    }
    (l, r)
}

/// Verdict of a verifier, whatever form it takes; a panic is caught outside.
pub trait Verdict {
    fn accepted(self) -> bool;
}
impl Verdict for () {
    fn accepted(self) -> bool {
        true
    }
}
impl Verdict for bool {
    fn accepted(self) -> bool {
        self
    }
}
impl<T: Verdict, E> Verdict for Result<T, E> {
    fn accepted(self) -> bool {
        self.map(|v| v.accepted()).unwrap_or(false)
    }
}

pub fn accepts<V: Verdict>(f: impl FnOnce() -> V) -> bool {
    common::catch(|| f().accepted()).unwrap_or(false)
}

/// low bits of y as a field element
pub fn low_fr(y: &Fr, n: usize) -> Fr {
    Fr::from(low_bits(y, n) as u64)
}
