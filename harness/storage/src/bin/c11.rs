//! C11: the delay encoding is an invertible permutation.
use common::*;
use num_bigint::{BigInt, Sign};
use proof_of_storage::vde::{compare_modpow, rug_sloth, rug_vde, sloth};
use rug::integer::IsPrime;
use rug::Integer;
use storage_mon::*;

fn to_num(x: &Integer) -> BigInt {
    BigInt::from_bytes_le(if *x < 0 { Sign::Minus } else { Sign::Plus }, &Integer::from(x.abs_ref()).to_digits::<u8>(rug::integer::Order::Lsf))
}

fn is_prime(n: u64) -> bool {
    n >= 2 && (2..).take_while(|d| d * d <= n).all(|d| n % d != 0)
}

fn powmod(mut b: u64, mut e: u64, p: u64) -> u64 {
    let mut r = 1 % p;
    b %= p;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % p;
        }
        b = b * b % p;
        e >>= 1;
    }
    r
}

/// one value under one prime, both implementations, against the reference
fn value(m: &Mon, x: &Integer, p: &Integer, t: usize) -> Integer {
    let np = to_num(p);
    let nx = to_num(x);
    m.case(format!("{} rounds on {} modulo {}", t, x, p));
    let y = m.must("rug sloth", || rug_sloth::sloth(x, p, t));
    m.check(y >= 0 && y < *p, || format!("rug sloth leaves the field: {}", y));
    let ny = m.must("num-bigint sloth", || sloth::sloth(&nx, &np, t));
    m.check(ny == to_num(&y), || format!("the two implementations disagree: {} and {}", y, ny));
    let e = ref_sloth(x, p, t);
    m.check(y == e, || format!("sloth gives {}, {} expected", y, e));
    let b = m.must("rug sloth_inv", || rug_sloth::sloth_inv(&y, p, t));
    m.check(b == *x, || format!("inverse of {} gives {}", y, b));
    let nb = m.must("num-bigint sloth_inv", || sloth::sloth_inv(&ny, &np, t));
    m.check(nb == nx, || format!("num-bigint inverse of {} gives {}", ny, nb));
    // and the other way round
    let i = m.must("rug sloth_inv", || rug_sloth::sloth_inv(x, p, t));
    m.check(i >= 0 && i < *p, || format!("rug sloth_inv leaves the field: {}", i));
    let ni = m.must("num-bigint sloth_inv", || sloth::sloth_inv(&nx, &np, t));
    m.check(ni == to_num(&i), || format!("the two inverses disagree: {} and {}", i, ni));
    let f = m.must("rug sloth", || rug_sloth::sloth(&i, p, t));
    m.check(f == *x, || format!("sloth of the inverse {} gives {}", i, f));
    m.count("values encoded and decoded", 1);
    y
}

fn symbol(m: &Mon, x: &Integer, p: &Integer, expect: i32) {
    m.case(format!("symbol of {} modulo {}", x, p));
    let a = m.must("rug legendre", || rug_sloth::legendre(x.clone(), p));
    m.check(a == expect, || format!("rug legendre is {}, {} expected", a, expect));
    let b = m.must("num-bigint legendre", || sloth::legendre(to_num(x), &to_num(p)));
    m.check(b == BigInt::from(expect), || format!("num-bigint legendre is {}, {} expected", b, expect));
    m.count("symbols compared", 1);
}

fn main() {
    let m = Mon::new("C11", "", "exploration", "every value of every prime = 3 mod 4 up to a bound, with images checked to be permutations; edge values and random values under the six built-in primes and random large primes, 0 to 40 rounds; byte encodings of every width; symbols against Euler's criterion for every odd prime up to a bound; distinct by (value, prime, rounds)");
    // built-in primes
    for (name, bits, a, b, c) in [
        ("P_64", 64u32, rug_sloth::P_64, sloth::P_64, compare_modpow::P_64),
        ("P_128", 128, rug_sloth::P_128, sloth::P_128, compare_modpow::P_128),
        ("P_256", 256, rug_sloth::P_256, sloth::P_256, compare_modpow::P_256),
        ("P_512", 512, rug_sloth::P_512, sloth::P_512, compare_modpow::P_512),
        ("P_1024", 1024, rug_sloth::P_1024, sloth::P_1024, compare_modpow::P_1024),
        ("P_2048", 2048, rug_sloth::P_2048, sloth::P_2048, compare_modpow::P_2048),
    ] {
        m.case(format!("built-in prime {}", name));
        m.check(a == b && b == c, || "the modules hold different primes".into());
        let p: Integer = m.must("parse", || a.parse().unwrap());
        m.check(p.is_probably_prime(60) != IsPrime::No, || "not prime".into());
        m.check(Integer::from(&p % 4u32) == 3, || "not 3 modulo 4".into());
        m.check(p.significant_bits() == bits, || format!("{} bits", p.significant_bits()));
        m.count("built-in primes", 1);
    }
    // exhaustive
    let top = m.amount(1040, 3000) as u64;
    let primes: Vec<u64> = (3..top).filter(|&p| is_prime(p)).collect();
    parallel(primes.len(), threads(), |k| {
        let p = primes[k];
        let pi = Integer::from(p);
        for x in 0..p {
            let e = powmod(x, (p - 1) / 2, p);
            symbol(m, &Integer::from(x), &pi, if e == p - 1 { -1 } else { e as i32 });
        }
        if p % 4 != 3 {
            return;
        }
        for t in [0usize, 1, 2, 3, 7] {
            let mut hit = vec![false; p as usize];
            for x in 0..p {
                let y = value(m, &Integer::from(x), &pi, t);
                let y = y.to_usize().unwrap();
                m.check(!hit[y], || format!("two values encode to {} modulo {} in {} rounds", y, p, t));
                hit[y] = true;
                m.distinct(&(x, p, t));
            }
            m.count("full permutations", 1);
        }
    });
    // the built-in primes
    let mut big: Vec<Integer> = [rug_sloth::P_64, rug_sloth::P_128, rug_sloth::P_256, rug_sloth::P_512, rug_sloth::P_1024, rug_sloth::P_2048].iter().map(|s| s.parse().unwrap()).collect();
    let nb = big.len();
    let mut r = m.rng(1);
    for _ in 0..m.amount(96, 400) {
        // random primes = 3 mod 4
        let bits = r.range(9, 600);
        loop {
            let n = bits / 8 + 1;
            let c = int(&r.bytes(n)).next_prime();
            if Integer::from(&c % 4u32) == 3 {
                big.push(c);
                break;
            }
        }
    }
    let jobs: Vec<(usize, usize)> = (0..big.len()).flat_map(|i| (0..if i < nb { m.amount(240, 1200) } else { m.amount(10, 30) }).map(move |k| (i, k))).collect();
    parallel(jobs.len(), threads(), |j| {
        let (i, k) = jobs[j];
        let p = &big[i];
        let mut r = m.rng(1000 + j as u64);
        let half = Integer::from(p / 2u32);
        let w = (p.significant_bits() as usize + 7) / 8;
        let x = match k {
            0 => Integer::new(),
            1 => Integer::from(1),
            2 => Integer::from(2),
            3 => Integer::from(p - 1u32),
            4 => Integer::from(p - 2u32),
            5 => half.clone(),
            6 => half.clone() + 1u32,
            7 => Integer::from(1) << (p.significant_bits() - 1),
            8 => Integer::from(3),
            9 => Integer::from(p - 3u32),
            _ => match r.below(5) {
                0 => {
                    let a = rand_below(&mut r, p);
                    a.clone() * a % p
                }
                1 => {
                    let a = rand_below(&mut r, p);
                    Integer::from(p - (a.clone() * a % p))
                }
                2 => {
                    let n = r.below(w);
                    int(&r.bytes(n))
                }
                _ => rand_below(&mut r, p),
            },
        };
        if x >= *p {
            return;
        }
        let t = match k % 5 {
            0 => 1,
            1 => r.below(4),
            2 => r.below(12),
            3 => 0,
            _ => if p.significant_bits() < 300 { r.below(41) } else { r.below(6) },
        };
        symbol(m, &x, p, x.legendre(p));
        value(m, &x, p, t);
        m.distinct(&(x.to_string(), i, t));
        // bytes
        let mode = if r.one_in(4) { "other".to_string() } else { "sloth".to_string() };
        for l in [w, w + r.below(4)] {
            let bx = le(&x, if r.coin() { l } else { w });
            m.case(format!("{} rounds on the bytes of {} modulo {}, width {}", t, x, p, l));
            let by = m.must("vde", || rug_vde::vde(&bx, p, t, &mode, l));
            m.check(by.len() == l, || format!("encoding of {} bytes", by.len()));
            m.check(int(&by) == ref_sloth(&x, p, t), || "the bytes are not those of the encoded value".into());
            let back = m.must("vde_inv", || rug_vde::vde_inv(&by, p, t, &mode, l));
            m.check(back.len() == l, || format!("decoding of {} bytes", back.len()));
            m.check(int(&back) == x, || format!("decoding gives {}", int(&back)));
            let inv = m.must("vde_inv", || rug_vde::vde_inv(&bx, p, t, &mode, l));
            m.check(inv.len() == l, || format!("decoding of {} bytes", inv.len()));
            let fwd = m.must("vde", || rug_vde::vde(&inv, p, t, &mode, l));
            m.check(fwd.len() == l && int(&fwd) == x, || format!("encoding the decoding gives {}", int(&fwd)));
            m.count("byte encodings", 2);
        }
    });
    // modular power used to compare the libraries
    for k in 0..m.amount(16000, 60000) {
        let p = if k % 3 == 0 { r.pick(&big[..4]).clone() } else { Integer::from(r.range(2, 5000)) };
        let (a, b) = (r.below(20), r.below(12));
        let x = int(&r.bytes(a));
        let e = int(&r.bytes(b));
        m.case(format!("{} to the {} modulo {}", x, e, p));
        let want = x.clone().pow_mod(&e, &p).unwrap() % &p;
        let got = m.must("fast_modpow", || compare_modpow::fast_modpow(to_num(&x), to_num(&e), to_num(&p)));
        m.check(got == to_num(&want), || format!("fast_modpow gives {}", got));
        m.count("modular powers", 1);
    }
    m.sample("P_64 .. P_2048, edge values 0, 1, 2, p-1, p-2, p/2, 2^k, squares and their negations");
    m.finish();
}
