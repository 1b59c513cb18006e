//! C09: bit, byte and integer conversions are exact little-endian inverses.
use common::*;
use proof_of_space::proof_of_space::convert::*;

fn ref_bits(b: &[u8]) -> Vec<bool> {
    b.iter().flat_map(|x| (0..8).map(move |i| x >> i & 1 == 1)).collect()
}

fn ref_bytes(b: &[bool]) -> Vec<u8> {
    b.chunks(8).map(|c| c.iter().enumerate().fold(0u8, |a, (i, &v)| a | (v as u8) << i)).collect()
}

fn main() {
    let m = Mon::new("C09", "", "exploration", "all bytes, all byte pairs, all bit vectors up to 16 bits, every width 0..64 with border and seeded values, longer random vectors; compared with shift-based references and inverted; distinct by input, non-trivial when non-empty");
    let mut r = m.rng(9);
    let bb = |v: &Vec<u8>| {
        let got = m.must("bytes_to_bits", || bytes_to_bits(v));
        m.check(got == ref_bits(v), || format!("bytes_to_bits({}) = {:?}", hex(v), &got[..got.len().min(64)]));
        let back = m.must("bits_to_bytes", || bits_to_bytes(&got));
        m.check(&back == v, || format!("bits_to_bytes(bytes_to_bits({})) = {}", hex(v), hex(&back)));
        m.count("byte strings", 1);
        m.eval(2);
    };
    let bi = |v: &Vec<bool>| {
        let got = m.must("bits_to_bytes", || bits_to_bytes(v));
        m.check(got == ref_bytes(v), || format!("bits_to_bytes of {} bits {:?} = {}", v.len(), &v[..v.len().min(64)], hex(&got)));
        m.count("bit strings", 1);
        m.eval(1);
        if v.len() <= 64 {
            let want = v.iter().enumerate().fold(0u64, |a, (i, &b)| a | (b as u64) << i) as usize;
            let got = m.must("bits_to_usize", || bits_to_usize(v));
            m.check(got == want, || format!("bits_to_usize({:?}) = {} expected {}", v, got, want));
            let back = m.must("usize_to_bits", || usize_to_bits(got, v.len()));
            m.check(&back == v, || format!("usize_to_bits({}, {}) = {:?}", got, v.len(), back));
            m.eval(2);
        }
    };
    let ub = |x: usize, n: usize| {
        let want: Vec<bool> = (0..n).map(|i| i < 64 && (x as u64) >> i & 1 == 1).collect();
        let got = m.must("usize_to_bits", || usize_to_bits(x, n));
        m.check(got == want, || format!("usize_to_bits({}, {}) = {:?}", x, n, got));
        if n <= 64 {
            let back = m.must("bits_to_usize", || bits_to_usize(&got));
            let low = if n == 64 { x } else { x & ((1usize << n) - 1) };
            m.check(back == low, || format!("bits_to_usize(usize_to_bits({}, {})) = {}", x, n, back));
        }
        m.count("integers", 1);
        m.eval(1);
    };
    m.case("all byte strings up to two bytes");
    bb(&vec![]);
    for a in 0..=255u8 {
        bb(&vec![a]);
        m.distinct(&("b", a));
        for b in 0..=255u8 {
            bb(&vec![a, b]);
        }
    }
    m.case("all bit strings up to 16 bits");
    for len in 0..=m.amount(16, 19) {
        for v in 0..1u64 << len {
            bi(&(0..len).map(|i| v >> i & 1 == 1).collect());
        }
        m.distinct(&("len", len));
    }
    for len in 0..=m.amount(1200, 4000) {
        m.case(format!("bit strings of {} bits", len));
        bi(&vec![false; len]);
        bi(&vec![true; len]);
        for k in 0..len.min(80) {
            let mut v = vec![false; len];
            v[k] = true;
            bi(&v);
            let mut v = vec![true; len];
            v[k] = false;
            bi(&v);
        }
        for _ in 0..10 {
            let v: Vec<bool> = (0..len).map(|_| r.coin()).collect();
            m.distinct(&v);
            bi(&v);
            let n = r.below(len + 1);
            bb(&r.bytes(n));
        }
    }
    for n in 0..=80 {
        m.case(format!("integers in {} bits", n));
        for x in [0usize, 1, 2, 3, 255, 256, 257, usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa] {
            ub(x, n);
        }
        for k in 0..64 {
            ub(1usize << k, n);
            ub((1usize << k).wrapping_sub(1), n);
        }
        for _ in 0..m.amount(1600, 10000) {
            let x = (r.u64() >> r.below(64)) as usize;
            m.distinct(&("int", x, n));
            ub(x, n);
        }
    }
    m.sample(format!("bytes_to_bits([0x8d]) = {:?}", bytes_to_bits(&vec![0x8d])));
    m.sample(format!("usize_to_bits(1000, 20) = {:?}", usize_to_bits(1000, 20)));
    m.finish();
}
