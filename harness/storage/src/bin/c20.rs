//! C20: byte, unit and modular helpers.
use common::*;
use md5::{Digest, Md5};
use num_bigint::BigUint;
use proof_of_storage::proof_of_storage::common::*;
use std::fs::OpenOptions;
use std::io::Write;
use storage_mon::*;

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn padle(x: &BigUint, w: usize) -> Vec<u8> {
    let mut v = x.to_bytes_le();
    if *x == BigUint::from(0u8) {
        v.clear();
    }
    v.resize(w, 0);
    v
}

fn main() {
    let m = Mon::new("C20", "", "exploration", "every unit length and count in the small and random larger ones; xor of every pair of lengths up to 40; modular sums and differences with operands at 0, 1, p-1 and random under primes from 8 to 2048 bits; range reads at every offset and length around the end of small files; digests against published vectors and the reference crates; distinct by arguments");
    let mut r = m.rng(1);
    // units
    for _ in 0..m.amount(32000, 200000) {
        let (n, l) = (r.below(30), r.range(1, 80));
        let data = r.content(n * l).0;
        m.case(format!("{} units of {} bytes", n, l));
        let u = m.must("to_units", || to_units(&data, l));
        m.check(u.len() == n && u.iter().all(|x| x.len() == l), || format!("{} units of lengths {:?}", u.len(), u.iter().map(|x| x.len()).collect::<Vec<_>>()));
        m.check(u.concat() == data, || "the units are not the data in order".into());
        let back = m.must("com_units", || com_units(&u));
        m.check(back == data, || format!("joining the units does not give the data back: {}", first_diff(&back, &data)));
        // data that is not whole units is refused or kept whole
        if l > 1 {
            let k = r.range(1, l - 1);
            let more = [&data[..], &r.bytes(k)[..]].concat();
            if let Ok(u) = catch(|| to_units(&more, l)) {
                m.check(u.concat() == more, || format!("{} bytes in units of {}: {} bytes come out", more.len(), l, u.concat().len()));
            }
            m.count("splits of incomplete units", 1);
        }
        // joining units of different lengths
        let odd: Vec<Vec<u8>> = (0..r.below(6)).map(|_| { let k = r.below(9); r.bytes(k) }).collect();
        let j = m.must("com_units", || com_units(&odd));
        m.check(j == odd.concat(), || format!("joining {:?}", odd));
        m.count("splits and joins", 1);
        m.distinct(&("u", n, l, &data));
    }
    // xor
    for a in 0..40usize {
        for b in 0..40usize {
            let (x, y) = (r.bytes(a), r.bytes(b));
            m.case(format!("xor of {} and {} bytes", a, b));
            let z = m.must("vecu8_xor", || vecu8_xor(&x, &y));
            m.check(z.len() == a.max(b), || format!("result of {} bytes", z.len()));
            for i in 0..z.len() {
                let e = x.get(i).unwrap_or(&0) ^ y.get(i).unwrap_or(&0);
                m.check(z[i] == e, || format!("byte {} is {:#04x} instead of {:#04x}", i, z[i], e));
            }
            m.count("xors", 1);
            m.distinct(&("x", &x, &y));
        }
    }
    // modular
    use proof_of_storage::vde::rug_sloth::*;
    let mut mods: Vec<rug::Integer> = [P_64, P_128, P_256, P_512, P_1024, P_2048].iter().map(|s| s.parse().unwrap()).collect();
    for v in [2u32, 3, 7, 251, 255, 256, 257, 65521, 65536] {
        mods.push(rug::Integer::from(v));
    }
    for k in 0..m.amount(240000, 1200000) {
        let p = if r.one_in(4) {
            let n = r.range(1, 40);
            int(&r.bytes(n)) + 2u32
        } else {
            r.pick(&mods).clone()
        };
        let w = (p.significant_bits() as usize + 7) / 8 + if r.one_in(3) { r.below(5) } else { 0 };
        let pick = |r: &mut Rng| -> rug::Integer {
            match r.below(6) {
                0 => rug::Integer::new(),
                1 => rug::Integer::from(1) % &p,
                2 => rug::Integer::from(&p - 1u32),
                3 => rug::Integer::from(&p / 2u32),
                _ => rand_below(r, &p),
            }
        };
        let (a, b) = (pick(&mut r), pick(&mut r));
        let la = le(&a, w);
        // the right operand may be narrower than the left, like a digest
        let min = (b.significant_bits() as usize + 7) / 8;
        let wb = if r.coin() { w } else { min.max(1).min(w) };
        let lb = le(&b, wb);
        let bp = BigUint::from_bytes_le(&p.to_digits::<u8>(rug::integer::Order::Lsf));
        let (ba, bb) = (BigUint::from_bytes_le(&la), BigUint::from_bytes_le(&lb));
        m.case(format!("case {}: {} and {} modulo {} in {} and {} bytes", k, a, b, p, w, wb));
        let s = m.must("modadd", || modadd(&la, &lb, &p));
        m.check(s == padle(&((&ba + &bb) % &bp), w), || format!("sum is {} in {} bytes", int(&s), s.len()));
        let d = m.must("modsub", || modsub(&la, &lb, &p));
        m.check(d == padle(&((&ba + &bp - &bb) % &bp), w), || format!("difference is {} in {} bytes", int(&d), d.len()));
        let back = m.must("modsub", || modsub(&s, &lb, &p));
        m.check(back == la, || format!("adding then subtracting gives {}", int(&back)));
        let back = m.must("modadd", || modadd(&d, &lb, &p));
        m.check(back == la, || format!("subtracting then adding gives {}", int(&back)));
        m.count("modular sums and differences", 4);
        m.distinct(&("m", &la, &lb, p.to_string()));
    }
    // range reads
    let s = Scratch::new("c20");
    for n in [0usize, 1, 2, 7, 64, 65] {
        let f = s.path("f");
        let data = r.bytes(n);
        std::fs::write(&f, &data).unwrap();
        let mut fh = OpenOptions::new().read(true).open(&f).unwrap();
        for begin in 0..=n + 3 {
            for len in 0..=n + 5 {
                m.case(format!("reading {} bytes at {} of a file of {}", len, begin, n));
                let got = m.must("read_file", || read_file(&mut fh, begin, len));
                let e: Vec<u8> = (begin..begin + len).map(|i| *data.get(i).unwrap_or(&0)).collect();
                m.check(got == e, || first_diff(&got, &e));
                m.count("range reads", 1);
                m.distinct(&("r", n, begin, len));
            }
        }
    }
    {
        let f = s.path("big");
        let data = r.bytes(3_000_000);
        std::fs::write(&f, &data).unwrap();
        let mut fh = OpenOptions::new().read(true).open(&f).unwrap();
        for _ in 0..m.amount(2400, 6000) {
            let begin = r.below(3_000_000);
            let len = if r.coin() { r.below(3_200_000) } else { r.below(9000) };
            m.case(format!("reading {} bytes at {} of a file of 3000000", len, begin));
            let got = m.must("read_file", || read_file(&mut fh, begin, len));
            let e = (3_000_000 - begin).min(len);
            m.check(got.len() == len && got[..e] == data[begin..begin + e] && got[e..].iter().all(|&x| x == 0), || "wrong bytes".into());
            m.count("range reads", 1);
            m.distinct(&("R", begin, len));
        }
        // far beyond 4 GB, in a sparse file
        use std::os::unix::fs::FileExt;
        let f = s.path("sparse");
        let fh2 = std::fs::File::create(&f).unwrap();
        let at = (1u64 << 32) + 12345;
        fh2.write_all_at(b"hello beyond", at).unwrap();
        let mut fh = OpenOptions::new().read(true).open(&f).unwrap();
        m.case("reading beyond 4 GB of a sparse file");
        let got = m.must("read_file", || read_file(&mut fh, at as usize - 2, 20));
        m.check(got == b"\0\0hello beyond\0\0\0\0\0\0", || format!("{:?}", got));
    }
    // file creation
    for n in [0usize, 1, 100, 5000] {
        use proof_of_storage::proof_of_storage::verifier::create_random_file;
        let f = s.path("rnd");
        std::fs::File::create(&f).unwrap().write_all(&vec![7u8; 6000]).unwrap();
        m.case(format!("creating a random file of {} bytes over an existing one", n));
        m.must("create_random_file", || create_random_file(&f, n).unwrap());
        let a = std::fs::read(&f).unwrap();
        m.check(a.len() == n, || format!("file of {} bytes", a.len()));
        m.must("create_random_file", || create_random_file(&f, n).unwrap());
        let b = std::fs::read(&f).unwrap();
        m.check(n < 100 || a != b, || "two random files are the same".into());
        if n >= 5000 {
            m.check(a.iter().collect::<std::collections::HashSet<_>>().len() == 256, || "some byte values never occur".into());
        }
        m.count("random files", 2);
    }
    // digests: published vectors
    for (msg, want) in [
        ("", "d41d8cd98f00b204e9800998ecf8427e"),
        ("a", "0cc175b9c0f1b6a831c399e269772661"),
        ("abc", "900150983cd24fb0d6963f7d28e17f72"),
        ("message digest", "f96b697d7cb7938d525a2f31aaf161d0"),
        ("abcdefghijklmnopqrstuvwxyz", "c3fcd3d76192e4007dfb496cca67e13b"),
        ("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789", "d174ab98d277d9f5a5611c2c9f419d9f"),
    ] {
        m.case(format!("md5 of {:?}", msg));
        let h = m.must("md5_hash", || md5_hash(&msg.as_bytes().to_vec()));
        m.check(h == unhex(want), || hex(&h));
    }
    for (msg, want) in [
        (vec![], "af1349b9f5f9a1a6a0404dea36dcc9499bcb25c9adc112b7cc9a93cae41f3262"),
        (vec![0u8], "2d3adedff11b61f14c886e35afa036736dcd87a74d27b5c1510225d0f592e213"),
        (b"abc".to_vec(), "6437b3ac38465133ffb63b75273a8db548c558465d79db03fd359c6cd5bd9d85"),
    ] {
        m.case(format!("blake3 of {:?}", msg));
        let h = m.must("blake3_hash", || blake3_hash(&msg));
        m.check(h == unhex(want), || hex(&h));
    }
    for n in (0..300usize).chain([511, 512, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 63 * 64, 64 * 64, 100_000]).chain((0..m.amount(2400, 8000)).map(|_| r.below(20_000)).collect::<Vec<_>>()) {
        let msg = r.content(n).0;
        m.case(format!("digests of {} bytes", n));
        let h = m.must("blake3_hash", || blake3_hash(&msg));
        m.check(h == blake3::hash(&msg).as_bytes().to_vec(), || format!("blake3: {}", hex(&h)));
        let h = m.must("md5_hash", || md5_hash(&msg));
        m.check(h == Md5::digest(&msg).to_vec(), || format!("md5: {}", hex(&h)));
        m.count("digests", 2);
        m.distinct(&("h", &msg));
    }
    m.sample("modular cases under the six built-in primes, small and random moduli");
    m.finish();
}
