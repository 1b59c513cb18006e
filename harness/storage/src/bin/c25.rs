//! C25, storage part: secrets, files and challenges are fresh and random.
use common::*;
use proof_of_storage::proof_of_storage::postorage::prepare_params;
use proof_of_storage::proof_of_storage::verifier::{create_challenges, create_random_file};
use std::collections::HashMap;
use std::sync::Mutex;

const FILE_L: usize = 200;
const WIDE: usize = 1 << 40;

fn draw_file(path: &str) -> Vec<u8> {
    create_random_file(path, FILE_L).unwrap();
    let v = std::fs::read(path).unwrap();
    v
}

fn flat(c: &[usize]) -> Vec<u8> {
    c.iter().flat_map(|x| x.to_le_bytes()).collect()
}

fn child() {
    let s = Scratch::new("c25child");
    for _ in 0..20 {
        println!("CHILD iv {}", hex_all(&prepare_params(64).1));
        println!("CHILD challenges {}", hex_all(&flat(&create_challenges(10, (0, WIDE)))));
        println!("CHILD file {}", hex_all(&draw_file(&s.path("f"))));
    }
}

/// Everything drawn so far; two equal values of any kind are a violation.
struct Seen<'a> {
    m: &'a Mon,
    map: Mutex<HashMap<Vec<u8>, String>>,
}

impl Seen<'_> {
    fn add(&self, v: Vec<u8>, from: &str) {
        let mut g = self.map.lock().unwrap();
        if let Some(o) = g.insert(v.clone(), from.to_string()) {
            drop(g);
            self.m.violate(&format!("{} and {} drew the same value {}", o, from, hex(&v)));
        }
    }
}

fn uniform(m: &Mon, what: &str, draws: &[Vec<u8>]) {
    let len = draws[0].len();
    let mut all = vec![0u64; 256];
    for pos in 0..len {
        let mut c = vec![0u64; 256];
        let mut x = vec![0u64; 256];
        for d in draws {
            c[d[pos] as usize] += 1;
            all[d[pos] as usize] += 1;
            x[(d[pos] ^ d[(pos + 1) % len]) as usize] += 1;
        }
        if let Some(e) = far_from_uniform(&c) {
            m.violate(&format!("byte {} of {} is not uniform: {}", pos, what, e));
        }
        if let Some(e) = far_from_uniform(&x) {
            m.violate(&format!("byte {} of {} is related to its neighbour: {}", pos, what, e));
        }
        m.count("byte positions tallied", 1);
    }
    if let Some(e) = far_from_uniform(&all) {
        m.violate(&format!("the bytes of {} are not uniform: {}", what, e));
    }
    // within one draw: halves, and every shift, must not repeat
    for d in draws.iter().take(200) {
        for k in 1..len / 2 {
            m.check(d[..len - k] != d[k..], || format!("{} repeats with period {}: {}", what, k, hex(d)));
        }
        m.check(len % 2 != 0 || d[..len / 2] != d[len / 2..], || format!("both halves of {} are equal: {}", what, hex(d)));
        m.check(d.iter().any(|b| *b != d[0]), || format!("{} is constant", what));
    }
    // from one draw to the next
    for k in [1usize, 2, 7] {
        let mut c = vec![0u64; 256];
        for w in draws.windows(k + 1) {
            for p in (0..len).step_by(len / 8 + 1) {
                c[(w[0][p] ^ w[k][p]) as usize] += 1;
            }
        }
        if let Some(e) = far_from_uniform(&c) {
            m.violate(&format!("{}: a draw is related to the one {} later: {}", what, k, e));
        }
    }
}

fn main() {
    if child_job().is_some() {
        child();
        return;
    }
    let m = Mon::new("C25", "storage", "exploration", "secrets, random files and challenge lists drawn in one thread, in many threads at once and in processes started together; all compared pairwise for equality (enough draws to meet a 32-bit seed twice), every byte position, neighbouring bytes and successive draws tallied; distinct by drawn value");
    let seen = Seen { m, map: Mutex::new(HashMap::new()) };
    // one thread, many draws
    let n = m.amount(200_000, 1_000_000);
    let ivs: Mutex<Vec<Vec<u8>>> = Mutex::new(vec![]);
    m.case(format!("{} secrets", n));
    parallel(threads() * 2, threads(), |t| {
        let mut own = vec![];
        for k in 0..n / (threads() * 2) {
            let (key, iv) = m.must("prepare_params", || prepare_params([64, 128, 256, 32][k % 4]));
            m.check(iv.len() == 128, || format!("the secret has {} bytes", iv.len()));
            m.check(key > 1, || "no key".into());
            seen.add(iv.clone(), &format!("secret {} of thread {}", k, t));
            own.push(iv);
        }
        ivs.lock().unwrap().append(&mut own);
    });
    let ivs = ivs.into_inner().unwrap();
    m.eval(ivs.len() as u64);
    m.count("secrets drawn", ivs.len() as u64);
    uniform(m, "the secret", &ivs);

    let n = m.amount(160_000, 600_000);
    m.case(format!("{} challenge lists", n));
    parallel(threads() * 2, threads(), |t| {
        for k in 0..n / (threads() * 2) {
            let c = m.must("create_challenges", || create_challenges(10, (0, WIDE)));
            seen.add(flat(&c), &format!("challenge list {} of thread {}", k, t));
        }
    });
    m.eval(n as u64);
    m.count("challenge lists drawn", n as u64);

    let n = m.amount(6_000, 40_000);
    m.case(format!("{} files", n));
    let files: Mutex<Vec<Vec<u8>>> = Mutex::new(vec![]);
    let s = Scratch::new("c25");
    parallel(threads() * 2, threads(), |t| {
        let path = s.path(&format!("f{}", t));
        let mut own = vec![];
        for k in 0..n / (threads() * 2) {
            let v = m.must("create_random_file", || draw_file(&path));
            m.check(v.len() == FILE_L, || format!("a file of {} bytes has {}", FILE_L, v.len()));
            seen.add(v.clone(), &format!("file {} of thread {}", k, t));
            own.push(v);
        }
        files.lock().unwrap().append(&mut own);
    });
    let files = files.into_inner().unwrap();
    m.eval(files.len() as u64);
    m.count("files drawn", files.len() as u64);
    uniform(m, "a random file", &files);
    // a large file: no page, no kilobyte twice
    m.case("one large file");
    let big = s.path("big");
    let len = m.amount(400_000, 2_000_000);
    m.must("create_random_file", || create_random_file(&big, len).unwrap());
    let v = std::fs::read(&big).unwrap();
    m.check(v.len() == len, || format!("a file of {} bytes has {}", len, v.len()));
    for (i, c) in v.chunks_exact(16).enumerate() {
        seen.add(c.to_vec(), &format!("16 bytes at {} of the large file", 16 * i));
    }
    m.count("pieces of the large file compared", (len / 16) as u64);

    // fresh threads: first draws only
    m.case("first draws of threads started together");
    for round in 0..m.amount(30, 200) {
        let gate = std::sync::Barrier::new(16);
        std::thread::scope(|sc| {
            for t in 0..16 {
                let (gate, seen, s) = (&gate, &seen, &s);
                sc.spawn(move || {
                    gate.wait();
                    let iv = m.must("prepare_params", || prepare_params(64)).1;
                    let c = m.must("create_challenges", || create_challenges(10, (0, WIDE)));
                    let f = m.must("create_random_file", || draw_file(&s.path(&format!("t{}", t))));
                    seen.add(iv, &format!("the first secret of fresh thread {}/{}", round, t));
                    seen.add(flat(&c), &format!("the first challenges of fresh thread {}/{}", round, t));
                    seen.add(f, &format!("the first file of fresh thread {}/{}", round, t));
                });
            }
        });
        m.count("threads started together", 16);
    }
    // fresh processes
    for round in 0..m.amount(4, 20) {
        m.case("draws of processes started together");
        let all = children(16, "draw");
        for (i, lines) in all.iter().enumerate() {
            m.check(lines.len() == 60, || format!("a process drew {} of 60 values", lines.len()));
            for (k, (name, v)) in lines.iter().enumerate() {
                seen.add(v.clone().into_bytes(), &format!("{} {} of process {}/{}", name, k / 3, round, i));
            }
            m.count("processes started together", 1);
        }
    }
    m.eval(seen.map.lock().unwrap().len() as u64);
    let k = seen.map.lock().unwrap().len();
    m.count("values all different from each other", k as u64);
    for (i, x) in ivs.iter().enumerate() {
        if i % 10 == 0 {
            m.distinct(x);
        }
    }
    m.sample(format!("a secret: {}", hex(&ivs[0])));
    m.assume("the draws use the operating system's generator and are not reproducible from the seed; bounds are chosen so that a fair generator fails with probability far below 1e-12");
    m.finish();
}
