//! C29, space part: preparing and marking in a process that dies in the middle.
#[path = "../../../common/crash.rs"]
mod crash;
#[allow(dead_code)]
#[path = "../../../common/faults.rs"]
mod faults;
use ark_bls12_381::Fr;
use common::*;
use proof_of_space::mimc::mimc_df::MIMC5_DF_ROUNDS;
use proof_of_space::proof_of_space::prover::*;
use space_mon::*;

struct Case {
    n: usize,
    key: Fr,
    m: Fr,
    cs: Vec<Fr>,
}

/// The same in the parent and in the child.
fn setup(seed: u64, k: u64) -> Case {
    let mut r = Rng::new(seed, 2900 + k);
    let n = r.range(1, 9);
    let (key, m) = (fr_mixed(&mut r), fr_mixed(&mut r));
    Case { n, key, m, cs: frs(&mut r, MIMC5_DF_ROUNDS) }
}

const OPS: [&str; 3] = ["prepare", "mark", "both"];

fn operate(op: &str, x: &Case, path: &str) {
    if op != "mark" {
        prepare_space(path, x.n).unwrap();
    }
    if op != "prepare" {
        let _ = mark_space(path, x.key, x.m, &x.cs, x.n);
    }
}

/// Slots that are flagged with something that is not a preimage, and slots that miss one.
fn faults_of(x: &Case, img: &[u32], t: &[u8]) -> (Vec<usize>, Vec<usize>) {
    let (mut wrong, mut missing) = (vec![], vec![]);
    let mut has = vec![false; 1 << x.n];
    for y in img {
        has[*y as usize] = true;
    }
    for s in 0..1usize << x.n {
        let (v, flag) = get_slot(t, x.n, s);
        if flag && (v >= img.len() || img[v] as usize != s) {
            wrong.push(s);
        }
        if !flag && has[s] {
            missing.push(s);
        }
    }
    (wrong, missing)
}

fn one(m: &Mon, seed: u64, k: u64, op: &str) {
    let x = setup(seed, k);
    let img = images(x.n, x.key, x.m, &x.cs);
    let mut r = m.rng(10_000 + k * 10);
    let sc = Scratch::new("c29");
    let path = sc.path("space");
    let job = format!("{} {} {}", op, seed, k);
    let len = table_bytes(x.n);
    let junk = { let n = r.below(2 * len + 2); r.bytes(n) };
    let reset = || std::fs::write(&path, if op == "mark" { vec![0u8; len] } else { junk.clone() }).unwrap();
    let go = |at: u64, part: u8| match crash::run(&job, &path, at, part) {
        Ok(v) => v,
        Err(e) => m.violate(&format!("{} failed without a fault: {}", op, e)),
    };
    reset();
    m.case(format!("{} without a crash, n={}", op, x.n));
    let total = match go(u64::MAX, 0) {
        Some(n) => n,
        None => m.violate("killed without a fault"),
    };
    m.check(total > 0, || format!("{} changed nothing", op));
    let right = |what: &str| {
        let t = std::fs::read(&path).unwrap();
        m.check(t.len() == len, || format!("{}: {} bytes instead of {}", what, t.len(), len));
        let (w, l) = faults_of(&x, &img, &t);
        m.check(w.is_empty() && l.is_empty(), || format!("{}: slots {:?} hold no preimage, slots {:?} miss theirs", what, w, l));
    };
    for (at, part) in crash::points(&mut r, total, m.amount(14, 60)) {
        reset();
        m.case(format!("{} dies in change {} of {}, case {}, n={}", op, at, total, k, x.n));
        if go(at, part).is_some() {
            m.count("ended before the crash", 1);
            continue;
        }
        m.count(&format!("crashes in {}", op), 1);
        m.distinct(&(op, k, at));
        let left = std::fs::read(&path).unwrap_or_default();
        if op == "mark" {
            m.check(left.len() == len, || format!("{} bytes instead of {}", left.len(), len));
            let (w, l) = faults_of(&x, &img, &left);
            m.check(w.len() <= 1, || format!("slots {:?} are flagged and hold no preimage", w));
            m.count("slots not marked yet", l.len() as u64);
            m.must("marking again", || operate("mark", &x, &path));
            right("marked again");
            std::fs::write(&path, &left).unwrap();
        }
        m.must("preparing and marking again", || operate("both", &x, &path));
        right("prepared and marked again");
    }
    m.sample(format!("{} n={}: {} changes", op, x.n, total));
}

fn main() {
    if let Some(job) = child_job() {
        let v: Vec<&str> = job.split(' ').collect();
        let x = setup(v[1].parse().unwrap(), v[2].parse().unwrap());
        let dir = std::env::var("VERIF_DIR").unwrap();
        crash::child(|| operate(v[0], &x, &dir));
    }
    let m = Mon::new("C29", "space", "fault_enumeration", "preparing and marking of seeded spaces in a process that kills itself in the chosen file-changing call; what is left is examined and the operation repeated; distinct by space, operation and crash point");
    let n = m.amount(900, 9000);
    parallel(n, threads(), |k| one(m, m.seed, k as u64 / 3, OPS[k % 3]));
    m.finish();
}
