//! C29, storage part: operations whose process dies in the middle.
#[path = "../../../common/crash.rs"]
mod crash;
#[allow(dead_code)]
#[path = "../../../common/faults.rs"]
mod faults;
use common::*;
use proof_of_storage::proof_of_storage::postorage::*;
use proof_of_storage::proof_of_storage::prover::*;
use proof_of_storage::proof_of_storage::verifier::*;
use rug::Integer;
use std::fs::OpenOptions;
use storage_mon::*;

struct Case {
    c: Cfg,
    data: Vec<u8>,
    p: Integer,
    iv: Vec<u8>,
    /// what was saved before
    old: Option<(Integer, Vec<u8>)>,
}

/// The same in the parent and in the child.
fn setup(seed: u64, k: u64) -> Case {
    let mut r = Rng::new(seed, 2900 + k);
    let c = loop {
        let c = Cfg::random(&mut r, 40);
        if c.blocks > 1 {
            break c;
        }
    };
    let data = r.content(c.data_l()).0;
    let p = prime(c.unit_pl());
    let iv = r.bytes(128);
    let old = match r.below(4) {
        0 => None,
        1 => Some((prime(*r.pick(&[64usize, 128, 256])), r.bytes(128))),
        2 => Some((rand_below(&mut r, &p), r.bytes(128))),
        _ => {
            let n = r.below(400);
            Some((rand_below(&mut r, &p), r.bytes(n)))
        }
    };
    Case { c, data, p, iv, old }
}

const OPS: [&str; 6] = ["pad", "seal", "unseal", "compress", "save", "driver"];

fn operate(op: &str, x: &Case, dir: &str) {
    let f = |n: &str| format!("{}/{}", dir, n);
    let par = x.c.params();
    match op {
        "pad" => copy_and_pad(&f("origin"), &f("sealed"), x.c.data_l(), x.c.unit_l),
        "seal" => {
            let _ = seal(&par, &f("sealed"), &x.p, &x.iv);
        }
        "unseal" => {
            let _ = unseal(&par, &f("sealed"), &x.p, &x.iv);
        }
        "compress" => copy_and_compress(&f("sealed"), &f("unsealed"), x.c.data_l(), x.c.unit_l, x.c.unit_pl()),
        "save" => save_data(&f("params"), &x.p, &x.iv),
        _ => {
            let (mut a, mut b) = faults::pause(|| (log(&f("log")), log(&f("stat"))));
            seal_and_unseal(&par, &f("origin"), &f("sealed"), &f("unsealed"), &f("params"), &mut a, true, true, &mut b);
        }
    }
}

fn log(p: &str) -> std::fs::File {
    OpenOptions::new().read(true).append(true).create(true).open(p).unwrap()
}

fn audit(x: &Case, f: &dyn Fn(&str) -> String, b: usize, batch: bool) -> bool {
    let par = x.c.params();
    if batch {
        let bp = x.c.block_pl();
        accepts(|| {
            let (i, bl, ids, deps) = batch_unseal_prepare(&f("sealed"), b * bp, (b + 1) * bp, &par);
            batch_unseal_and_verify(&par, &f("origin"), &i, &bl, &ids, &deps, &x.p, &x.iv)
        })
    } else {
        accepts(|| {
            let (bl, id, dep) = single_unseal_prepare(&f("sealed"), b, &par);
            let got = batch_unseal(&par, &vec![b], &mut vec![bl], &vec![id], &vec![dep], &x.p, &x.iv);
            batch_verify(&f("origin"), b, &got[0], x.c.block_l(), x.c.unit_l)
        })
    }
}

fn one(m: &Mon, seed: u64, k: u64, op: &str) {
    let x = setup(seed, k);
    let c = &x.c;
    let mut r = m.rng(10_000 + k * 10);
    let sc = Scratch::new("c29");
    let dir = sc.dir().to_str().unwrap().to_string();
    let f = |n: &str| sc.path(n);
    let padded = pad(&x.data, c.unit_l);
    let z = ref_seal(c, &x.data, &x.p, &x.iv);
    let job = format!("{} {} {}", op, seed, k);
    let junk = { let n = r.below(3 * padded.len()); r.bytes(n) };
    let earlier = { let n = r.below(200); r.bytes(n) };
    let reset = || {
        std::fs::write(f("origin"), &x.data).unwrap();
        for n in ["sealed", "unsealed", "params", "log", "stat"] {
            let _ = std::fs::remove_file(f(n));
        }
        match op {
            "pad" => std::fs::write(f("sealed"), &junk).unwrap(),
            "seal" => std::fs::write(f("sealed"), &padded).unwrap(),
            "unseal" => std::fs::write(f("sealed"), &z.bytes).unwrap(),
            "compress" => {
                std::fs::write(f("sealed"), &padded).unwrap();
                std::fs::write(f("unsealed"), &junk).unwrap();
            }
            "save" => {
                if let Some((p, iv)) = &x.old {
                    m.must("save_data", || save_data(&f("params"), p, iv));
                }
            }
            _ => {
                std::fs::write(f("log"), &earlier).unwrap();
                std::fs::write(f("stat"), &earlier).unwrap();
            }
        }
    };
    let go = |at: u64, part: u8| match crash::run(&job, &dir, at, part) {
        Ok(v) => v,
        Err(e) => m.violate(&format!("{} failed without a fault: {}", op, e)),
    };
    reset();
    m.case(format!("{} without a crash: {}", op, c.show()));
    let total = match go(u64::MAX, 0) {
        Some(n) => n,
        None => m.violate("killed without a fault"),
    };
    m.check(total > 0, || format!("{} changed nothing", op));
    for (at, part) in crash::points(&mut r, total, m.amount(16, 60)) {
        reset();
        m.case(format!("{} dies in change {} of {} ({}/8 done), case {}: {}", op, at, total, part, k, c.show()));
        if go(at, part).is_some() {
            m.count("ended before the crash", 1);
            continue;
        }
        m.count(&format!("crashes in {}", op), 1);
        m.distinct(&(op, k, at, part));
        let read = |n: &str| std::fs::read(f(n)).unwrap_or_default();
        m.check(read("origin") == x.data, || "the original was altered".into());
        match op {
            "pad" => {
                m.must("copy_and_pad again", || operate("pad", &x, &dir));
                m.check(read("sealed") == padded, || format!("padded again: {}", first_diff(&read("sealed"), &padded)));
            }
            "seal" => {
                let now = read("sealed");
                m.check(now.len() == padded.len(), || format!("{} bytes, there were {}", now.len(), padded.len()));
                let bp = c.block_pl();
                let whole = |b: usize| now[b * bp..(b + 1) * bp] == z.bytes[b * bp..(b + 1) * bp];
                for b in 0..c.blocks {
                    let ok = audit(&x, &f, b, r.coin());
                    if !whole(b) {
                        m.check(!ok, || format!("block {}, whose sealing was cut off, passes the audit", b));
                        m.count("unfinished blocks refused", 1);
                    } else if (b == 0 || whole(b - 1)) && z.deps[b].iter().all(|&d| whole(d)) {
                        m.check(ok, || format!("block {} was sealed before the crash and does not pass the audit", b));
                        m.count("finished blocks accepted", 1);
                    }
                }
                m.must("padding and sealing again", || {
                    operate("pad", &x, &dir);
                    operate("seal", &x, &dir)
                });
                m.check(read("sealed") == z.bytes, || format!("sealed again: {}", first_diff(&read("sealed"), &z.bytes)));
            }
            "unseal" => {
                let now = read("sealed");
                m.check(now.len() == padded.len(), || format!("{} bytes, there were {}", now.len(), padded.len()));
                let bp = c.block_pl();
                let mut lost = vec![];
                for b in 0..c.blocks {
                    if now[b * bp..(b + 1) * bp] == padded[b * bp..(b + 1) * bp] {
                        m.count("blocks already recovered", 1);
                    } else if audit(&x, &f, b, r.coin()) {
                        m.count("blocks still recoverable", 1);
                    } else {
                        lost.push(b);
                    }
                }
                m.check(lost.len() <= 1, || format!("the data of blocks {:?} of {} is lost", lost, c.blocks));
            }
            "compress" => {
                m.check(read("sealed") == padded, || "the padded file was altered".into());
                m.must("copy_and_compress again", || operate("compress", &x, &dir));
                m.check(read("unsealed") == x.data, || format!("compressed again: {}", first_diff(&read("unsealed"), &x.data)));
            }
            "save" => {
                let got = catch(|| load_data(&f("params")));
                let new = (x.p.clone(), x.iv.clone());
                match (&got, &x.old) {
                    (Ok(g), _) if *g == new => m.count("the new parameters are there", 1),
                    (Ok(g), Some(o)) if g == o => m.count("the old parameters are there", 1),
                    (Err(_), None) => m.count("no parameters yet", 1),
                    (Err(e), Some(_)) => m.violate(&format!("the saved parameters are lost: {}", e)),
                    (Ok(g), o) => m.violate(&format!("loaded key {} secret {}, which nobody saved; saved before: {:?}", g.0, hex(&g.1), o.as_ref().map(|o| (o.0.to_string(), hex(&o.1))))),
                }
                m.must("saving again", || operate("save", &x, &dir));
                m.check(m.must("load_data", || load_data(&f("params"))) == new, || "saved again after the crash and not loaded".into());
            }
            _ => {
                for n in ["log", "stat"] {
                    m.check(read(n).starts_with(&earlier), || format!("earlier records in {} were altered", n));
                }
                m.must("the driver again", || operate("driver", &x, &dir));
                m.check(read("unsealed") == x.data, || format!("run again: {}", first_diff(&read("unsealed"), &x.data)));
            }
        }
    }
    m.sample(format!("{} of {}: {} changes", op, c.show(), total));
}

fn main() {
    if let Some(job) = child_job() {
        let v: Vec<&str> = job.split(' ').collect();
        let x = setup(v[1].parse().unwrap(), v[2].parse().unwrap());
        let dir = std::env::var("VERIF_DIR").unwrap();
        crash::child(|| operate(v[0], &x, &dir));
    }
    let m = Mon::new("C29", "storage", "fault_enumeration", "operations of seeded configurations run in a process that kills itself in the chosen file-changing call (before it, or with part of it done); what is left is examined and the operation repeated; distinct by configuration, operation and crash point");
    let n = m.amount(240, 3000);
    parallel(n, threads(), |k| one(m, m.seed, k as u64 / OPS.len() as u64, OPS[k % OPS.len()]));
    m.finish();
}
