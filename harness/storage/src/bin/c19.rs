//! C19, storage part: operations under short transfers, interruptions and errors.
#[path = "../../../common/faults.rs"]
mod faults;
use common::*;
use faults::Plan;
use proof_of_storage::proof_of_storage::common::read_file;
use proof_of_storage::proof_of_storage::merkle_tree::*;
use proof_of_storage::proof_of_storage::postorage::*;
use proof_of_storage::proof_of_storage::prover::*;
use proof_of_storage::proof_of_storage::verifier::*;
use rug::Integer;
use storage_mon::*;

struct Files {
    s: Scratch,
    data: Vec<u8>,
    padded: Vec<u8>,
    sealed: Vec<u8>,
    p: Integer,
    iv: Vec<u8>,
}

impl Files {
    fn path(&self, n: &str) -> String {
        self.s.path(n)
    }
    /// known state before an operation
    fn reset(&self) {
        std::fs::write(self.path("origin"), &self.data).unwrap();
        std::fs::write(self.path("padded"), &self.padded).unwrap();
        std::fs::write(self.path("sealed"), &self.sealed).unwrap();
        for f in ["new", "params"] {
            let _ = std::fs::remove_file(self.path(f));
        }
    }
}

/// One operation: returns a digest of everything it produced (files and values).
fn op(f: &Files, c: &Cfg, name: &str) -> u64 {
    let par = c.params();
    let file = |n: &str| std::fs::read(f.path(n)).unwrap_or_default();
    // reads of the results happen outside the faults: see `perform`
    match name {
        "copy_and_pad" => {
            copy_and_pad(&f.path("origin"), &f.path("new"), c.data_l(), c.unit_l);
            off();
            hash64(&(file("new"), file("origin")))
        }
        "seal" => {
            let (ids, ..) = seal(&par, &f.path("padded"), &f.p, &f.iv);
            off();
            hash64(&(ids, file("padded")))
        }
        "unseal" => {
            let _ = unseal(&par, &f.path("sealed"), &f.p, &f.iv);
            off();
            hash64(&file("sealed"))
        }
        "copy_and_compress" => {
            copy_and_compress(&f.path("padded"), &f.path("new"), c.data_l(), c.unit_l, c.unit_pl());
            off();
            hash64(&(file("new"), file("padded")))
        }
        "single_unseal_prepare" => {
            let v: Vec<_> = (0..c.blocks).map(|b| single_unseal_prepare(&f.path("sealed"), b, &par)).collect();
            off();
            hash64(&v)
        }
        "batch_unseal_prepare" => {
            let v = batch_unseal_prepare(&f.path("sealed"), 0, c.padded_l(), &par);
            off();
            hash64(&v)
        }
        "audit" => {
            let (idx, mut bl, be, de) = batch_unseal_prepare(&f.path("sealed"), 0, c.padded_l(), &par);
            let got = batch_unseal(&par, &idx, &mut bl, &be, &de, &f.p, &f.iv);
            let ok = (0..idx.len()).all(|i| batch_verify(&f.path("origin"), idx[i], &got[i], c.block_l(), c.unit_l).accepted());
            off();
            if !ok {
                panic!("rejected");
            }
            hash64(&(idx, got))
        }
        "audit in one" => {
            let (idx, bl, be, de) = batch_unseal_prepare(&f.path("sealed"), 0, c.padded_l(), &par);
            let ok = batch_unseal_and_verify(&par, &f.path("origin"), &idx, &bl, &be, &de, &f.p, &f.iv).accepted();
            off();
            if !ok {
                panic!("rejected");
            }
            hash64(&idx)
        }
        "commit" => {
            let (l, _, r) = generate_merkle_tree_from_file(&f.path("origin"), c.data_l(), c.block_l());
            off();
            hash64(&(l, r))
        }
        "read_file" => {
            let mut h = std::fs::OpenOptions::new().read(true).open(f.path("origin")).unwrap();
            let v: Vec<Vec<u8>> = (0..8).map(|k| read_file(&mut h, k * 17 % c.data_l(), c.data_l() / 2 + k)).collect();
            off();
            hash64(&v)
        }
        "save_data" => {
            save_data(&f.path("params"), &f.p, &f.iv);
            off();
            // saved, it said: then it loads
            catch(|| load_data(&f.path("params"))).map(|(k, iv)| hash64(&(k.to_string(), iv))).unwrap_or(0)
        }
        "load_data" => {
            faults_pause(|| save_data(&f.path("params"), &f.p, &f.iv));
            let (k, iv) = load_data(&f.path("params"));
            off();
            hash64(&(k.to_string(), iv))
        }
        "create_random_file" => {
            create_random_file(&f.path("new"), 300).unwrap();
            off();
            file("new").len() as u64
        }
        _ => unreachable!(),
    }
}

fn off() {
    faults::disarm();
}
fn faults_pause<T>(f: impl FnOnce() -> T) -> T {
    faults::pause(f)
}

fn perform(m: &Mon, f: &Files, c: &Cfg, name: &str, plan: Plan, want: u64) {
    f.reset();
    m.case(format!("{} under {:?}: {}", name, plan, c.show()));
    let (got, seen) = faults::with(plan, || catch(|| op(f, c, name)));
    m.check(!seen.endless, || format!("{} goes on repeating a failing call for ever instead of failing ({} attempts)", name, seen.failed));
    match got {
        Ok(v) => {
            m.check(v == want, || format!("{} completed with a different result than without faults (shortened {}, interrupted {}, failed {} of {} calls)", name, seen.shortened, seen.interrupted, seen.failed, seen.calls));
            m.count("completed with the fault-free result", 1);
        }
        Err(_) => m.count("failed visibly", 1),
    }
    m.count("system calls seen", seen.calls);
    m.count("transfers shortened", seen.shortened);
    m.count("calls interrupted", seen.interrupted);
    m.count("calls failed", seen.failed);
    if seen.shortened + seen.interrupted + seen.failed > 0 {
        m.distinct(&(c, name, plan));
    }
}

fn run(m: &Mon, r: &mut Rng, c: &Cfg) {
    let data = r.content(c.data_l()).0;
    let p = prime(c.unit_pl());
    let iv = r.bytes(128);
    let sealed = ref_seal(c, &data, &p, &iv).bytes;
    let f = Files { s: Scratch::new("c19"), padded: pad(&data, c.unit_l), sealed, data, p, iv };
    for name in ["copy_and_pad", "seal", "unseal", "copy_and_compress", "single_unseal_prepare", "batch_unseal_prepare", "audit", "audit in one", "commit", "read_file", "save_data", "load_data", "create_random_file"] {
        f.reset();
        m.case(format!("{} without faults: {}", name, c.show()));
        let (want, seen) = faults::with(Plan::Count, || catch(|| op(&f, c, name)));
        let want = match want {
            Ok(v) => v,
            // another property's matter
            Err(_) => continue,
        };
        m.count(&format!("operation: {}", name), 1);
        for _ in 0..m.amount(6, 12) {
            let (short, intr) = *r.pick(&[(true, false), (true, true), (true, false), (false, true)]);
            let rate = *r.pick(&[1u64, 2, 5, 20]);
            if intr && rate == 1 {
                continue;
            }
            perform(m, &f, c, name, Plan::Soft { short, intr, rate, seed: r.u64() }, want);
        }
        let calls: Vec<u64> = if seen.calls <= m.amount(25, 300) as u64 { (0..seen.calls).collect() } else { (0..m.amount(14, 150)).map(|_| r.below(seen.calls as usize) as u64).chain([0, seen.calls - 1, seen.calls - 2]).collect() };
        for at in calls {
            if r.below(3) == 0 {
                perform(m, &f, c, name, Plan::Dead { at, errno: *r.pick(&faults::WRITE_ERRORS), patience: 10_000 + 20 * seen.calls }, want);
            }
            perform(m, &f, c, name, Plan::Hard { at, errno: *r.pick(&faults::WRITE_ERRORS) }, want);
        }
    }
    // faults never turn a damaged replica into an accepted one
    f.reset();
    let mut bad = f.sealed.clone();
    let at = r.below(bad.len());
    bad[at] ^= 1 << r.below(8);
    for name in ["audit", "audit in one"] {
        for _ in 0..m.amount(4, 12) {
            f.reset();
            std::fs::write(f.path("sealed"), &bad).unwrap();
            let plan = Plan::Soft { short: true, intr: false, rate: *r.pick(&[1u64, 2, 5]), seed: r.u64() };
            m.case(format!("{} of a replica with byte {} altered under {:?}: {}", name, at, plan, c.show()));
            let (got, _) = faults::with(plan, || catch(|| op(&f, c, name)));
            m.check(got.is_err(), || "the audit of a damaged replica succeeds under faults".into());
            m.count("damaged audits under faults", 1);
        }
    }
    m.sample(c.show());
}

fn main() {
    let m = Mon::new("C19", "storage", "fault_enumeration", "every operation on seeded configurations with transfers shortened and calls interrupted at several rates, and with single calls (all of them for short operations) failing with EIO or ENOSPC; results compared with the fault-free run; distinct by configuration, operation and fault plan that really struck");
    {
        let s = Scratch::new("c19");
        if !faults::live(s.dir().to_str().unwrap()) {
            eprintln!("the interposed calls are not in effect");
            std::process::exit(3);
        }
    }
    m.assume("faults are injected at the C library's read, write, pread, pwrite, lseek and open entry points of the calling thread");
    let mut cfgs = vec![];
    for (ml, ms) in [(0, 0), (1, 1), (2, 2), (3, 0)] {
        cfgs.push(Cfg { unit_l: 63, units: 3, blocks: 12, seal_rounds: 1, vde_rounds: 1, mode_l: ml, cnt_l: 3, mode_s: ms, cnt_s: 2 });
    }
    cfgs.push(Cfg { unit_l: 127, units: 3, blocks: 4, seal_rounds: 1, vde_rounds: 1, mode_l: 0, cnt_l: 0, mode_s: 0, cnt_s: 2 });
    cfgs.push(Cfg { unit_l: 63, units: 150, blocks: 3, seal_rounds: 1, vde_rounds: 1, mode_l: 1, cnt_l: 2, mode_s: 0, cnt_s: 2 });
    let mut r = m.rng(1);
    for _ in 0..m.amount(25, 500) {
        let mut c = Cfg::random(&mut r, 40);
        c.vde_rounds = c.vde_rounds.max(1);
        cfgs.push(c);
    }
    parallel(cfgs.len(), threads(), |i| {
        let mut r = m.rng(100 + i as u64);
        run(m, &mut r, &cfgs[i]);
    });
    m.finish();
}
