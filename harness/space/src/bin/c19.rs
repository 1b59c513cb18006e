//! C19, space part: preparing, marking and responding under faults.
#[path = "../../../common/faults.rs"]
mod faults;
use common::*;
use faults::Plan;
use proof_of_space::mimc::mimc_df::MIMC5_DF_ROUNDS;
use proof_of_space::mimc::mimc_hash::MIMC5_HASH_ROUNDS;
use proof_of_space::proof_of_space::prover::*;
use space_mon::*;

fn main() {
    let m = Mon::new("C19", "space", "fault_enumeration", "preparing, marking and responding on seeded spaces with calls interrupted and shortened at several rates, and with single calls failing; results compared with the fault-free run; distinct by space, operation and fault plan that really struck");
    {
        let s = Scratch::new("c19");
        if !faults::live(s.dir().to_str().unwrap()) {
            eprintln!("the interposed calls are not in effect");
            std::process::exit(3);
        }
    }
    let jobs = m.amount(500, 6000);
    parallel(jobs, threads(), |k| {
        let mut r = m.rng(100 + k as u64);
        let n = r.range(1, 7);
        let s = Scratch::new("c19s");
        let f = s.path("space");
        let (key, mm) = (fr_mixed(&mut r), fr_mixed(&mut r));
        let cs = frs(&mut r, MIMC5_DF_ROUNDS);
        let hc = frs(&mut r, MIMC5_HASH_ROUNDS);
        let junk = { let l = r.below(60); r.bytes(l) };
        let ch: Vec<usize> = (0..r.range(1, 60)).map(|_| r.below(1 << n)).collect();
        let empty = vec![0u8; table_bytes(n)];
        let table = make_table(n, key, mm, &cs);
        for name in ["prepare_space", "mark_space", "response_1"] {
            let op = || -> u64 {
                match name {
                    "prepare_space" => {
                        faults::pause(|| std::fs::write(&f, &junk).unwrap());
                        prepare_space(&f, n).unwrap();
                        faults::disarm();
                        hash64(&std::fs::read(&f).unwrap())
                    }
                    "mark_space" => {
                        faults::pause(|| std::fs::write(&f, &empty).unwrap());
                        let _ = mark_space(&f, key, mm, &cs, n);
                        faults::disarm();
                        hash64(&std::fs::read(&f).unwrap())
                    }
                    _ => {
                        faults::pause(|| std::fs::write(&f, &table).unwrap());
                        let (x, i, h) = response_1(&f, &ch, key, &hc, n);
                        faults::disarm();
                        hash64(&(x.iter().map(show).collect::<Vec<_>>(), i, show(&h), std::fs::read(&f).unwrap()))
                    }
                }
            };
            m.case(format!("{} without faults, n={}", name, n));
            let (want, seen) = faults::with(Plan::Count, || catch(op));
            let want = match want {
                Ok(v) => v,
                Err(_) => continue,
            };
            m.count(&format!("operation: {}", name), 1);
            let mut plans = vec![];
            for _ in 0..6 {
                let (short, intr) = *r.pick(&[(true, false), (true, true), (false, true)]);
                let rate = *r.pick(&[2u64, 5, 20, 200]);
                plans.push(Plan::Soft { short, intr, rate, seed: r.u64() });
            }
            plans.push(Plan::Soft { short: true, intr: false, rate: 1, seed: r.u64() });
            let hard: Vec<u64> = if seen.calls <= 60 { (0..seen.calls).collect() } else { (0..m.amount(20, 200)).map(|_| r.below(seen.calls as usize) as u64).chain([0, seen.calls - 1, seen.calls - 2]).collect() };
            for at in hard {
                if r.below(3) == 0 {
                    plans.push(Plan::Dead { at, errno: *r.pick(&faults::WRITE_ERRORS), patience: 10_000 + 20 * seen.calls });
                }
                plans.push(Plan::Hard { at, errno: *r.pick(&faults::WRITE_ERRORS) });
            }
            for plan in plans {
                m.case(format!("{} under {:?}, n={}, space {}", name, plan, n, k));
                let (got, seen) = faults::with(plan, || catch(op));
                m.check(!seen.endless, || format!("{} goes on repeating a failing call for ever instead of failing ({} attempts)", name, seen.failed));
                match got {
                    Ok(v) => {
                        m.check(v == want, || format!("{} completed with a different result than without faults (shortened {}, interrupted {}, failed {} of {} calls)", name, seen.shortened, seen.interrupted, seen.failed, seen.calls));
                        m.count("completed with the fault-free result", 1);
                    }
                    Err(_) => m.count("failed visibly", 1),
                }
                m.count("system calls seen", seen.calls);
                m.count("transfers shortened", seen.shortened);
                m.count("calls interrupted", seen.interrupted);
                m.count("calls failed", seen.failed);
                if seen.shortened + seen.interrupted + seen.failed > 0 {
                    m.distinct(&(k, name, plan));
                }
            }
        }
    });
    m.sample("prepare_space, mark_space and response_1 on spaces of n=1..7");
    m.finish();
}
