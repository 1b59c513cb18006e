//! C27: the space driver keeps a complete and truthful record of its runs.
use common::*;
use proof_of_space::mimc::mimc_df::MIMC5_DF_ROUNDS;
use proof_of_space::proof_of_space::pospace::{pospace, prepare_params, CHALLENGE_COUNT, N, RESPONSE_COUNT};
use std::fs::OpenOptions;
use std::time::Instant;

fn appended(m: &Mon, path: &str, before: &[u8]) -> String {
    let now = std::fs::read(path).unwrap_or_default();
    m.check(now.len() >= before.len() && now[..before.len()] == before[..], || format!("earlier records were altered: {}", first_diff(&now, before)));
    String::from_utf8_lossy(&now[before.len()..]).into_owned()
}

fn record(m: &Mon, text: &str, wall: f64) {
    let mut ps: Vec<(String, String)> = vec![];
    for l in text.lines() {
        let t: Vec<&str> = l.split(',').map(|x| x.trim()).filter(|x| !x.is_empty()).collect();
        for w in t.chunks(2) {
            if w.len() == 2 {
                ps.push((w[0].to_string(), w[1].to_string()));
            }
        }
    }
    let get = |name: &str| -> String {
        let v: Vec<&String> = ps.iter().filter(|p| p.0 == name).map(|p| &p.1).collect();
        m.check(v.len() == 1, || format!("{:?} occurs {} times in the record {:?}", name, v.len(), text));
        v[0].clone()
    };
    for (name, x) in [
        ("N", N.to_string()),
        ("data len (byte)", ((N + 1) * (1usize << N) / 8).to_string()),
        ("vde round", MIMC5_DF_ROUNDS.to_string()),
        ("challenge count", CHALLENGE_COUNT.to_string()),
        ("response count", RESPONSE_COUNT.to_string()),
        // the run was accepted, so all answers were given
        ("success rate", format!("{}/{}", RESPONSE_COUNT, RESPONSE_COUNT)),
    ] {
        let v = get(name);
        m.check(v == x, || format!("{:?} is recorded as {:?}, it was {:?}", name, v, x));
        m.count("recorded parameters compared", 1);
    }
    let secs = |name: &str| -> f64 {
        match get(name).parse::<f64>() {
            Ok(x) if x.is_finite() && x >= 0.0 => x,
            _ => m.violate(&format!("{:?} is recorded as {:?}", name, get(name))),
        }
    };
    let steps = ["[P] Prepare space", "[P] Mark space", "[V] Create challenges", "[P] -- Response 1 (return index and hash)", "[P] -- Response 2 (create params)", "[P] -- Response 2 (create proof)", "[V] Verify"];
    let sum: f64 = steps.iter().map(|s| secs(s)).sum();
    m.check(sum <= wall * 1.01 + 0.01, || format!("the steps took {} s, the run {} s", sum, wall));
    m.check(sum >= wall * 0.5, || format!("the steps are recorded with {} s, the run took {} s", sum, wall));
    let (d, f, w) = (secs("df cost"), secs("file cost"), secs("[P] Mark space"));
    m.check(d > 0.0 && f > 0.0 && d + f <= w * 1.15 + 0.01, || format!("delay function {} s, file {} s, marking {} s", d, f, w));
    for s in steps.iter().filter(|s| !s.contains("challenges")) {
        m.check(secs(s) > 0.0, || format!("{} took no time", s));
    }
    m.count("durations checked", steps.len() as u64 + 2);
}

fn main() {
    let m = Mon::new("C27", "space", "exploration", "runs of the driver one after the other into one record file that held something before, runs that fail, and a run with no room for its record; every appended record parsed and compared with the constants, and the durations with each other and with the monitor's clock; distinct by run");
    m.case_limit(400);
    let runs = m.amount(2, 6);
    let files = 3;
    parallel(files + 1, threads(), |j| {
        let sc = Scratch::new("c27");
        let path = sc.path("space");
        if j == files {
            if let Ok(mut full) = OpenOptions::new().read(true).append(true).open("/dev/full") {
                m.case("no room for the record");
                let (dc, hc, key, mm) = m.must("prepare_params", prepare_params);
                m.check(catch(|| pospace(&path, dc, hc, key, mm, &mut full)).is_err(), || "the run ends as if its record had been kept".into());
                m.count("records that could not be kept", 1);
            }
            return;
        }
        let rec = sc.path("record");
        if j > 0 {
            std::fs::write(&rec, "earlier record, 1\n\n").unwrap();
        }
        for k in 0..runs {
            let mut out = OpenOptions::new().create(true).append(true).read(true).open(&rec).unwrap();
            let before = std::fs::read(&rec).unwrap();
            let (mut dc, hc, key, mm) = m.must("prepare_params", prepare_params);
            if k % 2 == 1 {
                // a run that cannot succeed
                dc.pop();
                m.case(format!("file {} run {}: a round constant missing", j, k));
                m.check(catch(|| pospace(&path, dc, hc, key, mm, &mut out)).is_err(), || "accepted with a round constant missing".into());
                let a = appended(m, &rec, &before);
                m.check(!a.contains("Verify"), || format!("a failed run left the record {:?}", a));
                m.count("failed runs", 1);
                m.distinct(&(j, k));
                continue;
            }
            // it fails honestly when too few of its challenges are answerable, about once in 400 runs
            for attempt in 0..3 {
                m.case(format!("file {} run {} attempt {}", j, k, attempt));
                let (dc, hc) = (dc.clone(), hc.clone());
                let t0 = Instant::now();
                let before = std::fs::read(&rec).unwrap();
                let got = catch(|| pospace(&path, dc, hc, key, mm, &mut out));
                let wall = t0.elapsed().as_secs_f64();
                let a = appended(m, &rec, &before);
                match got {
                    Ok(_) => {
                        record(m, &a, wall);
                        m.count("records compared", 1);
                        m.distinct(&(j, k));
                        m.sample(a.lines().take(3).collect::<Vec<_>>().join(" | "));
                        break;
                    }
                    Err(e) => {
                        m.check(!a.contains("Verify"), || format!("a failed run left the record {:?}", a));
                        m.check(attempt < 2, || format!("the driver failed three times in a row: {}", e));
                        m.count("runs with too few answerable challenges", 1);
                    }
                }
            }
        }
    });
    m.finish();
}
