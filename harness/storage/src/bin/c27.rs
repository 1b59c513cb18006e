//! C27: the storage drivers keep a complete and truthful record of their runs.
use common::*;
use proof_of_storage::proof_of_storage::postorage::*;
use std::fs::OpenOptions;
use std::time::Instant;
use storage_mon::*;

fn open_log(p: &str) -> std::fs::File {
    OpenOptions::new().read(true).append(true).create(true).open(p).unwrap()
}

/// What was appended to the file that held `before`.
fn appended(m: &Mon, path: &str, before: &[u8], name: &str) -> String {
    let now = std::fs::read(path).unwrap_or_default();
    m.check(now.len() >= before.len() && now[..before.len()] == before[..], || format!("{}: earlier records were altered: {}", name, first_diff(&now, before)));
    String::from_utf8_lossy(&now[before.len()..]).into_owned()
}

/// label, value, label, value, ...
fn pairs(text: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    for l in text.lines() {
        let t: Vec<&str> = l.split(',').map(|x| x.trim()).filter(|x| !x.is_empty()).collect();
        for w in t.chunks(2) {
            if w.len() == 2 {
                out.push((w[0].to_string(), w[1].to_string()));
            }
        }
    }
    out
}

fn number(m: &Mon, what: &str, s: &str) -> f64 {
    match s.parse::<f64>() {
        Ok(x) if x.is_finite() && x >= 0.0 => x,
        _ => m.violate(&format!("{} is recorded as {:?}", what, s)),
    }
}

fn shape(c: &Cfg) -> Vec<(&'static str, usize)> {
    vec![
        ("(byte) data len", c.data_l()),
        ("block len", c.block_l()),
        ("block count", c.blocks),
        ("unit len", c.unit_l),
        ("unit count", c.units),
        ("seal round", c.seal_rounds),
        ("vde rounds", c.vde_rounds),
        ("mode l", c.mode_l),
        ("cnt l", c.cnt_l),
        ("mode s", c.mode_s),
        ("cnt s", c.cnt_s),
    ]
}

/// the parts of a duration lie within it, and it within what the monitor measured
fn durations(m: &Mon, what: &str, whole: f64, parts: &[f64], wall: f64) {
    let sum: f64 = parts.iter().sum();
    m.check(sum <= whole * 1.05 + 0.002, || format!("{}: parts of {} s in a whole of {} s", what, sum, whole));
    m.check(whole <= wall * 1.01 + 0.002, || format!("{}: {} s recorded, the run took {} s", what, whole, wall));
    m.count("durations checked", 1 + parts.len() as u64);
}

/// the cost lines and the row of one run that sealed and unsealed
fn costs(m: &Mon, c: &Cfg, log: &str, stat: &str, wall: f64) {
    let ps = pairs(log);
    let at = |name: &str| -> usize {
        let v: Vec<usize> = (0..ps.len()).filter(|&i| ps[i].0 == name).collect();
        m.check(v.len() == 1, || format!("{:?} occurs {} times in the record {:?}", name, v.len(), log));
        v[0]
    };
    let (s, u) = (at("[P] Seal"), at("[P] Unseal"));
    m.check(s < u, || format!("unsealing is recorded before sealing: {:?}", log));
    let mut all = vec![];
    for (k, names) in [(s, ["vde", "file", "depend", "hash", "block", "modadd"]), (u, ["vde inv", "file", "depend", "hash", "block", "modsub"])] {
        let whole = number(m, &ps[k].0, &ps[k].1);
        let mut parts = vec![];
        for (j, n) in names.iter().enumerate() {
            let e = ps.get(k + 1 + j);
            m.check(e.map(|e| e.0 == *n).unwrap_or(false), || format!("{:?} expected after {:?}, found {:?}", n, ps[k].0, e));
            parts.push(number(m, n, &e.unwrap().1));
        }
        durations(m, &ps[k].0, whole, &parts, wall);
        if c.vde_rounds > 0 {
            m.check(parts[0] > 0.0, || format!("{}: the delay encoding took no time", ps[k].0));
        }
        m.check(whole > 0.0, || format!("{} took no time", ps[k].0));
        all.push(ps[k].1.clone());
        all.extend((0..6).map(|j| ps[k + 1 + j].1.clone()));
    }
    // the row
    let rows: Vec<&str> = stat.lines().collect();
    m.check(rows.len() == 1 && stat.ends_with('\n'), || format!("{} rows for one run: {:?}", rows.len(), stat));
    let f: Vec<&str> = rows[0].split(',').map(|x| x.trim()).filter(|x| !x.is_empty()).collect();
    let mut want: Vec<String> = [c.data_l(), c.block_l(), c.blocks, c.unit_l, c.units, c.seal_rounds].iter().map(|x| x.to_string()).collect();
    want.push("sloth".into());
    want.extend([c.mode_l, c.cnt_l, c.mode_s, c.cnt_s].iter().map(|x| x.to_string()));
    want.extend(all);
    m.check(f == want, || format!("the row is {:?}, the run was {:?}", f, want));
    m.count("rows compared with the run record", 1);
}

fn header(m: &Mon, c: &Cfg, log: &str) {
    let ps = pairs(log);
    for (name, x) in shape(c) {
        let v: Vec<&String> = ps.iter().filter(|p| p.0 == name).map(|p| &p.1).collect();
        m.check(v.len() == 1 && *v[0] == x.to_string(), || format!("{:?} is recorded as {:?}, it was {}", name, v, x));
        m.count("recorded parameters compared", 1);
    }
}

fn driver(m: &Mon, r: &mut Rng, c: &Cfg) {
    let s = Scratch::new("c27");
    let (o, z, u, t) = (s.path("origin"), s.path("sealed"), s.path("unsealed"), s.path("params"));
    let (lp, sp) = (s.path("log"), s.path("stat"));
    std::fs::write(&o, r.bytes(c.data_l())).unwrap();
    if r.coin() {
        std::fs::write(&lp, "earlier record\n").unwrap();
        let n = r.range(1, 300);
        std::fs::write(&sp, r.bytes(n)).unwrap();
    }
    let (mut f1, mut f2) = (open_log(&lp), open_log(&sp));
    for k in 0..4 {
        let (save, un) = (r.coin() || k == 0, r.coin() || k == 0);
        let (b1, b2) = (std::fs::read(&lp).unwrap(), std::fs::read(&sp).unwrap());
        m.case(format!("run {} (record kept: {}, unsealed: {}): {}", k, save, un, c.show()));
        let t0 = Instant::now();
        m.must("seal_and_unseal", || seal_and_unseal(&c.params(), &o, &z, &u, &t, &mut f1, save, un, &mut f2));
        let wall = t0.elapsed().as_secs_f64();
        let (a, b) = (appended(m, &lp, &b1, "run record"), appended(m, &sp, &b2, "statistics"));
        if save && un {
            costs(m, c, &a, &b, wall);
            m.count("records compared", 1);
        } else {
            m.check(save || (a.is_empty() && b.is_empty()), || format!("a run without a record wrote {:?} {:?}", a, b));
            m.check(un || b.is_empty(), || format!("a run that did not unseal wrote the row {:?}", b));
            m.count("runs without a record", 1);
        }
        m.distinct(&(c, k, save, un));
    }
    // a run that fails leaves no record of success
    for k in 0..4 {
        let gone = format!("{}/missing/file", s.path(""));
        let what = ["original", "replica", "recovered file", "parameters"][k];
        let at = |i: usize, good: &String| if i == k { gone.clone() } else { good.clone() };
        let (b1, b2) = (std::fs::read(&lp).unwrap(), std::fs::read(&sp).unwrap());
        m.case(format!("no place for the {}: {}", what, c.show()));
        let ok = accepts(|| seal_and_unseal(&c.params(), &at(0, &o), &at(1, &z), &at(2, &u), &at(3, &t), &mut f1, true, true, &mut f2));
        m.check(!ok, || "the run ends as if it had succeeded".into());
        let (a, b) = (appended(m, &lp, &b1, "run record"), appended(m, &sp, &b2, "statistics"));
        m.check(b.is_empty() && !a.contains("Unseal"), || format!("the failed run recorded {:?} {:?}", a, b));
        m.count("failed runs", 1);
    }
    // no room for the record
    for k in 0..2 {
        if let Ok(mut full) = OpenOptions::new().read(true).append(true).open("/dev/full") {
            m.case(format!("no room for the {}: {}", ["run record", "row"][k], c.show()));
            let ok = if k == 0 { accepts(|| seal_and_unseal(&c.params(), &o, &z, &u, &t, &mut full, true, true, &mut f2)) } else { accepts(|| seal_and_unseal(&c.params(), &o, &z, &u, &t, &mut f1, true, true, &mut full)) };
            m.check(!ok, || "the run ends as if its record had been kept".into());
            m.count("records that could not be kept", 1);
        }
    }
    m.sample(c.show());
}

/// The top driver, with its fixed relative paths, in a working directory of its own.
fn top(m: &Mon, r: &mut Rng, c: &Cfg, i: usize) {
    let s = Scratch::new("c27t");
    std::env::set_current_dir(s.dir()).unwrap();
    std::fs::create_dir_all("src/proof_of_storage/data").unwrap();
    let (lp, sp) = (RUN_DATA_DIR.join("/"), STAT_DATA_DIR.join("/"));
    if i % 2 == 0 {
        std::fs::write(&lp, "earlier record\n").unwrap();
        std::fs::write(&sp, "a, b, c,\n").unwrap();
    }
    for k in 0..5 {
        let save = k == 0 || r.coin();
        let seal = k == 0 || r.coin();
        let un = k == 0 || r.coin();
        let (b1, b2) = (std::fs::read(&lp).unwrap_or_default(), std::fs::read(&sp).unwrap_or_default());
        m.case(format!("top driver, run {} (record kept: {}, seal: {}, unseal: {}): {}", k, save, seal, un, c.show()));
        let t0 = Instant::now();
        m.must("test_postorage", || test_postorage(c.params(), save, seal, un, false, false, 2));
        let wall = t0.elapsed().as_secs_f64();
        let (a, b) = (appended(m, &lp, &b1, "run record"), appended(m, &sp, &b2, "statistics"));
        if !save {
            m.check(a.is_empty() && b.is_empty(), || format!("a run without a record wrote {:?} {:?}", a, b));
            m.count("runs without a record", 1);
            continue;
        }
        header(m, c, &a);
        if seal && un {
            costs(m, c, &a, &b, wall);
        } else {
            m.check(b.is_empty() && !a.contains("Unseal"), || format!("a run that did not seal and unseal recorded {:?} {:?}", a, b));
        }
        m.count("top driver records compared", 1);
        m.distinct(&(c, "top", k, save, seal, un));
    }
    std::env::set_current_dir("/").unwrap();
}

fn main() {
    let m = Mon::new("C27", "storage", "exploration", "sequences of driver runs over seeded configurations, with and without a record, with earlier records in the files and with no room for one; every appended record parsed and compared with the configuration, the durations with each other and with the monitor's clock; distinct by configuration and run options");
    let mut r = m.rng(27);
    let mut cfgs = vec![];
    while cfgs.len() < m.amount(60, 1500) {
        let c = Cfg::random(&mut r, 80);
        if c.blocks > 1 {
            cfgs.push(c);
        }
    }
    parallel(cfgs.len(), threads() / 2, |i| {
        let mut r = m.rng(100 + i as u64);
        driver(m, &mut r, &cfgs[i]);
    });
    for i in 0..m.amount(12, 100) {
        top(m, &mut r, &cfgs[i], i);
    }
    m.finish();
}
