//! C18: public parameters.
use common::*;
use proof_of_storage::proof_of_storage::postorage::*;
use proof_of_storage::vde::rug_sloth::{P_1024, P_2048, P_512};
use rug::integer::IsPrime;
use rug::Integer;
use std::collections::HashSet;
use storage_mon::*;

/// Child: load every file named in the list and say how it went.
fn load_all(dir: &str) {
    let mut k = 0;
    while let Ok(n) = std::fs::read_link(format!("{}/{}", dir, k)) {
        println!("CHILD try {}", k);
        let v = catch(|| load_data(n.to_str().unwrap())).is_ok();
        println!("CHILD done {}", if v { "loaded" } else { "refused" });
        k += 1;
    }
    println!("CHILD peak {}", peak_memory());
}

/// Damaged files: refused or read, but the process lives on and holds no more
/// memory than they have bytes for.
fn damaged(m: &Mon, r: &mut Rng, n: usize) {
    let s = Scratch::new("c18");
    let (list, files) = (s.path("list"), s.path("files"));
    std::fs::create_dir(&list).unwrap();
    std::fs::create_dir(&files).unwrap();
    let mut what = vec![];
    for i in 0..n {
        let f = format!("{}/{}", files, i);
        let w = *r.pick(&[64usize, 128, 256]);
        let iv = r.bytes(128);
        m.must("save_data", || save_data(&f, &prime(w), &iv));
        let mut b = std::fs::read(&f).unwrap();
        what.push(match r.below(6) {
            0 => {
                b = { let k = r.below(400); r.bytes(k) };
                format!("{} random bytes", b.len())
            }
            1 => {
                b.fill(0xff);
                "nothing but ones".to_string()
            }
            2 if b.len() >= 8 => {
                // large numbers anywhere, lengths included
                let at = if r.coin() { 0 } else { r.below(b.len() - 7) };
                let v = *r.pick(&[u64::MAX, 1 << 31, 1 << 32, 3 << 30, 1 << 40, 1 << 62, (1 << 63) - 1]);
                b[at..at + 8].copy_from_slice(&v.to_le_bytes());
                format!("{:#x} at byte {}", v, at)
            }
            3 => {
                let k = r.below(b.len());
                b.truncate(k);
                for _ in 0..r.range(1, 4) {
                    if !b.is_empty() {
                        let at = r.below(b.len());
                        b[at] = r.below(256) as u8;
                    }
                }
                format!("{} bytes kept, some altered", k)
            }
            _ => {
                let mut at = r.below(b.len());
                if r.coin() {
                    at = at.min(r.below(17));
                }
                b[at] ^= 1 << r.below(8);
                format!("byte {} altered", at)
            }
        });
        std::fs::write(&f, &b).unwrap();
        std::os::unix::fs::symlink(&f, format!("{}/{}", list, i)).unwrap();
    }
    m.case(format!("{} damaged parameter files loaded one after the other", n));
    let out = children(1, &list).pop().unwrap();
    let tried = out.iter().filter(|x| x.0 == "try").count();
    let done = out.iter().filter(|x| x.0 == "done").count();
    m.check(tried == n && done == n, || format!("loading a damaged file ended the process ({})", what.get(tried.max(1) - 1).cloned().unwrap_or_default()));
    let peak: usize = out.iter().find(|x| x.0 == "peak").and_then(|x| x.1.parse().ok()).unwrap_or(0);
    m.check(peak > 0 && peak < 256 << 20, || format!("loading files of a few hundred bytes took {} bytes of memory", peak));
    m.count("damaged files refused", out.iter().filter(|x| x.1 == "refused").count() as u64);
    m.count("damaged files read as something", out.iter().filter(|x| x.1 == "loaded").count() as u64);
}

fn main() {
    if let Some(dir) = child_job() {
        load_all(&dir);
        return;
    }
    let m = Mon::new("C18", "", "exploration", "histories of saves of keys and secrets of many sizes over one path, earlier contents of any kind, each followed by loads; files cut short or damaged, loaded in a process of their own; generated parameters of every unit width drawn repeatedly; distinct by (key, secret, history length) and by generated secret");
    let mut r = m.rng(1);
    let key = |r: &mut Rng| -> Integer {
        match r.below(8) {
            0 => Integer::from(r.below(20)),
            1 => P_512.parse().unwrap(),
            2 => P_1024.parse().unwrap(),
            3 => P_2048.parse().unwrap(),
            4 => (Integer::from(1) << r.range(1, 4000) as u32) - 1u32,
            5 => Integer::from(1) << r.range(1, 4000) as u32,
            _ => {
                let n = r.range(1, 600);
                int(&r.bytes(n))
            }
        }
    };
    for h in 0..m.amount(3200, 16000) {
        let s = Scratch::new("c18");
        let f = s.path("target");
        let g = s.path("other");
        match r.below(4) {
            0 => {
                let n = r.below(5000);
                std::fs::write(&f, r.bytes(n)).unwrap()
            }
            1 => std::fs::write(&f, vec![0xffu8; 4000]).unwrap(),
            _ => {}
        }
        let (k0, i0) = (key(&mut r), r.bytes(128));
        save_data(&g, &k0, &i0);
        let steps = r.range(1, 6);
        for step in 0..steps {
            let k = key(&mut r);
            let n = *r.pick(&[0usize, 1, 16, 127, 128, 128, 128, 129, 300, 5000]);
            let iv = r.content(n).0;
            m.case(format!("history {} step {}: key of {} bits, secret of {} bytes", h, step, k.significant_bits(), n));
            m.must("save_data", || save_data(&f, &k, &iv));
            for _ in 0..2 {
                let (k2, iv2) = m.must("load_data", || load_data(&f));
                m.check(k2 == k, || format!("the key loaded is not the key saved (saved {} bits, loaded {})", k.significant_bits(), k2.significant_bits()));
                m.check(iv2 == iv, || format!("the secret loaded is not the secret saved: {}", first_diff(&iv2, &iv)));
            }
            m.count("saves and loads", 1);
            m.distinct(&(k.to_string(), &iv, step));
        }
        // a file cut short is refused
        let whole = std::fs::read(&f).unwrap();
        let cuts: Vec<usize> = if whole.is_empty() { vec![] } else { vec![0, 1, whole.len() - 1, r.below(whole.len()), r.below(whole.len())] };
        for cut in cuts {
            let c = s.path("cut");
            std::fs::write(&c, &whole[..cut]).unwrap();
            m.case(format!("history {}: {} of {} bytes of a parameter file", h, cut, whole.len()));
            m.check(catch(|| load_data(&c)).is_err(), || "parameters are loaded from a file cut short".into());
            m.count("files cut short refused", 1);
        }
        m.case(format!("history {}: another file of parameters", h));
        let (k2, iv2) = m.must("load_data", || load_data(&g));
        m.check(k2 == k0 && iv2 == i0, || "saving to one file changed what another holds".into());
        // copying the file carries the parameters
        let c = s.path("copy");
        std::fs::copy(&g, &c).unwrap();
        let (k3, iv3) = m.must("load_data", || load_data(&c));
        m.check(k3 == k0 && iv3 == i0, || "a copied parameter file loads differently".into());
    }
    for k in 0..m.amount(8, 80) {
        let mut r = m.rng(7000 + k as u64);
        damaged(m, &mut r, 120);
    }
    // generated parameters
    let mut seen: HashSet<Vec<u8>> = HashSet::new();
    let mut counts = vec![0u64; 256];
    let mut per_pos = vec![HashSet::new(); 128];
    let mut keys_checked = HashSet::new();
    for (unit_pl, name, text) in [(64usize, "P_512", P_512), (128, "P_1024", P_1024), (256, "P_2048", P_2048)] {
        let builtin: Integer = text.parse().unwrap();
        for k in 0..m.amount(5600, 40000) {
            m.case(format!("parameters for {} byte units, draw {}", unit_pl, k));
            let (key, iv) = m.must("prepare_params", || prepare_params(unit_pl));
            m.check(key == builtin, || format!("the key for {} byte units is not the built-in {}", unit_pl, name));
            m.check(iv.len() == 128, || format!("a secret of {} bytes", iv.len()));
            m.check(seen.insert(iv.clone()), || "a secret came up twice".into());
            for (i, &b) in iv.iter().enumerate() {
                counts[b as usize] += 1;
                per_pos[i].insert(b);
            }
            if keys_checked.insert(unit_pl) {
                m.check(key.is_probably_prime(60) != IsPrime::No, || format!("{} is not prime", name));
                m.check(Integer::from(&key % 4u32) == 3, || format!("{} is not 3 modulo 4", name));
                m.check(key.significant_bits() as usize == unit_pl * 8, || format!("{} has {} bits, units {}", name, key.significant_bits(), unit_pl * 8));
                m.check(key > (Integer::from(1) << (8 * (unit_pl - 1)) as u32), || format!("a padded unit can exceed {}", name));
                m.sample(format!("{}: {} bits, prime, 3 mod 4", name, key.significant_bits()));
            }
            m.count("parameters generated", 1);
            m.distinct(&iv);
        }
    }
    m.case("bytes of the generated secrets");
    if let Some(e) = far_from_uniform(&counts) {
        m.violate(&format!("secret bytes are not uniform: {}", e));
    }
    for (i, p) in per_pos.iter().enumerate() {
        m.check(p.len() > 200, || format!("byte {} of the secret took only {} values in {} draws", i, p.len(), seen.len()));
    }
    // parameters that were generated, saved and loaded
    let s = Scratch::new("c18");
    for k in 0..50 {
        let (key, iv) = prepare_params(*r.pick(&[64usize, 128, 256]));
        m.case(format!("generated parameters, round {}", k));
        let f = s.path("t");
        m.must("save_data", || save_data(&f, &key, &iv));
        let (k2, iv2) = m.must("load_data", || load_data(&f));
        m.check(key == k2 && iv == iv2, || "generated parameters do not survive saving and loading".into());
    }
    m.finish();
}
