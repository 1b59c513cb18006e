//! C15: the sealed replica is exactly what the sealing rule says.
use common::*;
use proof_of_storage::proof_of_storage::prover::{copy_and_pad, seal};
use rug::Integer;
use storage_mon::*;

fn do_seal(m: &Mon, c: &Cfg, data: &[u8], p: &Integer, iv: &Vec<u8>) -> (Vec<u8>, Vec<Vec<u8>>) {
    let s = Scratch::new("c15");
    let (o, z) = (s.path("origin"), s.path("sealed"));
    std::fs::write(&o, data).unwrap();
    let par = c.params();
    m.must("copy_and_pad", || copy_and_pad(&o, &z, c.data_l(), c.unit_l));
    let ids = m.must("seal", || {
        let (ids, ..) = seal(&par, &z, p, iv);
        ids
    });
    (std::fs::read(&z).unwrap(), ids)
}

fn run(m: &Mon, r: &mut Rng, c: &Cfg) {
    let (data, flavour) = r.content(c.data_l());
    let iv = match r.below(8) {
        0 => vec![],
        1 => r.bytes(1),
        2 => vec![0; 128],
        _ => r.bytes(128),
    };
    let p = prime(c.unit_pl());
    m.case(format!("{}; content {}; secret of {} bytes", c.show(), flavour, iv.len()));
    let (got, ids) = do_seal(m, c, &data, &p, &iv);
    let want = ref_seal(c, &data, &p, &iv);
    m.check(got == want.bytes, || {
        let i = got.iter().zip(&want.bytes).position(|(a, b)| a != b).unwrap_or(0);
        format!("the replica is not what the sealing rule gives: {} (block {}, unit {})", first_diff(&got, &want.bytes), i / c.block_pl(), i % c.block_pl() / c.unit_pl())
    });
    m.check(ids == want.ids, || {
        let i = (0..c.blocks).find(|&i| ids.get(i) != want.ids.get(i));
        format!("the returned block digests are wrong, first at block {:?} ({} digests for {} blocks)", i, ids.len(), c.blocks)
    });
    m.count("replicas compared with the model", 1);
    m.count("sealed units compared", (c.blocks * c.units) as u64);
    m.count("long dependencies used", want.deps.iter().map(|d| d.len() as u64).sum());
    m.count(&format!("long mode {}", c.mode_l), 1);
    m.count(&format!("short mode {}", c.mode_s), 1);
    m.distinct(&(c, hash64(&data)));
    m.sample(c.show());

    // sealing again gives the same
    if r.one_in(4) {
        let (again, ids2) = do_seal(m, c, &data, &p, &iv);
        m.check(again == got && ids2 == ids, || "sealing the same data with the same secret twice gives two replicas".into());
        m.count("repeated sealings", 1);
    }
    // one bit of the data
    {
        let pos = r.below(data.len());
        let mut d2 = data.clone();
        d2[pos] ^= 1 << r.below(8);
        m.case(format!("{}; content {}; byte {} altered", c.show(), flavour, pos));
        let (other, ids2) = do_seal(m, c, &d2, &p, &iv);
        spread(m, c, &got, &other, pos / c.block_l(), "a bit of the data");
        for b in pos / c.block_l()..c.blocks {
            m.check(ids2[b] != ids[b], || format!("the digest of block {} does not depend on byte {}", b, pos));
        }
        m.count("one-bit changes of the data followed", 1);
    }
    // the secret
    if !iv.is_empty() {
        let i = r.below(iv.len());
        let mut iv2 = iv.clone();
        iv2[i] ^= 1 << r.below(8);
        m.case(format!("{}; content {}; byte {} of the secret altered", c.show(), flavour, i));
        let (other, _) = do_seal(m, c, &data, &p, &iv2);
        spread(m, c, &got, &other, 0, "the secret");
        m.count("one-bit changes of the secret followed", 1);
    }
}

fn spread(m: &Mon, c: &Cfg, a: &[u8], b: &[u8], from: usize, what: &str) {
    let bp = c.block_pl();
    m.check(a[..from * bp] == b[..from * bp], || format!("changing {} in block {} changed an earlier block", what, from));
    for k in from..c.blocks {
        m.check(a[k * bp..(k + 1) * bp] != b[k * bp..(k + 1) * bp], || format!("changing {} in block {} does not change sealed block {}", what, from, k));
    }
}

fn main() {
    let m = Mon::new("C15", "", "exploration", "replicas and digests returned by sealing compared byte for byte with an independent in-memory model over seeded configurations, contents and secrets; one-bit changes of data and secret followed through every later block; distinct by configuration and content");
    let mut cfgs = vec![];
    for mode_l in 0..=4 {
        for mode_s in 0..=3 {
            for (i, cnt) in [0usize, 1, 4, 16, 33].into_iter().enumerate() {
                cfgs.push(Cfg { unit_l: 63, units: 3 + (i * 5) % 9, blocks: 13 + i * 3, seal_rounds: 1 + i % 3, vde_rounds: 1, mode_l, cnt_l: cnt, mode_s, cnt_s: cnt });
            }
        }
    }
    for (blocks, units) in [(1usize, 1usize), (1, 40), (300, 1), (2, 300), (257, 2), (256, 1), (1, 256), (1, 257)] {
        for (ml, ms) in [(0, 0), (1, 1), (2, 2), (3, 0)] {
            cfgs.push(Cfg { unit_l: 63, units, blocks, seal_rounds: 1, vde_rounds: if blocks * units > 100 { 0 } else { 2 }, mode_l: ml, cnt_l: 20, mode_s: ms, cnt_s: 40 });
        }
    }
    cfgs.push(Cfg { unit_l: 63, units: 2, blocks: 3, seal_rounds: 12, vde_rounds: 10, mode_l: 0, cnt_l: 0, mode_s: 0, cnt_s: 10 });
    cfgs.push(Cfg { unit_l: 63, units: 2, blocks: 45, seal_rounds: 1, vde_rounds: 1, mode_l: 0, cnt_l: 0, mode_s: 0, cnt_s: 2 });
    cfgs.push(Cfg { unit_l: 63, units: 2, blocks: 45, seal_rounds: 1, vde_rounds: 1, mode_l: 3, cnt_l: 0, mode_s: 0, cnt_s: 2 });
    cfgs.push(Cfg { unit_l: 255, units: 3, blocks: 3, seal_rounds: 2, vde_rounds: 2, mode_l: 0, cnt_l: 0, mode_s: 0, cnt_s: 10 });
    cfgs.push(Cfg { unit_l: 127, units: 4, blocks: 4, seal_rounds: 2, vde_rounds: 2, mode_l: 1, cnt_l: 4, mode_s: 1, cnt_s: 10 });
    // three-byte indices, long lists
    cfgs.insert(0, Cfg { unit_l: 63, units: 1, blocks: 65_600, seal_rounds: 1, vde_rounds: 0, mode_l: 0, cnt_l: 6, mode_s: 0, cnt_s: 10 });
    cfgs.insert(0, Cfg { unit_l: 63, units: 65_600, blocks: 2, seal_rounds: 1, vde_rounds: 0, mode_l: 0, cnt_l: 6, mode_s: 0, cnt_s: 60 });
    cfgs.insert(0, Cfg { unit_l: 63, units: 1, blocks: 600, seal_rounds: 2, vde_rounds: 0, mode_l: 0, cnt_l: 500, mode_s: 0, cnt_s: 0 });
    cfgs.insert(0, Cfg { unit_l: 63, units: 600, blocks: 2, seal_rounds: 2, vde_rounds: 0, mode_l: 0, cnt_l: 1, mode_s: 0, cnt_s: 500 });
    // digests of much more than 64 KB of dependencies
    cfgs.insert(0, Cfg { unit_l: 255, units: 1, blocks: 1100, seal_rounds: 1, vde_rounds: 0, mode_l: 1, cnt_l: 540, mode_s: 1, cnt_s: 1 });
    cfgs.insert(0, Cfg { unit_l: 255, units: 700, blocks: 2, seal_rounds: 1, vde_rounds: 0, mode_l: 1, cnt_l: 1, mode_s: 1, cnt_s: 690 });
    cfgs.insert(0, Cfg { unit_l: 255, units: 2, blocks: 900, seal_rounds: 1, vde_rounds: 0, mode_l: 0, cnt_l: 4000, mode_s: 0, cnt_s: 3 });
    cfgs.splice(0..0, extremes());
    let mut r = m.rng(1);
    for _ in 0..m.amount(250, 8000) {
        let b = if r.one_in(10) { 300 } else { 60 };
        cfgs.push(Cfg::random(&mut r, b));
    }
    parallel(cfgs.len(), threads(), |i| {
        let mut r = m.rng(100 + i as u64);
        run(m, &mut r, &cfgs[i]);
    });
    m.finish();
}
