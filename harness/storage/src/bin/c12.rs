//! C12: pad, seal, unseal, compress is the identity.
use common::*;
use proof_of_storage::proof_of_storage::prover::{copy_and_compress, copy_and_pad, seal, unseal};
use storage_mon::*;

fn run(m: &Mon, r: &mut Rng, c: &Cfg) {
    let s = Scratch::new("c12");
    let (o, z, u) = (s.path("origin"), s.path("sealed"), s.path("unsealed"));
    let (mut data, flavour) = r.content(c.data_l());
    if r.one_in(6) {
        // identical blocks
        let b = data[..c.block_l()].to_vec();
        data = b.iter().cycle().take(c.data_l()).cloned().collect();
    }
    let iv = match r.below(6) {
        0 => vec![0u8; 128],
        1 => vec![],
        _ => r.bytes(128),
    };
    let p = prime(c.unit_pl());
    m.case(format!("{}; content {}, secret of {} bytes", c.show(), flavour, iv.len()));
    std::fs::write(&o, &data).unwrap();
    // whatever the target files held before
    if r.one_in(3) {
        let junk = r.range(1, 2 * c.padded_l() + 10);
        std::fs::write(&z, r.bytes(junk)).unwrap();
        std::fs::write(&u, r.bytes(junk)).unwrap();
        m.count("runs over leftover files", 1);
    }
    let par = c.params();
    m.must("copy_and_pad", || copy_and_pad(&o, &z, c.data_l(), c.unit_l));
    let padded = std::fs::read(&z).unwrap();
    m.check(padded == pad(&data, c.unit_l), || format!("padded file is not the padded data: {}", first_diff(&padded, &pad(&data, c.unit_l))));
    m.must("seal", || {
        let _ = seal(&par, &z, &p, &iv);
    });
    let sealed = std::fs::read(&z).unwrap();
    m.check(sealed.len() == c.padded_l(), || format!("replica of {} bytes, {} expected", sealed.len(), c.padded_l()));
    for b in 0..c.blocks {
        let r0 = b * c.block_pl()..(b + 1) * c.block_pl();
        m.check(sealed[r0.clone()] != padded[r0.clone()], || format!("block {} is stored unsealed", b));
        if c.vde_rounds > 0 {
            // no unit survives in the clear
            for (x, y) in sealed[r0.clone()].chunks(c.unit_pl()).zip(padded[r0].chunks(c.unit_pl())) {
                m.check(x != y, || format!("a unit of block {} is stored unsealed", b));
            }
        }
    }
    m.must("unseal", || {
        let _ = unseal(&par, &z, &p, &iv);
    });
    let back = std::fs::read(&z).unwrap();
    m.check(back == padded, || {
        let i = back.iter().zip(&padded).position(|(a, b)| a != b).unwrap_or(0);
        format!("unsealing does not give the padded data back: {} (block {}, unit {})", first_diff(&back, &padded), i / c.block_pl(), i % c.block_pl() / c.unit_pl())
    });
    m.must("copy_and_compress", || copy_and_compress(&z, &u, c.data_l(), c.unit_l, c.unit_pl()));
    let got = std::fs::read(&u).unwrap();
    m.check(got == data, || format!("recovered file differs: {}", first_diff(&got, &data)));
    m.count("files sealed and recovered", 1);
    m.count("bytes recovered", data.len() as u64);
    m.count("units sealed", (c.blocks * c.units * c.seal_rounds) as u64);
    m.count(&format!("long mode {}", c.mode_l), 1);
    m.count(&format!("short mode {}", c.mode_s), 1);
    m.distinct(&(c, flavour, hash64(&data)));
    m.sample(format!("{}; {}", c.show(), flavour));
}

fn main() {
    let m = Mon::new("C12", "", "exploration", "seeded configurations over block and unit counts, unit widths 63/127/255, sealing and delay rounds, every long and short mode and many counts, file contents and leftover target files; distinct by configuration and content");
    // every mode pair, at counts around the digest boundaries
    let th = threads();
    let mut cfgs = vec![];
    for mode_l in 0..=4 {
        for mode_s in 0..=3 {
            for (i, cnt) in [0usize, 1, 3, 16, 17, 33].into_iter().enumerate() {
                cfgs.push(Cfg { unit_l: 63, units: 3 + (i * 5) % 9, blocks: 13 + i * 3, seal_rounds: 1 + i % 2, vde_rounds: 1, mode_l, cnt_l: cnt, mode_s, cnt_s: cnt });
            }
        }
    }
    // one block, one unit, many blocks, wide two-byte indices, many rounds
    for (blocks, units) in [(1usize, 1usize), (1, 40), (300, 1), (2, 300), (257, 2), (256, 1), (1, 256), (1, 257)] {
        for (ml, ms) in [(0, 0), (1, 1), (2, 2), (3, 0)] {
            cfgs.push(Cfg { unit_l: 63, units, blocks, seal_rounds: 1, vde_rounds: if blocks * units > 100 { 0 } else { 2 }, mode_l: ml, cnt_l: 20, mode_s: ms, cnt_s: 40 });
        }
    }
    cfgs.push(Cfg { unit_l: 63, units: 2, blocks: 3, seal_rounds: 12, vde_rounds: 10, mode_l: 0, cnt_l: 0, mode_s: 0, cnt_s: 10 });
    cfgs.push(Cfg { unit_l: 255, units: 2, blocks: 2, seal_rounds: 2, vde_rounds: 2, mode_l: 0, cnt_l: 0, mode_s: 0, cnt_s: 10 });
    cfgs.push(Cfg { unit_l: 127, units: 4, blocks: 4, seal_rounds: 2, vde_rounds: 2, mode_l: 1, cnt_l: 4, mode_s: 1, cnt_s: 10 });
    // three-byte indices
    cfgs.insert(0, Cfg { unit_l: 63, units: 1, blocks: 65_600, seal_rounds: 1, vde_rounds: 0, mode_l: 0, cnt_l: 6, mode_s: 0, cnt_s: 10 });
    cfgs.insert(0, Cfg { unit_l: 63, units: 65_600, blocks: 2, seal_rounds: 1, vde_rounds: 0, mode_l: 0, cnt_l: 6, mode_s: 0, cnt_s: 60 });
    cfgs.insert(0, Cfg { unit_l: 63, units: 66_000, blocks: 2, seal_rounds: 1, vde_rounds: 0, mode_l: 1, cnt_l: 300, mode_s: 1, cnt_s: 20 });
    cfgs.insert(0, Cfg { unit_l: 63, units: 2, blocks: 66_000, seal_rounds: 1, vde_rounds: 0, mode_l: 2, cnt_l: 5, mode_s: 2, cnt_s: 1 });
    cfgs.insert(0, Cfg { unit_l: 63, units: 1, blocks: 600, seal_rounds: 2, vde_rounds: 0, mode_l: 0, cnt_l: 500, mode_s: 0, cnt_s: 0 });
    cfgs.insert(0, Cfg { unit_l: 63, units: 600, blocks: 2, seal_rounds: 2, vde_rounds: 0, mode_l: 0, cnt_l: 1, mode_s: 0, cnt_s: 500 });
    cfgs.splice(0..0, extremes());
    let mut r = m.rng(1);
    for _ in 0..m.amount(300, 12_000) {
        let b = if r.one_in(10) { 400 } else { 60 };
        cfgs.push(Cfg::random(&mut r, b));
    }
    parallel(cfgs.len(), th, |i| {
        let mut r = m.rng(100 + i as u64);
        run(m, &mut r, &cfgs[i]);
    });
    m.finish();
}
