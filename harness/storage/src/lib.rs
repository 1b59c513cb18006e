//! Reference model of sealing, written from the definitions, and helpers for
//! the proof-of-storage monitors. Only the parameter type comes from the code
//! under test.
use common::Rng;
use proof_of_storage::proof_of_storage::postorage::PosPara;
use rug::{integer::Order, Integer};
use std::collections::BTreeSet;

// ------------------------------------------------------------------ sloth

pub fn int(bytes: &[u8]) -> Integer {
    Integer::from_digits(bytes, Order::Lsf)
}

pub fn le(x: &Integer, width: usize) -> Vec<u8> {
    let mut v = x.to_digits::<u8>(Order::Lsf);
    assert!(v.len() <= width, "reference value too wide");
    v.resize(width, 0);
    v
}

/// One round: a residue goes to its even root, a non-residue to the odd root of
/// its negation, then odd/even neighbours swap. 0 is fixed.
pub fn ref_round(x: &Integer, p: &Integer) -> Integer {
    if *x == 0 {
        return Integer::new();
    }
    let qr = x.legendre(p) == 1;
    let base = if qr { x.clone() } else { Integer::from(p - x) };
    let e = Integer::from(p + 1u32) / 4u32;
    let r = base.pow_mod(&e, p).unwrap();
    let want_odd = !qr;
    let y = if r.is_odd() == want_odd { r } else { Integer::from(p - &r) };
    if y.is_odd() {
        y + 1u32
    } else {
        y - 1u32
    }
}

pub fn ref_sloth(x: &Integer, p: &Integer, t: usize) -> Integer {
    let mut y = x.clone();
    for _ in 0..t {
        y = ref_round(&y, p);
    }
    y
}

pub fn ref_round_inv(y: &Integer, p: &Integer) -> Integer {
    if *y == 0 {
        return Integer::new();
    }
    let r = if y.is_odd() { Integer::from(y + 1u32) } else { Integer::from(y - 1u32) };
    let s = Integer::from(&r * &r) % p;
    if r.is_odd() {
        Integer::from(p - &s) % p
    } else {
        s
    }
}

// ------------------------------------------------------------ dependencies

fn picks(num: usize, modulus: usize, skip: Option<usize>, data: &[u8], count: usize) -> Vec<usize> {
    let step = if num <= 1 << 8 {
        1
    } else if num <= 1 << 16 {
        2
    } else {
        3
    };
    let mut out = vec![];
    let mut seed = data.to_vec();
    let mut digests = 0usize;
    let limit = (count / (8 * step)).max(1);
    while digests < limit {
        let h = blake3::hash(&seed);
        let d = &h.as_bytes()[..16];
        for ch in d.chunks_exact(step) {
            if out.len() >= count {
                break;
            }
            let v: usize = ch.iter().enumerate().map(|(j, b)| j * 256 + *b as usize).sum();
            let v = v % modulus;
            if Some(v) != skip {
                out.push(v);
            }
        }
        seed = d.to_vec();
        digests += 1;
        if out.len() >= count {
            break;
        }
    }
    out.into_iter().collect::<BTreeSet<_>>().into_iter().collect()
}

pub fn ref_long_random(num: usize, data: &[u8], index: usize, count: usize) -> Vec<usize> {
    if index == 0 {
        return vec![];
    }
    picks(num, index, None, data, count)
}

pub fn ref_short_random(num: usize, data: &[u8], index: usize, count: usize) -> Vec<usize> {
    picks(num, num, Some(index), data, count)
}

pub fn ref_long(index: usize, count: usize, mode: usize) -> Vec<usize> {
    let mut v = vec![];
    match mode {
        1 => {
            // odd distances
            let mut d = 1usize;
            for _ in 0..count {
                if d > index {
                    break;
                }
                v.push(index - d);
                d += 2;
            }
        }
        2 | 3 => {
            let count = if mode == 3 { index / 10 } else { count };
            for i in 0..count {
                if i >= 63 || (1usize << i) + 1 > index {
                    break;
                }
                v.push(index - (1usize << i) - 1);
            }
        }
        _ => {}
    }
    v
}

pub fn ref_short(num: usize, index: usize, count: usize, mode: usize) -> Vec<usize> {
    let mut v = vec![];
    match mode {
        1 => {
            let mut d = 1usize;
            while v.len() < count && (d <= index || index + d < num) {
                if d <= index {
                    v.push(index - d);
                }
                if v.len() < count && index + d < num {
                    v.push(index + d);
                }
                d += 2;
            }
        }
        2 => {
            for i in 0..count.min(63) {
                let p = 1i128 << i;
                let t = if i % 2 == 0 { index as i128 - p - 1 } else { index as i128 + p - 1 };
                if t < 0 || t >= num as i128 {
                    break;
                }
                v.push(t as usize);
            }
        }
        _ => {}
    }
    v
}

// ------------------------------------------------------------ configuration

#[derive(Clone, Debug, Hash, PartialEq)]
pub struct Cfg {
    pub unit_l: usize,
    pub units: usize,
    pub blocks: usize,
    pub seal_rounds: usize,
    pub vde_rounds: usize,
    pub mode_l: usize,
    pub cnt_l: usize,
    pub mode_s: usize,
    pub cnt_s: usize,
}

impl Cfg {
    pub fn data_l(&self) -> usize {
        self.block_l() * self.blocks
    }
    pub fn block_l(&self) -> usize {
        self.unit_l * self.units
    }
    pub fn unit_pl(&self) -> usize {
        self.unit_l + 1
    }
    pub fn block_pl(&self) -> usize {
        self.unit_pl() * self.units
    }
    pub fn padded_l(&self) -> usize {
        self.block_pl() * self.blocks
    }
    pub fn params(&self) -> PosPara {
        PosPara {
            data_l: self.data_l(),
            unit_l: self.unit_l,
            block_l: self.block_l(),
            big_block_l: self.block_l() * 4,
            unit_pl: self.unit_pl(),
            block_pl: self.block_pl(),
            big_block_pl: self.block_pl() * 4,
            seal_rounds: self.seal_rounds,
            vde_rounds: self.vde_rounds,
            vde_mode: "sloth".to_string(),
            mode_l: self.mode_l,
            cnt_l: self.cnt_l,
            mode_s: self.mode_s,
            cnt_s: self.cnt_s,
            leaves_to_prove_count: self.blocks.min(3),
        }
    }
    pub fn show(&self) -> String {
        format!(
            "{} blocks of {} units of {} bytes, seal rounds {}, delay rounds {}, long mode {} count {}, short mode {} count {}",
            self.blocks, self.units, self.unit_l, self.seal_rounds, self.vde_rounds, self.mode_l, self.cnt_l, self.mode_s, self.cnt_s
        )
    }
    /// delay rounds one sealing takes
    pub fn work(&self) -> usize {
        self.blocks * self.units * self.seal_rounds * self.vde_rounds
    }
    /// A random configuration; `budget` bounds the number of units.
    pub fn random(r: &mut Rng, budget: usize) -> Cfg {
        let unit_l = *r.pick(&[63usize, 63, 63, 63, 127, 255]);
        let (blocks, units) = loop {
            let b = match r.below(5) {
                0 => r.range(1, 3),
                1 => r.range(1, 12),
                _ => r.range(2, 40),
            };
            let u = match r.below(5) {
                0 => 1,
                1 => r.range(2, 4),
                _ => r.range(1, 30),
            };
            if b * u <= budget {
                break (b, u);
            }
        };
        let mut c = Cfg {
            unit_l,
            units,
            blocks,
            seal_rounds: *r.pick(&[1usize, 1, 2, 2, 3]),
            vde_rounds: *r.pick(&[1usize, 1, 1, 2, 3, 0]),
            mode_l: r.below(5),
            cnt_l: *r.pick(&[0usize, 1, 2, 3, 5, 8, 16, 20, 40, 64]),
            mode_s: r.below(4),
            cnt_s: *r.pick(&[0usize, 1, 2, 3, 5, 8, 10, 16, 20, 40, 64]),
        };
        while c.work() > 2 * budget {
            if c.seal_rounds > 1 {
                c.seal_rounds -= 1;
            } else {
                c.vde_rounds -= 1;
            }
        }
        c
    }
}

// --------------------------------------------------------- reference sealing

pub fn pad(data: &[u8], unit_l: usize) -> Vec<u8> {
    let mut out = Vec::with_capacity(data.len() / unit_l * (unit_l + 1));
    for u in data.chunks_exact(unit_l) {
        out.extend_from_slice(u);
        out.push(0);
    }
    out
}

/// indices of the blocks block `b` depends on
pub fn dep_blocks(c: &Cfg, b: usize, prev_id: &[u8]) -> Vec<usize> {
    if b == 0 {
        return vec![];
    }
    if c.mode_l == 0 {
        let n = if c.cnt_l == 0 { b / 10 + 1 } else { c.cnt_l };
        ref_long_random(c.blocks, prev_id, b, n)
    } else {
        ref_long(b, c.cnt_l, c.mode_l)
    }
}

pub struct Sealed {
    pub bytes: Vec<u8>,
    pub ids: Vec<Vec<u8>>,
    pub deps: Vec<Vec<usize>>,
}

/// Seal one block, given as padded units, in memory.
pub fn ref_seal_block(c: &Cfg, b: usize, mut block: Vec<Vec<u8>>, prev: &[u8], deps: &[Vec<Vec<u8>>], p: &Integer, iv: &[u8]) -> Vec<Vec<u8>> {
    for _ in 0..c.seal_rounds {
        for u in 0..c.units {
            let mut msg: Vec<u8> = vec![];
            for d in deps {
                msg.extend_from_slice(&d[u]);
            }
            let sd = if c.mode_s == 0 {
                let seed: Vec<u8> = if u == 0 { vec![] } else { block[u - 1].clone() };
                ref_short_random(c.units, &seed, u, c.cnt_s)
            } else {
                ref_short(c.units, u, c.cnt_s, c.mode_s)
            };
            for s in sd {
                msg.extend_from_slice(&block[s]);
            }
            if u == 0 {
                msg.extend_from_slice(if b == 0 { iv } else { prev });
            }
            let h = blake3::hash(&msg);
            let v = (int(&block[u]) + int(h.as_bytes())) % p;
            block[u] = le(&ref_sloth(&v, p, c.vde_rounds), c.unit_pl());
        }
    }
    block
}

/// Parts of a replica too big to seal: sparse files that hold only some blocks,
/// and what those depend on.
pub struct Far {
    /// the sealed blocks and their original bytes
    pub blocks: std::collections::BTreeMap<usize, Vec<u8>>,
    /// the blocks each of them chains from or depends on
    pub needs: std::collections::BTreeMap<usize, Vec<usize>>,
}

pub fn far(c: &Cfg, r: &mut Rng, o: &str, z: &str, targets: &[usize], p: &Integer, iv: &[u8]) -> Option<Far> {
    use std::os::unix::fs::FileExt;
    let open = |f: &str, len: usize| -> Option<std::fs::File> {
        let h = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(f).ok()?;
        h.set_len(len as u64).ok()?;
        Some(h)
    };
    let (fo, fz) = (open(o, c.data_l())?, open(z, c.padded_l())?);
    let bp = c.block_pl();
    let units = |b: &[u8]| -> Vec<Vec<u8>> { b.chunks_exact(c.unit_pl()).map(|u| u.to_vec()).collect() };
    let mut held: std::collections::HashMap<usize, Vec<u8>> = Default::default();
    let mut out = Far { blocks: Default::default(), needs: Default::default() };
    let mut hold = |b: usize, r: &mut Rng, held: &mut std::collections::HashMap<usize, Vec<u8>>| -> Vec<u8> {
        held.entry(b)
            .or_insert_with(|| {
                let x = r.bytes(bp);
                fz.write_all_at(&x, (b * bp) as u64).unwrap();
                x
            })
            .clone()
    };
    for &b in targets {
        if b == 0 || b >= c.blocks || held.contains_key(&b) {
            continue;
        }
        let prev = blake3::hash(&hold(b - 1, r, &mut held)).as_bytes().to_vec();
        let deps = dep_blocks(c, b, &prev);
        let d: Vec<Vec<Vec<u8>>> = deps.iter().map(|&d| units(&hold(d, r, &mut held))).collect();
        let data = r.bytes(c.block_l());
        fo.write_all_at(&data, (b * c.block_l()) as u64).unwrap();
        let sealed = ref_seal_block(c, b, units(&pad(&data, c.unit_l)), &prev, &d, p, iv).concat();
        fz.write_all_at(&sealed, (b * bp) as u64).unwrap();
        held.insert(b, sealed);
        out.blocks.insert(b, data);
        let mut n = deps;
        n.push(b - 1);
        out.needs.insert(b, n);
    }
    Some(out)
}

/// Whether recovery takes a whole file of 256 MB into memory to read a few blocks.
/// It may; it is then not tried on files of several GB.
pub fn reads_whole_files(m: &common::Mon) -> bool {
    use common::*;
    use proof_of_storage::proof_of_storage::verifier::*;
    let s = Scratch::new("probe");
    let mut r = m.rng(256);
    let c = Cfg { unit_l: 63, units: 64, blocks: (1 << 28) / (63 * 64), seal_rounds: 1, vde_rounds: 1, mode_l: 1, cnt_l: 3, mode_s: 1, cnt_s: 4 };
    let (o, z, p, iv) = (s.path("o"), s.path("z"), prime(c.unit_pl()), r.bytes(128));
    let b = c.blocks - 1;
    if far(&c, &mut r, &o, &z, &[b], &p, &iv).is_none() {
        return false;
    }
    let costly = costly(|| {
        let _ = catch(|| {
            let (bl, id, de) = single_unseal_prepare(&z, b, &c.params());
            let _ = batch_unseal_prepare(&z, b * c.block_pl(), (b + 1) * c.block_pl(), &c.params());
            let _ = batch_unseal_and_verify(&c.params(), &o, &vec![b], &vec![bl], &vec![id], &vec![de], &p, &iv);
        });
    });
    if costly {
        m.count("recovery takes whole files into memory: replicas beyond 4 GB left out", 1);
    }
    costly
}

/// configurations whose replica crosses 2 and 4 GB, and the blocks around those borders
pub fn far_cfgs() -> Vec<(Cfg, Vec<usize>)> {
    let mut v = vec![];
    for (unit_l, units, mode_l, mode_s) in [(63usize, 64usize, 0usize, 0usize), (63, 128, 1, 1), (63, 100, 2, 2), (127, 40, 3, 0), (63, 90, 4, 3), (255, 33, 0, 1)] {
        let mut c = Cfg { unit_l, units, blocks: 0, seal_rounds: 1, vde_rounds: 1, mode_l, cnt_l: 3, mode_s, cnt_s: 4 };
        let at = |x: usize| x / c.block_pl();
        let (g2, g4, h4) = (at(1 << 31), at(1 << 32), (1usize << 32) / c.block_l());
        c.blocks = h4 + 100;
        v.push((c, vec![g2, g2 + 1, g4 - 1, g4, g4 + 1, g4 + 2, h4, h4 + 1, h4 + 99]));
    }
    v
}

/// Configurations at the far end of one quantity each, small in the others: many
/// rounds, large blocks.
pub fn extremes() -> Vec<Cfg> {
    let base = Cfg { unit_l: 63, units: 2, blocks: 3, seal_rounds: 1, vde_rounds: 1, mode_l: 0, cnt_l: 2, mode_s: 0, cnt_s: 4 };
    let mut v = vec![];
    for n in [17usize, 20, 33, 40, 70, 129, 300] {
        v.push(Cfg { seal_rounds: n, vde_rounds: if n > 50 { 0 } else { 1 }, ..base.clone() });
        v.push(Cfg { vde_rounds: n, units: 1, blocks: 2, mode_l: 1, mode_s: 1, ..base.clone() });
    }
    v.push(Cfg { units: 1, blocks: 1, vde_rounds: 1100, ..base.clone() });
    v.push(Cfg { units: 3, blocks: 2, seal_rounds: 1100, vde_rounds: 0, mode_l: 2, mode_s: 2, ..base.clone() });
    for (i, units) in [1100usize, 4200, 9000].into_iter().enumerate() {
        v.push(Cfg { units, blocks: 2, vde_rounds: 1, mode_l: i, mode_s: i, ..base.clone() });
    }
    v
}

/// Seal `data` in memory. `dep_seen`: counts of (long, short) dependencies used.
pub fn ref_seal(c: &Cfg, data: &[u8], p: &Integer, iv: &[u8]) -> Sealed {
    let w = c.unit_pl();
    let mut blocks: Vec<Vec<Vec<u8>>> = pad(data, c.unit_l)
        .chunks_exact(c.block_pl())
        .map(|b| b.chunks_exact(w).map(|u| u.to_vec()).collect())
        .collect();
    let mut ids: Vec<Vec<u8>> = vec![];
    let mut all_deps = vec![];
    for b in 0..c.blocks {
        let prev: Vec<u8> = if b == 0 { vec![] } else { ids[b - 1].clone() };
        let deps = dep_blocks(c, b, &prev);
        let held: Vec<Vec<Vec<u8>>> = deps.iter().map(|&d| blocks[d].clone()).collect();
        blocks[b] = ref_seal_block(c, b, blocks[b].clone(), &prev, &held, p, iv);
        let flat: Vec<u8> = blocks[b].concat();
        ids.push(blake3::hash(&flat).as_bytes().to_vec());
        all_deps.push(deps);
    }
    Sealed { bytes: blocks.concat().concat(), ids, deps: all_deps }
}

/// original bytes of block b as units
pub fn origin_units(c: &Cfg, data: &[u8], b: usize) -> Vec<Vec<u8>> {
    data[b * c.block_l()..(b + 1) * c.block_l()].chunks_exact(c.unit_l).map(|u| u.to_vec()).collect()
}

pub fn prime(unit_pl: usize) -> Integer {
    use proof_of_storage::vde::rug_sloth::{P_1024, P_2048, P_512};
    match unit_pl {
        64 => P_512,
        256 => P_2048,
        _ => P_1024,
    }
    .parse()
    .unwrap()
}

pub fn rand_below(r: &mut Rng, p: &Integer) -> Integer {
    let n = (p.significant_bits() as usize + 7) / 8 + 8;
    int(&r.bytes(n)) % p
}

// ------------------------------------------------------------------ audits

pub trait Verdict {
    fn accepted(self) -> bool;
}
impl Verdict for () {
    fn accepted(self) -> bool {
        true
    }
}
impl Verdict for bool {
    fn accepted(self) -> bool {
        self
    }
}
impl<T: Verdict, E> Verdict for Result<T, E> {
    fn accepted(self) -> bool {
        self.map(|v| v.accepted()).unwrap_or(false)
    }
}

/// A verifier accepts by returning (true, Ok or nothing), rejects by anything else.
pub fn accepts<V: Verdict>(f: impl FnOnce() -> V) -> bool {
    common::catch(|| f().accepted()).unwrap_or(false)
}
