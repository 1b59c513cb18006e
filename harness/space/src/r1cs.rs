//! Records the constraint system that the real synthesizers emit and attacks
//! it with forged assignments. An assignment counts only if it satisfies every
//! recorded constraint; whether its statement is true is judged elsewhere, by
//! the reference functions.
use ark_bls12_381::Fr;
use ark_ff::{Field, One, SquareRootField, Zero};
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystem, OptimizationGoal, SynthesisMode};
use common::Rng;
use std::collections::BTreeMap;

type Row = Vec<(Fr, usize)>;

/// Constraints in the form the proof system sees them, columns: 0 is the
/// constant one, then the public inputs, then the private values.
#[derive(Clone)]
pub struct R1cs {
    pub a: Vec<Row>,
    pub b: Vec<Row>,
    pub c: Vec<Row>,
    pub inst: usize,
    pub vars: usize,
    /// constraints in which a column occurs
    pub occ: Vec<Vec<u32>>,
    open0: Vec<u32>,
    ready0: Vec<u32>,
}

fn clean(rows: Vec<Row>) -> Vec<Row> {
    rows.into_iter()
        .map(|r| {
            let mut m: BTreeMap<usize, Fr> = BTreeMap::new();
            for (f, v) in r {
                *m.entry(v).or_insert_with(Fr::zero) += f;
            }
            m.into_iter().filter(|(_, f)| !f.is_zero()).map(|(v, f)| (f, v)).collect()
        })
        .collect()
}

impl R1cs {
    /// What the setup (and so the verifier) sees: synthesized without values.
    pub fn setup(c: impl ConstraintSynthesizer<Fr>) -> R1cs {
        let cs = ConstraintSystem::new_ref();
        cs.set_optimization_goal(OptimizationGoal::Constraints);
        cs.set_mode(SynthesisMode::Setup);
        c.generate_constraints(cs.clone()).unwrap();
        cs.finalize();
        let m = cs.to_matrices().unwrap();
        R1cs::from(clean(m.a), clean(m.b), clean(m.c), cs.num_instance_variables(), cs.num_instance_variables() + cs.num_witness_variables())
    }
    pub fn from(a: Vec<Row>, b: Vec<Row>, c: Vec<Row>, inst: usize, vars: usize) -> R1cs {
        let mut occ = vec![vec![]; vars];
        for i in 0..a.len() {
            for r in [&a[i], &b[i], &c[i]] {
                for &(_, v) in r {
                    if occ[v].last() != Some(&(i as u32)) {
                        occ[v].push(i as u32);
                    }
                }
            }
        }
        let mut open0 = vec![0u32; a.len()];
        for v in 1..vars {
            for &k in &occ[v] {
                open0[k as usize] += 1;
            }
        }
        let ready0 = (0..a.len() as u32).filter(|&k| open0[k as usize] <= 1).collect();
        R1cs { a, b, c, inst, vars, occ, open0, ready0 }
    }
    pub fn len(&self) -> usize {
        self.a.len()
    }
    pub fn without(&self, k: usize) -> R1cs {
        let f = |x: &Vec<Row>| x.iter().enumerate().filter(|(i, _)| *i != k).map(|(_, r)| r.clone()).collect::<Vec<_>>();
        R1cs::from(f(&self.a), f(&self.b), f(&self.c), self.inst, self.vars)
    }
    pub fn violated(&self, z: &[Fr]) -> Option<usize> {
        let e = |r: &Row| r.iter().fold(Fr::zero(), |s, (f, v)| s + *f * z[*v]);
        (0..self.len()).find(|&i| e(&self.a[i]) * e(&self.b[i]) != e(&self.c[i]))
    }
    /// columns some constraint forces to be 0 or 1 on its own
    pub fn boolean(&self) -> Vec<bool> {
        let mut out = vec![false; self.vars];
        for i in 0..self.len() {
            let mut u = None;
            let mut one = true;
            for r in [&self.a[i], &self.b[i], &self.c[i]] {
                for &(_, v) in r {
                    if v != 0 {
                        match u {
                            None => u = Some(v),
                            Some(w) if w != v => one = false,
                            _ => {}
                        }
                    }
                }
            }
            if let (Some(v), true) = (u, one) {
                let g = |r: &Row, x: Fr| r.iter().fold(Fr::zero(), |s, (f, w)| s + if *w == 0 { *f } else { *f * x });
                let ok = |x: Fr| g(&self.a[i], x) * g(&self.b[i], x) == g(&self.c[i], x);
                if ok(Fr::zero()) && ok(Fr::one()) && !ok(Fr::from(2u64)) {
                    out[v] = true;
                }
            }
        }
        out
    }
}

/// The assignment the synthesizer itself produces.
pub fn assignment(c: impl ConstraintSynthesizer<Fr>) -> Result<Vec<Fr>, String> {
    let cs = ConstraintSystem::new_ref();
    cs.set_optimization_goal(OptimizationGoal::Constraints);
    match common::catch(|| c.generate_constraints(cs.clone())) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return Err(format!("{:?}", e)),
        Err(e) => return Err(e),
    }
    cs.finalize();
    let b = cs.borrow().unwrap();
    let mut z = b.instance_assignment.clone();
    z.extend_from_slice(&b.witness_assignment);
    Ok(z)
}

/// inverse of a nonzero element; coefficients are mostly 1 and -1
fn inv(x: Fr) -> Fr {
    if x.is_one() || x == -Fr::one() {
        x
    } else {
        x.inverse().unwrap()
    }
}

pub enum Outcome {
    /// all constraints hold
    Forged(Vec<Fr>),
    Contradiction,
}

/// Complete the pinned values to a satisfying assignment: constraints with one
/// unknown are solved, then everything linear in the unknowns by elimination,
/// then an open value is chosen (the guide's value, or a random one if `wild`).
pub struct Solver<'a> {
    cs: &'a R1cs,
    val: Vec<Option<Fr>>,
    open: Vec<u32>,
    queue: Vec<u32>,
    at: usize,
}

enum Step {
    Ok,
    Bad,
}

impl<'a> Solver<'a> {
    pub fn run(cs: &'a R1cs, pins: &[(usize, Fr)], guide: &[Fr], wild: bool, r: &mut Rng) -> Outcome {
        let mut s = Solver { cs, val: vec![None; cs.vars], open: cs.open0.clone(), queue: cs.ready0.clone(), at: 0 };
        s.val[0] = Some(Fr::one());
        for &(v, x) in pins {
            match s.val[v] {
                None => s.set(v, x),
                Some(y) if y == x => {}
                _ => return Outcome::Contradiction,
            }
        }
        let mut stale = true;
        loop {
            if let Step::Bad = s.propagate() {
                return Outcome::Contradiction;
            }
            if stale {
                stale = false;
                match s.linear() {
                    None => return Outcome::Contradiction,
                    Some(true) => {
                        stale = true;
                        continue;
                    }
                    Some(false) => {}
                }
            }
            // two-valued columns first, then eliminate again, then open ones
            if s.choose_root(guide, wild, r) {
                continue;
            }
            match s.linear() {
                None => return Outcome::Contradiction,
                Some(true) => continue,
                Some(false) => {}
            }
            if !s.choose_open(guide, wild, r) {
                break;
            }
        }
        let z: Vec<Fr> = s.val.iter().map(|v| v.unwrap()).collect();
        match cs.violated(&z) {
            None => Outcome::Forged(z),
            Some(_) => Outcome::Contradiction,
        }
    }

    /// What the pinned values determine; None if they contradict each other.
    pub fn consequences(cs: &'a R1cs, pins: &[(usize, Fr)], eliminate: bool) -> Option<Vec<Option<Fr>>> {
        let mut s = Solver { cs, val: vec![None; cs.vars], open: cs.open0.clone(), queue: cs.ready0.clone(), at: 0 };
        s.val[0] = Some(Fr::one());
        for &(v, x) in pins {
            match s.val[v] {
                None => s.set(v, x),
                Some(y) if y == x => {}
                _ => return None,
            }
        }
        loop {
            if let Step::Bad = s.propagate() {
                return None;
            }
            if !eliminate {
                return Some(s.val);
            }
            match s.linear() {
                None => return None,
                Some(true) => continue,
                Some(false) => return Some(s.val),
            }
        }
    }

    fn set(&mut self, v: usize, x: Fr) {
        debug_assert!(self.val[v].is_none());
        self.val[v] = Some(x);
        for &k in &self.cs.occ[v] {
            self.open[k as usize] -= 1;
            if self.open[k as usize] <= 1 {
                self.queue.push(k);
            }
        }
    }

    /// constant part and unknown coefficients of a row
    fn part(&self, row: &Row) -> (Fr, Vec<(Fr, usize)>) {
        let mut k = Fr::zero();
        let mut u = vec![];
        for &(f, v) in row {
            match self.val[v] {
                Some(x) => k += f * x,
                None => u.push((f, v)),
            }
        }
        (k, u)
    }

    /// polynomial of a constraint with one unknown: (quadratic, linear, constant, unknown)
    fn poly(&self, k: usize) -> (Fr, Fr, Fr, Option<usize>) {
        let mut u = None;
        let mut side = |row: &Row| {
            let (mut c, mut l) = (Fr::zero(), Fr::zero());
            for &(f, v) in row {
                match self.val[v] {
                    Some(x) => c += f * x,
                    None => {
                        u = Some(v);
                        l += f;
                    }
                }
            }
            (c, l)
        };
        let (a0, a1) = side(&self.cs.a[k]);
        let (b0, b1) = side(&self.cs.b[k]);
        let (c0, c1) = side(&self.cs.c[k]);
        (a1 * b1, a0 * b1 + a1 * b0 - c1, a0 * b0 - c0, u)
    }

    fn propagate(&mut self) -> Step {
        while let Some(k) = self.queue.pop() {
            let k = k as usize;
            if self.open[k] > 1 {
                continue;
            }
            let (q, l, c, u) = self.poly(k);
            match u {
                None => {
                    if !c.is_zero() {
                        return Step::Bad;
                    }
                }
                Some(v) => {
                    if !q.is_zero() {
                        if !c.is_zero() {
                            let d = l * l - q * c * Fr::from(4u64);
                            if d.is_zero() {
                                self.set(v, -l * (q + q).inverse().unwrap());
                            } else if d.sqrt().is_none() {
                                return Step::Bad;
                            }
                        } else if l.is_zero() {
                            self.set(v, Fr::zero());
                        }
                        // two roots: a choice, later
                    } else if !l.is_zero() {
                        self.set(v, -c * inv(l));
                    } else if !c.is_zero() {
                        return Step::Bad;
                    }
                }
            }
        }
        Step::Ok
    }

    /// Some(true): values were determined; Some(false): nothing new; None: inconsistent
    fn linear(&mut self) -> Option<bool> {
        let mut rows: Vec<(BTreeMap<usize, Fr>, Fr)> = vec![];
        for k in 0..self.cs.len() {
            if self.open[k] == 0 {
                continue;
            }
            let (a0, a1) = self.part(&self.cs.a[k]);
            let (b0, b1) = self.part(&self.cs.b[k]);
            let (f, side, side0) = if a1.is_empty() {
                (a0, b1, b0)
            } else if b1.is_empty() {
                (b0, a1, a0)
            } else {
                continue;
            };
            let (c0, c1) = self.part(&self.cs.c[k]);
            let mut m: BTreeMap<usize, Fr> = BTreeMap::new();
            for (g, v) in side {
                *m.entry(v).or_insert_with(Fr::zero) += g * f;
            }
            for (g, v) in c1 {
                *m.entry(v).or_insert_with(Fr::zero) -= g;
            }
            m.retain(|_, g| !g.is_zero());
            rows.push((m, f * side0 - c0));
        }
        if rows.is_empty() {
            return Some(false);
        }
        // pivot = largest column of the row; the pivot's row expresses it by smaller columns
        let mut piv: BTreeMap<usize, (BTreeMap<usize, Fr>, Fr)> = BTreeMap::new();
        let mut work = 0usize;
        for (mut m, mut k) in rows {
            loop {
                let top = match m.keys().next_back() {
                    None => {
                        if !k.is_zero() {
                            return None;
                        }
                        break;
                    }
                    Some(&t) => t,
                };
                if let Some((pm, pk)) = piv.get(&top) {
                    let f = m.remove(&top).unwrap();
                    for (v, g) in pm {
                        let e = m.entry(*v).or_insert_with(Fr::zero);
                        *e += f * g;
                        if e.is_zero() {
                            m.remove(v);
                        }
                    }
                    k += f * pk;
                    work += pm.len() + 1;
                    if work > 200_000 {
                        return Some(false);
                    }
                } else {
                    let f = m.remove(&top).unwrap();
                    let i = -inv(f);
                    for g in m.values_mut() {
                        *g *= i;
                    }
                    piv.insert(top, (m, k * i));
                    break;
                }
            }
        }
        let mut known: BTreeMap<usize, Fr> = BTreeMap::new();
        let mut full: BTreeMap<usize, (BTreeMap<usize, Fr>, Fr)> = BTreeMap::new();
        for (v, (m, k)) in piv {
            let mut o: BTreeMap<usize, Fr> = BTreeMap::new();
            let mut c = k;
            for (w, g) in m {
                if let Some((fm, fk)) = full.get(&w) {
                    for (x, h) in fm {
                        *o.entry(*x).or_insert_with(Fr::zero) += g * h;
                    }
                    c += g * fk;
                    work += fm.len();
                } else {
                    *o.entry(w).or_insert_with(Fr::zero) += g;
                }
            }
            o.retain(|_, g| !g.is_zero());
            if o.is_empty() {
                known.insert(v, c);
            }
            if work > 400_000 {
                break;
            }
            full.insert(v, (o, c));
        }
        if known.is_empty() {
            return Some(false);
        }
        for (v, x) in known {
            if self.val[v].is_none() {
                self.set(v, x);
            }
        }
        Some(true)
    }

    /// A quadratic in one unknown leaves two values: take one.
    fn choose_root(&mut self, guide: &[Fr], wild: bool, r: &mut Rng) -> bool {
        while self.at < self.cs.len() {
            let k = self.at;
            self.at += 1;
            if self.open[k] == 1 {
                let (q, l, c, u) = self.poly(k);
                if let (Some(v), false) = (u, q.is_zero()) {
                    let (x, y) = if c.is_zero() {
                        (Fr::zero(), -l * inv(q))
                    } else {
                        let d = (l * l - q * c * Fr::from(4u64)).sqrt().unwrap_or_else(Fr::zero);
                        let i = (q + q).inverse().unwrap();
                        ((-l + d) * i, (-l - d) * i)
                    };
                    let z = if wild && r.one_in(3) {
                        if r.coin() { x } else { y }
                    } else if guide[v] == x || guide[v] == y {
                        guide[v]
                    } else {
                        x
                    };
                    self.set(v, z);
                    return true;
                }
            }
        }
        self.at = 0;
        false
    }

    fn choose_open(&mut self, guide: &[Fr], wild: bool, r: &mut Rng) -> bool {
        // private values in the order they were made; the public ones follow from them
        match (self.cs.inst..self.cs.vars).chain(1..self.cs.inst).find(|&v| self.val[v].is_none()) {
            None => false,
            Some(v) => {
                let z = if wild { crate::fr(r) } else { guide[v] };
                self.set(v, z);
                true
            }
        }
    }
}

/// What the columns mean, learned from several honest runs by value.
pub struct Roles {
    /// per column the values in the runs
    pub runs: Vec<Vec<Fr>>,
}

impl Roles {
    pub fn column(&self, v: usize) -> Vec<Fr> {
        self.runs.iter().map(|z| z[v]).collect()
    }
    pub fn matching(&self, want: &[Fr], from: usize, to: usize) -> Vec<usize> {
        (from..to).filter(|&v| self.runs.iter().zip(want).all(|(z, w)| z[v] == *w)).collect()
    }
}

/// A circuit under attack.
pub struct Target<'a> {
    pub cs: &'a R1cs,
    pub roles: &'a Roles,
    /// columns whose value the attacker keeps honest: the private inputs (one
    /// column each) and the public inputs that are not outputs
    pub seeds: Vec<usize>,
    /// public outputs
    pub outputs: Vec<usize>,
    /// per decomposed value: its own column, if there is one
    pub values: Vec<Option<usize>>,
    /// per decomposed value: the columns of its 256 bits and of copies of its low bits
    pub bits: Vec<(Vec<Option<usize>>, Vec<Option<usize>>)>,
    /// how many low bits of a decomposed value the statement is about
    pub low_width: usize,
    /// is the statement of this (satisfying) assignment true?
    pub truth: &'a (dyn Fn(&[Fr]) -> Result<(), String> + Sync),
}

pub struct Amount {
    /// every how many columns/bits the per-column families take one
    pub stride: usize,
    pub off: usize,
    /// also the families that do not go by column
    pub whole: bool,
    pub wild: usize,
    /// of the replaced values only the most telling
    pub brief: bool,
}

#[derive(Default, Clone)]
pub struct Tally {
    pub attempts: u64,
    pub contradictions: u64,
    pub true_statements: u64,
    pub by_family: BTreeMap<&'static str, u64>,
}

pub struct Forgery {
    pub family: String,
    pub why: String,
    pub public: Vec<Fr>,
}

pub type Pins = BTreeMap<usize, Fr>;

impl<'a> Target<'a> {
    fn fire(&self, fam: &'static str, what: String, pins: &Pins, guide: &[Fr], wild: bool, r: &mut Rng, t: &mut Tally) -> Option<Forgery> {
        t.attempts += 1;
        *t.by_family.entry(fam).or_insert(0) += 1;
        let p: Vec<(usize, Fr)> = pins.iter().map(|(k, v)| (*k, *v)).collect();
        match Solver::run(self.cs, &p, guide, wild, r) {
            Outcome::Contradiction => {
                t.contradictions += 1;
                None
            }
            Outcome::Forged(z) => match (self.truth)(&z) {
                Ok(()) => {
                    t.true_statements += 1;
                    None
                }
                Err(why) => Some(Forgery { family: format!("{} ({})", fam, what), why, public: z[1..self.cs.inst].to_vec() }),
            },
        }
    }

    /// columns that are bits: constrained so on their own, or holding a bit of a decomposed value in every run
    pub fn bools(&self) -> Vec<usize> {
        let a = self.cs.boolean();
        let mut b: std::collections::BTreeSet<usize> = (1..self.cs.vars).filter(|&v| a[v]).collect();
        for (x, y) in &self.bits {
            b.extend(x.iter().chain(y).flatten());
        }
        b.into_iter().collect()
    }

    /// All families at one honest point.
    pub fn attack(&self, w: &[Fr], amt: &Amount, r: &mut Rng, t: &mut Tally) -> Option<Forgery> {
        let bools = self.bools();
        let isb: std::collections::HashSet<usize> = bools.iter().cloned().collect();
        let mut seeds = Pins::new();
        for &s in &self.seeds {
            seeds.insert(s, w[s]);
        }
        let mut base = seeds.clone();
        for &b in &bools {
            base.insert(b, w[b]);
        }
        macro_rules! go {
            ($fam:expr, $what:expr, $pins:expr, $wild:expr) => {
                if let Some(f) = self.fire($fam, $what, &$pins, w, $wild, r, t) {
                    return Some(f);
                }
            };
        }
        if amt.whole && !amt.brief {
        // the honest values themselves, outputs left open
        go!("honest bits, outputs open", String::new(), base, false);
        go!("honest bits, outputs open, open values random", String::new(), base, true);
        for k in 0..amt.wild {
            go!("only the inputs honest, all open values random", format!("{}", k), seeds, true);
            let mut p = seeds.clone();
            for &b in &bools {
                if !r.one_in(4) {
                    p.insert(b, w[b]);
                }
            }
            go!("some bits random", format!("{}", k), p, true);
        }
        // public outputs falsified
        for &o in &self.outputs {
            for (n, x) in [("+1", w[o] + Fr::one()), ("random", crate::fr(r)), ("zero", Fr::zero()), ("negated", -w[o])] {
                if x == w[o] {
                    continue;
                }
                let mut p = base.clone();
                for &q in &self.outputs {
                    p.insert(q, w[q]);
                }
                p.insert(o, x);
                go!("false public output", format!("output {} {}", o, n), p, false);
                let mut p = seeds.clone();
                for &q in &self.outputs {
                    p.insert(q, w[q]);
                }
                p.insert(o, x);
                go!("false public output, bits open", format!("output {} {}", o, n), p, false);
            }
        }
        // another public input than the one the private values were made for
        for &s in self.seeds.iter().filter(|&&s| s < self.cs.inst) {
            for wild in [false, true] {
                let mut p = base.clone();
                p.insert(s, crate::fr(r));
                for &q in &self.outputs {
                    p.insert(q, w[q]);
                }
                go!("false public input", format!("input {}", s), p, wild);
                let mut p = base.clone();
                p.insert(s, w[s] + Fr::one());
                go!("false public input, outputs open", format!("input {}", s), p, wild);
            }
        }
        }
        // bits flipped, alone and together with their copies
        let off = amt.off;
        let mut classes: BTreeMap<Vec<bool>, Vec<usize>> = BTreeMap::new();
        for &b in &bools {
            let sig: Vec<bool> = self.roles.runs.iter().map(|z| z[b].is_one()).collect();
            if sig.iter().any(|x| *x) && sig.iter().any(|x| !*x) {
                classes.entry(sig).or_default().push(b);
            }
        }
        let flip = |p: &mut Pins, b: usize| {
            let x = p[&b];
            p.insert(b, Fr::one() - x);
        };
        for (i, &b) in bools.iter().enumerate() {
            if i % amt.stride != off {
                continue;
            }
            let mut p = base.clone();
            flip(&mut p, b);
            go!("one bit flipped", format!("column {}", b), p, false);
        }
        for (i, c) in classes.values().enumerate() {
            if c.len() < 2 || i % amt.stride != off {
                continue;
            }
            let mut p = base.clone();
            for &b in c {
                flip(&mut p, b);
            }
            go!("bit and its copies flipped", format!("columns {:?}", c), p, false);
        }
        // whole values replaced
        for (g, (cols, low)) in self.bits.iter().enumerate() {
            let bit = |x: &num_bigint::BigUint, i: usize| if x.bit(i as u64) { Fr::one() } else { Fr::zero() };
            let y = (0..cols.len()).fold(num_bigint::BigUint::from(0u8), |mut s, i| {
                if let Some(c) = cols[i] {
                    s.set_bit(i as u64, w[c].is_one());
                }
                s
            });
            let m = crate::modulus();
            let top = num_bigint::BigUint::from(1u8) << cols.len();
            let nl = self.low_width.min(cols.len()).max(1);
            let lowmask = (num_bigint::BigUint::from(1u8) << nl) - 1u8;
            let high = &y - (&y & &lowmask);
            let mut pats = vec![
                ("low bits zero", high.clone()),
                ("low bits one", &high + &lowmask),
                ("low bits random", &high + num_bigint::BigUint::from_bytes_le(&r.bytes(8)) % (&lowmask + 1u8)),
                ("all bits zero", num_bigint::BigUint::from(0u8)),
                ("all bits one", &top - 1u8),
                ("value 1", num_bigint::BigUint::from(1u8)),
                ("modulus", m.clone()),
                ("modulus - 1", &m - 1u8),
                ("random value", num_bigint::BigUint::from_bytes_le(&r.bytes(32)) % &m),
                ("value + modulus", &y + &m),
                ("value + 2 modulus", &y + &m + &m),
            ];
            if y > num_bigint::BigUint::from(0u8) {
                pats.push(("negated", &m - &y));
            }
            if !amt.whole {
                pats.clear();
            }
            if amt.brief {
                pats.retain(|(n, _)| matches!(*n, "value + modulus" | "value + 2 modulus" | "low bits random"));
            }
            for (name, v) in pats {
                if v >= top || v == y {
                    continue;
                }
                for copies in 0..4 {
                    // 0: with the copies, 1: copies honest, 2: copies open, 3: copies spell what the output becomes
                    if copies > 0 && (low.is_empty() || amt.brief) {
                        continue;
                    }
                    let mut p = base.clone();
                    for (i, c) in cols.iter().enumerate() {
                        if let Some(c) = c {
                            p.insert(*c, bit(&v, i));
                        }
                    }
                    for (i, c) in low.iter().enumerate() {
                        if let Some(c) = c {
                            match copies {
                                0 => {
                                    p.insert(*c, bit(&v, i));
                                }
                                1 => {}
                                _ => {
                                    p.remove(c);
                                }
                            }
                        }
                    }
                    if copies == 3 {
                        let pv: Vec<(usize, Fr)> = p.iter().map(|(k, v)| (*k, *v)).collect();
                        let out = Solver::consequences(self.cs, &pv, true).and_then(|val| self.outputs.get(g).and_then(|o| val[*o]));
                        match out.map(|y| crate::to_big(&y)) {
                            Some(y) if y <= lowmask => {
                                for (i, c) in low.iter().enumerate() {
                                    if let Some(c) = c {
                                        p.insert(*c, bit(&y, i));
                                    }
                                }
                            }
                            _ => continue,
                        }
                    }
                    go!("all bits of a value replaced", format!("value {}: {}, copies {}", g, name, copies), p, false);
                    if copies == 0 && !amt.brief {
                        // seeds open as well: the attacker may look for other private inputs
                        let mut p = p.clone();
                        for &s in self.seeds.iter().filter(|&&s| s >= self.cs.inst) {
                            p.remove(&s);
                        }
                        go!("all bits of a value replaced, inputs open", format!("value {}: {}", g, name), p, false);
                    }
                }
            }
            // one bit left open, which has to absorb a flip of a low bit
            for (i, c) in cols.iter().chain(low.iter()).enumerate() {
                if i % amt.stride != off {
                    continue;
                }
                if let Some(c) = c {
                    for t in [0, nl - 1, r.below(nl)] {
                        for with_copy in [true, false] {
                            let mut p = base.clone();
                            if let Some(x) = cols[t] {
                                if x == *c {
                                    continue;
                                }
                                flip(&mut p, x);
                            }
                            if with_copy {
                                if let Some(Some(x)) = low.get(t) {
                                    if x == c {
                                        continue;
                                    }
                                    flip(&mut p, *x);
                                }
                            } else if low.is_empty() {
                                continue;
                            }
                            p.remove(c);
                            go!("low bit flipped, another bit open", format!("value {} bit {} open, bit {} flipped", g, i, t), p, false);
                        }
                    }
                    // out of range: low part pushed past its width
                    let mut p = base.clone();
                    p.insert(*c, w[*c] + Fr::from(2u64).pow([(nl as u64 + 300 - (i as u64 % 256)) % 300]));
                    for d in (nl..cols.len()).take(3) {
                        let mut p = p.clone();
                        if let Some(x) = cols[d] {
                            if x == *c {
                                continue;
                            }
                            flip(&mut p, x);
                        }
                        go!("bit not 0 or 1", format!("value {} bit {}", g, i), p, false);
                        if !low.is_empty() {
                            for x in low.iter().flatten() {
                                if x != c {
                                    p.remove(x);
                                }
                            }
                            go!("bit not 0 or 1", format!("value {} bit {}, copies open", g, i), p, false);
                        }
                    }
                }
            }
        }
        // any other private value wrong
        for v in 1..self.cs.vars {
            if v % amt.stride != off || seeds.contains_key(&v) {
                continue;
            }
            let alts: Vec<Fr> = if isb.contains(&v) { vec![Fr::from(2u64), crate::fr(r)] } else { vec![w[v] + Fr::one(), crate::fr(r), -w[v]] };
            for x in alts {
                if x == w[v] {
                    continue;
                }
                let mut p = base.clone();
                p.insert(v, x);
                go!("one private value wrong", format!("column {}", v), p, false);
                // the same, with the bits of whatever the decomposed values become
                if !isb.contains(&v) && !self.values.is_empty() {
                    let mut p = seeds.clone();
                    p.insert(v, x);
                    let pv: Vec<(usize, Fr)> = p.iter().map(|(k, v)| (*k, *v)).collect();
                    if let Some(val) = Solver::consequences(self.cs, &pv, false) {
                        let mut changed = false;
                        for (g, c) in self.values.iter().enumerate() {
                            if let Some(y) = c.and_then(|c| val[c]) {
                                changed |= c.map(|c| w[c] != y).unwrap_or(false);
                                let y = crate::to_big(&y);
                                let (cols, low) = &self.bits[g];
                                for (i, c) in cols.iter().enumerate().chain(low.iter().enumerate()) {
                                    if let Some(c) = c {
                                        p.entry(*c).or_insert(if y.bit(i as u64) { Fr::one() } else { Fr::zero() });
                                    }
                                }
                            }
                        }
                        if changed {
                            go!("one private value wrong, bits follow", format!("column {}", v), p, false);
                        }
                    }
                }
            }
        }
        None
    }
}

/// columns of the bits of a value known in every run
pub fn bit_columns(cs: &R1cs, roles: &Roles, values: &[Fr], width: usize, taken: &mut std::collections::HashSet<usize>) -> Vec<Option<usize>> {
    use ark_ff::{BigInteger, PrimeField};
    let st = cs.boolean();
    let bits: Vec<Vec<bool>> = values.iter().map(|v| v.into_repr().to_bits_le()).collect();
    (0..width)
        .map(|i| {
            let want: Vec<Fr> = bits.iter().map(|b| if i < b.len() && b[i] { Fr::one() } else { Fr::zero() }).collect();
            let constant = want.iter().all(|x| *x == want[0]);
            let fits = |v: usize| !taken.contains(&v) && roles.runs.iter().zip(&want).all(|(z, x)| z[v] == *x);
            let c = (1..cs.vars).find(|&v| st[v] && fits(v)).or_else(|| if constant { None } else { (1..cs.vars).find(|&v| fits(v)) });
            if let Some(v) = c {
                taken.insert(v);
            }
            c
        })
        .collect()
}
