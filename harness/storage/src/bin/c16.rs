//! C16: dependency selection.
use common::*;
use proof_of_storage::proof_of_storage::depend::*;
use proof_of_storage::proof_of_storage::prover::{create_long_depend, create_short_depend};
use storage_mon::*;

fn long_ok(m: &Mon, what: &str, v: &[usize], index: usize, count: usize) {
    m.check(v.iter().all(|&x| x < index), || format!("{}: names a block that is not earlier than {}: {:?}", what, index, v));
    m.check(v.len() <= count, || format!("{}: {} dependencies instead of at most {}", what, v.len(), count));
}

fn short_ok(m: &Mon, what: &str, v: &[usize], num: usize, index: usize, count: usize) {
    m.check(v.iter().all(|&x| x < num && x != index), || format!("{}: names a unit outside 0..{} or {} itself: {:?}", what, num, index, v));
    m.check(v.len() <= count, || format!("{}: {} dependencies instead of at most {}", what, v.len(), count));
}

fn ascending(v: &[usize]) -> bool {
    v.windows(2).all(|w| w[0] < w[1])
}

fn main() {
    let m = Mon::new("C16", "", "exploration", "every index below 400 with every count below 24 and large counts, exhaustive small unit counts, random large indices, counts and seeds around the one-, two- and three-byte index widths; distinct by (selection, arguments)");
    // deterministic long modes, exhaustive in the small
    let counts: Vec<usize> = (0..24).chain([31, 32, 33, 62, 63, 64, 65, 100, 200]).collect();
    let top = m.amount(1600, 6000);
    let long_case = |index: usize, count: usize| {
        for mode in 0..=5usize {
            m.case(format!("long_depend(index {}, count {}, mode {})", index, count, mode));
            let v = m.must("long_depend", || long_depend(index, count, mode));
            let at_most = if mode == 3 { index / 10 } else { count };
            long_ok(m, "long_depend", &v, index, at_most);
            let e = ref_long(index, count, mode);
            m.check(v == e, || format!("long_depend(index {}, count {}, mode {}) = {:?}, the rule gives {:?}", index, count, mode, v, e));
            m.distinct(&("l", index, count, mode));
        }
        let a = m.must("long_mode_1", || long_mode_1(index, count));
        let b = m.must("long_mode_2", || long_mode_2(index, count));
        let c = m.must("long_mode_3", || long_mode_3(index));
        m.check(a == ref_long(index, count, 1) && b == ref_long(index, count, 2) && c == ref_long(index, 0, 3), || format!("long modes at index {} count {}: {:?} {:?} {:?}", index, count, a, b, c));
        m.count("long selections", 9);
    };
    for index in 0..top {
        for &count in &counts {
            long_case(index, count);
        }
    }
    let mut r = m.rng(1);
    let big = |r: &mut Rng| -> usize {
        match r.below(6) {
            0 => (1usize << r.below(63)).wrapping_add(r.below(5)).wrapping_sub(2).min(usize::MAX / 4),
            1 => usize::MAX / 4 - r.below(3),
            2 => r.range(1, 70_000),
            3 => r.range(1, 1 << 20),
            _ => (r.u64() as usize) >> (2 + r.below(60)),
        }
    };
    for _ in 0..m.amount(24000, 200000) {
        let i = big(&mut r);
        let c = if r.coin() { r.below(80) } else { r.below(2000) };
        long_case(i, c);
    }
    // deterministic short modes
    let short_case = |num: usize, index: usize, count: usize| {
        for mode in 0..=4usize {
            m.case(format!("short_depend(num {}, index {}, count {}, mode {})", num, index, count, mode));
            let v = m.must("short_depend", || short_depend(num, index, count, mode));
            short_ok(m, "short_depend", &v, num, index, count);
            let mut u = v.clone();
            u.sort();
            u.dedup();
            m.check(u.len() == v.len(), || format!("short_depend repeats a unit: {:?}", v));
            let e = ref_short(num, index, count, mode);
            m.check(v == e, || format!("short_depend(num {}, index {}, count {}, mode {}) = {:?}, the rule gives {:?}", num, index, count, mode, v, e));
            m.distinct(&("s", num, index, count, mode));
        }
        let a = m.must("short_mode_1", || short_mode_1(num, index, count));
        let b = m.must("short_mode_2", || short_mode_2(num, index, count));
        m.check(a == ref_short(num, index, count, 1) && b == ref_short(num, index, count, 2), || format!("short modes at num {} index {} count {}: {:?} {:?}", num, index, count, a, b));
        m.count("short selections", 7);
    };
    for num in 1..=m.amount(48, 120) {
        for index in 0..num {
            for count in [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 10, 15, 16, 17, 40, 64, 65, 130] {
                short_case(num, index, count);
            }
        }
    }
    for _ in 0..m.amount(16000, 120000) {
        let num = big(&mut r).max(1);
        let index = match r.below(4) {
            0 => 0,
            1 => num - 1,
            _ => r.below(num),
        };
        // mode 1 walks until it has `count`, so keep count moderate
        let c = r.below(90);
        short_case(num, index, c);
    }
    // random modes
    let rand_case = |r: &mut Rng, num: usize, index: usize, count: usize| {
        let n = *r.pick(&[0usize, 1, 16, 31, 32, 32, 33, 64, 200]);
        let data = r.content(n).0;
        m.case(format!("long_mode_random(num {}, {} bytes {}, index {}, count {})", num, n, hex(&data), index, count));
        let v = m.must("long_mode_random", || long_mode_random(num, &data, index, count));
        long_ok(m, "long_mode_random", &v, index, count);
        m.check(ascending(&v), || format!("not sorted and free of duplicates: {:?}", v));
        let e = ref_long_random(num, &data, index, count);
        m.check(v == e, || format!("{:?}, the rule gives {:?}", v, e));
        let again = m.must("long_mode_random", || long_mode_random(num, &data, index, count));
        m.check(v == again, || format!("not a function of its arguments: {:?} then {:?}", v, again));
        m.distinct(&("lr", num, &data, index, count));
        if index < num {
            m.case(format!("short_depend_random(num {}, {} bytes {}, index {}, count {})", num, n, hex(&data), index, count));
            let v = m.must("short_depend_random", || short_depend_random(num, &data, index, count));
            short_ok(m, "short_depend_random", &v, num, index, count);
            m.check(ascending(&v), || format!("not sorted and free of duplicates: {:?}", v));
            let e = ref_short_random(num, &data, index, count);
            m.check(v == e, || format!("{:?}, the rule gives {:?}", v, e));
            let again = m.must("short_depend_random", || short_depend_random(num, &data, index, count));
            m.check(v == again, || format!("not a function of its arguments: {:?} then {:?}", v, again));
            m.distinct(&("sr", num, &data, index, count));
        }
        m.count("random selections", 2);
    };
    for num in 1..40usize {
        for index in 0..num {
            for count in [0usize, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64] {
                rand_case(&mut r, num, index, count);
            }
        }
    }
    for _ in 0..m.amount(160000, 1000000) {
        let num = match r.below(8) {
            0 => r.range(254, 258),
            1 => r.range(65_534, 65_538),
            2 => r.range(1, 256),
            3 => r.range(257, 65_536),
            4 => r.range(65_537, 1 << 24),
            5 => r.range(1, 1 << 40),
            _ => r.range(1, 3000),
        };
        let index = match r.below(5) {
            0 => 0,
            1 => num - 1,
            2 => 1.min(num - 1),
            _ => r.below(num),
        };
        let count = if r.one_in(20) { r.below(3000) } else { r.below(70) };
        rand_case(&mut r, num, index, count);
    }
    // tables
    for num in [0usize, 1, 2, 3, 17, 64, 300] {
        for count in [0usize, 1, 5, 20, 64, 100] {
            for mode in 0..=4 {
                m.case(format!("dependency tables of {} items, count {}, mode {}", num, count, mode));
                let l = m.must("create_long_depend", || create_long_depend(num, count, mode));
                let s = m.must("create_short_depend", || create_short_depend(num, count, mode));
                let el: Vec<Vec<usize>> = (0..num).map(|i| ref_long(i, count, mode)).collect();
                let es: Vec<Vec<usize>> = (0..num).map(|i| ref_short(num, i, count, mode)).collect();
                m.check(l == el, || "the long table is not the rule applied to every block".into());
                m.check(s == es, || "the short table is not the rule applied to every unit".into());
                m.count("tables", 2);
            }
        }
    }
    m.sample(format!("long_mode_2(100, 9) = {:?}; short_mode_2(100, 50, 9) = {:?}", long_mode_2(100, 9), short_mode_2(100, 50, 9)));
    m.finish();
}
