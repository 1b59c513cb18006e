//! Shared by all monitors: seeded randomness, panic capture, scratch
//! directories, watchdog, verdict and evidence.
pub mod jitter;

use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::os::raw::c_int;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

extern "C" {
    fn dup(fd: c_int) -> c_int;
    fn dup2(a: c_int, b: c_int) -> c_int;
    fn write(fd: c_int, buf: *const u8, n: usize) -> isize;
}

// ---------------------------------------------------------------- randomness

/// xoshiro256** seeded through splitmix64.
#[derive(Clone)]
pub struct Rng([u64; 4]);

fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64, stream: u64) -> Rng {
        let mut s = seed.wrapping_mul(0xD6E8FEB86659FD93) ^ stream.wrapping_mul(0xA0761D6478BD642F) ^ 0x5851F42D4C957F2D;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        (((self.u64() as u128) * (n as u128)) >> 64) as usize
    }
    /// uniform in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn coin(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    /// bytes of a random flavour: random, all zero, all 0xff, sparse, repeating, with holes
    pub fn content(&mut self, n: usize) -> (Vec<u8>, &'static str) {
        match self.below(11) {
            8 | 9 if n > 0 => {
                // whole regions of one value, or copies of another region
                let mut v = self.bytes(n);
                for _ in 0..self.range(1, 4) {
                    let len = self.range(1, (n / 2).max(1));
                    let at = self.below(n - len + 1);
                    if self.below(3) == 0 {
                        let from = self.below(n - len + 1);
                        v.copy_within(from..from + len, at);
                    } else {
                        let b = *self.pick(&[0u8, 0, 0xff, b' ']);
                        v[at..at + len].fill(b);
                    }
                }
                (v, "holes and copies")
            }
            0 => (vec![0u8; n], "zeros"),
            1 => (vec![0xffu8; n], "ones"),
            2 => {
                let mut v = vec![0u8; n];
                for _ in 0..1 + n / 50 {
                    if n > 0 {
                        let i = self.below(n);
                        v[i] = self.u64() as u8;
                    }
                }
                (v, "sparse")
            }
            3 => {
                let p = self.range(1, 9);
                let b = self.bytes(p);
                ((0..n).map(|i| b[i % p]).collect(), "periodic")
            }
            _ => (self.bytes(n), "random"),
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

pub fn hash64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

// ------------------------------------------------------------- panic capture

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
static QUIET: AtomicBool = AtomicBool::new(true);

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{}", info);
        if !QUIET.load(Ordering::Relaxed) {
            eprintln!("{}", msg);
        }
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = msg;
        }
    }));
}

/// Run the code under test; a panic becomes Err(message).
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default()),
    }
}

// ------------------------------------------------------------------- scratch

pub struct Scratch(PathBuf);

impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        let base = std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| "/tmp".to_string());
        let mut n = 0;
        loop {
            let p = Path::new(&base).join(format!("vm-{}-{}-{}", tag, std::process::id(), n));
            match std::fs::create_dir(&p) {
                Ok(()) => return Scratch(p),
                Err(_) if n < 1000 => n += 1,
                Err(e) => panic!("cannot create scratch directory {:?}: {}", p, e),
            }
        }
    }
    pub fn path(&self, name: &str) -> String {
        self.0.join(name).to_str().unwrap().to_string()
    }
    pub fn dir(&self) -> &Path {
        &self.0
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

// ------------------------------------------------------------------- monitor

thread_local! {
    static CASE: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

static OUT_FD: AtomicI32 = AtomicI32::new(1);
static CASE_STARTED_MS: AtomicU64 = AtomicU64::new(0);
static CASE_LIMIT_MS: AtomicU64 = AtomicU64::new(0);

struct Inner {
    evaluations: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<String>,
    assumptions: Vec<String>,
    case: String,
}

pub struct Mon {
    pub id: String,
    pub part: String,
    pub tier: String,
    pub seed: u64,
    level: String,
    rule: String,
    start: Instant,
    inner: Mutex<Inner>,
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn say(line: &str) {
    let fd = OUT_FD.load(Ordering::SeqCst);
    let s = format!("{}\n", line);
    let b = s.as_bytes();
    let mut off = 0;
    while off < b.len() {
        let n = unsafe { write(fd, b[off..].as_ptr(), b.len() - off) };
        if n <= 0 {
            break;
        }
        off += n as usize;
    }
}

impl Mon {
    /// `part` distinguishes several binaries serving one property.
    pub fn new(id: &str, part: &str, level: &str, rule: &str) -> &'static Mon {
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        // What the code under test prints is not ours: keep the real stdout for
        // the verdict, send the rest away.
        unsafe {
            let keep = dup(1);
            OUT_FD.store(keep, Ordering::SeqCst);
            let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
            use std::os::unix::io::AsRawFd;
            dup2(null.as_raw_fd(), 1);
        }
        if std::env::var("VERIF_VERBOSE").is_ok() {
            QUIET.store(false, Ordering::Relaxed);
        }
        install_hook();
        let m: &'static Mon = Box::leak(Box::new(Mon {
            id: id.into(),
            part: part.into(),
            tier,
            seed,
            level: level.into(),
            rule: rule.into(),
            start: Instant::now(),
            inner: Mutex::new(Inner {
                evaluations: 0,
                distinct: HashSet::new(),
                counters: BTreeMap::new(),
                samples: vec![],
                assumptions: vec![],
                case: String::new(),
            }),
        }));
        CASE_LIMIT_MS.store(400_000, Ordering::SeqCst);
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let t0 = CASE_STARTED_MS.load(Ordering::SeqCst);
            let lim = CASE_LIMIT_MS.load(Ordering::SeqCst);
            if t0 > 0 && m.start.elapsed().as_millis() as u64 > t0 + lim {
                m.violate(&format!("an operation did not finish within {} s", lim / 1000));
            }
        });
        m
    }

    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// quick or thorough amount
    pub fn amount(&self, q: usize, t: usize) -> usize {
        if self.thorough() {
            t
        } else {
            q
        }
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    /// Exploring further would run into the time limit of the check.
    pub fn late(&self) -> bool {
        let late = self.elapsed() > if self.thorough() { 4500.0 } else { 400.0 };
        if late {
            self.count("points left out for time", 1);
        }
        late
    }
    pub fn rng(&self, stream: u64) -> Rng {
        Rng::new(self.seed, stream)
    }

    /// Time one case may take before it counts as hanging.
    pub fn case_limit(&self, secs: u64) {
        CASE_LIMIT_MS.store(secs * 1000, Ordering::SeqCst);
    }

    /// Begin a case: counts an evaluation, restarts the watchdog.
    pub fn case(&self, desc: impl Into<String>) {
        let desc: String = desc.into();
        CASE.with(|c| *c.borrow_mut() = desc.clone());
        CASE_STARTED_MS.store(self.start.elapsed().as_millis().max(1) as u64, Ordering::SeqCst);
        let mut g = self.inner.lock().unwrap();
        g.evaluations += 1;
        g.case = desc;
    }
    /// More evaluations within the current case.
    pub fn eval(&self, n: u64) {
        self.inner.lock().unwrap().evaluations += n;
    }
    pub fn distinct<T: Hash + ?Sized>(&self, t: &T) {
        let h = hash64(t);
        self.inner.lock().unwrap().distinct.insert(h);
    }
    pub fn count(&self, name: &str, n: u64) {
        *self.inner.lock().unwrap().counters.entry(name.into()).or_insert(0) += n;
    }
    pub fn counter(&self, name: &str) -> u64 {
        *self.inner.lock().unwrap().counters.get(name).unwrap_or(&0)
    }
    pub fn sample(&self, s: impl Into<String>) {
        let mut g = self.inner.lock().unwrap();
        if g.samples.len() < 8 {
            let mut s: String = s.into();
            if s.len() > 600 {
                let mut k = 600;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            g.samples.push(s);
        }
    }
    pub fn assume(&self, s: &str) {
        self.inner.lock().unwrap().assumptions.push(s.into());
    }

    fn evidence(&self, violations: u64) {
        let dir = std::env::var("VERIF_EVIDENCE").unwrap_or_else(|_| "/verif/evidence".into());
        let _ = std::fs::create_dir_all(&dir);
        let g = self.inner.lock().unwrap();
        let mut s = String::from("{\n");
        let _ = writeln!(s, " \"property\": {},", jstr(&self.id));
        let _ = writeln!(s, " \"tier\": {},", jstr(&self.tier));
        let _ = writeln!(s, " \"seed\": {},", self.seed);
        let _ = writeln!(s, " \"level\": {},", jstr(&self.level));
        let _ = writeln!(s, " \"coverage\": {{");
        let _ = writeln!(s, "  \"evaluations\": {},", g.evaluations);
        let _ = writeln!(s, "  \"distinct_nontrivial\": {},", g.distinct.len());
        let _ = writeln!(s, "  \"rule\": {},", jstr(&self.rule));
        let _ = writeln!(s, "  \"observed\": {{");
        let n = g.counters.len();
        for (i, (k, v)) in g.counters.iter().enumerate() {
            let _ = writeln!(s, "   {}: {}{}", jstr(k), v, if i + 1 < n { "," } else { "" });
        }
        let _ = writeln!(s, "  }},");
        let smp: Vec<String> = g.samples.iter().map(|x| jstr(x)).collect();
        let _ = writeln!(s, "  \"samples\": [{}]", smp.join(", "));
        let _ = writeln!(s, " }},");
        let asm: Vec<String> = g.assumptions.iter().map(|x| jstr(x)).collect();
        let _ = writeln!(s, " \"assumptions\": [{}],", asm.join(", "));
        let _ = writeln!(s, " \"wall_s\": {:.3},", self.start.elapsed().as_secs_f64());
        let _ = writeln!(s, " \"violations\": {}", violations);
        s.push_str("}\n");
        let name = if self.part.is_empty() {
            format!("{}/{}.json", dir, self.id)
        } else {
            format!("{}/{}.{}.part.json", dir, self.id, self.part)
        };
        let _ = std::fs::File::create(name).and_then(|mut f| f.write_all(s.as_bytes()));
    }

    pub fn violate(&self, msg: &str) -> ! {
        // the first violation ends the run; others wait for that
        static FIRST: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(true);
        if !FIRST.swap(false, std::sync::atomic::Ordering::SeqCst) {
            loop {
                std::thread::park();
            }
        }
        let own = CASE.with(|c| c.borrow().clone());
        let case = if !own.is_empty() { own } else { match self.inner.try_lock() {
            Ok(g) => g.case.clone(),
            Err(_) => String::from("?"),
        } };
        let dir = std::env::var("VERIF_EVIDENCE").unwrap_or_else(|_| "/verif/evidence".into());
        let rdir = format!("{}/replay", dir);
        let _ = std::fs::create_dir_all(&rdir);
        let path = format!("{}/{}{}{}.json", rdir, self.id, if self.part.is_empty() { "" } else { "-" }, self.part);
        let body = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"part\": {},\n \"case\": {},\n \"failure\": {},\n \"again\": {}\n}}\n",
            jstr(&self.id),
            jstr(&self.tier),
            self.seed,
            jstr(&self.part),
            jstr(&case),
            jstr(msg),
            jstr(&format!("VERIF_SEED={} bash /verif/check.sh {} {}", self.seed, self.id, self.tier))
        );
        let _ = std::fs::write(&path, body);
        say(&format!("case: {}", case));
        say(&format!("failure: {}", msg));
        say(&format!("VIOLATION property={} replay={}", self.id, path));
        self.evidence(1);
        // scratch directories live under VERIF_SCRATCH, which the driver removes
        std::process::exit(1);
    }

    pub fn check(&self, ok: bool, msg: impl FnOnce() -> String) {
        if !ok {
            let m = msg();
            self.violate(&m);
        }
    }

    /// The code under test must not panic here.
    pub fn must<T>(&self, what: &str, f: impl FnOnce() -> T) -> T {
        match catch(f) {
            Ok(v) => v,
            Err(e) => self.violate(&format!("{}: panicked: {}", what, e)),
        }
    }

    pub fn finish(&self) -> ! {
        self.evidence(0);
        say(&format!("{}{}{}: held ({:.1} s)", self.id, if self.part.is_empty() { "" } else { " " }, self.part, self.elapsed()));
        std::process::exit(0);
    }
}

/// Run `n` jobs on up to `threads` threads; job gets its index.
pub fn parallel<F: Fn(usize) + Sync>(n: usize, threads: usize, f: F) {
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        let mut hs = vec![];
        for _ in 0..threads.max(1).min(n.max(1)) {
            hs.push(s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= n {
                    break;
                }
                f(i);
            }));
        }
        for h in hs {
            if h.join().is_err() {
                // a panic of the monitor itself: not a verdict
                eprintln!("monitor panicked: {}", LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default());
                std::process::exit(3);
            }
        }
    });
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(64) {
        let _ = write!(s, "{:02x}", x);
    }
    if b.len() > 64 {
        s.push_str("..");
    }
    s
}

pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    if a.len() != b.len() {
        return format!("lengths {} and {}", a.len(), b.len());
    }
    match (0..a.len()).find(|&i| a[i] != b[i]) {
        Some(i) => format!("first difference at byte {} of {} ({:#04x} instead of {:#04x})", i, a.len(), a[i], b[i]),
        None => "equal".into(),
    }
}

/// Chi-square against the uniform distribution, with a bound no honest
/// generator reaches (far beyond 1e-15); None when within the bound.
pub fn far_from_uniform(counts: &[u64]) -> Option<String> {
    let k = counts.len();
    if k < 2 {
        return None;
    }
    let total: u64 = counts.iter().sum();
    let e = total as f64 / k as f64;
    let chi: f64 = counts.iter().map(|&c| (c as f64 - e) * (c as f64 - e) / e).sum();
    let dof = (k - 1) as f64;
    let bound = dof + 12.0 * (2.0 * dof).sqrt() + 150.0;
    if chi > bound {
        let (mi, mv) = counts.iter().enumerate().min_by_key(|x| x.1).unwrap();
        let (ma, mav) = counts.iter().enumerate().max_by_key(|x| x.1).unwrap();
        Some(format!("chi-square {:.0} with {} degrees of freedom (bound {:.0}); value {} drawn {} times, value {} drawn {} times, mean {:.1}", chi, dof, bound, mi, mv, ma, mav, e))
    } else {
        None
    }
}

/// Everything below a directory: relative path -> (mode, content).
pub fn snapshot(dir: &Path) -> BTreeMap<String, (u32, Vec<u8>)> {
    use std::os::unix::fs::PermissionsExt;
    fn walk(base: &Path, d: &Path, out: &mut BTreeMap<String, (u32, Vec<u8>)>) {
        for e in std::fs::read_dir(d).unwrap() {
            let e = e.unwrap();
            let p = e.path();
            let name = p.strip_prefix(base).unwrap().to_string_lossy().to_string();
            let md = std::fs::symlink_metadata(&p).unwrap();
            if md.is_dir() {
                out.insert(name, (md.permissions().mode(), vec![]));
                walk(base, &p, out);
            } else {
                out.insert(name, (md.permissions().mode(), std::fs::read(&p).unwrap_or_default()));
            }
        }
    }
    let mut out = BTreeMap::new();
    walk(dir, dir, &mut out);
    out
}

/// What differs between two snapshots, except for the named entries.
pub fn changes(a: &BTreeMap<String, (u32, Vec<u8>)>, b: &BTreeMap<String, (u32, Vec<u8>)>, may: &[&str]) -> Vec<String> {
    let mut out = vec![];
    for (k, v) in a {
        if may.contains(&k.as_str()) {
            continue;
        }
        match b.get(k) {
            None => out.push(format!("{} disappeared", k)),
            Some(w) if w.1 != v.1 => out.push(format!("{} changed: {}", k, first_diff(&w.1, &v.1))),
            Some(w) if w.0 != v.0 => out.push(format!("{} changed its mode", k)),
            _ => {}
        }
    }
    for k in b.keys() {
        if !a.contains_key(k) && !may.contains(&k.as_str()) {
            out.push(format!("{} appeared", k));
        }
    }
    out
}

/// Re-run this program `n` times at once as a child that prints lines
/// "name hex" on its standard output; returns the lines of each child.
pub fn children(n: usize, job: &str) -> Vec<Vec<(String, String)>> {
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().unwrap();
    let hs: Vec<_> = (0..n)
        .map(|_| Command::new(&exe).env("VERIF_CHILD", job).stdout(Stdio::piped()).stderr(Stdio::null()).stdin(Stdio::null()).spawn().unwrap())
        .collect();
    hs.into_iter()
        .map(|h| {
            let o = h.wait_with_output().unwrap();
            String::from_utf8_lossy(&o.stdout)
                .lines()
                .filter_map(|l| l.strip_prefix("CHILD ").and_then(|l| l.split_once(' ')).map(|(a, b)| (a.to_string(), b.to_string())))
                .collect()
        })
        .collect()
}

/// The job a parent asked this process to do, if it is a child.
pub fn child_job() -> Option<String> {
    std::env::var("VERIF_CHILD").ok()
}

pub fn hex_all(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// Operations running at the same time: who overlapped whom.
pub struct Overlaps {
    active: Mutex<(Vec<(u64, String)>, u64, BTreeMap<(String, String), u64>)>,
}

impl Overlaps {
    pub fn new() -> Overlaps {
        Overlaps { active: Mutex::new((vec![], 0, BTreeMap::new())) }
    }
    pub fn run<T>(&self, kind: &str, f: impl FnOnce() -> T) -> T {
        let id = {
            let mut g = self.active.lock().unwrap();
            g.1 += 1;
            let id = g.1;
            let others: Vec<String> = g.0.iter().map(|x| x.1.clone()).collect();
            for o in others {
                let k = if o.as_str() < kind { (o, kind.to_string()) } else { (kind.to_string(), o) };
                *g.2.entry(k).or_insert(0) += 1;
            }
            g.0.push((id, kind.to_string()));
            id
        };
        let v = f();
        self.active.lock().unwrap().0.retain(|x| x.0 != id);
        v
    }
    /// (overlapping pairs, distinct pairs of kinds)
    pub fn seen(&self) -> (u64, Vec<(String, String)>) {
        let g = self.active.lock().unwrap();
        (g.2.values().sum(), g.2.keys().cloned().collect())
    }
}

impl Default for Overlaps {
    fn default() -> Self {
        Self::new()
    }
}

/// The most memory the process has held, in bytes.
pub fn peak_memory() -> usize {
    let s = std::fs::read_to_string("/proc/self/status").unwrap_or_default();
    s.lines().find_map(|l| l.strip_prefix("VmHWM:")).and_then(|v| v.trim().trim_end_matches(" kB").trim().parse::<usize>().ok()).unwrap_or(0) << 10
}

/// Whether f is too slow, or holds too much memory, to be tried on files many times bigger.
pub fn costly(f: impl FnOnce()) -> bool {
    let (t, a) = (std::time::Instant::now(), peak_memory());
    f();
    t.elapsed().as_secs_f32() > 2.0 || peak_memory() > a + (96 << 20)
}
