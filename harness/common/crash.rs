//! Runs an operation in a process of its own that dies in the middle of it.
//! Included, after `faults`, by the C29 monitors only.
use crate::faults::{self, Plan};
use std::process::{Command, Stdio};

/// In the child: arm the plan from the environment, run the operation, report.
pub fn child(f: impl FnOnce()) -> ! {
    let get = |n: &str| std::env::var(n).unwrap().parse::<u64>().unwrap();
    let plan = Plan::Crash { at: get("VERIF_CRASH_AT"), part: get("VERIF_CRASH_PART") as u8 };
    let ((), seen) = faults::with(plan, f);
    println!("CHANGES {}", seen.calls);
    std::process::exit(0);
}

/// In the parent: Some(changes) if the operation completed, None if it died.
/// `job` and `dir` reach the child as VERIF_CHILD and VERIF_DIR.
pub fn run(job: &str, dir: &str, at: u64, part: u8) -> Result<Option<u64>, String> {
    let o = Command::new(std::env::current_exe().unwrap())
        .env("VERIF_CHILD", job)
        .env("VERIF_DIR", dir)
        .env("VERIF_CRASH_AT", at.to_string())
        .env("VERIF_CRASH_PART", part.to_string())
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .output()
        .map_err(|e| e.to_string())?;
    use std::os::unix::process::ExitStatusExt;
    if o.status.signal() == Some(9) {
        return Ok(None);
    }
    let text = String::from_utf8_lossy(&o.stdout).into_owned();
    match text.lines().rev().find_map(|l| l.strip_prefix("CHANGES ")).and_then(|x| x.parse().ok()) {
        Some(n) if o.status.success() => Ok(Some(n)),
        _ => Err(format!("{:?} {}", o.status, String::from_utf8_lossy(&o.stderr))),
    }
}

/// The points to try: all when few, else the first, the last and some in between.
pub fn points(r: &mut common::Rng, total: u64, most: usize) -> Vec<(u64, u8)> {
    let mut v = vec![];
    if total as usize * 2 <= most {
        for at in 0..total {
            v.push((at, 0));
            v.push((at, *r.pick(&[1u8, 4, 7])));
        }
    } else {
        for at in [0, 1, total - 2, total - 1] {
            v.push((at, *r.pick(&[0u8, 1, 4, 7])));
        }
        while v.len() < most {
            v.push((r.below(total as usize) as u64, *r.pick(&[0u8, 0, 1, 4, 7])));
        }
    }
    v
}
