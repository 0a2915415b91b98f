//! Runs checks and replays in a child process, so that code which aborts, overflows its stack or
//! eats all memory is reported like any other violation.

use crate::run::{self, Check};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, ExitStatus};

const MEMORY: u64 = 26 << 30;

fn child(args: &[String], progress: Option<&Path>, memory: u64) -> std::io::Result<ExitStatus> {
    let mut cmd = Command::new(std::env::current_exe()?);
    cmd.args(args).env("ALDRIN_SIM_CHILD", "1");
    if let Some(p) = progress {
        cmd.env("ALDRIN_SIM_PROGRESS", p);
    }
    unsafe {
        cmd.pre_exec(move || {
            let lim = libc::rlimit {
                rlim_cur: memory,
                rlim_max: memory,
            };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let core = libc::rlimit {
                rlim_cur: 0,
                rlim_max: 0,
            };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            Ok(())
        });
    }
    cmd.status()
}

fn died(status: ExitStatus) -> Option<String> {
    match status.code() {
        Some(101) => Some("panicked outside of the simulation".into()),
        Some(_) => None,
        None => Some(format!("was killed by signal {}", status.signal().unwrap_or(0))),
    }
}

pub fn check(check: &Check, tier: &str, seed: u64, root: &Path) -> i32 {
    let dir = std::env::temp_dir().join(format!("aldrin-sim-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let args = ["check", check.property, tier].map(String::from);
    let code = match child(&args, Some(&dir), MEMORY) {
        Ok(s) => match died(s) {
            None => s.code().unwrap_or(2),
            Some(how) => crashed(check, tier, seed, root, &dir, &how),
        },
        Err(e) => {
            eprintln!("cannot start the simulation: {e}");
            2
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}

/// Finds the run that killed the process.
fn crashed(check: &Check, tier: &str, seed: u64, root: &Path, dir: &Path, how: &str) -> i32 {
    println!("the simulation {how}; looking for the run that did it");
    let mut runs: Vec<(String, String)> = Vec::new();
    if let Ok(rd) = std::fs::read_dir(dir) {
        let mut files: Vec<PathBuf> = rd.flatten().map(|e| e.path()).collect();
        files.sort();
        for f in files {
            let text = std::fs::read_to_string(f).unwrap_or_default();
            let mut w = text.split_whitespace();
            if let (Some(h), Some(s)) = (w.next(), w.next()) {
                runs.push((h.into(), s.into()));
            }
        }
    }
    for (h, s) in runs {
        let args = ["seed", check.property, &h, &s, "quiet"].map(String::from);
        let Ok(status) = child(&args, None, 4 << 30) else {
            continue;
        };
        let Some(how) = died(status) else { continue };
        let path = run::write_crash(root, check, &h, &s, &how);
        println!("violation class=crash seed={s} : the process {how}");
        println!("VIOLATION property={} replay={}", check.property, path.display());
        run::crash_evidence(root, check, tier, seed);
        return 1;
    }
    eprintln!("the simulation {how}, and no single run does that again");
    2
}

pub fn replay(args: &[String]) -> i32 {
    match child(args, None, 4 << 30) {
        Ok(s) => match died(s) {
            None => s.code().unwrap_or(2),
            Some(how) => {
                let path = args.get(1).cloned().unwrap_or_default();
                let property = std::fs::read_to_string(&path)
                    .unwrap_or_default()
                    .lines()
                    .find_map(|l| l.strip_prefix("property ").map(String::from))
                    .unwrap_or_default();
                println!("reproduced: the process {how}");
                println!("VIOLATION property={property} replay={path}");
                1
            }
        },
        Err(e) => {
            eprintln!("cannot start the replay: {e}");
            2
        }
    }
}
