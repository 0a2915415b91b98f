//! Batches of simulated runs, minimisation, replay files and evidence.

use crate::choice::{Choices, Span, Tape};
use crate::entropy;
use crate::exec;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Violation {
    pub class: String,
    pub props: Vec<&'static str>,
    pub msg: String,
}

#[derive(Debug, Default)]
pub struct Outcome {
    pub violation: Option<Violation>,
    pub cover: BTreeMap<&'static str, u64>,
    pub steps: u64,
    pub sched_hash: u64,
    pub states: BTreeSet<u64>,
    pub trace: Vec<String>,
    pub nontrivial: bool,
}

/// A harness: name plus one simulated run for a property.
#[derive(Clone, Copy)]
pub struct Harness {
    pub name: &'static str,
    pub run: fn(property: &str, c: &mut Choices, trace: bool) -> Outcome,
    /// Share of the runs, in percent.
    pub share: u32,
}

pub struct Check {
    pub property: &'static str,
    pub harnesses: Vec<Harness>,
    pub level: &'static str,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

const HANG: Duration = Duration::from_secs(40);

/// Executes one run in a fresh thread, so that all thread-local randomness starts over.
pub fn run_one(
    h: Harness,
    property: &str,
    seed: u64,
    tape: Option<Tape>,
    trace: bool,
) -> (Outcome, Tape) {
    let (tx, rx) = mpsc::channel();
    let property = property.to_string();
    let beat = Arc::new(AtomicU64::new(0));
    let pulse = beat.clone();
    let thread = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            entropy::set_seed(Some(seed ^ 0x0a1d_0000_0000_0000));
            exec::set_pulse(pulse);
            let mut c = match tape {
                Some(t) => Choices::replay(t),
                None => Choices::generate(seed),
            };
            let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                (h.run)(&property, &mut c, trace)
            }));
            let tape = c.tape;
            let _ = tx.send((out, tape));
        })
        .expect("thread");
    // A run hangs if it completes no poll at all for `HANG`; a long run on a slow machine is fine.
    let mut last = 0;
    let res = loop {
        match rx.recv_timeout(HANG) {
            Err(mpsc::RecvTimeoutError::Timeout) if beat.load(Ordering::Relaxed) != last => {
                last = beat.load(Ordering::Relaxed);
            }
            res => break res,
        }
    };
    match res {
        Ok((Ok(out), tape)) => {
            let _ = thread.join();
            (out, tape)
        }
        Ok((Err(e), _)) => {
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            eprintln!("harness error in seed {seed}: {msg}");
            std::process::exit(2);
        }
        Err(_) => (
            Outcome {
                violation: Some(hang()),
                ..Default::default()
            },
            Tape::default(),
        ),
    }
}

pub fn run_seed(base: u64, i: u64) -> u64 {
    let mut s = base.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ i;
    entropy::splitmix(&mut s)
}

fn concerns(v: &Violation, property: &str) -> bool {
    v.props.is_empty() || v.props.contains(&property)
}

struct Found {
    h: Harness,
    seed: u64,
    idx: u64,
    v: Violation,
    tape: Tape,
}

pub struct Findings(Vec<(String, String, String, String)>);

impl Findings {
    /// Lines `finding: property=<id> class=<class> match=<substring>| <what fails>`.
    pub fn load(path: &Path) -> Self {
        let mut out = Vec::new();
        for line in std::fs::read_to_string(path).unwrap_or_default().lines() {
            let Some(rest) = line.strip_prefix("finding: ") else {
                continue;
            };
            let Some((head, what)) = rest.split_once('|') else {
                continue;
            };
            let mut f = (String::new(), String::new(), String::new(), what.trim().to_string());
            if let Some((h, m)) = head.split_once(" match=") {
                f.2 = m.trim().to_string();
                for w in h.split_whitespace() {
                    if let Some(v) = w.strip_prefix("property=") {
                        f.0 = v.into();
                    } else if let Some(v) = w.strip_prefix("class=") {
                        f.1 = v.into();
                    }
                }
                out.push(f);
            }
        }
        Self(out)
    }

    fn known(&self, property: &str, v: &Violation) -> bool {
        self.0
            .iter()
            .any(|f| f.0 == property && f.1 == v.class && v.msg.contains(&f.2))
    }

    fn print(&self, property: &str) {
        for f in &self.0 {
            if f.0 == property {
                println!("KNOWN-FINDING: property={property} {}", f.3);
            }
        }
    }
}

fn hash_trace(t: &[String]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for l in t {
        for b in l.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x0100_0000_01b3);
        }
        h = (h ^ 10).wrapping_mul(0x0100_0000_01b3);
    }
    h
}

/// The same seed must give the same event log.
fn hang() -> Violation {
    Violation {
        class: "hang".into(),
        props: Vec::new(),
        msg: format!("a single poll did not return within {HANG:?}"),
    }
}

/// What came of running a few seeds several times.
#[derive(Default)]
pub struct Determinism {
    pub seeds: u64,
    pub differs: Option<String>,
    /// A run that hangs cannot be compared.
    hung: Option<(Harness, u64)>,
}

pub fn determinism(check: &Check, base: u64, n: u64) -> Determinism {
    let jobs: Vec<(Harness, u64)> = check
        .harnesses
        .iter()
        .flat_map(|h| (0..n).map(move |i| (*h, run_seed(base ^ 0xd37e, i))))
        .collect();
    let next = AtomicU64::new(0);
    let bad = Mutex::new(None);
    let hung = Mutex::new(None);
    std::thread::scope(|s| {
        for _ in 0..workers() {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed) as usize;
                let Some(&(h, seed)) = jobs.get(i) else { return };
                if hung.lock().unwrap().is_some() {
                    return;
                }
                let (a, ta) = run_one(h, check.property, seed, None, true);
                if a.violation.as_ref().is_some_and(|v| v.class == "hang") {
                    *hung.lock().unwrap() = Some((h, seed));
                    return;
                }
                let (b, tb) = run_one(h, check.property, seed, None, true);
                let (d, td) = run_one(h, check.property, seed, Some(ta.clone()), true);
                if ta != tb || hash_trace(&a.trace) != hash_trace(&b.trace) {
                    let at = a.trace.iter().zip(&b.trace).position(|(x, y)| x != y);
                    *bad.lock().unwrap() = Some(format!(
                        "{}: seed {seed:#x} ran differently twice (at {at:?}: {:?} / {:?})",
                        h.name,
                        at.map(|i| &a.trace[i]),
                        at.map(|i| &b.trace[i])
                    ));
                } else if ta != td || hash_trace(&a.trace) != hash_trace(&d.trace) {
                    let at = a.trace.iter().zip(&d.trace).position(|(x, y)| x != y);
                    *bad.lock().unwrap() = Some(format!(
                        "{}: seed {seed:#x} replays differently (at {at:?}: {:?} / {:?})",
                        h.name,
                        at.map(|i| &a.trace[i]),
                        at.map(|i| &d.trace[i])
                    ));
                }
            });
        }
    });
    Determinism {
        seeds: jobs.len() as u64,
        differs: bad.into_inner().unwrap(),
        hung: hung.into_inner().unwrap(),
    }
}

pub fn workers() -> usize {
    std::env::var("VERIF_WORKERS")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()))
}

pub struct Options {
    pub tier: String,
    pub seed: u64,
    pub budget: Duration,
    pub max_runs: u64,
    pub root: PathBuf,
    pub progress: Option<PathBuf>,
}

fn pick_harness(check: &Check, i: u64) -> Harness {
    let total: u64 = check.harnesses.iter().map(|h| h.share as u64).sum();
    let mut k = (i.wrapping_mul(7919)) % total;
    for h in &check.harnesses {
        if k < h.share as u64 {
            return *h;
        }
        k -= h.share as u64;
    }
    check.harnesses[0]
}

pub fn seed_of(check: &Check, base: u64, i: u64) -> (Harness, u64) {
    (pick_harness(check, i), run_seed(base, i))
}

/// Runs a check. Returns the process exit code.
pub fn check(check: &Check, o: &Options) -> i32 {
    let start = Instant::now();
    println!(
        "check property={} tier={} seed={} workers={}",
        check.property,
        o.tier,
        o.seed,
        workers()
    );
    let findings = Findings::load(&o.root.join("known-findings.txt"));
    findings.print(check.property);
    let det = determinism(check, o.seed, if o.tier == "quick" { 12 } else { 64 });
    if let Some(e) = &det.differs {
        println!("note: the code under test is not deterministic under the simulator: {e}");
    }
    let begin = start;
    let start = Instant::now();

    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Option<Found>> = Mutex::new(det.hung.map(|(h, seed)| Found {
        h,
        seed,
        idx: 0,
        v: hang(),
        tape: Tape::default(),
    }));
    if found.lock().unwrap().is_some() {
        stop.store(true, Ordering::Relaxed);
    }
    struct Acc {
        runs: u64,
        steps: u64,
        nontrivial: HashSet<u64>,
        all: HashSet<u64>,
        states: HashSet<u64>,
        cover: BTreeMap<String, u64>,
        per: BTreeMap<&'static str, u64>,
        known: u64,
        foreign: BTreeMap<String, u64>,
        samples: Vec<String>,
        /// Wall time and seed of the slowest run.
        slowest: (f64, u64),
    }
    let acc = Mutex::new(Acc {
        runs: 0,
        steps: 0,
        nontrivial: HashSet::new(),
        all: HashSet::new(),
        states: HashSet::new(),
        cover: BTreeMap::new(),
        per: BTreeMap::new(),
        known: 0,
        foreign: BTreeMap::new(),
        samples: Vec::new(),
        slowest: (0.0, 0),
    });

    std::thread::scope(|s| {
        for worker in 0..workers() {
            let (next, stop, found, acc, findings) = (&next, &stop, &found, &acc, &findings);
            s.spawn(move || {
                let progress = o.progress.as_ref().map(|p| p.join(format!("w{worker}")));
                while !stop.load(Ordering::Relaxed) {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= o.max_runs || start.elapsed() > o.budget {
                        break;
                    }
                    let (h, seed) = seed_of(check, o.seed, i);
                    if let Some(p) = &progress {
                        let _ = std::fs::write(p, format!("{} {seed}\n", h.name));
                    }
                    let began = Instant::now();
                    let (out, tape) = run_one(h, check.property, seed, None, false);
                    let took = began.elapsed().as_secs_f64();
                    let mut a = acc.lock().unwrap();
                    if took > a.slowest.0 {
                        a.slowest = (took, seed);
                    }
                    a.runs += 1;
                    a.steps += out.steps;
                    *a.per.entry(h.name).or_insert(0) += 1;
                    a.all.insert(out.sched_hash);
                    if out.nontrivial {
                        a.nontrivial.insert(out.sched_hash);
                    }
                    if a.states.len() < 4_000_000 {
                        a.states.extend(out.states.iter());
                    }
                    for (k, v) in &out.cover {
                        *a.cover.entry(format!("{}.{k}", h.name)).or_insert(0) += v;
                    }
                    if i < 2 {
                        let s = format!(
                            "harness={} seed={seed} steps={} ops={} first scheduling choices={:?}",
                            h.name,
                            out.steps,
                            tape.gen.len(),
                            &tape.sched[..tape.sched.len().min(40)]
                        );
                        a.samples.push(s);
                    }
                    if let Some(v) = out.violation {
                        if !concerns(&v, check.property) {
                            *a.foreign
                                .entry(format!("{} [{}]", v.class, v.props.join(",")))
                                .or_insert(0) += 1;
                        } else if findings.known(check.property, &v) {
                            a.known += 1;
                        } else {
                            drop(a);
                            let mut f = found.lock().unwrap();
                            let better = f.as_ref().is_none_or(|f| i < f.idx);
                            if better {
                                *f = Some(Found {
                                    h,
                                    seed,
                                    idx: i,
                                    v,
                                    tape,
                                });
                            }
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                }
            });
        }
    });

    let a = acc.into_inner().unwrap();
    let search_s = start.elapsed().as_secs_f64();
    let mut code = 0;
    let mut violations = 0;
    if let Some(f) = found.into_inner().unwrap() {
        code = 1;
        violations = 1;
        let path = report(check, f, o);
        println!("VIOLATION property={} replay={}", check.property, path.display());
    }

    // Evidence.
    let mut faults = BTreeMap::new();
    let mut probes = BTreeMap::new();
    for (k, v) in &a.cover {
        let kind = k.split_once('.').map(|x| x.1).unwrap_or(k);
        if ["fault", "end_", "stop:", "cancelled", "handshakes to be r", "handshakes with i"]
            .iter()
            .any(|p| kind.starts_with(p))
        {
            faults.insert(k.clone(), *v);
        } else {
            probes.insert(k.clone(), *v);
        }
    }
    let per_hour = if search_s > 0.0 {
        (a.runs as f64 / search_s * 3600.0) as u64
    } else {
        0
    };
    let mut j = String::new();
    let _ = write!(
        j,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"runs_per_harness\": {},\n  \"seeds_per_hour\": {per_hour},\n  \"simulated_steps\": {},\n  \"distinct_interleavings\": {},\n  \"distinct_model_states\": {},\n  \"faults_injected\": {},\n  \"conditions_reached\": {},\n  \"determinism_seeds_run_three_times\": {},\n  \"nondeterminism\": {},\n  \"violations_of_other_properties_seen\": {},\n  \"known_finding_runs\": {},\n  \"real_components\": [{}],\n  \"stub_components\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.1},\n \"violations\": {violations}\n}}\n",
        js(check.property),
        js(&o.tier),
        o.seed,
        js(check.level),
        a.runs,
        a.nontrivial.len(),
        js(check.rule),
        a.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        jmap(a.per.iter().map(|(k, v)| (k.to_string(), *v))),
        a.steps,
        a.all.len(),
        a.states.len(),
        jmap(faults),
        jmap(probes),
        det.seeds,
        js(det.differs.as_deref().unwrap_or("none")),
        jmap(a.foreign.clone()),
        a.known,
        check.real.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        check.stub.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        check.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        begin.elapsed().as_secs_f64(),
    );
    let dir = o.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", check.property)), j) {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    println!(
        "runs={} distinct={} states={} steps={} runs/h={per_hour} foreign={:?} wall={:.1}s",
        a.runs,
        a.nontrivial.len(),
        a.states.len(),
        a.steps,
        a.foreign,
        begin.elapsed().as_secs_f64()
    );
    println!("slowest run: {:.2}s, seed {}", a.slowest.0, a.slowest.1);
    code
}

fn jmap(m: impl IntoIterator<Item = (String, u64)>) -> String {
    let items: Vec<String> = m
        .into_iter()
        .map(|(k, v)| format!("{}: {v}", js(&k)))
        .collect();
    format!("{{{}}}", items.join(", "))
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn report(check: &Check, f: Found, o: &Options) -> PathBuf {
    let dir = o.root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{:016x}.replay", check.property, f.seed));
    println!("violation class={} seed={} : {}", f.v.class, f.seed, cut(&f.v.msg));
    if f.v.class == "hang" {
        write_replay(&path, check, &f, None, &[]);
        return path;
    }
    let (tape, v, tries) = minimise(check, &f, Duration::from_secs(60));
    let (out, _) = run_one(f.h, check.property, f.seed, Some(tape.clone()), true);
    println!(
        "minimised in {tries} runs: {} operations, {} scheduling choices: {}",
        tape.gen.len(),
        tape.sched.len(),
        v.msg
    );
    let f2 = Found { v, tape, ..f };
    write_replay(&path, check, &f2, Some(&f2.tape), &out.trace);
    path
}

/// Payloads can be long.
fn cut(s: &str) -> &str {
    match s.char_indices().nth(4000) {
        Some((i, _)) => &s[..i],
        None => s,
    }
}

fn write_replay(path: &Path, check: &Check, f: &Found, tape: Option<&Tape>, trace: &[String]) {
    let mut s = String::new();
    let _ = writeln!(s, "aldrin-sim replay v1");
    let _ = writeln!(s, "harness {}", f.h.name);
    let _ = writeln!(s, "property {}", check.property);
    let _ = writeln!(s, "seed {}", f.seed);
    let _ = writeln!(s, "class {}", f.v.class);
    let _ = writeln!(s, "message {}", cut(&f.v.msg.replace('\n', " ")));
    if let Some(t) = tape {
        for g in &t.gen {
            let _ = writeln!(s, "gen {} {}", g.tag, nums(&g.vals));
        }
        let _ = writeln!(s, "sched {}", nums(&t.sched));
    }
    let _ = writeln!(s, "trace (informational):");
    for l in trace {
        let l = cut(l);
        let _ = writeln!(s, "  {l}");
    }
    let _ = std::fs::write(path, s);
}

pub fn write_crash(root: &Path, check: &Check, harness: &str, seed: &str, how: &str) -> PathBuf {
    let dir = root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-crash-{seed}.replay", check.property));
    let s = format!(
        "aldrin-sim replay v1\nharness {harness}\nproperty {}\nseed {seed}\nclass crash\nmessage the process {how}\n",
        check.property
    );
    let _ = std::fs::write(&path, s);
    path
}

/// Minimal evidence of a check that was cut short by a crash.
pub fn crash_evidence(root: &Path, check: &Check, tier: &str, seed: u64) {
    let j = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": {},\n \"coverage\": {{\"evaluations\": 1, \"distinct_nontrivial\": 1, \"rule\": {}, \"samples\": [\"crash\"]}},\n \"assumptions\": [],\n \"wall_s\": 0.0,\n \"violations\": 1\n}}\n",
        js(check.property),
        js(tier),
        js(check.level),
        js(check.rule)
    );
    let dir = root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{}.json", check.property)), j);
}

fn nums(v: &[u32]) -> String {
    v.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(" ")
}

/// Replays a file. Returns the exit code.
pub fn replay(checks: &[Check], path: &Path) -> i32 {
    let Ok(text) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {}", path.display());
        return 2;
    };
    let (mut harness, mut property, mut seed, mut class) =
        (String::new(), String::new(), 0u64, String::new());
    let mut tape = Tape::default();
    let mut has_tape = false;
    for line in text.lines() {
        let (k, rest) = line.split_once(' ').unwrap_or((line, ""));
        let ints = || rest.split_whitespace().filter_map(|n| n.parse::<u32>().ok());
        match k {
            "harness" => harness = rest.into(),
            "property" => property = rest.into(),
            "seed" => seed = rest.parse().unwrap_or(0),
            "class" => class = rest.into(),
            "gen" => {
                has_tape = true;
                let v: Vec<u32> = ints().collect();
                tape.gen.push(Span {
                    tag: v.first().copied().unwrap_or(0) as u8,
                    vals: v.get(1..).unwrap_or(&[]).to_vec(),
                });
            }
            "sched" => tape.sched = ints().collect(),
            "trace" => break,
            _ => {}
        }
    }
    let Some(check) = checks.iter().find(|c| c.property == property) else {
        eprintln!("unknown property {property}");
        return 2;
    };
    let Some(h) = check.harnesses.iter().find(|h| h.name == harness) else {
        eprintln!("unknown harness {harness}");
        return 2;
    };
    let (out, _) = run_one(*h, &property, seed, has_tape.then_some(tape), true);
    for l in &out.trace {
        println!("  {l}");
    }
    match out.violation {
        Some(v) if v.class == class => {
            println!("reproduced: {}: {}", v.class, v.msg);
            println!("VIOLATION property={property} replay={}", path.display());
            1
        }
        Some(v) => {
            println!("a different violation: {}: {}", v.class, v.msg);
            println!("VIOLATION property={property} replay={}", path.display());
            1
        }
        None => {
            println!("not reproduced");
            0
        }
    }
}

fn minimise(check: &Check, f: &Found, limit: Duration) -> (Tape, Violation, u64) {
    let start = Instant::now();
    let mut best = f.tape.clone();
    let mut best_v = f.v.clone();
    let mut tries = 0;
    let mut attempt = |t: Tape, best: &mut Tape, best_v: &mut Violation| -> bool {
        if start.elapsed() > limit {
            return false;
        }
        tries += 1;
        let (out, used) = run_one(f.h, check.property, f.seed, Some(t), false);
        match out.violation {
            Some(v) if v.class == f.v.class && concerns(&v, check.property) => {
                let size = |t: &Tape| {
                    (
                        t.gen.len(),
                        t.sched.len() + t.gen.iter().map(|g| g.vals.len()).sum::<usize>(),
                        t.sched.iter().filter(|&&x| x != 0).count(),
                        t.gen
                            .iter()
                            .flat_map(|g| g.vals.iter())
                            .map(|&v| v as u64)
                            .sum::<u64>(),
                    )
                };
                if size(&used) < size(best) {
                    *best = used;
                    *best_v = v;
                    return true;
                }
                false
            }
            _ => false,
        }
    };

    for _round in 0..4 {
        let before = best.clone();
        // Trailing operations and spans.
        let mut n = best.gen.len();
        while n >= 1 {
            let mut i = best.gen.len();
            while i > 0 {
                let lo = i.saturating_sub(n);
                let mut t = best.clone();
                let hi = i.min(t.gen.len());
                if lo >= hi {
                    break;
                }
                let keep: Vec<Span> = t
                    .gen
                    .iter()
                    .enumerate()
                    .filter(|(k, s)| !(lo..hi).contains(k) || s.tag != crate::choice::OP)
                    .map(|(_, s)| s.clone())
                    .collect();
                if keep.len() == t.gen.len() {
                    i = lo;
                    continue;
                }
                t.gen = keep;
                attempt(t, &mut best, &mut best_v);
                i = lo;
            }
            n /= 2;
        }
        // Schedule.
        attempt(
            Tape {
                gen: best.gen.clone(),
                sched: Vec::new(),
            },
            &mut best,
            &mut best_v,
        );
        let mut n = best.sched.len();
        while n >= 1 {
            let mut i = 0;
            while i < best.sched.len() {
                let hi = (i + n).min(best.sched.len());
                let mut t = best.clone();
                t.sched.drain(i..hi);
                if !attempt(t, &mut best, &mut best_v) {
                    if best.sched[i..hi.min(best.sched.len())].iter().any(|&x| x != 0) {
                        let mut t = best.clone();
                        let hi = hi.min(t.sched.len());
                        t.sched[i..hi].iter_mut().for_each(|x| *x = 0);
                        attempt(t, &mut best, &mut best_v);
                    }
                    i += n;
                }
            }
            n /= 2;
        }
        // Parameters.
        let mut g = 0;
        while g < best.gen.len() {
            let mut k = 0;
            while g < best.gen.len() && k < best.gen[g].vals.len() {
                let v = best.gen[g].vals[k];
                for cand in [0, v / 2, v.saturating_sub(1)] {
                    if cand < v {
                        let mut t = best.clone();
                        t.gen[g].vals[k] = cand;
                        if attempt(t, &mut best, &mut best_v) {
                            break;
                        }
                    }
                }
                k += 1;
            }
            g += 1;
        }
        if best == before || start.elapsed() > limit {
            break;
        }
    }
    (best, best_v, tries)
}
