//! The only source of decisions in a simulated run.
//!
//! A run consumes two recorded streams. `gen` decides *what* happens (workload, parameters, fault
//! points) and is organised as a list of spans so that the minimiser can delete whole operations.
//! `sched` decides *which enabled action happens next* at every step. In generate mode both streams
//! are produced by a seeded PRNG; in replay mode they are read back, with values past the end being
//! zero (first ready task, smallest parameter).

use crate::entropy::splitmix;
use std::collections::HashMap;

#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct Span {
    pub tag: u8,
    pub vals: Vec<u32>,
}

#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct Tape {
    pub gen: Vec<Span>,
    pub sched: Vec<u32>,
}

/// Parameters of the run; always present.
pub const CONFIG: u8 = 0;
/// One operation of the workload; may be deleted by the minimiser.
pub const OP: u8 = 1;
/// Parameters of the final phase; always present.
pub const FINAL: u8 = 2;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Policy {
    Uniform,
    MostlyFifo,
    EnvFirst,
    TasksFirst,
    Starve(u32),
    Priorities,
}

pub struct Choices {
    gen_rng: u64,
    sched_rng: u64,
    replay: Option<Tape>,
    pub tape: Tape,
    cursor: usize,
    /// Next span of the replayed tape, and the one being read.
    next_read: usize,
    reading: Option<usize>,
    policy: Policy,
    prios: HashMap<u32, u64>,
    pub sched_hash: u64,
}

/// One enabled action: a stable key plus a class bit telling tasks and environment apart.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Act {
    pub key: u32,
    pub env: bool,
}

impl Choices {
    pub fn generate(seed: u64) -> Self {
        let mut s = seed ^ 0x5eed_5eed_0000_0001;
        let gen_rng = splitmix(&mut s);
        let sched_rng = splitmix(&mut s);
        Self {
            gen_rng,
            sched_rng,
            replay: None,
            tape: Tape::default(),
            cursor: 0,
            next_read: 0,
            reading: None,
            policy: Policy::Uniform,
            prios: HashMap::new(),
            sched_hash: 0xcbf2_9ce4_8422_2325,
        }
    }

    pub fn replay(tape: Tape) -> Self {
        let mut this = Self::generate(0);
        this.replay = Some(tape);
        this
    }

    /// Opens the next span. `more` is only consulted for operations in generate mode.
    pub fn begin_span(&mut self, tag: u8, more: bool) -> bool {
        self.reading = None;
        let go = match &self.replay {
            Some(t) => {
                let hit = t.gen.get(self.next_read).is_some_and(|s| s.tag == tag);
                if hit {
                    self.reading = Some(self.next_read);
                    self.next_read += 1;
                }
                hit || tag != OP
            }
            None => more,
        };
        if go {
            self.tape.gen.push(Span {
                tag,
                vals: Vec::new(),
            });
            self.cursor = 0;
        }
        go
    }

    /// A number in `0..n`.
    pub fn below(&mut self, n: u32) -> u32 {
        debug_assert!(n > 0);
        let v = match &self.replay {
            Some(t) => {
                self.reading
                    .and_then(|i| t.gen[i].vals.get(self.cursor).copied())
                    .unwrap_or(0)
                    % n
            }
            None => (((splitmix(&mut self.gen_rng) >> 32) * n as u64) >> 32) as u32,
        };
        self.cursor += 1;
        self.tape
            .gen
            .last_mut()
            .expect("no span open")
            .vals
            .push(v);
        v
    }

    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        // Zero (the minimiser's favourite) means "no".
        let v = self.below(den);
        v >= den - num.min(den)
    }

    pub fn u32(&mut self) -> u32 {
        let hi = self.below(1 << 16);
        let lo = self.below(1 << 16);
        (hi << 16) | lo
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.below(items.len() as u32);
        &items[i as usize]
    }

    /// Index into `weights`, chosen proportionally.
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u32 = weights.iter().sum();
        let mut v = self.below(total.max(1));
        for (i, &w) in weights.iter().enumerate() {
            if v < w {
                return i;
            }
            v -= w;
        }
        0
    }

    pub fn set_policy(&mut self, p: Policy) {
        self.policy = p;
    }

    fn sched_u64(&mut self) -> u64 {
        splitmix(&mut self.sched_rng)
    }

    /// Decides which of the enabled actions happens next.
    pub fn schedule(&mut self, acts: &[Act]) -> usize {
        debug_assert!(!acts.is_empty());
        let n = acts.len();
        let pos = self.tape.sched.len();
        let idx = if let Some(t) = &self.replay {
            t.sched.get(pos).copied().unwrap_or(0) as usize % n
        } else {
            self.pick_action(acts)
        };
        self.tape.sched.push(idx as u32);
        self.sched_hash = (self.sched_hash ^ acts[idx].key as u64).wrapping_mul(0x0100_0000_01b3);
        idx
    }

    fn pick_action(&mut self, acts: &[Act]) -> usize {
        let n = acts.len();
        let r = self.sched_u64();
        let uni = (r >> 32) as usize % n;
        match self.policy {
            Policy::Uniform => uni,
            Policy::MostlyFifo => {
                if r & 7 != 0 {
                    0
                } else {
                    uni
                }
            }
            Policy::EnvFirst | Policy::TasksFirst => {
                let want_env = self.policy == Policy::EnvFirst;
                if r & 15 != 0 {
                    let cand: Vec<usize> = (0..n).filter(|&i| acts[i].env == want_env).collect();
                    if cand.is_empty() {
                        uni
                    } else {
                        cand[(r >> 32) as usize % cand.len()]
                    }
                } else {
                    uni
                }
            }
            Policy::Starve(key) => {
                if r & 63 != 0 {
                    let cand: Vec<usize> = (0..n).filter(|&i| acts[i].key != key).collect();
                    if cand.is_empty() {
                        uni
                    } else {
                        cand[(r >> 32) as usize % cand.len()]
                    }
                } else {
                    uni
                }
            }
            Policy::Priorities => {
                // Random priorities with occasional priority changes.
                let mut best = 0;
                let mut best_p = 0;
                for (i, a) in acts.iter().enumerate() {
                    let p = match self.prios.get(&a.key) {
                        Some(&p) => p,
                        None => {
                            let p = splitmix(&mut self.sched_rng) | 1;
                            self.prios.insert(a.key, p);
                            p
                        }
                    };
                    if p > best_p {
                        best_p = p;
                        best = i;
                    }
                }
                if r & 15 == 0 {
                    self.prios.insert(acts[best].key, (r >> 8) | 1);
                }
                best
            }
        }
    }
}

/// Serial numbers don't have to start at zero, and a client that has run for long enough starts
/// over. Brokers and clients that are created next by this thread behave as if that was near.
pub fn serials(c: &mut Choices) {
    let near = |c: &mut Choices| match c.below(16) {
        0..=12 => 0,
        13 => u32::MAX - c.below(32),
        14 => (1 << 16) - c.below(32),
        _ => (1 << (7 + c.below(25))) - 1,
    };
    let (_first, _max, _broker) = match c.below(4) {
        0..=2 => (near(c), u32::MAX, near(c)),
        // Clients reuse serial numbers early.
        _ => (near(c), *c.pick(&[31, 7, 1, 0, 127]), near(c)),
    };
    #[cfg(feature = "hooks")]
    {
        aldrin::verif_set_serials(_first, _max);
        aldrin_broker::verif_set_first_serial(_broker);
    }
}
