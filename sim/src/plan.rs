//! A run is a plan: configuration, operations (faults included) and a schedule.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Op {
    pub k: String,
    pub a: Vec<u64>,
}

impl Op {
    pub fn new(k: &str, a: &[u64]) -> Self {
        Self { k: k.to_string(), a: a.to_vec() }
    }
    pub fn arg(&self, i: usize) -> u64 {
        self.a.get(i).copied().unwrap_or(0)
    }
    pub fn usize(&self, i: usize) -> usize {
        self.arg(i) as usize
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Schedule {
    /// Every decision drawn from `seed`.  `preempt` explicit preemption points;
    /// `period > 0` adds a preemption about every `period` steps; `spurious` is a
    /// per-mille chance that a blocking wait returns at once.
    Seeded { seed: u64, preempt: Vec<u64>, period: u64, spurious: u64, slice: u64 },
    /// Only the listed decisions differ from the default (run until blocked,
    /// then the next runnable thread in cyclic order).
    Explicit { slice: u64, decisions: Vec<Decision> },
}

/// `kind`: 'p' preempt at step `at`; 'b' choice at the `at`-th blocking point;
/// 's' spurious wake at the `at`-th wait; 'w' choice at the `at`-th wake.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Decision {
    pub kind: char,
    pub at: u64,
    pub pick: u32,
}

impl Schedule {
    pub fn quiet() -> Self {
        Schedule::Explicit { slice: 1 << 22, decisions: vec![] }
    }
    pub fn seed(&self) -> u64 {
        match self {
            Schedule::Seeded { seed, .. } => *seed,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Plan {
    pub cfg: Vec<u64>,
    pub ops: Vec<Op>,
    pub sched: Schedule,
}

impl Plan {
    pub fn c(&self, i: usize) -> u64 {
        self.cfg.get(i).copied().unwrap_or(0)
    }
}

/// Draws a schedule: quiet, a few preemptions, or dense preemption.
pub fn gen_schedule(r: &mut crate::prng::Prng, step_bits: u64) -> Schedule {
    let seed = r.next();
    let slice = *r.pick(&[1u64 << 10, 1 << 14, 1 << 18]);
    let spurious = *r.pick(&[0, 0, 20, 200]);
    let (preempt, period) = match r.below(6) {
        0 => (vec![], 0),
        1 | 2 => {
            let n = r.range(1, 6);
            let mut v: Vec<u64> = (0..n).map(|_| 1 + r.log(step_bits)).collect();
            v.sort_unstable();
            v.dedup();
            (v, 0)
        },
        // long runs: dense preemption only in a burst somewhere, else a longer period
        3 if step_bits > 17 => {
            let mut at = 1 + r.log(step_bits);
            let gap = 1 + r.log(7);
            let v = (0..400)
                .map(|_| {
                    at += 1 + r.below(gap);
                    at
                })
                .collect();
            (v, 0)
        },
        3 => (vec![], 1 + r.log(8)),
        _ if step_bits > 17 => (vec![], (1 << (step_bits - 12)) + r.log(step_bits - 4)),
        _ => (vec![], 16 + r.log(12)),
    };
    Schedule::Seeded { seed, preempt, period, spurious, slice }
}
