//! What a world sees while it runs: event log, oracle verdicts, counters.
use crate::{
    plan::Decision,
    prng::{hash_bytes, mix},
    sched, shm,
};
use serde::{Deserialize, Serialize};
use std::{
    collections::BTreeMap,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{atomic::Ordering, Mutex},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Outcome {
    pub violation: Option<Violation>,
    pub known: BTreeMap<String, u64>,
    pub digest: u64,
    pub evals: u64,
    pub faults: BTreeMap<String, u64>,
    pub marks: BTreeMap<String, u64>,
    pub states: Vec<u64>,
    pub steps: u64,
    pub vtime: u64,
    pub switches: u64,
    pub preempts: u64,
    pub threads: u64,
    pub ihash: u64,
    pub discarded: Option<String>,
    pub trace: Vec<String>,
    pub log: Vec<Decision>,
}

pub struct Ctx {
    pub out: Outcome,
    pub known: Vec<String>,
    pub want_trace: bool,
    pub want_log: bool,
    pub upstream_alloc: bool,
    events: u64,
}

static PANIC_MSG: Mutex<Option<String>> = Mutex::new(None);

/// Records the panic message and place instead of printing it.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string panic".into()
        };
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("SIM_PANICS").is_some() {
            eprintln!("panic: {msg} at {at}\n{}", std::backtrace::Backtrace::force_capture());
        }
        if let Ok(mut g) = PANIC_MSG.lock() {
            g.get_or_insert(format!("{msg} @ {at}"));
        }
    }));
}

impl Ctx {
    pub fn new(known: Vec<String>, want_trace: bool, want_log: bool) -> Self {
        Self { out: Outcome::default(), known, want_trace, want_log, upstream_alloc: false, events: 0 }
    }
    /// An observable event: part of the run's digest.
    pub fn event(&mut self, what: &str, data: &[u8]) {
        self.out.digest = mix(&[hash_bytes(self.out.digest, what.as_bytes()), hash_bytes(1, data)]);
        self.events += 1;
        if self.want_trace && self.out.trace.len() < 400 {
            let hex: String = data.iter().take(24).map(|b| format!("{b:02x}")).collect();
            let dots = if data.len() > 24 { ".." } else { "" };
            self.out.trace.push(format!("step {} {what} {hex}{dots}", sched::steps()));
        }
    }
    pub fn note(&mut self, what: String) {
        self.event(&what, &[]);
    }
    pub fn fault(&mut self, kind: &str) {
        *self.out.faults.entry(kind.to_string()).or_default() += 1;
        self.event(kind, b"fault");
    }
    pub fn faults(&mut self, kind: &str, n: u64) {
        if n > 0 {
            *self.out.faults.entry(kind.to_string()).or_default() += n;
            self.event(kind, &n.to_le_bytes());
        }
    }
    pub fn io(&mut self, c: &crate::disk::IoCount) {
        self.faults("io_short_transfer", c.short);
        self.faults("io_interrupted", c.interrupt);
        self.faults("io_hard_error", c.failed);
    }
    pub fn mark(&mut self, kind: &str) {
        *self.out.marks.entry(kind.to_string()).or_default() += 1;
    }
    /// An abstract state of the system under test that was reached.
    pub fn state(&mut self, h: u64) {
        if self.out.states.len() < 4096 {
            self.out.states.push(h);
        }
    }
    /// Oracle: reports a violation (and ends the run) unless `ok` or known.
    pub fn check(&mut self, ok: bool, class: &str, detail: impl FnOnce() -> String) -> bool {
        self.out.evals += 1;
        if !ok {
            self.violate(class, detail());
        }
        ok
    }
    pub fn violate(&mut self, class: &str, detail: String) {
        if self.known.iter().any(|k| k == class) {
            *self.out.known.entry(class.to_string()).or_default() += 1;
            self.event(class, b"known");
            return;
        }
        let mut detail = detail;
        if detail.len() > 1500 {
            detail = detail.chars().take(1500).collect::<String>() + " ...";
        }
        self.out.violation = Some(Violation { class: class.to_string(), detail });
        self.finish();
    }
    /// The run hit something outside the property (for example an upstream limit).
    pub fn discard(&mut self, why: &str) -> ! {
        self.out.discarded = Some(why.to_string());
        self.finish()
    }
    /// Runs library code; a panic becomes `Err(message)`.
    pub fn call<T>(&mut self, label: &str, f: impl FnOnce() -> T) -> Result<T, String> {
        shm::set_phase(label);
        *PANIC_MSG.lock().unwrap() = None;
        let r = catch_unwind(AssertUnwindSafe(f));
        shm::set_phase("harness");
        r.map_err(|_| PANIC_MSG.lock().unwrap().take().unwrap_or_else(|| "panic".into()))
    }
    /// Runs library code that must not panic.
    pub fn must<T>(&mut self, label: &str, f: impl FnOnce() -> T) -> Option<T> {
        self.out.evals += 1;
        match self.call(label, f) {
            Ok(v) => Some(v),
            Err(m) if self.upstream_alloc && m.starts_with("capacity overflow") => {
                self.discard("capacity overflow in a third-party decoder")
            },
            Err(m) => {
                self.violate(&format!("panic:{label}"), format!("{label} panicked: {m}"));
                None
            },
        }
    }
    /// Writes the outcome and ends the simulated process.
    pub fn finish(&mut self) -> ! {
        let st = sched::stats();
        self.out.steps = st.steps;
        self.out.vtime = st.vtime;
        self.out.switches = st.switches;
        self.out.preempts = st.preempts;
        self.out.threads = st.threads;
        self.out.ihash = st.ihash;
        if st.preempts > 0 {
            self.out.faults.insert("sched_preemption".into(), st.preempts);
        }
        if st.spurious > 0 {
            self.out.faults.insert("sched_spurious_wakeup".into(), st.spurious);
        }
        if self.want_log {
            self.out.log = st.log;
        }
        let mut b = serde_json::to_vec(&self.out).unwrap();
        if b.len() > shm::OUT_CAP {
            self.out.states.clear();
            self.out.log.clear();
            b = serde_json::to_vec(&self.out).unwrap();
        }
        let h = shm::shm();
        h.out[..b.len()].copy_from_slice(&b);
        h.out_len.store(b.len() as u32, Ordering::SeqCst);
        h.status.store(1, Ordering::SeqCst);
        unsafe { libc::_exit(0) }
    }
}
