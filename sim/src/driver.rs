//! Seeded search, minimisation, replay, evidence.
use crate::{
    ctx::{install_hook, Ctx, Outcome, Violation},
    plan::{Plan, Schedule},
    prng::{hash_bytes, mix, Prng},
    sched,
    shm::{self, map_shared, Shm, EDGE_CAP},
};
use serde::{Deserialize, Serialize};
use std::{
    collections::{BTreeMap, HashSet},
    io::{Read, Write},
    os::fd::FromRawFd,
    sync::atomic::{AtomicU64, Ordering},
    time::Instant,
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub trait World: Sync {
    fn property(&self) -> &'static str;
    /// `(runs, seconds)`: the search stops at whichever comes first.
    fn budget(&self, tier: Tier) -> (u64, u64);
    fn gen(&self, r: &mut Prng, tier: Tier) -> Plan;
    /// Runs in a forked child as simulated thread 0.
    fn exec(&self, plan: &Plan, ctx: &mut Ctx);
    /// Work shared by all runs, done once before forking.
    fn prepare(&self) {}
    fn rule(&self) -> &'static str;
    fn real(&self) -> &'static [&'static str];
    fn stubs(&self) -> &'static [&'static str] {
        &[]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &[]
    }
    /// Whether an allocation beyond 1 GiB comes from a third-party decoder.
    fn huge_alloc_is_upstream(&self) -> bool {
        false
    }
    /// Step budget of one run before it counts as not making progress.
    fn step_cap(&self) -> u64 {
        1_000_000_000
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub index: u64,
    pub class: String,
    pub detail: String,
    pub plan: Plan,
    pub digest: u64,
    pub steps: u64,
    pub interleaving: u64,
    pub found_plan_ops: usize,
    pub minimise_runs: u64,
    pub trace: Vec<String>,
    pub replay_cmd: String,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Known {
    pub property: String,
    pub class: String,
    pub what: String,
    #[serde(default)]
    pub status: String,
}

#[derive(Default, Serialize, Deserialize)]
struct WorkerStats {
    runs: u64,
    discarded: BTreeMap<String, u64>,
    evals: u64,
    steps: u64,
    vtime: u64,
    switches: u64,
    multi: u64,
    max_threads: u64,
    faults: BTreeMap<String, u64>,
    fault_runs: BTreeMap<String, u64>,
    marks: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    sigs: Vec<u64>,
    inter: Vec<u64>,
    states: Vec<u64>,
    twice: u64,
    differ: Vec<u64>,
    found: Vec<(u64, String)>,
    errors: Vec<String>,
}

/// Executes one plan in a forked child.  `Err` is a failure of the harness.
pub fn run_once(
    w: &dyn World,
    plan: &Plan,
    known: &[String],
    trace: bool,
    log: bool,
) -> Result<Outcome, String> {
    let h = shm::shm();
    h.status.store(0, Ordering::SeqCst);
    h.note.store(0, Ordering::SeqCst);
    h.steps.store(0, Ordering::SeqCst);
    shm::set_phase("start");
    unsafe {
        let pid = libc::fork();
        if pid < 0 {
            return Err("fork failed".into());
        }
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            libc::alarm(240);
            let mut ctx = Ctx::new(known.to_vec(), trace, log);
            ctx.upstream_alloc = w.huge_alloc_is_upstream();
            sched::start(&plan.sched, mix(&[plan.sched.seed(), 77]));
            sched::set_cap(w.step_cap());
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.exec(plan, &mut ctx)));
            if r.is_err() {
                libc::_exit(78); // a panic outside `call`: harness error
            }
            ctx.finish();
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if h.status.load(Ordering::SeqCst) == 1 {
            let n = h.out_len.load(Ordering::SeqCst) as usize;
            return serde_json::from_slice(&h.out[..n]).map_err(|e| e.to_string());
        }
        let phase = shm::phase();
        let steps = h.steps.load(Ordering::SeqCst);
        let v = |class: String, detail: String| {
            let mut o = Outcome { steps, ..Default::default() };
            if known.contains(&class) {
                o.known.insert(class, 1);
            } else {
                o.violation = Some(Violation { class, detail });
            }
            Ok(o)
        };
        match h.note.load(Ordering::SeqCst) {
            1 => {
                return v(
                    format!("deadlock:{phase}"),
                    format!("no thread can run (all blocked) during {phase}, step {steps}"),
                )
            },
            2 => {
                return v(
                    format!("no-progress:{phase}"),
                    format!("step budget of {} exhausted during {phase}", w.step_cap()),
                )
            },
            3 if w.huge_alloc_is_upstream() => {
                return Ok(Outcome {
                    discarded: Some(format!("allocation beyond limit during {phase}")),
                    ..Default::default()
                })
            },
            3 => {
                return v(
                    format!("huge-allocation:{phase}"),
                    format!("a single allocation of more than 1 GiB during {phase}"),
                )
            },
            4 => return Err("too many threads".into()),
            _ => {},
        }
        if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            if sig == libc::SIGALRM || sig == libc::SIGKILL {
                return Err(format!("run killed by signal {sig} during {phase}"));
            }
            return v(
                format!("crash:{phase}"),
                format!("process died with signal {sig} during {phase}"),
            );
        }
        Err(format!("run ended with status {st} during {phase} (panic in the harness?)"))
    }
}

/// Runs `f` in a child process and returns its bytes, so that the search
/// process itself never starts worker threads.
pub fn in_child(f: impl FnOnce() -> Vec<u8>) -> Vec<u8> {
    unsafe {
        let mut p = [0; 2];
        assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
        let pid = libc::fork();
        if pid == 0 {
            let Ok(b) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) else { libc::_exit(2) };
            let mut w = std::fs::File::from_raw_fd(p[1]);
            let ok = w.write_all(&b).is_ok();
            libc::_exit(if ok { 0 } else { 1 });
        }
        libc::close(p[1]);
        let mut b = vec![];
        std::fs::File::from_raw_fd(p[0]).read_to_end(&mut b).expect("child output");
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        assert_eq!(st, 0, "preparation failed");
        b
    }
}

fn gen_plan(w: &dyn World, seed: u64, idx: u64, tier: Tier) -> Plan {
    let s = mix(&[seed, hash_bytes(7, w.property().as_bytes()), idx]);
    w.gen(&mut Prng::new(s), tier)
}

fn worker(
    w: &dyn World,
    seed: u64,
    tier: Tier,
    known: &[String],
    me: u64,
    n: u64,
    runs: u64,
    deadline: Instant,
    stop: &AtomicU64,
) -> WorkerStats {
    let mut s = WorkerStats::default();
    let (mut sigs, mut inter, mut states) = (HashSet::new(), HashSet::new(), HashSet::new());
    let mut i = me;
    while i < runs && i < stop.load(Ordering::SeqCst) && Instant::now() < deadline {
        let plan = gen_plan(w, seed, i, tier);
        match run_once(w, &plan, known, false, false) {
            Err(e) => {
                s.errors.push(format!("index {i}: {e}"));
                if s.errors.len() > 3 {
                    break;
                }
            },
            Ok(o) => {
                s.runs += 1;
                if let Some(d) = &o.discarded {
                    *s.discarded.entry(d.clone()).or_default() += 1;
                }
                s.evals += o.evals;
                s.steps += o.steps;
                s.vtime += o.vtime;
                s.switches += o.switches;
                if o.threads > 1 {
                    s.multi += 1;
                }
                s.max_threads = s.max_threads.max(o.threads);
                let nontrivial = o.discarded.is_none()
                    && o.evals > 0
                    && (!o.faults.is_empty() || o.switches > 1 || !o.states.is_empty());
                if nontrivial {
                    sigs.insert(mix(&[o.digest, o.ihash]));
                }
                if o.switches > 0 {
                    inter.insert(o.ihash);
                }
                states.extend(o.states.iter().copied());
                for (k, v) in &o.faults {
                    *s.faults.entry(k.clone()).or_default() += v;
                    *s.fault_runs.entry(k.clone()).or_default() += 1;
                }
                for (k, v) in &o.marks {
                    *s.marks.entry(k.clone()).or_default() += v;
                }
                for (k, v) in &o.known {
                    *s.known.entry(k.clone()).or_default() += v;
                }
                if let Some(v) = &o.violation {
                    // confirm before stopping the others
                    match run_once(w, &plan, known, false, false) {
                        Ok(o2)
                            if o2.violation.as_ref().is_some_and(|x| x.class == v.class) =>
                        {
                            s.found.push((i, v.class.clone()));
                            stop.fetch_min(i, Ordering::SeqCst);
                            break;
                        },
                        Ok(_) => s.differ.push(i),
                        Err(e) => s.errors.push(format!("confirming {i}: {e}")),
                    }
                } else if (i / n) % 50 == 1 {
                    s.twice += 1;
                    if let Ok(o2) = run_once(w, &plan, known, false, false) {
                        if (o2.digest, o2.ihash, o2.steps) != (o.digest, o.ihash, o.steps) {
                            s.differ.push(i);
                        }
                    }
                }
            },
        }
        i += n;
    }
    s.sigs = sigs.into_iter().collect();
    s.inter = inter.into_iter().collect();
    s.states = states.into_iter().collect();
    s
}

struct Min<'a> {
    w: &'a dyn World,
    known: &'a [String],
    class: String,
    runs: u64,
    deadline: Instant,
}
impl Min<'_> {
    fn bad(&mut self, p: &Plan) -> bool {
        if Instant::now() > self.deadline {
            return false;
        }
        self.runs += 1;
        matches!(run_once(self.w, p, self.known, false, false),
            Ok(Outcome { violation: Some(v), .. }) if v.class == self.class)
    }
    fn list<T: Clone>(
        &mut self,
        mut cur: Vec<T>,
        mk: &dyn Fn(&[T]) -> Plan,
    ) -> (Vec<T>, bool) {
        let mut changed = false;
        let mut chunk = cur.len();
        while chunk > 0 && !cur.is_empty() {
            let mut i = 0;
            while i < cur.len() {
                let mut c = cur.clone();
                c.drain(i..(i + chunk).min(cur.len()));
                if self.bad(&mk(&c)) {
                    cur = c;
                    changed = true;
                } else {
                    i += chunk;
                }
                if Instant::now() > self.deadline {
                    return (cur, changed);
                }
            }
            chunk /= 2;
        }
        (cur, changed)
    }
    fn numbers(&mut self, p: &mut Plan) -> bool {
        let mut changed = false;
        let nops = p.ops.len();
        let slots: Vec<(usize, usize)> = (0..p.cfg.len())
            .map(|j| (usize::MAX, j))
            .chain((0..nops).flat_map(|o| (0..p.ops[o].a.len()).map(move |j| (o, j))))
            .collect();
        for (o, j) in slots {
            loop {
                let v = if o == usize::MAX { p.cfg[j] } else { p.ops[o].a[j] };
                let mut done = true;
                for c in [0, v / 2, v.saturating_sub(1)] {
                    if c >= v {
                        continue;
                    }
                    let mut q = p.clone();
                    if o == usize::MAX {
                        q.cfg[j] = c
                    } else {
                        q.ops[o].a[j] = c
                    }
                    if self.bad(&q) {
                        *p = q;
                        changed = true;
                        done = false;
                        break;
                    }
                }
                if done || Instant::now() > self.deadline {
                    break;
                }
            }
        }
        changed
    }
    fn run(&mut self, mut p: Plan) -> Plan {
        let mut q = p.clone();
        q.sched = Schedule::quiet();
        if self.bad(&q) {
            p = q;
        } else if let Ok(o) = run_once(self.w, &p, self.known, false, true) {
            let slice = match &p.sched {
                Schedule::Seeded { slice, .. } | Schedule::Explicit { slice, .. } => *slice,
            };
            q.sched = Schedule::Explicit { slice, decisions: o.log };
            if self.bad(&q) {
                p = q;
            }
        }
        for _ in 0..4 {
            let base = p.clone();
            let (ops, c1) = self.list(p.ops.clone(), &|o| Plan { ops: o.to_vec(), ..base.clone() });
            p.ops = ops;
            let mut c2 = false;
            if let Schedule::Explicit { slice, decisions } = p.sched.clone() {
                let base = p.clone();
                let (d, c) = self.list(decisions, &|d| Plan {
                    sched: Schedule::Explicit { slice, decisions: d.to_vec() },
                    ..base.clone()
                });
                p.sched = Schedule::Explicit { slice, decisions: d };
                c2 = c;
            }
            let c3 = self.numbers(&mut p);
            if !(c1 || c2 || c3) || Instant::now() > self.deadline {
                break;
            }
        }
        p
    }
}

fn load_known(path: &str) -> Vec<Known> {
    std::fs::read(path)
        .ok()
        .and_then(|b| serde_json::from_slice::<Vec<Known>>(&b).ok())
        .unwrap_or_default()
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

/// Turns address randomisation off for this process by re-executing once, with a
/// fixed environment so that stack contents do not differ between invocations.
unsafe fn settle() {
    if std::env::var_os("SIM_SETTLED").is_some() {
        return;
    }
    let p = libc::personality(0xffff_ffff);
    if p != -1 {
        libc::personality(p as u64 | libc::ADDR_NO_RANDOMIZE as u64);
    }
    let keep = ["VERIF_SEED", "VERIF_TIER", "VERIF_DIR", "SIM_PANICS", "SIM_WORKERS", "SIM_RUNS", "SIM_SECS"];
    let mut c = std::process::Command::new("/proc/self/exe");
    c.args(std::env::args_os().skip(1)).env_clear().env("SIM_SETTLED", "1").env("RAYON_NUM_THREADS", "3");
    for k in keep {
        if let Ok(v) = std::env::var(k) {
            c.env(k, v);
        }
    }
    use std::os::unix::process::CommandExt;
    let _ = c.exec();
}

pub fn main(worlds: &[&dyn World]) -> ! {
    unsafe { settle() };
    let args: Vec<String> = std::env::args().skip(1).collect();
    unsafe {
        shm::SHM = map_shared(core::mem::size_of::<Shm>()) as *mut Shm;
        shm::EDGES = map_shared(EDGE_CAP);
    }
    install_hook();
    let get = |id: &str| -> &dyn World {
        worlds.iter().copied().find(|w| w.property() == id).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        })
    };
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => check(get(&args[1])),
        Some("replay") => {
            let r: Replay =
                serde_json::from_slice(&std::fs::read(&args[1]).expect("read replay file"))
                    .expect("parse replay file");
            replay(get(&r.property), &r, &args[1])
        },
        Some("one") => {
            let w = get(&args[1]);
            w.prepare();
            let i: u64 = args[2].parse().expect("index");
            let plan = gen_plan(w, env_u64("VERIF_SEED", 1), i, tier());
            println!("{}", serde_json::to_string(&plan).unwrap());
            let t = Instant::now();
            let o = run_once(w, &plan, &[], true, false);
            println!("{o:#?}\n{:?}", t.elapsed());
            0
        },
        Some("list") => {
            for w in worlds {
                println!("{}", w.property());
            }
            0
        },
        _ => {
            eprintln!("usage: check ID | replay FILE | one ID INDEX | list");
            2
        },
    };
    std::process::exit(code)
}

fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn replay(w: &dyn World, r: &Replay, path: &str) -> i32 {
    w.prepare();
    match run_once(w, &r.plan, &[], true, false) {
        Ok(o) => {
            for l in &o.trace {
                println!("  {l}");
            }
            match o.violation {
                Some(v) => {
                    println!("violation: {}\n  {}", v.class, v.detail);
                    println!(
                        "same execution as recorded: {}",
                        v.class == r.class
                            && o.digest == r.digest
                            && o.ihash == r.interleaving
                            && o.steps == r.steps
                    );
                    println!("VIOLATION property={} replay={path}", r.property);
                    1
                },
                None => {
                    println!("the recorded violation does not occur on this tree");
                    0
                },
            }
        },
        Err(e) => {
            eprintln!("harness error: {e}");
            2
        },
    }
}

fn check(w: &dyn World) -> i32 {
    let t0 = Instant::now();
    let id = w.property();
    let seed = env_u64("VERIF_SEED", 1);
    let tier = tier();
    let dir = verif_dir();
    let knowns: Vec<Known> = load_known(&format!("{dir}/known_findings.json"))
        .into_iter()
        .filter(|k| k.property == id && k.status != "fixed")
        .collect();
    let known: Vec<String> = knowns.iter().map(|k| k.class.clone()).collect();
    let (runs, secs) = w.budget(tier);
    let runs = env_u64("SIM_RUNS", runs);
    let secs = env_u64("SIM_SECS", secs);
    w.prepare();
    let n = env_u64("SIM_WORKERS", 8);
    let stop = unsafe { &*(map_shared(8) as *const AtomicU64) };
    stop.store(u64::MAX, Ordering::SeqCst);
    let t1 = Instant::now();
    let deadline = t1 + std::time::Duration::from_secs(secs);
    let mut pipes = vec![];
    for me in 0..n {
        unsafe {
            let mut fd = [0; 2];
            assert_eq!(libc::pipe(fd.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                shm::SHM = map_shared(core::mem::size_of::<Shm>()) as *mut Shm;
                let s = worker(w, seed, tier, &known, me, n, runs, deadline, stop);
                let mut f = std::fs::File::from_raw_fd(fd[1]);
                let _ = f.write_all(&serde_json::to_vec(&s).unwrap());
                drop(f);
                libc::_exit(0);
            }
            libc::close(fd[1]);
            pipes.push((pid, std::fs::File::from_raw_fd(fd[0])));
        }
    }
    let mut a = WorkerStats::default();
    let (mut sigs, mut inter, mut states) = (HashSet::new(), HashSet::new(), HashSet::new());
    for (pid, mut f) in pipes {
        let mut b = vec![];
        let _ = f.read_to_end(&mut b);
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        match serde_json::from_slice::<WorkerStats>(&b) {
            Ok(s) => {
                a.runs += s.runs;
                a.evals += s.evals;
                a.steps += s.steps;
                a.vtime += s.vtime;
                a.switches += s.switches;
                a.multi += s.multi;
                a.twice += s.twice;
                a.max_threads = a.max_threads.max(s.max_threads);
                a.differ.extend(s.differ);
                a.found.extend(s.found);
                a.errors.extend(s.errors);
                for (m, d) in [
                    (s.faults, &mut a.faults),
                    (s.fault_runs, &mut a.fault_runs),
                    (s.marks, &mut a.marks),
                    (s.known, &mut a.known),
                    (s.discarded, &mut a.discarded),
                ] {
                    for (k, v) in m {
                        *d.entry(k).or_default() += v;
                    }
                }
                sigs.extend(s.sigs);
                inter.extend(s.inter);
                states.extend(s.states);
            },
            Err(e) => a.errors.push(format!("worker lost: {e}")),
        }
    }
    let search_s = t1.elapsed().as_secs_f64();
    let edges = unsafe { (0..EDGE_CAP).filter(|&i| *shm::EDGES.add(i) != 0).count() };
    a.found.sort();
    let mut code = 0;
    let mut minim = serde_json::Value::Null;
    let path = format!("{dir}/evidence/replay-{id}.json");
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    if let Some((idx, class)) = a.found.first().cloned() {
        let plan = gen_plan(w, seed, idx, tier);
        let n0 = plan.ops.len();
        let mut m = Min {
            w,
            known: &known,
            class: class.clone(),
            runs: 0,
            deadline: Instant::now() + std::time::Duration::from_secs(if tier == Tier::Quick { 40 } else { 120 }),
        };
        let p = m.run(plan);
        let o = run_once(w, &p, &known, true, false);
        let (detail, o) = match o {
            Ok(o) => (o.violation.as_ref().map(|v| v.detail.clone()).unwrap_or_default(), o),
            Err(e) => (e, Outcome::default()),
        };
        let r = Replay {
            property: id.into(),
            seed,
            index: idx,
            class: class.clone(),
            detail: detail.clone(),
            plan: p.clone(),
            digest: o.digest,
            steps: o.steps,
            interleaving: o.ihash,
            found_plan_ops: n0,
            minimise_runs: m.runs,
            trace: o.trace,
            replay_cmd: format!("cd /verif && ./check.sh replay {path}"),
        };
        std::fs::write(&path, serde_json::to_vec_pretty(&r).unwrap()).expect("write replay");
        println!("seed {seed} run {idx}: {class}\n  {detail}");
        println!("  minimised from {n0} to {} operations in {} runs", p.ops.len(), m.runs);
        println!("VIOLATION property={id} replay={path}");
        minim = serde_json::json!({"class": class, "runs": m.runs, "ops_before": n0, "ops_after": p.ops.len()});
        code = 1;
    } else {
        let _ = std::fs::remove_file(&path);
    }
    for k in &knowns {
        if let Some(c) = a.known.get(&k.class) {
            println!("KNOWN-FINDING: property={id} {} (seen {c} times)", k.what);
        } else {
            println!("note: recorded finding not met in this run: {}", k.what);
        }
    }
    if !a.differ.is_empty() {
        println!("warning: {} runs did not repeat exactly: {:?}", a.differ.len(), &a.differ[..a.differ.len().min(5)]);
    }
    if code == 0 && (!a.errors.is_empty() || a.runs == 0) {
        for e in a.errors.iter().take(5) {
            eprintln!("harness error: {e}");
        }
        code = 2;
    }
    let samples: Vec<_> = (0..3)
        .map(|i| {
            let p = gen_plan(w, seed, i, tier);
            let ops: Vec<String> =
                p.ops.iter().take(12).map(|o| format!("{}{:?}", o.k, o.a)).collect();
            let sch = match &p.sched {
                Schedule::Seeded { preempt, period, spurious, .. } =>
                    format!("preempt={preempt:?} period={period} spurious={spurious}/1000"),
                Schedule::Explicit { .. } => "run-to-block".into(),
            };
            serde_json::json!({"index": i, "cfg": p.cfg, "ops": ops, "n_ops": p.ops.len(), "schedule": sch})
        })
        .collect();
    let per_hour = a.runs as f64 / search_s * 3600.0;
    let ev = serde_json::json!({
        "property": id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": sigs.len(),
            "rule": w.rule(),
            "samples": samples,
            "seeds_per_hour": per_hour as u64,
            "oracle_evaluations": a.evals,
            "simulated_steps": a.steps,
            "simulated_time_ns": a.vtime,
            "context_switches": a.switches,
            "runs_with_several_threads": a.multi,
            "max_threads": a.max_threads,
            "distinct_interleavings": inter.len(),
            "interleaving_measure": "hash of the sequence (step, thread) of all context switches of a run",
            "distinct_states": states.len(),
            "state_measure": "hash of the observable state of the system under test after an operation",
            "faults_injected": a.faults,
            "runs_with_fault": a.fault_runs,
            "situations": a.marks,
            "instrumented_blocks_reached": edges,
            "instrumented_blocks_total": sched::guards(),
            "runs_repeated_for_determinism": a.twice,
            "runs_that_differed": a.differ.len(),
            "runs_discarded": a.discarded,
            "known_findings_met": a.known,
            "minimisation": minim,
            "real_components": w.real(),
            "stub_components": w.stubs(),
        },
        "assumptions": w.assumptions(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": a.found.len(),
    });
    std::fs::write(format!("{dir}/evidence/{id}.json"), serde_json::to_vec_pretty(&ev).unwrap())
        .expect("write evidence");
    if code == 0 {
        println!(
            "OK property={id} runs={} distinct={} interleavings={} states={} faults={} steps={} search={:.1}s",
            a.runs,
            sigs.len(),
            inter.len(),
            states.len(),
            a.faults.values().sum::<u64>(),
            a.steps,
            search_s
        );
    }
    code
}
