//! Token-passing thread scheduler.
//!
//! The simulated program uses real threads, but exactly one of them runs at a
//! time.  The C symbols through which Rust's standard library creates threads,
//! blocks, yields, sleeps, reads clocks and gets entropy are defined here, so
//! every such point is a decision of the seeded scheduler.  Code compiled with
//! SanitizerCoverage (see `tools/rustc-wrap.sh`) additionally calls
//! `__sanitizer_cov_trace_pc_guard` at every basic block, which is where
//! preemptions happen.
use crate::{
    plan::{Decision, Schedule},
    prng::{mix, Prng},
    shm,
};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};

const MAXT: usize = 48;
const LOG_CAP: usize = 60_000;
pub const STEP_CAP: u64 = 4_000_000_000;

#[derive(Clone, Copy, PartialEq, Eq)]
enum St {
    Free,
    Runnable,
    Futex,
    Sleep,
    Join,
    Done,
}

struct Thr {
    st: St,
    addr: usize,
    bits: u32,
    deadline: u64, // virtual ns, u64::MAX = none
    timed_out: bool,
    pthread: libc::pthread_t,
    join: usize,
    baton: AtomicU32,
}

struct Sched {
    thr: [Thr; MAXT],
    n: usize,
    cur: usize,
    rng: Prng,
    seeded: bool,
    preempt: Vec<u64>, // ascending, Seeded
    pi: usize,
    period: u64,
    next_period: u64,
    spurious: u64,
    slice: u64,
    slice_end: u64,
    dec: std::collections::BTreeMap<(char, u64), u32>, // Explicit
    blocks: u64,
    waits: u64,
    wakes: u64,
    log: Vec<Decision>,
    ihash: u64,
    switches: u64,
    preempts: u64,
    spur_n: u64,
    vtime: u64,
    cap: u64,
    fixed_rand: u64,
}

static ACTIVE: AtomicBool = AtomicBool::new(false);
static mut STEPS: u64 = 0;
static mut NEXT: u64 = u64::MAX;
static mut SCHED: *mut Sched = std::ptr::null_mut();
static mut KEY: libc::pthread_key_t = 0;

#[inline(always)]
#[allow(static_mut_refs)]
fn s() -> &'static mut Sched {
    unsafe { &mut *SCHED }
}

pub fn active() -> bool {
    ACTIVE.load(Ordering::Relaxed)
}
pub fn steps() -> u64 {
    unsafe { STEPS }
}

unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    core::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _,
        options(nostack));
    r
}
unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

unsafe fn baton_wait(t: usize) {
    let b = &s().thr[t].baton;
    while b.swap(0, Ordering::Acquire) == 0 {
        raw(libc::SYS_futex, b as *const _ as usize, libc::FUTEX_WAIT as usize, 0, 0, 0, 0);
    }
}
unsafe fn baton_give(t: usize) {
    let b = &s().thr[t].baton;
    b.store(1, Ordering::Release);
    raw(libc::SYS_futex, b as *const _ as usize, libc::FUTEX_WAKE as usize, 1, 0, 0, 0);
}

/// Starts simulation in the calling thread (tid 0).
pub fn start(spec: &Schedule, rand_seed: u64) {
    unsafe {
        let mk = || Thr {
            st: St::Free,
            addr: 0,
            bits: 0,
            deadline: u64::MAX,
            timed_out: false,
            pthread: 0,
            join: 0,
            baton: AtomicU32::new(0),
        };
        let mut sc = Box::new(Sched {
            thr: core::array::from_fn(|_| mk()),
            n: 1,
            cur: 0,
            rng: Prng::new(0),
            seeded: false,
            preempt: vec![],
            pi: 0,
            period: 0,
            next_period: u64::MAX,
            spurious: 0,
            slice: 1 << 20,
            slice_end: u64::MAX,
            dec: Default::default(),
            blocks: 0,
            waits: 0,
            wakes: 0,
            log: Vec::with_capacity(LOG_CAP), // never grows: scheduler code must not allocate
            ihash: 0,
            switches: 0,
            preempts: 0,
            spur_n: 0,
            vtime: 0,
            cap: STEP_CAP,
            fixed_rand: rand_seed,
        });
        sc.thr[0].st = St::Runnable;
        sc.thr[0].pthread = libc::pthread_self();
        match spec {
            Schedule::Seeded { seed, preempt, period, spurious, slice } => {
                sc.seeded = true;
                sc.rng = Prng::new(*seed);
                sc.preempt = preempt.clone();
                sc.period = *period;
                sc.spurious = *spurious;
                sc.slice = (*slice).max(64);
            },
            Schedule::Explicit { slice, decisions } => {
                sc.slice = (*slice).max(64);
                sc.dec = decisions.iter().map(|d| ((d.kind, d.at), d.pick)).collect();
                let mut p: Vec<u64> =
                    decisions.iter().filter(|d| d.kind == 'p').map(|d| d.at).collect();
                p.sort_unstable();
                sc.preempt = p;
            },
        }
        libc::pthread_key_create(&raw mut KEY, Some(thread_exit));
        SCHED = Box::into_raw(sc);
        STEPS = 0;
        if s().period > 0 {
            let p = s().period;
            s().next_period = 1 + s().rng.below(2 * p);
        }
        set_next();
        ACTIVE.store(true, Ordering::SeqCst);
    }
}

/// Step budget from now on; exceeding it ends the run as "no progress".
pub fn set_cap(extra: u64) {
    unsafe {
        s().cap = STEPS.saturating_add(extra);
        set_next();
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub preempts: u64,
    pub spurious: u64,
    pub threads: u64,
    pub ihash: u64,
    pub vtime: u64,
    pub log: Vec<Decision>,
}
pub fn stats() -> Stats {
    let x = s();
    Stats {
        steps: steps(),
        switches: x.switches,
        preempts: x.preempts,
        spurious: x.spur_n,
        threads: x.n as u64,
        ihash: x.ihash,
        vtime: x.vtime + steps(),
        log: x.log.clone(),
    }
}

unsafe fn set_next() {
    let x = s();
    let mut n = x.cap.min(x.slice_end).min(x.next_period);
    if x.pi < x.preempt.len() {
        n = n.min(x.preempt[x.pi]);
    }
    NEXT = n;
}

fn explicit(kind: char, at: u64) -> Option<u32> {
    s().dec.get(&(kind, at)).copied()
}
fn record(kind: char, at: u64, pick: u32) {
    if s().log.len() < LOG_CAP {
        s().log.push(Decision { kind, at, pick });
    }
}

fn die(note: u32) -> ! {
    shm::shm().note.store(note, Ordering::SeqCst);
    shm::shm().steps.store(steps(), Ordering::SeqCst);
    unsafe { libc::_exit(77) }
}

/// Candidate threads in cyclic order after `cur`.
fn candidates(include_self: bool) -> ([u8; MAXT], usize) {
    let x = s();
    let mut v = [0u8; MAXT];
    let mut k = 0;
    for i in 1..=x.n {
        let t = (x.cur + i) % x.n;
        if t == x.cur && !include_self {
            continue;
        }
        if x.thr[t].st == St::Runnable {
            v[k] = t as u8;
            k += 1;
        }
    }
    (v, k)
}

unsafe fn switch(to: usize, wait: bool) {
    let x = s();
    let me = x.cur;
    x.slice_end = STEPS.saturating_add(x.slice);
    set_next();
    if to == me {
        return;
    }
    x.cur = to;
    x.switches += 1;
    x.ihash = mix(&[x.ihash, STEPS, to as u64]);
    baton_give(to);
    if wait {
        baton_wait(me);
    }
}

/// The current thread cannot continue (or is finished): pick another.
unsafe fn reschedule(wait: bool) {
    let x = s();
    loop {
        let (v, k) = candidates(true);
        if k > 0 {
            let at = x.blocks;
            x.blocks += 1;
            let c = if x.seeded {
                let c = x.rng.below(k as u64) as u32;
                if c != 0 {
                    record('b', at, c);
                }
                c
            } else {
                explicit('b', at).unwrap_or(0)
            };
            switch(v[c as usize % k] as usize, wait);
            return;
        }
        // nobody runnable: advance virtual time to the earliest deadline
        let mut best: Option<usize> = None;
        for t in 0..x.n {
            if matches!(x.thr[t].st, St::Futex | St::Sleep)
                && x.thr[t].deadline != u64::MAX
                && best.is_none_or(|b| x.thr[t].deadline < x.thr[b].deadline)
            {
                best = Some(t);
            }
        }
        match best {
            Some(t) => {
                let d = x.thr[t].deadline;
                if d > now() {
                    x.vtime += d - now();
                }
                x.thr[t].timed_out = true;
                x.thr[t].deadline = u64::MAX;
                x.thr[t].st = St::Runnable;
            },
            None => die(1),
        }
    }
}

fn now() -> u64 {
    s().vtime + steps()
}

unsafe fn yield_now() {
    let x = s();
    let (v, k) = candidates(false);
    if k == 0 {
        return;
    }
    let at = x.blocks;
    x.blocks += 1;
    let c = if x.seeded {
        let c = x.rng.below(k as u64) as u32;
        if c != 0 {
            record('b', at, c);
        }
        c
    } else {
        explicit('b', at).unwrap_or(0)
    };
    switch(v[c as usize % k] as usize, true);
}

#[cold]
#[inline(never)]
unsafe fn slow() {
    let x = s();
    let st = STEPS;
    if st >= x.cap {
        die(2);
    }
    let mut hit = false;
    if x.pi < x.preempt.len() && st >= x.preempt[x.pi] {
        while x.pi < x.preempt.len() && st >= x.preempt[x.pi] {
            x.pi += 1;
        }
        hit = true;
    }
    if st >= x.next_period {
        x.next_period = st + 1 + x.rng.below(2 * x.period);
        hit = true;
    }
    if hit {
        let (v, k) = candidates(false);
        if k > 0 {
            let c = if x.seeded {
                let c = x.rng.below(k as u64) as u32;
                record('p', st, c);
                c
            } else {
                explicit('p', st).unwrap_or(0)
            };
            x.preempts += 1;
            switch(v[c as usize % k] as usize, true);
            return;
        }
    }
    if STEPS >= s().slice_end {
        s().slice_end = STEPS.saturating_add(s().slice);
        yield_now();
    }
    set_next();
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    STEPS += 1;
    let i = *g;
    if i != 0 {
        *g = 0;
        if !shm::EDGES.is_null() {
            *shm::EDGES.add(i as usize % shm::EDGE_CAP) = 1;
        }
    }
    if STEPS >= NEXT {
        slow();
    }
}
static mut GUARDS: u32 = 0;
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    let mut p = a;
    while p < b {
        if *p == 0 {
            GUARDS += 1;
            *p = GUARDS;
        }
        p = p.add(1);
    }
}
pub fn guards() -> u32 {
    unsafe { GUARDS }
}

// ---------------------------------------------------------------- threads

type Start = extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;
struct Boot {
    f: Start,
    arg: *mut libc::c_void,
    tid: usize,
}
extern "C" fn boot(p: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        let b = Box::from_raw(p as *mut Boot);
        libc::pthread_setspecific(KEY, (b.tid + 1) as *const libc::c_void);
        baton_wait(b.tid);
        let (f, arg) = (b.f, b.arg);
        drop(b);
        f(arg)
    }
}
/// Runs as the last thread-specific destructor: the thread has left all Rust code.
unsafe extern "C" fn thread_exit(v: *mut libc::c_void) {
    if !active() {
        return;
    }
    let tid = v as usize - 1;
    let x = s();
    x.thr[tid].st = St::Done;
    for t in 0..x.n {
        if x.thr[t].st == St::Join && x.thr[t].join == tid {
            x.thr[t].st = St::Runnable;
        }
    }
    if x.cur == tid {
        reschedule(false);
    }
}

unsafe fn next_sym(name: &[u8]) -> *mut libc::c_void {
    libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const libc::c_char)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: Start,
    arg: *mut libc::c_void,
) -> libc::c_int {
    type Real = unsafe extern "C" fn(
        *mut libc::pthread_t,
        *const libc::pthread_attr_t,
        Start,
        *mut libc::c_void,
    ) -> libc::c_int;
    let real: Real = core::mem::transmute(next_sym(b"pthread_create\0"));
    if !active() {
        return real(out, attr, f, arg);
    }
    let x = s();
    if x.n >= MAXT {
        die(4);
    }
    // allocate first: the allocator may contain a preemption point
    let b = Box::into_raw(Box::new(Boot { f, arg, tid: 0 }));
    let tid = x.n;
    (*b).tid = tid;
    x.thr[tid].st = St::Runnable;
    x.n += 1;
    let r = real(out, attr, boot, b as *mut libc::c_void);
    if r != 0 {
        x.n -= 1;
        x.thr[tid].st = St::Free;
        drop(Box::from_raw(b));
        return r;
    }
    x.thr[tid].pthread = *out;
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(
    t: libc::pthread_t,
    out: *mut *mut libc::c_void,
) -> libc::c_int {
    type Real = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> libc::c_int;
    let real: Real = core::mem::transmute(next_sym(b"pthread_join\0"));
    if active() {
        let x = s();
        for i in 0..x.n {
            if x.thr[i].pthread == t && x.thr[i].st != St::Done {
                let me = x.cur;
                x.thr[me].st = St::Join;
                x.thr[me].join = i;
                reschedule(true);
                break;
            }
        }
    }
    real(t, out)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> libc::c_int {
    if active() {
        yield_now();
        return 0;
    }
    ret(raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as libc::c_int
}

// ---------------------------------------------------------------- futex

#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: i64,
    a: usize,
    b: usize,
    c: usize,
    d: usize,
    e: usize,
    f: usize,
) -> i64 {
    if active() {
        if n == libc::SYS_futex {
            let cmd = b as i32 & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
            match cmd {
                libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                    let bits = if cmd == libc::FUTEX_WAIT { !0 } else { f as u32 };
                    return ret(futex_wait(
                        a,
                        c as u32,
                        d as *const libc::timespec,
                        cmd == libc::FUTEX_WAIT_BITSET,
                        bits,
                    ));
                },
                libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                    let bits = if cmd == libc::FUTEX_WAKE { !0 } else { f as u32 };
                    return futex_wake(a, c as u32, bits);
                },
                _ => {},
            }
        }
        if n == libc::SYS_getrandom {
            fill(a as *mut u8, b);
            return b as i64;
        }
        if n == libc::SYS_sched_yield {
            yield_now();
            return 0;
        }
    }
    ret(raw(n, a, b, c, d, e, f))
}

unsafe fn futex_wait(
    addr: usize,
    val: u32,
    ts: *const libc::timespec,
    absolute: bool,
    bits: u32,
) -> i64 {
    if (*(addr as *const AtomicU32)).load(Ordering::SeqCst) != val {
        return -(libc::EAGAIN as i64);
    }
    let x = s();
    let at = x.waits;
    x.waits += 1;
    let spurious = if x.seeded {
        x.spurious > 0 && x.spur_n < 64 && x.rng.chance(x.spurious, 1000)
    } else {
        explicit('s', at).is_some()
    };
    if spurious {
        x.spur_n += 1;
        if x.seeded {
            record('s', at, 0);
        }
        return 0;
    }
    let me = x.cur;
    x.thr[me].st = St::Futex;
    x.thr[me].addr = addr;
    x.thr[me].bits = bits;
    x.thr[me].timed_out = false;
    x.thr[me].deadline = if ts.is_null() {
        u64::MAX
    } else {
        let t = ((*ts).tv_sec as u64)
            .saturating_mul(1_000_000_000)
            .saturating_add((*ts).tv_nsec as u64);
        if absolute {
            t.saturating_sub(EPOCH)
        } else {
            now().saturating_add(t)
        }
    };
    reschedule(true);
    if s().thr[me].timed_out {
        s().thr[me].timed_out = false;
        return -(libc::ETIMEDOUT as i64);
    }
    0
}

unsafe fn futex_wake(addr: usize, n: u32, bits: u32) -> i64 {
    let x = s();
    let mut woken = 0;
    while woken < n as i64 {
        let mut v = [0u8; MAXT];
        let mut k = 0;
        for t in 0..x.n {
            if x.thr[t].st == St::Futex && x.thr[t].addr == addr && x.thr[t].bits & bits != 0 {
                v[k] = t as u8;
                k += 1;
            }
        }
        if k == 0 {
            break;
        }
        let mut c = 0u32;
        if k > 1 {
            let at = x.wakes;
            x.wakes += 1;
            c = if x.seeded {
                let c = x.rng.below(k as u64) as u32;
                if c != 0 {
                    record('w', at, c);
                }
                c
            } else {
                explicit('w', at).unwrap_or(0)
            };
        }
        let t = v[c as usize % k] as usize;
        x.thr[t].st = St::Runnable;
        x.thr[t].deadline = u64::MAX;
        woken += 1;
    }
    woken
}

// ---------------------------------------------------------------- time, entropy

const EPOCH: u64 = 1_700_000_000_000_000_000;

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if active() {
        let t = EPOCH + now();
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw(libc::SYS_clock_gettime, id as usize, ts as usize, 0, 0, 0, 0)) as libc::c_int
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> libc::c_int {
    if active() {
        let d = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        let x = s();
        let me = x.cur;
        x.thr[me].st = St::Sleep;
        x.thr[me].deadline = now() + d;
        reschedule(true);
        s().thr[me].timed_out = false;
        return 0;
    }
    ret(raw(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as libc::c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    id: libc::clockid_t,
    flags: libc::c_int,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> libc::c_int {
    if active() && flags == 0 {
        return nanosleep(req, rem);
    }
    -(raw(
        libc::SYS_clock_nanosleep,
        id as usize,
        flags as usize,
        req as usize,
        rem as usize,
        0,
        0,
    )) as libc::c_int
}

unsafe fn fill(p: *mut u8, n: usize) {
    let x = s();
    for i in 0..n {
        if i % 8 == 0 {
            x.fixed_rand = mix(&[x.fixed_rand, 0x5eed]);
        }
        *p.add(i) = (x.fixed_rand >> (8 * (i % 8))) as u8;
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize {
    if active() {
        fill(p, n);
        return n as isize;
    }
    ret(raw(libc::SYS_getrandom, p as usize, n, flags as usize, 0, 0, 0)) as isize
}
