//! U05, U06: parallel helpers and multi-pairing under the simulated scheduler.
use crate::fields::elem;
use ark_ec::{
    pairing::{Pairing, PairingOutput},
    AffineRepr, CurveGroup,
};
use ark_std::UniformRand;
use jf_utils::{
    multi_pairing,
    par_utils::{parallelizable_chunks, parallelizable_slice_iter},
};
use rayon::prelude::*;
use sim::*;
use std::sync::{
    atomic::{AtomicU32, AtomicU64, Ordering},
    OnceLock,
};

pub struct U05;
pub struct U06;

/// Work of varying length with preemption points inside.
#[inline(never)]
fn work(x: u64, rounds: u64) -> u64 {
    let mut h = x;
    for i in 0..rounds {
        if h & 1 == 0 {
            h = h.rotate_left(7) ^ i;
        } else {
            h = h.wrapping_mul(0x9e37_79b9_7f4a_7c15);
        }
    }
    h
}

pub fn pool(threads: usize) -> rayon::ThreadPool {
    rayon::ThreadPoolBuilder::new().num_threads(threads).build().expect("pool")
}

/// Counts how often each element is visited.
struct Visits {
    n: Vec<AtomicU32>,
    total: AtomicU64,
}
impl Visits {
    fn new(n: usize) -> Self {
        Self { n: (0..n).map(|_| AtomicU32::new(0)).collect(), total: AtomicU64::new(0) }
    }
    fn hit(&self, i: usize) {
        if let Some(c) = self.n.get(i) {
            c.fetch_add(1, Ordering::SeqCst);
        }
        self.total.fetch_add(1, Ordering::SeqCst);
    }
    fn verdict(&self, want_all: bool) -> Option<String> {
        for (i, c) in self.n.iter().enumerate() {
            let c = c.load(Ordering::SeqCst);
            if c > 1 || (want_all && c == 0) {
                return Some(format!("element {i} of {} visited {c} times", self.n.len()));
            }
        }
        let t = self.total.load(Ordering::SeqCst);
        (want_all && t != self.n.len() as u64)
            .then(|| format!("{t} visits for {} elements", self.n.len()))
    }
}

fn exec05(plan: &Plan, ctx: &mut Ctx) {
    let threads = 1 + plan.c(0) as usize % 12;
    let p = pool(threads);
    for op in &plan.ops {
        let n = op.usize(0) % 100_000;
        let seed = op.arg(1);
        let rounds = op.arg(2) % 40;
        let data: Vec<(usize, u64)> = (0..n).map(|i| (i, mix(&[seed, i as u64]))).collect();
        ctx.state(mix(&[n as u64, op.arg(3), threads as u64, hash_bytes(0, op.k.as_bytes())]));
        match op.k.as_str() {
            "map" => {
                let v = Visits::new(n);
                let run = || {
                    parallelizable_slice_iter(&data)
                        .map(|&(i, x)| {
                            v.hit(i);
                            work(x, rounds)
                        })
                        .collect::<Vec<u64>>()
                };
                // on the chosen pool, or from outside any pool
                let got = ctx.must("slice iterator", || if op.arg(4) == 0 { run() } else { p.install(run) });
                let want: Vec<u64> = data.iter().map(|&(_, x)| work(x, rounds)).collect();
                ctx.check(got.as_ref() == Some(&want), "slice:order-or-content", || {
                    format!("collecting {n} elements on {threads} threads differs from sequential")
                });
                if let Some(e) = v.verdict(true) {
                    ctx.violate("slice:visits", e);
                }
            },
            "sum" => {
                let got = ctx.must("slice iterator", || {
                    p.install(|| parallelizable_slice_iter(&data).map(|x| x.1 >> 16).sum::<u64>())
                });
                let want: u64 = data.iter().map(|x| x.1 >> 16).sum();
                ctx.check(got == Some(want), "slice:sum", || format!("sum of {n} elements differs"));
            },
            "enumerate" => {
                // pairs of index and element, found element and length: order sensitive
                let got = ctx.must("slice iterator", || {
                    p.install(|| {
                        let it = parallelizable_slice_iter(&data);
                        let len = it.len();
                        let ok = it.enumerate().all(|(i, x)| {
                            work(x.1, rounds);
                            i == x.0
                        });
                        (len, ok)
                    })
                });
                ctx.check(got == Some((n, true)), "slice:order-or-content", || {
                    format!("enumerating {n} elements gave {got:?}")
                });
            },
            "chunks" => {
                let c = match op.arg(3) {
                    x @ 0..=600 => x.max(1) as usize,
                    601 => n.max(1),
                    602 => n + 1,
                    _ => usize::MAX - op.usize(4),
                };
                let v = Visits::new(n);
                let got = ctx.must("chunk iterator", || {
                    p.install(|| {
                        parallelizable_chunks(&data, c)
                            .map(|ch| {
                                for x in ch {
                                    v.hit(x.0);
                                }
                                (ch.len(), ch.iter().fold(0u64, |a, x| work(a ^ x.1, rounds.min(4))))
                            })
                            .collect::<Vec<_>>()
                    })
                });
                let want: Vec<_> = data
                    .chunks(c)
                    .map(|ch| (ch.len(), ch.iter().fold(0u64, |a, x| work(a ^ x.1, rounds.min(4)))))
                    .collect();
                ctx.check(got.as_ref() == Some(&want), "chunks:order-size-or-content", || {
                    format!("chunks of {c} over {n} elements on {threads} threads differ from sequential")
                });
                if let Some(e) = v.verdict(true) {
                    ctx.violate("chunks:visits", e);
                }
            },
            "panic" => {
                if n == 0 {
                    continue;
                }
                let at = op.usize(3) % n;
                let v = Visits::new(n);
                let chunk = op.arg(4) % 2 == 1;
                let c = 1 + op.usize(5) % 50;
                ctx.fault("callback_panic");
                let r = ctx.call("slice iterator with panicking closure", || {
                    p.install(|| {
                        let f = |x: &(usize, u64)| {
                            v.hit(x.0);
                            if x.0 == at {
                                panic!("callback failure 4711");
                            }
                            work(x.1, rounds)
                        };
                        if chunk {
                            parallelizable_chunks(&data, c).map(|ch| ch.iter().map(f).fold(0, u64::wrapping_add)).collect::<Vec<u64>>()
                        } else {
                            parallelizable_slice_iter(&data).map(f).collect::<Vec<u64>>()
                        }
                    })
                });
                ctx.event("panic", &[r.is_ok() as u8]);
                ctx.check(matches!(&r, Err(m) if m.contains("4711")), "panic:lost", || {
                    format!("closure panicked at element {at} of {n}, caller saw {r:?}")
                });
                if let Some(e) = v.verdict(false) {
                    ctx.violate("slice:visits", e);
                }
            },
            "nested" => {
                let m = 1 + n % 24;
                let got = ctx.must("nested iterators", || {
                    p.install(|| {
                        let outer: Vec<u64> = (0..m as u64).collect();
                        parallelizable_slice_iter(&outer)
                            .map(|&i| {
                                let inner: Vec<u64> = (0..i).collect();
                                parallelizable_slice_iter(&inner).map(|x| work(x ^ seed, 3) >> 8).sum::<u64>()
                            })
                            .collect::<Vec<u64>>()
                    })
                });
                let want: Vec<u64> =
                    (0..m as u64).map(|i| (0..i).map(|x| work(x ^ seed, 3) >> 8).sum()).collect();
                ctx.check(got.as_ref() == Some(&want), "slice:order-or-content", || {
                    format!("nested iteration over {m} rows differs")
                });
            },
            "callers" => {
                // several client threads share the pool
                let k = 2 + op.usize(4) % 3;
                let m = n.min(200);
                let got = ctx.must("concurrent callers", || {
                    std::thread::scope(|s| {
                        let hs: Vec<_> = (0..k)
                            .map(|t| {
                                let (p, d) = (&p, &data[..m]);
                                s.spawn(move || {
                                    p.install(|| {
                                        parallelizable_slice_iter(d)
                                            .map(|x| work(x.1 ^ t as u64, rounds))
                                            .collect::<Vec<u64>>()
                                    })
                                })
                            })
                            .collect();
                        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect::<Vec<_>>()
                    })
                });
                let want: Vec<Vec<u64>> = (0..k)
                    .map(|t| data[..m].iter().map(|x| work(x.1 ^ t as u64, rounds)).collect())
                    .collect();
                ctx.check(got.as_ref() == Some(&want), "slice:order-or-content", || {
                    format!("{k} concurrent callers over {m} elements: results differ from sequential")
                });
            },
            _ => {},
        }
        ctx.event(&op.k, &n.to_le_bytes());
    }
    std::mem::forget(p);
}

impl World for U05 {
    fn property(&self) -> &'static str {
        "U05"
    }
    fn budget(&self, t: Tier) -> (u64, u64) {
        if t == Tier::Quick { (12_000, 25) } else { (500_000, 240) }
    }
    fn gen(&self, r: &mut Prng, _: Tier) -> Plan {
        let names = ["map", "sum", "enumerate", "chunks", "chunks", "panic", "nested", "callers"];
        let ops = (0..r.range(1, 4))
            .map(|_| {
                let big = r.chance(1, 8);
                let n = if r.chance(1, 80) {
                    r.range(65_500, 66_000)
                } else {
                    r.size(if big { 2500 } else { 200 })
                };
                let rounds = if n > 60_000 { 0 } else { r.below(40) };
                let c = if r.chance(1, 12) { r.range(601, 603) } else { r.size(600) };
                Op::new(
                    names[r.below(8) as usize],
                    &[n, r.below(1 << 32), rounds, c, r.below(8), r.below(50)],
                )
            })
            .collect();
        let t = if r.chance(1, 10) { r.below(12) } else { r.below(6) };
        Plan { cfg: vec![t], ops, sched: gen_schedule(r, 17) }
    }
    fn exec(&self, p: &Plan, ctx: &mut Ctx) {
        exec05(p, ctx)
    }
    fn rule(&self) -> &'static str {
        "one run = a seeded pool size, a few uses of the helpers and a seeded schedule (preemptions at basic blocks, wake order, spurious wake-ups); non-trivial = at least one context switch or fault; distinct by hash of results and context switches"
    }
    fn real(&self) -> &'static [&'static str] {
        &["jf-utils parallel helpers", "rayon, rayon-core, crossbeam (real worker threads)", "std synchronisation"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["kernel scheduler, futexes and clocks (simulated)"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["preemption only at basic-block boundaries; sequentially consistent memory"]
    }
    fn step_cap(&self) -> u64 {
        200_000_000
    }
}

struct Tab<E: Pairing> {
    g1: Vec<E::G1Affine>,
    g2: Vec<E::G2Affine>,
    s1: Vec<E::ScalarField>,
    s2: Vec<E::ScalarField>,
    gt: PairingOutput<E>,
}
fn tab<E: Pairing>() -> Tab<E> {
    let mut rng = crate::rng::SimRng::new(99);
    let mut s1: Vec<E::ScalarField> = vec![0u64.into(), 1u64.into(), -E::ScalarField::from(1u64)];
    let mut s2 = s1.clone();
    for _ in 0..13 {
        s1.push(E::ScalarField::rand(&mut rng));
        s2.push(E::ScalarField::rand(&mut rng));
    }
    let g = E::G1Affine::generator();
    let h = E::G2Affine::generator();
    Tab {
        g1: s1.iter().map(|s| (g * s).into_affine()).collect(),
        g2: s2.iter().map(|s| (h * s).into_affine()).collect(),
        s1,
        s2,
        gt: E::pairing(g, h),
    }
}
static BN: OnceLock<Tab<ark_bn254::Bn254>> = OnceLock::new();
static B381: OnceLock<Tab<ark_bls12_381::Bls12_381>> = OnceLock::new();
static B377: OnceLock<Tab<ark_bls12_377::Bls12_377>> = OnceLock::new();

fn exec06<E: Pairing>(plan: &Plan, ctx: &mut Ctx, t: &Tab<E>) {
    let threads = 1 + plan.c(1) as usize % 6;
    let p = pool(threads);
    for op in &plan.ops {
        let n = op.usize(0) % 200;
        let mut r = Prng::new(op.arg(1));
        let ix: Vec<(usize, usize)> = (0..n)
            .map(|_| {
                // identities and repeats are common on purpose
                let z = r.below(5);
                let m = if z == 0 { 3 } else { 16 };
                (r.below(m) as usize, r.below(m) as usize)
            })
            .collect();
        let a: Vec<_> = ix.iter().map(|i| t.g1[i.0]).collect();
        let b: Vec<_> = ix.iter().map(|i| t.g2[i.1]).collect();
        let mut e = E::ScalarField::from(0u64);
        for i in &ix {
            e += t.s1[i.0] * t.s2[i.1];
        }
        let want = t.gt * e;
        let got = ctx.must("multi-pairing", || p.install(|| multi_pairing::<E>(&a, &b)));
        ctx.check(got == Some(want), "multi-pairing:wrong", || {
            format!("multi-pairing of {n} pairs {ix:?} on {threads} threads differs from the product")
        });
        ctx.state(mix(&[n as u64, threads as u64, plan.c(0)]));
        ctx.event("mp", &op.arg(1).to_le_bytes());
        if op.k == "two_callers" {
            let got = ctx.must("concurrent multi-pairing", || {
                std::thread::scope(|s| {
                    let h1 = s.spawn(|| p.install(|| multi_pairing::<E>(&a, &b)));
                    let h2 = s.spawn(|| p.install(|| multi_pairing::<E>(&a[n / 2..], &b[n / 2..])));
                    let h3 = s.spawn(|| p.install(|| multi_pairing::<E>(&a[..n / 2], &b[..n / 2])));
                    (h1.join().ok(), h2.join().ok(), h3.join().ok())
                })
            });
            if let Some((Some(x), Some(y), Some(z))) = got {
                ctx.check(x == want && y + z == want, "multi-pairing:wrong", || {
                    format!("concurrent multi-pairings of {n} pairs are inconsistent")
                });
            } else {
                ctx.violate("multi-pairing:caller-failed", "a calling thread panicked".into());
            }
        }
    }
    let _: fn(&mut Prng, u64) -> E::ScalarField = elem;
    std::mem::forget(p);
}

impl World for U06 {
    fn property(&self) -> &'static str {
        "U06"
    }
    fn budget(&self, t: Tier) -> (u64, u64) {
        if t == Tier::Quick { (4_000, 25) } else { (200_000, 240) }
    }
    fn prepare(&self) {
        BN.get_or_init(tab);
        B381.get_or_init(tab);
        B377.get_or_init(tab);
    }
    fn gen(&self, r: &mut Prng, _: Tier) -> Plan {
        let ops = (0..r.range(1, 2))
            .map(|_| {
                let n = match r.below(100) {
                    0 => r.range(30, 130),
                    1..=9 => r.size(23),
                    _ => r.size(9),
                };
                Op::new(if r.chance(1, 4) { "two_callers" } else { "multi" }, &[n, r.below(1 << 32)])
            })
            .collect();
        Plan { cfg: vec![r.below(3), r.below(6)], ops, sched: gen_schedule(r, 20) }
    }
    fn exec(&self, p: &Plan, ctx: &mut Ctx) {
        match p.c(0) {
            0 => exec06(p, ctx, BN.get().unwrap()),
            1 => exec06(p, ctx, B381.get().unwrap()),
            _ => exec06(p, ctx, B377.get().unwrap()),
        }
    }
    fn rule(&self) -> &'static str {
        "one run = a seeded curve, point lists (with identities and repeats), pool size and schedule; non-trivial = at least one context switch; distinct by hash of results and context switches"
    }
    fn real(&self) -> &'static [&'static str] {
        &["jf-utils multi-pairing", "ark-ec pairings", "rayon (real worker threads)"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["kernel scheduler, futexes and clocks (simulated)"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["oracle: bilinearity of the pairing on the generators; preemption at basic blocks, sequentially consistent memory"]
    }
}
