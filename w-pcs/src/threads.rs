//! K01: provers on pools of every size, and callers sharing parameters.
use crate::{on_curve, util::*};
use ark_ec::pairing::Pairing;
use jf_pcs::{prelude::*, UnivariatePCS};
use sim::*;
use std::sync::Arc;

pub struct K01;

impl World for K01 {
    fn property(&self) -> &'static str {
        "K01"
    }
    fn budget(&self, tier: Tier) -> (u64, u64) {
        match tier {
            Tier::Quick => (6_000, 25),
            Tier::Thorough => (2_000_000, 500),
        }
    }
    fn step_cap(&self) -> u64 {
        4_000_000_000
    }
    fn prepare(&self) {
        prepare()
    }
    /// cfg: [curve, threads, callers]
    fn gen(&self, r: &mut Prng, tier: Tier) -> Plan {
        let big = tier == Tier::Thorough || r.chance(1, 8);
        let n = r.range(1, 3);
        let ops = (0..n)
            .map(|_| {
                let k = *r.pick(&[
                    "commit", "batch_commit", "open", "batch_open", "multi_open", "rou", "points", "ml_commit",
                    "ml_open", "ml_batch",
                ]);
                let d = match k {
                    "commit" | "open" if big => r.below(DEG as u64 / 4),
                    "batch_commit" if big => r.size(100),
                    _ => r.size(20),
                };
                Op::new(k, &[r.next(), d, r.size(9)])
            })
            .collect();
        Plan {
            cfg: vec![r.below(8), r.range(1, 6), r.below(4)],
            ops,
            sched: gen_schedule(r, 22),
        }
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) {
        on_curve!(plan.c(0), exec(plan, ctx))
    }
    fn rule(&self) -> &'static str {
        "every prover operation is run alone on one thread, then on a pool of 1-6 threads under the \
         schedule (in some runs from several callers at once sharing the parameters); the bytes must agree"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
}

/// One operation; its result as bytes.
fn run<E: Cv>(o: &Op) -> Vec<u8> {
    let mut r = Prng::new(o.arg(0));
    let d = o.usize(1).min(DEG);
    let k = o.usize(2).max(1);
    let srs = E::uni(o.arg(0));
    type F<E> = <E as Pairing>::ScalarField;
    match o.k.as_str() {
        "commit" => {
            let (ck, _) = Uni::<E>::trim(srs, d, None).unwrap();
            rb(Uni::<E>::commit(&ck, &poly(&mut r, d)))
        },
        "batch_commit" => {
            let (ck, _) = Uni::<E>::trim(srs, d, None).unwrap();
            let p: Vec<_> = (0..k)
                .map(|_| {
                    let x = r.below(d as u64 + 1) as usize;
                    poly(&mut r, x)
                })
                .collect();
            rb(Uni::<E>::batch_commit(&ck, &p))
        },
        "open" => {
            let (ck, _) = Uni::<E>::trim(srs, d, None).unwrap();
            rb(Uni::<E>::open(&ck, &poly(&mut r, d), &point(&mut r)))
        },
        "batch_open" => {
            let (ck, _) = Uni::<E>::trim(srs, d, None).unwrap();
            let p: Vec<_> = (0..k).map(|_| poly(&mut r, d)).collect();
            let z: Vec<F<E>> = (0..k).map(|_| point(&mut r)).collect();
            let c = Uni::<E>::batch_commit(&ck, &p).unwrap();
            rb(Uni::<E>::batch_open(&ck, &c, &p, &z))
        },
        "multi_open" => {
            let (ck, _) = Uni::<E>::trim_fft_size(srs, d).unwrap();
            let z: Vec<F<E>> = (0..k).map(|_| point(&mut r)).collect();
            rb(Uni::<E>::multi_open(&ck, &poly(&mut r, d), &z))
        },
        "rou" => {
            let (ck, _) = Uni::<E>::trim_fft_size(srs, d).unwrap();
            let dom = Uni::<E>::multi_open_rou_eval_domain(d, k).unwrap();
            rb(Uni::<E>::multi_open_rou(&ck, &poly(&mut r, d), k, &dom))
        },
        "points" => {
            let (ck, _) = Uni::<E>::trim(srs, d, None).unwrap();
            let z: Vec<F<E>> = (0..k).map(|_| point(&mut r)).collect();
            rb(Uni::<E>::multi_point_open(&ck, &poly(&mut r, d), &z))
        },
        x => {
            let srs = E::ml(o.arg(0));
            let nv = 1 + d % 4;
            match x {
                "ml_commit" => {
                    let (ck, _) = Ml::<E>::trim(srs, 1, Some(nv)).unwrap();
                    rb(Ml::<E>::commit(&ck, &mle(&mut r, nv)))
                },
                "ml_open" => {
                    let (ck, _) = Ml::<E>::trim(srs, 1, Some(nv)).unwrap();
                    rb(Ml::<E>::open(&ck, &mle(&mut r, nv), &ml_point(&mut r, nv)))
                },
                _ => {
                    let k = 1 + k % 4;
                    let nv = 1 + d % 3;
                    let m = get_batched_nv(nv, k);
                    let (ck, _) = Ml::<E>::trim(srs, MLDEG, Some(m)).unwrap();
                    let p: Vec<_> = (0..k).map(|_| mle(&mut r, nv)).collect();
                    let z: Vec<_> = (0..k).map(|_| ml_point(&mut r, nv)).collect();
                    let c = Ml::<E>::batch_commit(&ck, &p).unwrap();
                    let mut b = by(&c);
                    b.extend(rb(Ml::<E>::batch_open(&ck, &c, &p, &z)));
                    b
                },
            }
        },
    }
}

fn exec<E: Cv>(plan: &Plan, ctx: &mut Ctx) {
    let one = pool(1);
    let mut want = vec![];
    for o in &plan.ops {
        let Some(b) = ctx.must(&o.k, || one.install(|| run::<E>(o))) else { return };
        ctx.event(&o.k, &b);
        ctx.state(hash_bytes(1, &b));
        want.push(b);
    }
    let threads = plan.c(1) as usize;
    let many = Arc::new(pool(threads));
    if plan.c(2) == 0 {
        // several callers, each with its own order of the same operations
        let got = ctx.must("concurrent callers", || {
            let hs: Vec<_> = (0..3usize)
                .map(|t| {
                    let ops = plan.ops.clone();
                    let many = many.clone();
                    std::thread::spawn(move || {
                        let n = ops.len();
                        (0..n)
                            .map(|i| {
                                let j = (i + t) % n;
                                (j, many.install(|| run::<E>(&ops[j])))
                            })
                            .collect::<Vec<_>>()
                    })
                })
                .collect();
            hs.into_iter().flat_map(|h| h.join().unwrap()).collect::<Vec<_>>()
        });
        let Some(got) = got else { return };
        for (j, b) in got {
            ctx.check(b == want[j], &format!("differs:{}", plan.ops[j].k), || {
                format!("{}: {:?} from one of three callers on {threads} threads differs", E::NAME, plan.ops[j])
            });
        }
    } else {
        for (o, w) in plan.ops.iter().zip(&want) {
            let Some(b) = ctx.must(&o.k, || many.install(|| run::<E>(o))) else { return };
            ctx.check(&b == w, &format!("differs:{}", o.k), || {
                format!("{}: {o:?} on {threads} threads differs from one thread", E::NAME)
            });
        }
    }
    std::mem::forget(many);
    std::mem::forget(one);
}
