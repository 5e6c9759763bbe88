//! Z04: keys and proofs on faulty storage.
use crate::{carry::{carry, carry_canon, same, Got, Trip}, on_sys, relation::range_bits, rng::SimRng, sys::*};
use ark_ff::One;
use sim::*;

pub struct Z04;

impl World for Z04 {
    fn property(&self) -> &'static str {
        "Z04"
    }
    fn budget(&self, tier: Tier) -> (u64, u64) {
        match tier {
            Tier::Quick => (10_000, 40),
            Tier::Thorough => (2_000_000, 500),
        }
    }
    fn step_cap(&self) -> u64 {
        40_000_000_000
    }
    fn huge_alloc_is_upstream(&self) -> bool {
        true
    }
    fn prepare(&self) {
        prepare()
    }
    /// cfg: [system, range bits or 0, extra message, seed]; ops: the program,
    /// "trip" [what, carrier, fault]
    fn gen(&self, r: &mut Prng, _: Tier) -> Plan {
        let ultra = draw_ultra(r);
        let sys = r.below(8);
        let mut ops = program(r, ultra, 0, 7);
        if r.chance(1, 2) {
            ops.insert(0, Op::new("pub", &[r.next(), 0, r.next(), r.next(), r.next(), r.next()]));
        }
        for _ in 0..if sys >= 6 { r.range(2, 6) } else { r.range(4, 16) } {
            let what = *r.pick(&[0u64, 0, 0, 0, 1, 1, 2, 3, 3, 4, 4, 5]);
            ops.push(Op::new("trip", &[what, r.next() >> 1, r.below(10)]));
        }
        Plan { cfg: vec![sys, ultra, r.next() >> 1, r.next() >> 1], ops, sched: Schedule::quiet() }
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) {
        on_sys!(plan.c(0), z04(plan, ctx))
    }
    fn rule(&self) -> &'static str {
        "parameters, keys and proofs of a random circuit are written to and read from a disk with short, interrupted and failed \
         transfers, crashes before and after sync and damaged blocks, in every encoding; what is reloaded whole must prove and \
         verify like the original, what is damaged must be refused or rejected"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["ark-serialize reports an interrupted write of a boolean instead of retrying; the caller is expected to try again"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &[
            "disk: simulated file with volatile and durable contents",
            "merlin: own STROBE/Keccak transcript, bit-compatible",
            "sha3: own Keccak, bit-compatible",
            "trusted setup: the crate's own test parameters",
        ]
    }
}

fn z04<S: Sys>(plan: &Plan, ctx: &mut Ctx) {
    alone();
    let (trips, prog): (Vec<Op>, Vec<Op>) = plan.ops.iter().cloned().partition(|o| o.k == "trip");
    let Some(s) = statement::<S>(ctx, &prog, range_bits(plan.c(1)), S::srs(0)) else { return };
    let x = extra(plan.c(2));
    let prove = |pk: &Pk<S>| S::prove(&mut SimRng::new(plan.c(3)), &s.b.c, pk, x.clone());
    let Some(p) = ctx.must("prove", || prove(&s.pk)) else { return };
    let Ok(p) = p else {
        ctx.discard("not proved, another property's concern");
    };
    ctx.event("proof", &by(&p));
    // something that was never proved
    let mut wrong = s.pubs.clone();
    let wx = match wrong.last_mut() {
        Some(w) => {
            *w += S::F::one();
            x.clone()
        },
        None => Some(b"some other context".to_vec()),
    };
    let verify = |vk: &Vk<S>, p: &Pf<S>| (S::verify(vk, &s.pubs, p, x.clone()), S::verify(vk, &wrong, p, wx.clone()));
    let mut many = None;
    for o in &trips {
        let mut t = Trip { bools: true, ..Trip::new(o.arg(1), o.arg(2)) };
        ctx.state(mix(&[hash_bytes(4, &by(&p)), o.arg(0), o.arg(1), o.arg(2)]));
        match o.arg(0) {
            0 => {
                let Some(g) = carry(ctx, t, "proof", &p) else { return };
                match g {
                    Got::Whole(q) => {
                        if !ctx.check(q == p, "reload:proof", || "proof changed while stored".into()) {
                            return;
                        }
                        let Some(v) = ctx.must("verify", || verify(&s.vk, &q)) else { return };
                        if !ctx.check(v.0.is_ok() && v.1.is_err(), "verdict on a reloaded proof", || {
                            format!("{}: {v:?}", S::NAME)
                        }) {
                            return;
                        }
                    },
                    Got::Damaged(Ok(q)) if q != p => {
                        ctx.mark("damaged proofs read");
                        let Some(v) = ctx.must("verify a damaged proof", || verify(&s.vk, &q)) else { return };
                        if !ctx.check(v.0.is_err() && v.1.is_err(), "damaged proof accepted", || {
                            format!("{}: {v:?}", S::NAME)
                        }) {
                            return;
                        }
                    },
                    Got::Damaged(_) => ctx.mark("damaged proofs refused"),
                    Got::Failed => {},
                }
            },
            1 => {
                let Some(g) = carry_canon(ctx, t, "verifying key", &s.vk) else { return };
                match g {
                    Got::Whole(k) => {
                        if !ctx.check(by(&k) == by(&s.vk), "reload:verifying key", || "key changed while stored".into()) {
                            return;
                        }
                        let Some(v) = ctx.must("verify", || verify(&k, &p)) else { return };
                        if !ctx.check(v.0.is_ok() && v.1.is_err(), "verdict of a reloaded key", || {
                            format!("{}: {v:?}", S::NAME)
                        }) {
                            return;
                        }
                    },
                    Got::Damaged(Ok(k)) => {
                        ctx.mark("damaged keys read");
                        // a key is trusted, so trouble is allowed, a wrong answer is not
                        if let Ok(v) = ctx.call("verify with a damaged key", || S::verify(&k, &wrong, &p, wx.clone())) {
                            if !ctx.check(v.is_err(), "unproved statement accepted", || {
                                format!("{}: with a damaged key", S::NAME)
                            }) {
                                return;
                            }
                        }
                    },
                    _ => {},
                }
            },
            2 => {
                let Some(g) = carry_canon(ctx, t, "proving key", &s.pk) else { return };
                match g {
                    Got::Whole(k) => {
                        if !ctx.check(by(&k) == by(&s.pk), "reload:proving key", || "key changed while stored".into()) {
                            return;
                        }
                        let Some(q) = ctx.must("prove with a reloaded key", || prove(&k)) else { return };
                        if !ctx.check(q.as_ref() == Ok(&p), "proof with a reloaded key", || {
                            format!("{}: differs, {:?}", S::NAME, q.as_ref().err())
                        }) {
                            return;
                        }
                    },
                    Got::Damaged(Ok(k)) if k != s.pk => {
                        ctx.mark("damaged keys read");
                        if let Ok(Ok(q)) = ctx.call("prove with a damaged key", || prove(&k)) {
                            let Some(v) = ctx.must("verify", || verify(&s.vk, &q)) else { return };
                            if !ctx.check(v.1.is_err(), "unproved statement accepted", || {
                                format!("{}: made with a damaged key", S::NAME)
                            }) {
                                return;
                            }
                        }
                    },
                    _ => {},
                }
            },
            3 => {
                if many.is_none() {
                    let r = ctx.must("batch prove", || {
                        S::batch_prove(&mut SimRng::new(plan.c(3)), &[&s.b.c, &s.b.c], &[&s.pk, &s.pk])
                    });
                    let Some(Ok(b)) = r else { return };
                    many = Some(b);
                }
                let b = many.as_ref().unwrap();
                let check = |b: &Bp<S>| S::verify_batch_proof(&[&s.vk, &s.vk], &[&s.pubs, &s.pubs], b);
                let Some(g) = carry(ctx, t, "batch proof", b) else { return };
                match g {
                    Got::Whole(q) => {
                        if !ctx.check(q == *b, "reload:batch proof", || "proof changed while stored".into()) {
                            return;
                        }
                        let Some(v) = ctx.must("verify", || check(&q)) else { return };
                        if !ctx.check(v.is_ok(), "verdict on a reloaded proof", || format!("{}: {v:?}", S::NAME)) {
                            return;
                        }
                    },
                    Got::Damaged(Ok(q)) if q != *b => {
                        ctx.mark("damaged proofs read");
                        let Some(v) = ctx.must("verify a damaged proof", || check(&q)) else { return };
                        if !ctx.check(v.is_err(), "damaged proof accepted", || S::NAME.into()) {
                            return;
                        }
                    },
                    _ => {},
                }
            },
            4 => {
                if p.plookup_proof.is_some() {
                    continue;
                }
                let Some(f) = ctx.must("to fields", || S::to_fields(p.clone())) else { return };
                // damage that leaves whole field elements
                t.fmt = 0;
                let Some(g) = carry_canon(ctx, t, "field elements", &f) else { return };
                let (v, whole) = match g {
                    Got::Whole(v) => (v, true),
                    Got::Damaged(Ok(v)) => {
                        let same = v == f;
                        (v, same)
                    },
                    _ => continue,
                };
                let Some(q) = ctx.must("from fields", || S::from_fields(v)) else { return };
                if whole {
                    if !ctx.check(q.as_ref() == Ok(&p), "reload:field elements", || {
                        format!("{}: proof changed, {:?}", S::NAME, q.as_ref().err())
                    }) {
                        return;
                    }
                } else if let Ok(q) = q {
                    if q != p {
                        ctx.mark("damaged proofs read");
                        let Some(v) = ctx.must("verify a damaged proof", || verify(&s.vk, &q)) else { return };
                        if !ctx.check(v.0.is_err() && v.1.is_err(), "damaged proof accepted", || S::NAME.into()) {
                            return;
                        }
                    }
                }
            },
            _ => {
                let srs = cut(S::srs(0), s.vk.domain_size + 2);
                let Some(g) = carry_canon(ctx, t, "parameters", &srs) else { return };
                if let Some(srs2) = same(ctx, "parameters", &srs, Some(g)) {
                    let Some(k) = ctx.must("preprocess", || S::preprocess(&srs2, &s.b.c)) else { return };
                    let ok = k.as_ref().is_ok_and(|k| k.0 == s.pk && k.1 == s.vk);
                    if !ctx.check(ok, "keys from reloaded parameters", || format!("{}: differ", S::NAME)) {
                        return;
                    }
                }
            },
        }
    }
}
