//! X01: randomised evaluation of a keyed function.
use crate::{
    fields::{bytes_of, elem},
    rng::SimRng,
};
use ark_bn254::Fr;
use ark_std::UniformRand;
use jf_prf::PRF;
use sim::*;

pub struct X01;

#[derive(Debug)]
pub struct Refused;
impl std::fmt::Display for Refused {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "refused")
    }
}
impl std::error::Error for Refused {}

/// A keyed function with a field seed; refuses inputs that start with zero.
struct Poly;
impl PRF for Poly {
    type Input = Vec<Fr>;
    type Output = Fr;
    type Seed = Fr;
    type Error = Refused;
    fn evaluate<S: std::borrow::Borrow<Fr>, I: std::borrow::Borrow<Vec<Fr>>>(
        s: S,
        i: I,
    ) -> Result<Fr, Refused> {
        let (s, i) = (s.borrow(), i.borrow());
        if i.first() == Some(&Fr::from(0u64)) {
            return Err(Refused);
        }
        let mut a = Fr::from(1u64);
        for x in i {
            a = a * s + x;
        }
        Ok(a * s)
    }
}
/// Byte seed, byte output; refuses some seeds.
struct Mix;
impl PRF for Mix {
    type Input = Vec<u8>;
    type Output = u64;
    type Seed = u64;
    type Error = Refused;
    fn evaluate<S: std::borrow::Borrow<u64>, I: std::borrow::Borrow<Vec<u8>>>(
        s: S,
        i: I,
    ) -> Result<u64, Refused> {
        let i = i.borrow();
        if i.first() == Some(&0) || s.borrow() % 5 == 0 {
            return Err(Refused);
        }
        Ok(hash_bytes(*s.borrow(), i))
    }
}
/// A seed of two words.
struct Pair;
impl PRF for Pair {
    type Input = u64;
    type Output = u64;
    type Seed = (u64, Fr);
    type Error = Refused;
    fn evaluate<S: std::borrow::Borrow<(u64, Fr)>, I: std::borrow::Borrow<u64>>(
        s: S,
        i: I,
    ) -> Result<u64, Refused> {
        if *i.borrow() == 0 {
            return Err(Refused);
        }
        let s = s.borrow();
        Ok(mix(&[s.0, hash_bytes(0, &bytes_of(&s.1)), *i.borrow()]))
    }
}

fn exec<P: PRF>(plan: &Plan, ctx: &mut Ctx, input: impl Fn(u64) -> P::Input)
where
    P::Seed: PartialEq,
{
    let mut rng = SimRng::new(plan.c(1));
    let mut saved = rng.clone();
    let mut seen: Vec<P::Seed> = vec![];
    for op in &plan.ops {
        match op.k.as_str() {
            "eval" => {
                let i = input(op.arg(0));
                let mut shadow = rng.clone();
                let Some(r) = ctx.must("evaluate with random seed", || {
                    P::evaluate_with_rand_seed(&mut rng, &i).map_err(|e| e.to_string())
                }) else {
                    return;
                };
                let expect = P::Seed::rand(&mut shadow);
                match r {
                    Ok((s, o)) => {
                        ctx.event("eval", &bytes_of(&o));
                        ctx.check(s == expect, "prf:seed-not-from-source", || {
                            format!("returned seed {s:?} is not the next value {expect:?} of the random source")
                        });
                        let again = P::evaluate(&s, &i).ok();
                        ctx.check(again.as_ref() == Some(&o), "prf:not-replayable", || {
                            format!("output {o:?} but evaluating with the returned seed gives {again:?}")
                        });
                        ctx.check(rng.drawn > 0 && !seen.contains(&s), "prf:seed-reused", || {
                            format!("seed {s:?} was used before")
                        });
                        ctx.state(hash_bytes(3, &bytes_of(&s)));
                        seen.push(s);
                    },
                    Err(_) => {
                        let direct = P::evaluate(&expect, &i).is_err();
                        ctx.check(direct, "prf:spurious-error", || "randomised evaluation failed where the plain one works".into());
                        ctx.fault("evaluation_refused");
                    },
                }
            },
            "save" => saved = rng.clone(),
            "rollback" => {
                rng = saved.clone();
                seen.clear();
                ctx.fault("rng_rolled_back");
            },
            "entropy_failure" => {
                let i = input(op.arg(0));
                let mut bad = rng.clone();
                bad.fail_at = bad.drawn;
                let r = ctx.call("evaluate with failing source", || P::evaluate_with_rand_seed(&mut bad, &i).is_ok());
                ctx.fault("rng_failure");
                ctx.check(r.is_err(), "prf:ignores-source", || {
                    "evaluation succeeded although the random source failed".into()
                });
            },
            _ => {},
        }
    }
}

impl World for X01 {
    fn property(&self) -> &'static str {
        "X01"
    }
    fn budget(&self, t: Tier) -> (u64, u64) {
        if t == Tier::Quick { (20_000, 10) } else { (500_000, 60) }
    }
    fn gen(&self, r: &mut Prng, _: Tier) -> Plan {
        let names = ["eval", "eval", "eval", "save", "rollback", "entropy_failure"];
        let ops = (0..r.range(2, 16))
            .map(|_| Op::new(names[r.below(6) as usize], &[r.below(1 << 20)]))
            .collect();
        Plan { cfg: vec![r.below(3), r.next() >> 8], ops, sched: Schedule::quiet() }
    }
    fn exec(&self, p: &Plan, ctx: &mut Ctx) {
        match p.c(0) {
            0 => exec::<Poly>(p, ctx, |s| {
                let mut r = Prng::new(s);
                (0..1 + s % 5).map(|_| elem(&mut r, if s % 7 == 0 { 0 } else { 7 })).collect()
            }),
            1 => exec::<Mix>(p, ctx, |s| {
                let mut b = Prng::new(s).bytes((s % 9) as usize);
                if s % 7 == 0 && !b.is_empty() {
                    b[0] = 0;
                }
                b
            }),
            _ => exec::<Pair>(p, ctx, |s| s % 5),
        }
    }
    fn rule(&self) -> &'static str {
        "one run = a seeded sequence of evaluations, checkpoints, rollbacks and failures of the random source for three keyed functions; non-trivial = at least one evaluation or fault; distinct by hash of the event history"
    }
    fn real(&self) -> &'static [&'static str] {
        &["jf-prf trait's provided evaluation"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["random source (simulated)", "keyed functions (three stand-ins implementing the trait)"]
    }
}
