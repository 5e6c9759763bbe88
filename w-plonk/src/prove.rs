//! Z01: honest proofs on every schedule.  Z05: blinding.
use crate::{circ::*, on_sys, relation::range_bits, rng::SimRng, sys::*};
use ark_ec::{AffineRepr, CurveGroup};
use ark_serialize::CanonicalDeserialize;
use jf_relation::Arithmetization;
use sim::*;
use std::{collections::HashSet, sync::Arc};

pub struct Z01;
pub struct Z05;

impl World for Z01 {
    fn property(&self) -> &'static str {
        "Z01"
    }
    fn budget(&self, tier: Tier) -> (u64, u64) {
        match tier {
            Tier::Quick => (6_000, 40),
            Tier::Thorough => (2_000_000, 500),
        }
    }
    fn step_cap(&self) -> u64 {
        20_000_000_000
    }
    fn prepare(&self) {
        prepare()
    }
    /// cfg: [system, range bits or 0, threads, callers, parameters cut, rng seed, extra message, instances]
    fn gen(&self, r: &mut Prng, tier: Tier) -> Plan {
        let ultra = draw_ultra(r);
        let max = if tier == Tier::Thorough { 120 } else if r.chance(1, 6) { 60 } else { 12 };
        Plan {
            ops: program(r, ultra, 0, max),
            cfg: vec![
                r.below(8),
                ultra,
                r.range(1, 5),
                r.below(5),
                r.below(6),
                r.next() >> 1,
                r.next() >> 1,
                if r.chance(1, 5) { r.range(2, 4) } else { 1 },
            ],
            sched: gen_schedule(r, 24),
        }
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) {
        on_sys!(plan.c(0), z01(plan, ctx))
    }
    fn rule(&self) -> &'static str {
        "a random satisfied circuit is preprocessed and proved on one thread, then on a pool of 1-5 threads under the \
         schedule (in some runs by three callers at once); proving must succeed exactly when the parameters are large \
         enough, the proof must verify, and keys and proofs must agree byte for byte"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
}

#[derive(PartialEq, Clone)]
enum Out {
    TooLarge(String),
    Refused(String),
    /// keys and proof, and whether the proof verified
    Done(Vec<u8>, Vec<u8>, Result<(), String>),
    /// The circuit could not be built as the model says.
    Foreign,
}

fn session<S: Sys>(plan: &Plan) -> Out {
    let mut b = Built::<S::F>::build(&plan.ops, range_bits(plan.c(1)));
    if b.wrong.is_some() || b.c.finalize_for_arithmetization().is_err() {
        return Out::Foreign;
    }
    let n = b.c.srs_size().unwrap();
    let srs = S::srs(plan.c(5));
    let small;
    let srs = match plan.c(4) {
        4 if n + 1 <= srs.powers_of_g.len() => {
            small = cut(srs, n);
            &small
        },
        5 if n <= srs.powers_of_g.len() => {
            small = cut(srs, n - 1);
            &small
        },
        _ => srs,
    };
    let fits = srs.powers_of_g.len() > n;
    let (pk, vk) = match (S::preprocess(srs, &b.c), fits) {
        (Ok(k), true) => k,
        (Err(e), true) => return Out::Refused(format!("preprocess: {e}")),
        (Ok(_), false) => return Out::Refused("preprocessing succeeded with too small parameters".into()),
        (Err(e), false) => return Out::TooLarge(e),
    };
    let mut keys = by(&pk);
    keys.extend(by(&vk));
    let mut rng = SimRng::new(plan.c(5));
    let pubs = b.pub_values();
    let k = plan.c(7) as usize;
    if k <= 1 {
        let x = extra(plan.c(6));
        match S::prove(&mut rng, &b.c, &pk, x.clone()) {
            Ok(p) => Out::Done(keys, by(&p), S::verify(&vk, &pubs, &p, x)),
            Err(e) => Out::Refused(format!("prove: {e}")),
        }
    } else {
        match S::batch_prove(&mut rng, &vec![&b.c; k], &vec![&pk; k]) {
            Ok(p) => Out::Done(keys, by(&p), S::verify_batch_proof(&vec![&vk; k], &vec![&pubs[..]; k], &p)),
            Err(e) => Out::Refused(format!("batch prove: {e}")),
        }
    }
}

fn z01<S: Sys>(plan: &Plan, ctx: &mut Ctx) {
    let one = pool(1);
    let Some(want) = ctx.must("prove", || one.install(|| session::<S>(plan))) else { return };
    match &want {
        Out::Foreign => ctx.discard("builder disagrees with the model, the circuit property's concern"),
        Out::TooLarge(e) => {
            ctx.mark("parameters too small");
            ctx.note(e.clone());
        },
        Out::Refused(e) => {
            ctx.violate("refused", format!("{}: {e}", S::NAME));
            return;
        },
        Out::Done(k, p, v) => {
            ctx.event("keys", k);
            ctx.event("proof", p);
            ctx.state(mix(&[hash_bytes(1, k), hash_bytes(2, p)]));
            if !ctx.check(v.is_ok(), "honest proof rejected", || format!("{}: {v:?}", S::NAME)) {
                return;
            }
            ctx.mark(&format!("proofs {}", S::NAME));
        },
    }
    let threads = plan.c(2) as usize;
    let many = Arc::new(pool(threads));
    let got = if plan.c(3) == 0 {
        ctx.must("concurrent callers", || {
            let hs: Vec<_> = (0..3usize)
                .map(|_| {
                    let (p, many) = (plan.clone(), many.clone());
                    std::thread::spawn(move || many.install(|| session::<S>(&p)))
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
        })
    } else {
        ctx.must("prove", || vec![many.install(|| session::<S>(plan))])
    };
    let Some(got) = got else { return };
    for g in got {
        let what = match (&g, &want) {
            (Out::Done(k, p, v), Out::Done(k2, p2, v2)) => {
                if k != k2 {
                    "keys"
                } else if p != p2 {
                    "proof"
                } else if v != v2 {
                    "verdict"
                } else {
                    continue;
                }
            },
            (a, b) if a == b => continue,
            _ => "answer",
        };
        ctx.violate(&format!("schedule:{what}"), format!("{}: {what} on {threads} threads differs", S::NAME));
    }
    std::mem::forget(one);
    std::mem::forget(many);
}

impl World for Z05 {
    fn property(&self) -> &'static str {
        "Z05"
    }
    fn budget(&self, tier: Tier) -> (u64, u64) {
        match tier {
            Tier::Quick => (10_000, 30),
            Tier::Thorough => (2_000_000, 400),
        }
    }
    fn step_cap(&self) -> u64 {
        20_000_000_000
    }
    fn prepare(&self) {
        prepare()
    }
    /// cfg: [system, range bits or 0, extra message, instances]; ops "prove"
    /// [rng seed, behaviour of the random source, where it changes]
    fn gen(&self, r: &mut Prng, _: Tier) -> Plan {
        let ultra = draw_ultra(r);
        let mut ops = program(r, ultra, 0, 10);
        let mut seeds: Vec<u64> = vec![];
        for _ in 0..r.range(2, 4) {
            let s = if !seeds.is_empty() && r.chance(1, 4) { *r.pick(&seeds) } else { r.next() >> 1 };
            seeds.push(s);
            ops.push(Op::new("prove", &[s, r.below(8), r.below(200)]));
        }
        Plan {
            cfg: vec![r.below(8), ultra, r.next() >> 1, if r.chance(1, 4) { r.range(2, 3) } else { 1 }],
            ops,
            sched: Schedule::quiet(),
        }
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) {
        on_sys!(plan.c(0), z05(plan, ctx))
    }
    fn rule(&self) -> &'static str {
        "one statement is proved several times with fresh, repeated, stuck and failing random sources; proofs from \
         equal streams must be equal, from different streams differ in every commitment that depends on the witness, \
         with unrelated masks, and a failing source must yield no proof"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
}

/// Commitments by the group of polynomials they belong to; all depend on the witness.
fn masked<G: AffineRepr>(p: &Parts<G>) -> Vec<(&'static str, Vec<G>)> {
    let mut v = vec![];
    for w in &p.wires {
        v.push(("wires", w.clone()));
    }
    v.push(("permutation", p.perm.clone()));
    for l in p.lookup.iter().flatten() {
        v.push(("sorted vectors", l.h.clone()));
        v.push(("lookup product", vec![l.prod]));
    }
    v.push(("quotient", p.quot.clone()));
    v.push(("openings", vec![p.open, p.shifted]));
    v
}

fn z05<S: Sys>(plan: &Plan, ctx: &mut Ctx) {
    alone();
    let (prog, tries): (Vec<Op>, Vec<Op>) = plan.ops.iter().cloned().partition(|o| o.k != "prove");
    let Some(s) = statement::<S>(ctx, &prog, range_bits(plan.c(1)), S::srs(0)) else { return };
    let k = (plan.c(3) as usize).max(1);
    let x = extra(plan.c(2));
    let mut made: Vec<((u64, u64), Bp<S>, u64)> = vec![];
    for t in &tries {
        let mut rng = SimRng::new(t.arg(0));
        let mut id = (t.arg(0), 0);
        match t.arg(1) {
            6 => {
                rng = SimRng::stuck(t.arg(0) >> 4);
                id = (t.arg(0), 1);
            },
            7 => rng = SimRng::failing(t.arg(0), t.arg(2)),
            _ => {},
        }
        let fails = t.arg(1) == 7;
        let r = ctx.call("prove", || {
            if k == 1 {
                S::prove(&mut rng, &s.b.c, &s.pk, x.clone()).map(|p| (Bp::<S>::from(p.clone()), Some(p)))
            } else {
                S::batch_prove(&mut rng, &vec![&s.b.c; k], &vec![&s.pk; k]).map(|p| (p, None))
            }
        });
        let (bp, p) = match r {
            Ok(Ok(p)) => p,
            Ok(Err(e)) => {
                ctx.violate("refused", format!("{}: {e}", S::NAME));
                return;
            },
            Err(_) if fails => {
                ctx.fault("failing random source");
                continue;
            },
            Err(e) => {
                ctx.violate("panic:prove", e);
                return;
            },
        };
        let ok = match &p {
            Some(p) => S::verify(&s.vk, &s.pubs, p, x.clone()),
            None => S::verify_batch_proof(&vec![&s.vk; k], &vec![&s.pubs[..]; k], &bp),
        };
        if !ctx.check(ok.is_ok(), "honest proof rejected", || format!("{}: {ok:?}", S::NAME)) {
            return;
        }
        ctx.event("proof", &by(&bp));
        ctx.state(hash_bytes(3, &by(&bp)));
        if t.arg(1) == 6 {
            ctx.fault("stuck random source");
        }
        made.push((id, bp, t.arg(1)));
    }
    for i in 0..made.len() {
        for j in 0..i {
            let (a, b) = (&made[i], &made[j]);
            if a.0 == b.0 {
                ctx.fault("random source rolled back");
                let same = by(&a.1) == by(&b.1);
                if !ctx.check(same, "not reproducible", || format!("{}: same random outputs, other proof", S::NAME)) {
                    return;
                }
                continue;
            }
            let read = |p: &Bp<S>| Parts::<G1<S>>::deserialize_uncompressed_unchecked(&by(p)[..]);
            let (Ok(p), Ok(q)) = (read(&a.1), read(&b.1)) else {
                ctx.mark("encoding not understood");
                continue;
            };
            if by(&p) != by(&a.1) {
                ctx.mark("encoding not understood");
                continue;
            }
            ctx.mark("pairs of proofs compared");
            for ((what, x), (_, y)) in masked(&p).into_iter().zip(masked(&q)) {
                let mut seen = HashSet::new();
                for (i, (x, y)) in x.iter().zip(&y).enumerate() {
                    if !ctx.check(x != y, &format!("unblinded:{what}"), || {
                        format!("{}: {what} commitment {i} is the same in two proofs with different randomness", S::NAME)
                    }) {
                        return;
                    }
                    // a stuck source gives equal masks
                    if a.0 .1 == 0 && b.0 .1 == 0 && what != "openings" {
                        let d = (x.into_group() - y.into_group()).into_affine();
                        if !ctx.check(seen.insert(by(&d)), &format!("shared mask:{what}"), || {
                            format!("{}: {what} commitment {i} has the mask of an earlier one", S::NAME)
                        }) {
                            return;
                        }
                    }
                }
            }
        }
    }
}
