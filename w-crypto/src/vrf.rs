//! V01: provers and verifiers of verifiable random outputs.
use crate::{rng::SimRng, schemes::*, util::*};
use jf_vrf::{
    blsvrf::{BLSVRFCipherSuite::*, BLSVRFScheme},
    Vrf,
};
use sim::*;

pub struct V01;

fn fresh(wide: bool) -> BLSVRFScheme {
    BLSVRFScheme::new(if wide { VRF_BLS_12_381_SHA512 } else { VRF_BLS_12_381_SHA256 })
}
type Sk = <B381 as Sch>::Sk;
type Vk = <B381 as Sch>::Vk;
type Sig = <B381 as Sch>::Sig;

struct Made {
    key: usize,
    input: Vec<u8>,
    proof: Sig,
    out: Vec<u8>,
}

fn exec(plan: &Plan, ctx: &mut Ctx) -> Option<()> {
    let wide = plan.c(0) & 1 == 1;
    let want_len = if wide { 64 } else { 32 };
    // used for everything, in whatever order things happen
    let mut used = fresh(wide);
    let mut keys: Vec<(Sk, Vk)> = vec![];
    let mut made: Vec<Made> = vec![];
    for i in 0..2 {
        let k = ctx.must("key_gen", || used.key_gen(&(), &mut SimRng::new(mix(&[plan.c(1), i]))).ok())?;
        let Some(k) = k else {
            ctx.violate("keygen-refused", "no key".into());
            return None;
        };
        keys.push(k);
    }
    let few: Vec<Vec<u8>> = (0..4)
        .map(|i| {
            let mut r = Prng::new(mix(&[plan.c(2), i]));
            let n = if i == 0 { 0 } else { r.size(200) as usize };
            r.bytes(n)
        })
        .collect();
    for o in &plan.ops {
        let mut r = Prng::new(o.arg(0));
        match o.k.as_str() {
            "prove" => {
                let key = o.usize(1) % 2;
                let input = few[o.usize(2) % few.len()].clone();
                let mut source = match o.arg(3) % 4 {
                    0 => {
                        ctx.fault("rng_failure");
                        SimRng::failing(0, 0)
                    },
                    1 => {
                        ctx.fault("rng_stuck");
                        SimRng::stuck(r.next())
                    },
                    _ => SimRng::new(r.next()),
                };
                let p = ctx.must("prove", || used.prove(&(), &keys[key].0, &input, &mut source).ok())?;
                let Some(proof) = p else {
                    ctx.violate("prove-refused", "no proof".into());
                    return None;
                };
                let all = ctx.must("evaluate", || {
                    [
                        used.proof_to_hash(&(), &proof).ok(),
                        used.evaluate(&(), &keys[key].0, &input, &mut source).ok(),
                        fresh(wide).proof_to_hash(&(), &proof).ok(),
                        fresh(wide).evaluate(&(), &keys[key].0, &input, &mut SimRng::new(9)).ok(),
                    ]
                })?;
                let Some(out) = all[0].clone() else {
                    ctx.violate("evaluate-refused", "no output".into());
                    return None;
                };
                ctx.event("prove", &out);
                ctx.state(hash_bytes(1, &out));
                ctx.check(all.iter().all(|x| x.as_ref() == Some(&out)), "outputs-differ", || {
                    format!("one key and input give outputs {all:?}")
                });
                ctx.check(out.len() == want_len, "output-length", || format!("{} bytes", out.len()));
                for m in &made {
                    let same = m.key == key && m.input == input;
                    ctx.check((m.out == out) == same, "outputs-not-unique", || {
                        format!("same key and input: {same}, same output: {}", m.out == out)
                    });
                }
                made.push(Made { key, input, proof, out });
            },
            "verify" => {
                let Some(m) = made.get(o.usize(1) % made.len().max(1)) else { continue };
                let x = carry(ctx, Trip::honest(r.next()), "proof", &m.proof);
                let proof = same(ctx, "proof", &m.proof, x)?;
                let x = carry(ctx, Trip::honest(r.next()), "public key", &keys[m.key].1);
                let vk = same(ctx, "public key", &keys[m.key].1, x)?;
                ctx.fault("redelivery");
                let x = ctx.must("verify", || {
                    (used.verify(&(), &proof, &vk, &m.input).ok(), fresh(wide).verify(&(), &proof, &vk, &m.input).ok())
                })?;
                let good = Some((true, Some(m.out.clone())));
                ctx.check(x.0 == good && x.1 == good, "honest-rejected", || format!("verification answered {x:?}"));
            },
            "restart" => {
                let i = o.usize(1) % 2;
                let b = B381::save(&keys[i].0, o.arg(2));
                let k = ctx.must("load", || B381::load(&b, o.arg(2)))?;
                ctx.check(k.as_ref() == Ok(&keys[i].0), "reload:secret key", || "the key changed".into());
                keys[i].0 = k.ok()?;
                used = fresh(wide);
                ctx.fault("restart");
            },
            "attack" => {
                if made.is_empty() {
                    continue;
                }
                let m = &made[o.usize(1) % made.len()];
                let n = &made[o.usize(2) % made.len()];
                let (mut input, mut vk, mut proof) = (m.input.clone(), keys[m.key].1, m.proof.clone());
                match o.arg(3) % 6 {
                    0 => {
                        if !input.is_empty() && r.chance(2, 3) {
                            let i = r.below(input.len() as u64) as usize;
                            input[i] ^= 1 << r.below(8);
                        } else {
                            input.push(0);
                        }
                        ctx.fault("other_input");
                    },
                    1 => {
                        vk = keys[1 - m.key].1;
                        ctx.fault("other_key");
                    },
                    2 => {
                        proof = n.proof.clone();
                        ctx.fault("replayed_proof");
                    },
                    3 => {
                        proof = B381::tamper(&m.proof, &n.proof, r.next(), &mut r)?;
                        ctx.fault("altered_proof");
                    },
                    4 => match carry(ctx, Trip::new(r.next(), 6), "proof", &m.proof)? {
                        Got::Damaged(Ok(p)) => proof = p,
                        _ => continue,
                    },
                    _ => match carry(ctx, Trip::new(r.next(), 6), "public key", &vk)? {
                        Got::Damaged(Ok(p)) => vk = p,
                        _ => continue,
                    },
                }
                let truth = input == m.input && vk == keys[m.key].1 && proof == m.proof;
                let x = ctx.must("verify", || used.verify(&(), &proof, &vk, &input).ok())?;
                ctx.event("attack", &[truth as u8]);
                if truth {
                    ctx.check(x == Some((true, Some(m.out.clone()))), "honest-rejected", || format!("{x:?}"));
                } else {
                    ctx.check(matches!(x, None | Some((false, None))), "forged-output", || {
                        format!("attack {} yields {x:?}", o.arg(3) % 6)
                    });
                }
            },
            _ => {},
        }
    }
    Some(())
}

impl World for V01 {
    fn property(&self) -> &'static str {
        "V01"
    }
    fn budget(&self, t: Tier) -> (u64, u64) {
        if t == Tier::Quick { (20_000, 20) } else { (2_000_000, 240) }
    }
    fn step_cap(&self) -> u64 {
        8_000_000_000
    }
    fn huge_alloc_is_upstream(&self) -> bool {
        true
    }
    fn gen(&self, r: &mut Prng, _: Tier) -> Plan {
        let mut ops = vec![Op::new("prove", &[r.next(), r.below(2), r.below(4), r.below(4)])];
        for _ in 0..r.range(2, 9) {
            let k = *r.pick(&["prove", "prove", "verify", "attack", "attack", "restart"]);
            ops.push(Op::new(k, &[r.next(), r.below(8), r.below(8), r.below(24)]));
        }
        Plan { cfg: vec![r.below(2), r.next(), r.next()], ops, sched: Schedule::quiet() }
    }
    fn exec(&self, p: &Plan, ctx: &mut Ctx) {
        alone();
        exec(p, ctx);
    }
    fn rule(&self) -> &'static str {
        "one run = provers with two keys and a verifier that reuses one instance, over restarts, broken random sources, redelivery and an adversary who changes inputs, keys and proofs; outputs compared with fresh instances; non-trivial = at least one fault; distinct by hash of the event history"
    }
    fn real(&self) -> &'static [&'static str] {
        &["jf-vrf, jf-signature (BLS over BLS12-381), sha2"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["blst: arkworks BLS12-381 behind the same interface", "storage, carriers and random source (simulated)"]
    }
}
