//! E01: encryption on pools of every size, ciphertexts carried and altered.
use crate::{rng::SimRng, util::*};
use ark_ec::twisted_edwards::TECurveConfig;
use jf_elgamal::{Ciphertext, EncKey, KeyPair};
use jf_rescue::RescueParameter;
use sim::*;
use std::sync::Arc;

pub struct E01;

pub fn pool(n: usize) -> rayon::ThreadPool {
    rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("pool")
}

fn exec<F: RescueParameter, P: TECurveConfig<BaseField = F> + Clone + Send>(plan: &Plan, ctx: &mut Ctx) -> Option<()> {
    let one = pool(1);
    let many = Arc::new(pool(plan.c(1) as usize));
    let keys: Vec<KeyPair<P>> = (0..2).map(|i| KeyPair::generate(&mut SimRng::new(mix(&[plan.c(2), i])))).collect();
    // message, key, ciphertext made on one thread
    let mut sent: Vec<(Vec<F>, usize, Ciphertext<P>)> = vec![];
    for o in &plan.ops {
        let mut r = Prng::new(o.arg(0));
        match o.k.as_str() {
            "encrypt" => {
                let k = o.usize(1) % 2;
                let msg: Vec<F> = elems(&mut r, o.usize(2));
                let seed = r.next();
                let with_r = o.arg(3) & 1 == 1;
                let make = |ek: &EncKey<P>, msg: &[F]| {
                    if with_r {
                        ek.deterministic_encrypt(elem::<P::ScalarField>(&mut Prng::new(seed)), msg)
                    } else {
                        ek.encrypt(&mut SimRng::new(seed), msg)
                    }
                };
                let ek = keys[k].enc_key();
                let want = ctx.must("encrypt", || one.install(|| make(&ek, &msg)))?;
                let got = ctx.must("encrypt", || many.install(|| make(keys[k].enc_key_ref(), &msg)))?;
                ctx.event("encrypt", &by(&want));
                ctx.state(mix(&[msg.len() as u64, plan.c(0), plan.c(1)]));
                ctx.check(got == want, "schedule-dependent:encrypt", || {
                    format!("{} elements on {} threads encrypt differently", msg.len(), plan.c(1))
                });
                let stream: Vec<F> = want.to_scalars().iter().skip(2).zip(&msg).map(|(c, m)| *c - m).collect();
                let mut seen: Vec<Vec<u8>> = stream.iter().map(by).collect();
                seen.push(by(&F::zero()));
                seen.sort();
                seen.dedup();
                ctx.check(stream.len() == msg.len() && seen.len() == msg.len() + 1, "key-stream-repeats", || {
                    format!("{} elements are hidden by {} values", msg.len(), seen.len() - 1)
                });
                if !with_r {
                    let x = ctx.must("encrypt", || ek.encrypt(&mut SimRng::new(!seed), &msg))?;
                    ctx.check(x != want, "randomness-unused", || "two sources give one ciphertext".into());
                    ctx.fault("rng_failure");
                    let x = ctx.call("encrypt", || ek.encrypt(&mut SimRng::failing(seed, 0), &msg));
                    ctx.check(x.is_err(), "randomness-unused", || "encrypted although the source failed".into());
                }
                sent.push((msg, k, want));
            },
            "decrypt" => {
                let Some((msg, k, ct)) = sent.get(o.usize(1) % sent.len().max(1)).cloned() else { continue };
                let x = carry_canon(ctx, Trip::honest(r.next()), "ciphertext", &ct);
                let ct2 = same(ctx, "ciphertext", &ct, x)?;
                let s = ctx.must("to_scalars", || ct2.to_scalars())?;
                let ct3 = ctx.must("from_scalars", || Ciphertext::<P>::from_scalars(&s))?;
                let Ok(ct3) = ct3 else {
                    ctx.violate("reload:scalars", "an honest ciphertext is refused".into());
                    return None;
                };
                ctx.check(ct3 == ct, "reload:scalars", || "the ciphertext changed".into());
                let x = carry_canon(ctx, Trip::honest(r.next()), "key pair", &keys[k]);
                let kp = same(ctx, "key pair", &keys[k], x)?;
                let a = ctx.must("decrypt", || many.install(|| kp.decrypt(&ct3)))?;
                let b = ctx.must("decrypt", || one.install(|| keys[k].decrypt(&ct2)))?;
                ctx.check(a == msg && b == msg, "wrong-message", || {
                    format!("{} elements decrypt to {a:?} and {b:?}, sent {msg:?}", msg.len())
                });
            },
            "entropy" => {
                let source = SimRng::new(r.next());
                let mut s = Prng::new(r.next());
                let x = ctx.must("key generation", || source.bytes_used(&mut s, |s| KeyPair::<P>::generate(s)))?;
                ctx.fault("altered_random_bytes");
                ctx.check(x >= 28, "keygen-entropy", || format!("a key depends on {x} bytes of its random source"));
                let ek = keys[0].enc_key();
                let x = ctx.must("encrypt", || source.bytes_used(&mut s, |s| by(&ek.encrypt(s, &[F::one()]))))?;
                ctx.check(x >= 28, "encrypt-entropy", || format!("a ciphertext depends on {x} bytes of its random source"));
            },
            "callers" => {
                // several threads share one key pair and one pool
                let Some((msg, k, ct)) = sent.get(o.usize(1) % sent.len().max(1)).cloned() else { continue };
                let kp = Arc::new(keys[k].clone());
                let ct = Arc::new(ct);
                let got = ctx.must("decrypt", || {
                    let hs: Vec<_> = (0..3)
                        .map(|_| {
                            let (kp, ct, many) = (kp.clone(), ct.clone(), many.clone());
                            std::thread::spawn(move || many.install(|| kp.decrypt(&ct)))
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
                })?;
                ctx.check(got.iter().all(|x| *x == msg), "wrong-message", || "concurrent callers decrypt differently".into());
            },
            "wrong_key" => {
                let Some((msg, k, ct)) = sent.get(o.usize(1) % sent.len().max(1)) else { continue };
                let x = ctx.must("decrypt", || keys[1 - k].decrypt(ct))?;
                ctx.fault("other_key");
                // a zero ephemeral secret leaves every reader with the same key
                let open = by(ct)[..] == by(&keys[*k].enc_key().deterministic_encrypt(P::ScalarField::from(0u64), msg))[..];
                ctx.check(x.len() == msg.len() && (x != *msg || msg.is_empty() || open), "other-key-decrypts", || {
                    format!("another key recovers {} elements", msg.len())
                });
            },
            "scalars" => {
                let Some((msg, k, ct)) = sent.get(o.usize(1) % sent.len().max(1)) else { continue };
                let mut s = ct.to_scalars();
                let n = s.len() as u64;
                match o.arg(3) % 6 {
                    0 => s[r.below(2) as usize] = elem(&mut r),
                    1 => s.swap(0, 1),
                    2 => s.truncate(r.below(3) as usize),
                    3 => s[r.below(n) as usize] += F::one(),
                    4 => s[0] = -s[0],
                    _ => {
                        s[0] = F::zero();
                        s[1] = *r.pick(&[F::zero(), F::one(), -F::one()]);
                    },
                }
                ctx.fault("damaged_scalars");
                let x = ctx.must("from_scalars", || Ciphertext::<P>::from_scalars(&s))?;
                ctx.event("from_scalars", &[x.is_ok() as u8]);
                ctx.check(x.is_err() || s.len() >= 2, "short-accepted", || "fewer than two scalars".into());
                if let Ok(x) = x {
                    ctx.check(x.to_scalars() == s, "reload:scalars", || "the ciphertext changed".into());
                    let y = ctx.must("decrypt", || keys[*k].decrypt(&x))?;
                    ctx.check((y == *msg) <= (x == *ct || msg.is_empty() || s.len() < 3), "altered-decrypts", || {
                        "an altered ciphertext decrypts to the message".into()
                    });
                }
            },
            "damage" => {
                let Some((msg, k, ct)) = sent.get(o.usize(1) % sent.len().max(1)) else { continue };
                if let Got::Damaged(Ok(x)) = carry_canon(ctx, Trip::new(r.next(), 4 + o.arg(3) % 4), "ciphertext", ct)? {
                    let y = ctx.must("decrypt", || keys[*k].decrypt(&x))?;
                    ctx.check((y == *msg) <= (x == *ct || msg.is_empty()), "altered-decrypts", || {
                        "a damaged ciphertext decrypts to the message".into()
                    });
                }
                carry_canon(ctx, Trip::new(r.next(), 4 + o.arg(3) % 4), "encryption key", keys[0].enc_key_ref())?;
            },
            _ => {},
        }
    }
    std::mem::forget(many);
    std::mem::forget(one);
    Some(())
}

impl World for E01 {
    fn property(&self) -> &'static str {
        "E01"
    }
    fn budget(&self, t: Tier) -> (u64, u64) {
        if t == Tier::Quick { (20_000, 25) } else { (2_000_000, 300) }
    }
    fn step_cap(&self) -> u64 {
        8_000_000_000
    }
    fn huge_alloc_is_upstream(&self) -> bool {
        true
    }
    fn gen(&self, r: &mut Prng, _: Tier) -> Plan {
        let size = |r: &mut Prng| match r.below(120) {
            0 => 1000 + r.below(90),
            1..=10 => r.below(120),
            _ => r.size(21),
        };
        let mut ops = vec![Op::new("encrypt", &[r.next(), r.below(2), size(r), r.below(2)])];
        for _ in 0..r.range(1, 6) {
            let k = if r.chance(1, 24) { "entropy" } else { "" };
            let k = if k != "" { k } else { *r.pick(&["encrypt", "decrypt", "decrypt", "callers", "wrong_key", "scalars", "scalars", "damage"]) };
            let n = size(r);
            ops.push(Op::new(k, &[r.next(), r.below(4), n, r.below(24)]));
        }
        Plan { cfg: vec![r.below(3), r.range(1, 6), r.next()], ops, sched: gen_schedule(r, 20) }
    }
    fn exec(&self, p: &Plan, ctx: &mut Ctx) {
        match p.c(0) {
            0 => exec::<_, ark_ed_on_bn254::EdwardsConfig>(p, ctx),
            1 => exec::<_, ark_ed_on_bls12_381::EdwardsConfig>(p, ctx),
            _ => exec::<_, ark_ed_on_bls12_377::EdwardsConfig>(p, ctx),
        };
    }
    fn rule(&self) -> &'static str {
        "one run = encryptions on one thread and on a pool of 1-6 threads under the schedule, ciphertexts and keys stored and sent over faulty I/O or as field elements, decrypted by the right and by wrong readers and after alterations; non-trivial = at least one fault or preemption; distinct by hash of the event history"
    }
    fn real(&self) -> &'static [&'static str] {
        &["jf-elgamal over three curves, jf-rescue, rayon"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["thread scheduling, storage and random source (simulated)"]
    }
}
