//! A01: sealed messages, their carriers and an adversary.
use crate::{rng::SimRng, util::*};
use jf_aead::{Ciphertext, EncKey, KeyPair};
use serde_json::Value;
use sim::*;

pub struct A01;

fn carry_any<T>(ctx: &mut Ctx, t: Trip, what: &str, x: &T) -> Option<Got<T>>
where
    T: ark_serialize::CanonicalSerialize + ark_serialize::CanonicalDeserialize + serde::Serialize + serde::de::DeserializeOwned,
{
    if t.fmt & 4 == 0 {
        carry_canon(ctx, t, what, x)
    } else {
        carry_serde(ctx, t, what, x)
    }
}

/// Changes a ciphertext through its text form, whatever that looks like.
fn alter(a: &mut Value, b: &Value, r: &mut Prng) -> &'static str {
    fn lists<'a>(v: &'a mut Value, out: &mut Vec<&'a mut Vec<Value>>) {
        match v {
            Value::Array(x) => out.push(x),
            Value::Object(o) => o.values_mut().for_each(|x| lists(x, out)),
            _ => {},
        }
    }
    let names: Vec<String> = a.as_object().map(|o| o.keys().cloned().collect()).unwrap_or_default();
    if !names.is_empty() && r.chance(1, 3) {
        let k = r.pick(&names).clone();
        if let Some(x) = b.get(&k) {
            a[&k] = x.clone();
        }
        return "swapped_part";
    }
    let mut l = vec![];
    lists(a, &mut l);
    if l.is_empty() {
        return "nothing";
    }
    let i = r.below(l.len() as u64) as usize;
    let x = &mut *l[i];
    let n = x.len() as u64;
    match r.below(5) {
        0 => {
            x.pop();
            "cut_part"
        },
        1 => {
            x.push(Value::from(r.below(256)));
            "extended_part"
        },
        2 => {
            x.clear();
            "emptied_part"
        },
        _ if n > 0 => {
            let j = r.below(n) as usize;
            if let Some(v) = x[j].as_u64() {
                x[j] = Value::from(v ^ (1 << r.below(8)));
            }
            "altered_part"
        },
        _ => "nothing",
    }
}

struct Sealed {
    to: usize,
    msg: Vec<u8>,
    aad: Vec<u8>,
    ct: Ciphertext,
}

fn exec(plan: &Plan, ctx: &mut Ctx) -> Option<()> {
    let mut keys: Vec<KeyPair> = (0..2).map(|i| KeyPair::generate(&mut SimRng::new(mix(&[plan.c(0), i])))).collect();
    let publ: Vec<EncKey> = keys.iter().map(|k| k.enc_key()).collect();
    let mut sealed: Vec<Sealed> = vec![];
    let text = |r: &mut Prng| {
        let n = if r.chance(1, 20) { r.below(3000) } else { r.size(70) } as usize;
        r.bytes(n)
    };
    for o in &plan.ops {
        let mut r = Prng::new(o.arg(0));
        match o.k.as_str() {
            "seal" => {
                let to = o.usize(1) % 2;
                let (msg, aad) = (text(&mut r), text(&mut r));
                // the recipient's key arrives in one of its forms
                let ek = if r.chance(1, 3) {
                    let b: [u8; 32] = publ[to].clone().into();
                    EncKey::from(b)
                } else {
                    let x = carry_any(ctx, Trip::honest(r.next()), "encryption key", &publ[to]);
                    same(ctx, "encryption key", &publ[to], x)?
                };
                ctx.check(&ek == keys[to].enc_key_ref(), "reload:encryption key", || "the key changed".into());
                let seed = r.next();
                let ct = ctx.must("encrypt", || ek.encrypt(SimRng::new(seed), &msg, &aad).ok())?;
                let Some(ct) = ct else {
                    ctx.violate("seal-refused", format!("{} bytes", msg.len()));
                    return None;
                };
                ctx.event("seal", &by(&ct));
                ctx.state(mix(&[msg.len() as u64, aad.len() as u64]));
                let other = ctx.must("encrypt", || ek.encrypt(SimRng::new(!seed), &msg, &aad).ok())?;
                ctx.check(other.as_ref() != Some(&ct), "randomness-unused", || "two sources seal alike".into());
                ctx.fault("rng_failure");
                let at = r.below(4);
                let x = ctx.call("encrypt", || ek.encrypt(SimRng::failing(seed, at), &msg, &aad).is_ok());
                ctx.check(x != Ok(true), "randomness-unused", || {
                    format!("sealed although the random source failed after {at} words")
                });
                sealed.push(Sealed { to, msg, aad, ct });
            },
            "open" => {
                let Some(s) = sealed.get(o.usize(1) % sealed.len().max(1)) else { continue };
                let x = carry_any(ctx, Trip::honest(r.next()), "ciphertext", &s.ct);
                let ct = same(ctx, "ciphertext", &s.ct, x)?;
                let x = ctx.must("decrypt", || keys[s.to].decrypt(&ct, &s.aad).ok())?;
                ctx.fault("redelivery");
                ctx.check(x.as_ref() == Some(&s.msg), "honest-refused", || {
                    format!("{} bytes opened as {x:?}", s.msg.len())
                });
            },
            "entropy" => {
                let source = SimRng::new(r.next());
                let mut s = Prng::new(r.next());
                let x = ctx.must("key generation", || source.bytes_used(&mut s, |s| by(&KeyPair::generate(s))))?;
                ctx.fault("altered_random_bytes");
                ctx.check(x >= 28, "keygen-entropy", || format!("a key depends on {x} bytes of its random source"));
                let x = ctx.must("encrypt", || {
                    source.bytes_used(&mut s, |s| publ[0].encrypt(s, b"x", b"").map(|c| by(&c)).unwrap_or_default())
                })?;
                ctx.check(x >= 28, "encrypt-entropy", || format!("a ciphertext depends on {x} bytes of its random source"));
            },
            "restart" => {
                let i = o.usize(1) % 2;
                let x = carry_any(ctx, Trip::honest(r.next()), "key pair", &keys[i]);
                keys[i] = same(ctx, "key pair", &keys[i], x)?;
                ctx.fault("restart");
                ctx.check(keys[i].enc_key() == publ[i], "reload:key pair", || "another public key".into());
            },
            "disk" => {
                let Some(s) = sealed.get(o.usize(1) % sealed.len().max(1)) else { continue };
                match carry_any(ctx, Trip::new(r.next(), 4 + o.arg(2) % 4), "ciphertext", &s.ct)? {
                    Got::Damaged(Ok(ct)) => {
                        let x = ctx.must("decrypt", || keys[s.to].decrypt(&ct, &s.aad).ok())?;
                        ctx.check(x.is_none() || ct == s.ct, "forged", || "a damaged message opens".into());
                    },
                    _ => {},
                }
                let i = o.usize(3) % 2;
                carry_any(ctx, Trip::new(r.next(), 4 + o.arg(2) % 4), "encryption key", &publ[i])?;
                if let Got::Damaged(Ok(k)) = carry_any(ctx, Trip::new(r.next(), 6), "key pair", &keys[s.to])? {
                    let x = ctx.must("decrypt", || k.decrypt(&s.ct, &s.aad).ok())?;
                    ctx.check(x.is_none() || x.as_ref() == Some(&s.msg), "forged", || {
                        "a damaged key opens the message to something else".into()
                    });
                }
            },
            "attack" => {
                if sealed.is_empty() {
                    continue;
                }
                let s = &sealed[o.usize(1) % sealed.len()];
                let other = &sealed[o.usize(2) % sealed.len()];
                let (mut to, mut aad, mut ct) = (s.to, s.aad.clone(), s.ct.clone());
                match o.arg(3) % 6 {
                    0 => {
                        to = 1 - to;
                        ctx.fault("misdirected");
                    },
                    1 => {
                        match r.below(4) {
                            0 => aad.push(0),
                            1 => aad.clear(),
                            2 => aad = other.aad.clone(),
                            _ => {
                                if let Some(x) = aad.last_mut() {
                                    *x ^= 1
                                }
                            },
                        }
                        ctx.fault("other_associated_data");
                    },
                    _ => {
                        let mut v = serde_json::to_value(&s.ct).ok()?;
                        let w = serde_json::to_value(&other.ct).ok()?;
                        let k = alter(&mut v, &w, &mut r);
                        ctx.fault(k);
                        let x = ctx.must("decode", || serde_json::from_value::<Ciphertext>(v))?;
                        match x {
                            Ok(x) => ct = x,
                            Err(_) => continue,
                        }
                    },
                }
                let truth = to == s.to && aad == s.aad && ct == s.ct;
                // what happens to be another message sealed here opens as that one
                let known = sealed.iter().find(|x| x.to == to && x.aad == aad && x.ct == ct);
                let x = ctx.must("decrypt", || keys[to].decrypt(&ct, &aad).ok())?;
                ctx.event("attack", &[truth as u8, x.is_some() as u8]);
                ctx.check(x.as_ref() == known.map(|x| &x.msg), "forged", || {
                    format!("attack {} opens as {x:?}", o.arg(3) % 6)
                });
            },
            _ => {},
        }
    }
    Some(())
}

impl World for A01 {
    fn property(&self) -> &'static str {
        "A01"
    }
    fn budget(&self, t: Tier) -> (u64, u64) {
        if t == Tier::Quick { (40_000, 20) } else { (4_000_000, 240) }
    }
    fn huge_alloc_is_upstream(&self) -> bool {
        true
    }
    fn gen(&self, r: &mut Prng, _: Tier) -> Plan {
        let mut ops = vec![Op::new("seal", &[r.next(), r.below(2)])];
        for _ in 0..r.range(1, 9) {
            let k = if r.chance(1, 24) { "entropy" } else { "" };
            let k = if k != "" { k } else { *r.pick(&["seal", "open", "open", "restart", "disk", "attack", "attack", "attack"]) };
            ops.push(Op::new(k, &[r.next(), r.below(8), r.below(8), r.below(24)]));
        }
        Plan { cfg: vec![r.next()], ops, sched: Schedule::quiet() }
    }
    fn exec(&self, p: &Plan, ctx: &mut Ctx) {
        alone();
        exec(p, ctx);
    }
    fn rule(&self) -> &'static str {
        "one run = messages sealed for two recipients, carried in canonical, JSON and bincode form over faulty I/O, opened after restarts, and an adversary who alters, cuts, extends, swaps and misdirects; non-trivial = at least one fault; distinct by hash of the event history"
    }
    fn real(&self) -> &'static [&'static str] {
        &["jf-aead with its serde and canonical forms, serde_json, bincode"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &[
            "chacha20poly1305: own implementation behind the same interface",
            "crypto_kx: X25519 with SHA-512 key derivation",
            "storage, carriers and random source (simulated)",
        ]
    }
}
