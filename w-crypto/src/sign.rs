//! S01, S02, S03: signers, carriers and adversaries.
use crate::{on_scheme, rng::SimRng, schemes::*, util::*};
use ark_serialize::CanonicalDeserialize;
use jf_signature::{
    bls_over_bn254::BLSOverBN254CurveSignatureScheme as Agg, AggregateableSignatureSchemes, SignatureScheme,
};
use sim::*;
use tagged_base64::TaggedBase64;

pub struct S01;
pub struct S02;
pub struct S03;

const REAL: &[&str] = &[
    "jf-signature: Schnorr over three curves, BLS over BN254 and BLS12-381, aggregation",
    "jf-rescue, ark-ec pairings, tagged-base64, serde_json, bincode",
];
const STUBS: &[&str] = &[
    "sha3: own Keccak-256, bit-compatible",
    "blst: arkworks BLS12-381 behind the same interface, other hash-to-curve",
    "storage, carriers and random source (simulated)",
];
const ASSUME: &[&str] = &["the zero signing key is excluded", "verification keys in aggregates are honestly generated"];

fn msg<S: Sch>(seed: u64) -> Vec<S::U> {
    let mut r = Prng::new(seed);

    let n = if r.chance(1, 40) { 1 + r.below(400) } else { r.size(40) } as usize;
    (0..n).map(|_| S::unit(&mut r)).collect()
}
/// A domain tag: the scheme's own, or others around its length and content.
fn tag<S: Sch>(k: u64) -> Vec<u8> {
    let own = own::<S>();
    if !S::TAGS {
        return own;
    }
    let mut r = Prng::new(k);
    match k % 8 {
        0..=2 => own,
        3 => vec![],
        4 => own[..own.len() - 1].to_vec(),
        5 => [&own[..], b"X"].concat(),
        6 => {
            let n = 1 + r.below(20) as usize;
            r.bytes(n)
        },
        _ => {
            let n = 20 + r.below(60) as usize;
            r.bytes(n)
        },
    }
}
fn hm<S: Sch>(m: &[S::U], t: &[u8]) -> u64 {
    hash_bytes(5, format!("{m:?}{t:?}").as_bytes())
}

struct Sent<S: Sch> {
    vk: S::Vk,
    msg: Vec<S::U>,
    tag: Vec<u8>,
    sig: S::Sig,
}
impl<S: Sch> Clone for Sent<S> {
    fn clone(&self) -> Self {
        Self { vk: self.vk.clone(), msg: self.msg.clone(), tag: self.tag.clone(), sig: self.sig.clone() }
    }
}

/// Accepted by every way of verifying.
fn accepted<S: Sch>(ctx: &mut Ctx, m: &Sent<S>, class: &str) -> Option<()> {
    let a = ctx.must("verify", || S::verify(&m.vk, &m.msg, &m.sig, &m.tag))?;
    ctx.check(a.is_ok(), class, || format!("{}: an honest signature on {} units is rejected: {a:?}", S::NAME, m.msg.len()));
    if m.tag == own::<S>() {
        let a = ctx.must("verify", || e2s(S::S::verify(&(), &m.vk, &m.msg, &m.sig)))?;
        ctx.check(a.is_ok(), class, || format!("{}: an honest signature is rejected by the scheme: {a:?}", S::NAME));
    }
    Some(())
}

fn exec1<S: Sch>(plan: &Plan, ctx: &mut Ctx) {
    let mut keys: Vec<(S::Sk, S::Vk)> = vec![];
    let mut flight: Vec<Sent<S>> = vec![];
    for o in &plan.ops {
        let pick = |n: usize| if n == 0 { None } else { Some(o.usize(0) % n) };
        match o.k.as_str() {
            "key" => {
                let Some(k) = ctx.must("key creation", || S::keys(o.arg(0), o.arg(1))) else { return };
                if let Some(v) = ctx.must("key creation", || S::vk(&k.0)).flatten() {
                    ctx.check(v == k.1, "keys-mismatched", || {
                        format!("{}: key pair of kind {} has another verification key than its secret", S::NAME, o.arg(0))
                    });
                }
                ctx.event("key", &by(&k.1));
                keys.push(k);
            },
            "restart" => {
                let Some(i) = pick(keys.len()) else { continue };
                let f = o.arg(1);
                let t = Trip { fmt: 0, io: o.arg(2) & 3, seed: o.arg(3), fault: 0, bools: false };
                let sk = keys[i].0.clone();
                let back = trip(
                    ctx,
                    t,
                    "signing key",
                    &sk,
                    None,
                    &|x, w| e2s(std::io::Write::write_all(w, &S::save(x, f))),
                    &|r| {
                        let mut b = vec![];
                        e2s(std::io::Read::read_to_end(r, &mut b))?;
                        S::load(&b, f)
                    },
                );
                let Some(sk) = same(ctx, "signing key", &sk, back) else { return };
                ctx.fault("restart");
                keys[i].0 = sk;
            },
            "sign" => {
                let Some(i) = pick(keys.len()) else { continue };
                let (m, t) = (msg::<S>(o.arg(1)), tag::<S>(o.arg(2)));
                let sk = &keys[i].0;
                let Some(sig) = ctx.must("sign", || S::sign(sk, &m, &t)) else { return };
                if t == own::<S>() {
                    let x = ctx.must("sign", || e2s(S::S::sign(&(), sk, &m, &mut SimRng::new(o.arg(3)))));
                    ctx.check(x.as_ref().and_then(|x| x.as_ref().ok()) == Some(&sig), "two-signers", || {
                        format!("{}: the scheme and the key pair sign differently", S::NAME)
                    });
                }
                ctx.event("sign", &by(&sig));
                ctx.state(hm::<S>(&m, &t));
                flight.push(Sent { vk: keys[i].1.clone(), msg: m, tag: t, sig });
            },
            "deliver" => {
                let Some(i) = pick(flight.len()) else { continue };
                let m = flight[i].clone();
                let x = carry(ctx, Trip::honest(o.arg(1)), "verification key", &m.vk);
                let Some(vk) = same(ctx, "verification key", &m.vk, x) else { return };
                let x = carry(ctx, Trip::honest(o.arg(2)), "signature", &m.sig);
                let Some(sig) = same(ctx, "signature", &m.sig, x) else { return };
                ctx.check(S::ident(&vk, &sig) == S::ident(&m.vk, &m.sig), "identity-changed", || {
                    format!("{}: a reloaded key or signature compares or hashes differently", S::NAME)
                });
                if accepted::<S>(ctx, &Sent { vk, sig, ..m }, "honest-rejected").is_none() {
                    return;
                }
                match o.arg(3) % 3 {
                    0 => ctx.fault("duplicated_delivery"),
                    _ => {
                        flight.swap_remove(i);
                        ctx.fault("reordered_delivery");
                    },
                }
            },
            "disk" => {
                // carriers that lose or damage: errors reported, no panics
                let Some(i) = pick(flight.len()) else { continue };
                let m = flight[i].clone();
                if carry(ctx, Trip::new(o.arg(1), o.arg(2) % 8), "verification key", &m.vk).is_none() {
                    return;
                }
                if carry(ctx, Trip::new(o.arg(3), o.arg(4) % 8), "signature", &m.sig).is_none() {
                    return;
                }
            },
            _ => {},
        }
    }
    for m in &flight {
        if accepted::<S>(ctx, m, "honest-rejected").is_none() {
            return;
        }
    }
}

/// Honest aggregates over several signers.
fn exec1_agg(plan: &Plan, ctx: &mut Ctx) {
    let mut keys = vec![];
    for o in &plan.ops {
        if o.k == "key" {
            let Some(k) = ctx.must("key creation", || Bn::keys(o.arg(0), o.arg(1))) else { return };
            keys.push(k);
        }
    }
    if keys.is_empty() {
        return;
    }
    for o in plan.ops.iter().filter(|o| o.k == "aggregate") {
        let mut r = Prng::new(o.arg(0));
        let n = 1 + if r.chance(1, 8) { r.below(24) } else { r.below(6) } as usize;
        let who: Vec<usize> = (0..n).map(|_| r.below(keys.len() as u64) as usize).collect();
        let one = o.arg(1) & 1 == 1;
        let m0 = msg::<Bn>(r.next());
        let ms: Vec<Vec<u8>> = (0..n).map(|_| if one { m0.clone() } else { msg::<Bn>(r.next() % 9) }).collect();
        let vks: Vec<_> = who.iter().map(|i| keys[*i].1).collect();
        let mut sigs = vec![];
        for (i, m) in who.iter().zip(&ms) {
            let Some(s) = ctx.must("sign", || e2s(Agg::sign(&(), &keys[*i].0, m, &mut SimRng::new(r.next())))) else { return };
            let Ok(s) = s else {
                ctx.violate("sign-refused", "signing failed".into());
                return;
            };
            let x = carry(ctx, Trip::honest(r.next()), "signature", &s);
            let Some(s) = same(ctx, "signature", &s, x) else { return };
            sigs.push(s);
        }
        // parts arrive in any order, and partial sums may be formed on the way
        let mut order: Vec<usize> = (0..n).collect();
        r.shuffle(&mut order);
        let some: Vec<_> = order.iter().map(|i| sigs[*i].clone()).collect();
        let Some(a) = ctx.must("aggregate", || {
            if n > 2 && r.chance(1, 2) {
                let k = 1 + r.below(n as u64 - 1) as usize;
                let x = Agg::aggregate(&(), &vks, &some[..k]).unwrap();
                let y = Agg::aggregate(&(), &vks, &some[k..]).unwrap();
                Agg::aggregate(&(), &vks, &[x, y])
            } else {
                Agg::aggregate(&(), &vks, &some)
            }
        }) else {
            return;
        };
        let Ok(a) = a else {
            ctx.violate("aggregate-refused", "honest signatures were not aggregated".into());
            return;
        };
        let x = carry(ctx, Trip::honest(r.next()), "signature", &a);
        let Some(a) = same(ctx, "signature", &a, x) else { return };
        ctx.fault("reordered_delivery");
        ctx.state(mix(&[n as u64, one as u64, hash_bytes(1, &by(&a))]));
        let Some(x) = ctx.must("aggregate_verify", || {
            (
                e2s(Agg::aggregate_verify(&(), &vks, &ms, &a)),
                e2s(Agg::aggregate_verify_unchecked(&vks, &ms, &a)),
            )
        }) else {
            return;
        };
        ctx.check(x.0.is_ok() && x.1.is_ok(), "aggregate:honest-rejected", || format!("{n} signers, {x:?}"));
        if one {
            let Some(x) = ctx.must("multi_sig_verify", || {
                (e2s(Agg::multi_sig_verify(&(), &vks, &m0, &a)), e2s(Agg::multi_sig_verify_unchecked(&vks, &m0, &a)))
            }) else {
                return;
            };
            ctx.check(x.0.is_ok() && x.1.is_ok(), "multi:honest-rejected", || format!("{n} signers, {x:?}"));
        }
    }
}

impl World for S01 {
    fn property(&self) -> &'static str {
        "S01"
    }
    fn budget(&self, t: Tier) -> (u64, u64) {
        if t == Tier::Quick { (20_000, 25) } else { (2_000_000, 300) }
    }
    fn step_cap(&self) -> u64 {
        8_000_000_000
    }
    fn huge_alloc_is_upstream(&self) -> bool {
        true
    }
    fn gen(&self, r: &mut Prng, _: Tier) -> Plan {
        let mut ops = vec![];
        for _ in 0..r.range(1, 4) {
            ops.push(Op::new("key", &[r.below(42), r.next()]));
        }
        for _ in 0..r.range(2, 10) {
            let a: Vec<u64> = (0..5).map(|_| r.next() >> 8).collect();
            let k = *r.pick(&["sign", "sign", "sign", "deliver", "deliver", "restart", "disk", "aggregate"]);
            ops.push(Op::new(k, &a));
        }
        Plan { cfg: vec![r.below(8)], ops, sched: Schedule::quiet() }
    }
    fn exec(&self, p: &Plan, ctx: &mut Ctx) {
        alone();
        on_scheme!(p.c(0), exec1(p, ctx));
        if p.c(0) >= 5 {
            exec1_agg(p, ctx);
        }
    }
    fn rule(&self) -> &'static str {
        "one run = a seeded sequence of key creations, signatures, restarts of signers from storage and deliveries to verifiers (duplicated, reordered, in any encoding, over faulty I/O) for one of five schemes, plus aggregates; non-trivial = at least one delivery or restart; distinct by hash of the event history"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
    fn assumptions(&self) -> &'static [&'static str] {
        ASSUME
    }
}

/// Another message near the given one.
fn other_msg<S: Sch>(m: &[S::U], r: &mut Prng) -> Vec<S::U> {
    let mut v = m.to_vec();
    let n = v.len() as u64;
    match r.below(8) {
        0 => v.push(S::zero_unit()),
        1 => v.insert(0, S::zero_unit()),
        2 => {
            v.pop();
        },
        3 if n > 0 => {
            v.remove(0);
        },
        4 if n > 1 => v.swap(r.below(n) as usize, r.below(n) as usize),
        5 => v.clear(),
        6 => {
            let u = S::unit(r);
            v.push(u)
        },
        _ if n > 0 => v[r.below(n) as usize] = S::unit(r),
        _ => v.push(S::unit(r)),
    }
    v
}
fn other_tag(t: &[u8], r: &mut Prng) -> Vec<u8> {
    let mut v = t.to_vec();
    let n = v.len() as u64;
    match r.below(6) {
        0 => v.push(0),
        1 => v.insert(0, 0),
        2 => {
            v.pop();
        },
        3 if n > 1 => v.swap(r.below(n) as usize, r.below(n) as usize),
        4 => v.clear(),
        _ if n > 0 => v[r.below(n) as usize] ^= 1 << r.below(8),
        _ => v.push(r.next() as u8),
    }
    v
}

fn refused<S: Sch>(ctx: &mut Ctx, m: &Sent<S>, class: &str, what: impl FnOnce() -> String) -> Option<()> {
    let a = ctx.must("verify", || S::verify(&m.vk, &m.msg, &m.sig, &m.tag))?;
    ctx.event(class, &[a.is_ok() as u8]);
    ctx.check(a.is_err(), class, || format!("{}: {}", S::NAME, what()));
    if m.tag == own::<S>() {
        let a = ctx.must("verify", || e2s(S::S::verify(&(), &m.vk, &m.msg, &m.sig)))?;
        ctx.check(a.is_err(), class, || format!("{}: the scheme accepted what it must refuse", S::NAME));
    }
    Some(())
}

fn exec2<S: Sch>(plan: &Plan, ctx: &mut Ctx) -> Option<()> {
    let mut r = Prng::new(plan.c(1));
    let (k1, k2) = (S::keys(r.next(), r.next()), S::keys(r.next(), r.next()));
    if k1.1 == k2.1 {
        return None;
    }
    let base: Vec<Sent<S>> = (0..3)
        .map(|i| {
            let k = if i < 2 { &k1 } else { &k2 };
            let (m, t) = (msg::<S>(r.next()), tag::<S>(r.next()));
            let sig = S::sign(&k.0, &m, &t);
            Sent { vk: k.1.clone(), msg: m, tag: t, sig }
        })
        .collect();
    for o in &plan.ops {
        let mut r = Prng::new(o.arg(0));
        let m = &base[o.usize(1) % 3];
        let n = &base[(o.usize(1) + 1 + r.below(2) as usize) % 3];
        ctx.state(mix(&[o.arg(2), hash_bytes(1, o.k.as_bytes()), o.arg(1)]));
        match o.k.as_str() {
            "message" => {
                let x = Sent { msg: other_msg::<S>(&m.msg, &mut r), ..m.clone() };
                if x.msg == m.msg {
                    continue;
                }
                ctx.fault("other_message");
                refused(ctx, &x, "other-message-accepted", || {
                    format!("a signature on {:?} is accepted for {:?}", m.msg, x.msg)
                })?;
            },
            "key" => {
                let vk = if m.vk == k1.1 { k2.1.clone() } else { k1.1.clone() };
                ctx.fault("other_key");
                refused(ctx, &Sent { vk, ..m.clone() }, "other-key-accepted", || "another key accepts the signature".into())?;
            },
            "tag" if S::TAGS => {
                let x = Sent { tag: other_tag(&m.tag, &mut r), ..m.clone() };
                // moving units between message and tag
                let x = if o.arg(2) % 4 == 0 { shift::<S>(m).unwrap_or(x) } else { x };
                if x.tag == m.tag {
                    continue;
                }
                ctx.fault("other_tag");
                let class = match S::alias((&m.msg, &m.tag), (&x.msg, &x.tag)) {
                    Some(a) => format!("other-tag-accepted:{a}"),
                    None => "other-tag-accepted".to_string(),
                };
                refused(ctx, &x, &class, || {
                    format!("a signature for {:?} under tag {:?} is accepted for {:?} under {:?}", m.msg, m.tag, x.msg, x.tag)
                })?;
            },
            "replay" => {
                if (&m.msg, &m.tag, &m.vk) == (&n.msg, &n.tag, &n.vk)
                    || (m.vk == n.vk && S::alias((&m.msg, &m.tag), (&n.msg, &n.tag)).is_some())
                {
                    continue;
                }
                ctx.fault("replayed_signature");
                refused(ctx, &Sent { sig: n.sig.clone(), ..m.clone() }, "replay-accepted", || {
                    "a signature made for another message is accepted".into()
                })?;
            },
            "tamper" => {
                let x = ctx.must("alter", || S::tamper(&m.sig, &n.sig, o.arg(2), &mut r))?;
                let Some(x) = x else { continue };
                ctx.check((x == m.sig) == (by(&x) == by(&m.sig)), "altered-equal", || {
                    format!("{}: equality of signatures differs from that of their encodings", S::NAME)
                });
                if x == m.sig {
                    continue;
                }
                ctx.fault("altered_signature");
                refused(ctx, &Sent { sig: x, ..m.clone() }, "altered-accepted", || {
                    format!("an altered signature (kind {}) is accepted", o.arg(2))
                })?;
            },
            "weak" => {
                // keys for which anybody can make signatures
                let all = ctx.must("make weak keys", || S::weak(&mut r))?;
                ctx.fault("weak_key");
                for (vk, sig) in all {
                    refused(ctx, &Sent { vk, sig, ..m.clone() }, "weak-key-accepted", || {
                        "a signature made without any secret is accepted under a key without a secret".into()
                    })?;
                }
                let (v, s) = ctx.must("make points", || S::invalid(&mut r))?;
                ctx.fault("invalid_point");
                for b in v {
                    let x = ctx.must("decode", || S::Vk::deserialize_uncompressed(&b[..]).is_ok())?;
                    ctx.check(!x, "invalid-decoded", || format!("{}: a key outside of the group was read", S::NAME));
                }
                for b in s {
                    let x = ctx.must("decode", || S::Sig::deserialize_uncompressed(&b[..]).is_ok())?;
                    ctx.check(!x, "invalid-decoded", || format!("{}: a signature outside of the group was read", S::NAME));
                }
            },
            "unvalidated" => {
                let x = ctx.must("decode", || S::unvalidated(&m.sig, &mut r))?;
                let Some(x) = x else { continue };
                if x == m.sig {
                    continue;
                }
                ctx.fault("unvalidated_signature");
                refused(ctx, &Sent { sig: x, ..m.clone() }, "altered-accepted", || {
                    "a damaged signature decoded without validation is accepted".into()
                })?;
            },
            "damage_sig" => match carry(ctx, Trip::new(o.arg(3), 6 + (o.arg(2) & 1)), "signature", &m.sig)? {
                Got::Damaged(Ok(x)) if x != m.sig => {
                    refused(ctx, &Sent { sig: x, ..m.clone() }, "altered-accepted", || {
                        "a damaged signature is accepted".into()
                    })?;
                },
                _ => {},
            },
            "damage_key" => match carry(ctx, Trip::new(o.arg(3), 6 + (o.arg(2) & 1)), "verification key", &m.vk)? {
                Got::Damaged(Ok(vk)) if vk != m.vk => {
                    refused(ctx, &Sent { vk, ..m.clone() }, "other-key-accepted", || {
                        "a damaged verification key accepts the signature".into()
                    })?;
                },
                _ => {},
            },
            "damage_secret" => {
                let f = o.arg(2);
                let mut b = S::save(&k1.0, f);
                let k = disk::damage(&mut b, o.arg(3), o.arg(0));
                ctx.fault(k);
                ctx.must("load signing key", || S::load(&b, f).is_ok())?;
            },
            "mistag" => {
                // a good payload under another type's tag
                let pay = |s: String| TaggedBase64::parse(&s).map(|t| (t.tag(), t.value()));
                let Ok((own_tag, v)) = pay(m.sig.to_string()) else { continue };
                let Ok((key_tag, w)) = pay(m.vk.to_string()) else { continue };
                let t = *r.pick(&["", "SIG", "BLS_SIG", "SCHNORR_SIG", "BLS_VER_KEY", "SCHNORR_VER_KEY", "BLS_SIGNING_KEY"]);
                ctx.fault("wrong_tag");
                if t != own_tag {
                    let s = TaggedBase64::new(t, &v).unwrap().to_string();
                    let x = ctx.must("parse", || s.parse::<S::Sig>().is_ok())?;
                    ctx.check(!x, "wrong-type-tag-accepted", || format!("a signature tagged {t} was read"));
                    let j = serde_json::to_vec(&TaggedBase64::new(t, &v).unwrap()).unwrap();
                    let x = ctx.must("parse", || serde_json::from_slice::<S::Sig>(&j).is_ok())?;
                    ctx.check(!x, "wrong-type-tag-accepted", || format!("a signature tagged {t} was read"));
                }
                if t != key_tag {
                    let s = TaggedBase64::new(t, &w).unwrap().to_string();
                    let x = ctx.must("parse", || s.parse::<S::Vk>().is_ok())?;
                    ctx.check(!x, "wrong-type-tag-accepted", || format!("a verification key tagged {t} was read"));
                }
                let b = S::save(&k1.0, 0);
                let s = TaggedBase64::new(t, &b).unwrap().to_string();
                for f in [1, 2] {
                    let good = S::save(&k1.0, f);
                    let good = TaggedBase64::parse(std::str::from_utf8(&good).unwrap_or("")).map(|x| x.tag());
                    if good.ok() == Some(t.to_string()) || (f == 2 && S::NAME == B381::NAME) {
                        continue;
                    }
                    let x = ctx.must("load signing key", || S::load(s.as_bytes(), f).is_ok())?;
                    ctx.check(!x, "wrong-type-tag-accepted", || format!("a signing key tagged {t} was read"));
                }
            },
            _ => {},
        }
    }
    Some(())
}
/// The last message byte moved into the tag.
fn shift<S: Sch>(m: &Sent<S>) -> Option<Sent<S>> {
    let mut x = m.clone();
    let u = x.msg.pop()?;
    let b = format!("{u:?}").parse::<u8>().ok()?;
    x.tag.insert(0, b);
    Some(x)
}

fn exec2_agg(plan: &Plan, ctx: &mut Ctx) -> Option<()> {
    let mut r = Prng::new(plan.c(1));
    let keys: Vec<_> = (0..4).map(|_| Bn::keys(r.next(), r.next())).collect();
    for o in plan.ops.iter().filter(|o| o.k == "aggregate") {
        let mut r = Prng::new(o.arg(0));
        let n = 1 + if r.chance(1, 8) { r.below(20) } else { r.below(4) } as usize;
        let one = o.arg(1) & 1 == 1;
        let m0 = msg::<Bn>(r.next());
        let claim: Vec<(usize, Vec<u8>)> = (0..n)
            .map(|_| (r.below(4) as usize, if one { m0.clone() } else { msg::<Bn>(r.next() % 5) }))
            .collect();
        let sigs: Vec<_> = claim.iter().map(|(i, m)| Agg::sign(&(), &keys[*i].0, m, &mut SimRng::new(0)).unwrap()).collect();
        let vks: Vec<_> = claim.iter().map(|(i, _)| keys[*i].1).collect();
        let sig = Agg::aggregate(&(), &vks, &sigs).unwrap();
        let mut x = claim.clone();
        let what = match r.below(8) {
            0 => {
                let i = r.below(n as u64) as usize;
                x[i].1 = other_msg::<Bn>(&x[i].1, &mut r);
                "other message"
            },
            1 => {
                let i = r.below(n as u64) as usize;
                x[i].0 = r.below(4) as usize;
                "other key"
            },
            2 => {
                x.remove(r.below(n as u64) as usize);
                "missing pair"
            },
            3 => {
                let i = r.below(n as u64) as usize;
                x.push(x[i].clone());
                "repeated pair"
            },
            4 if n > 1 => {
                let (i, j) = (r.below(n as u64) as usize, r.below(n as u64) as usize);
                let (a, b) = (x[i].1.clone(), x[j].1.clone());
                (x[i].1, x[j].1) = (b, a);
                "swapped messages"
            },
            5 => {
                r.shuffle(&mut x);
                "reordered"
            },
            6 => {
                x.push((r.below(4) as usize, msg::<Bn>(r.next() % 5)));
                "extra pair"
            },
            _ => "same",
        };
        ctx.fault(what);
        let sorted = |v: &Vec<(usize, Vec<u8>)>| {
            let mut v: Vec<_> = v.iter().map(|(i, m)| (by(&keys[*i].1), m.clone())).collect();
            v.sort();
            v
        };
        let truth = sorted(&x) == sorted(&claim);
        let vks: Vec<_> = x.iter().map(|(i, _)| keys[*i].1).collect();
        let ms: Vec<_> = x.iter().map(|(_, m)| m.clone()).collect();
        let a = ctx.must("aggregate_verify", || {
            (e2s(Agg::aggregate_verify(&(), &vks, &ms, &sig)), e2s(Agg::aggregate_verify_unchecked(&vks, &ms, &sig)))
        })?;
        let detail = || format!("{what}: aggregate of {n} verified as {:?}, truth {truth}", a);
        if truth && !x.is_empty() {
            ctx.check(a.0.is_ok() && a.1.is_ok(), "aggregate:honest-rejected", detail);
        } else {
            ctx.check(a.0.is_err() && a.1.is_err(), "aggregate:false-accepted", detail);
        }
        if !ms.is_empty() {
            // lists of different lengths
            let a = ctx.must("aggregate_verify", || {
                (
                    Agg::aggregate_verify(&(), &vks, &ms[1..], &sig).is_err(),
                    Agg::aggregate_verify(&(), &vks[1..], &ms, &sig).is_err(),
                    Agg::aggregate_verify_unchecked(&vks, &ms[1..], &sig).is_err(),
                    Agg::aggregate_verify_unchecked(&vks[1..], &ms, &sig).is_err(),
                )
            })?;
            ctx.check(a == (true, true, true, true), "aggregate:mismatched-lists", || format!("{a:?}"));
        }
        if one {
            // one message for all: keys as a multiset, message as claimed
            let m = if r.chance(1, 3) { other_msg::<Bn>(&m0, &mut r) } else { m0.clone() };
            let ks = |v: &Vec<(usize, Vec<u8>)>| {
                let mut v: Vec<_> = v.iter().map(|(i, _)| by(&keys[*i].1)).collect();
                v.sort();
                v
            };
            let truth = m == m0 && ks(&x) == ks(&claim);
            let a = ctx.must("multi_sig_verify", || {
                (e2s(Agg::multi_sig_verify(&(), &vks, &m, &sig)), e2s(Agg::multi_sig_verify_unchecked(&vks, &m, &sig)))
            })?;
            let ok = a.0.is_ok() == truth && a.1.is_ok() == truth;
            ctx.check(ok, if truth { "multi:honest-rejected" } else { "multi:false-accepted" }, || {
                format!("{what}: {a:?}, truth {truth}")
            });
        }
        ctx.state(hash_bytes(3, what.as_bytes()));
    }
    let s = ctx.must("aggregate", || Agg::aggregate(&(), &[], &[]).is_err())?;
    ctx.check(s, "aggregate:nothing", || "an aggregate of no signatures".into());
    // nobody signed nothing
    let none = jf_signature::bls_over_bn254::Signature { sigma: ark_std::Zero::zero() };
    let m = msg::<Bn>(r.next());
    let no: [Vec<u8>; 0] = [];
    let x = ctx.must("verify", || {
        [
            Agg::aggregate_verify(&(), &[], &no, &none).is_err(),
            Agg::aggregate_verify_unchecked(&[], &no, &none).is_err(),
            Agg::multi_sig_verify(&(), &[], &m, &none).is_err(),
            Agg::multi_sig_verify_unchecked(&[], &m, &none).is_err(),
        ]
    })?;
    ctx.check(x == [true; 4], "aggregate:nobody", || format!("a signature of nobody is refused: {x:?}"));
    Some(())
}

impl World for S02 {
    fn property(&self) -> &'static str {
        "S02"
    }
    fn budget(&self, t: Tier) -> (u64, u64) {
        if t == Tier::Quick { (20_000, 25) } else { (2_000_000, 300) }
    }
    fn step_cap(&self) -> u64 {
        8_000_000_000
    }
    fn huge_alloc_is_upstream(&self) -> bool {
        true
    }
    fn gen(&self, r: &mut Prng, _: Tier) -> Plan {
        let names = [
            "message", "message", "key", "tag", "tag", "replay", "tamper", "tamper", "unvalidated", "damage_sig", "damage_sig",
            "damage_key", "damage_secret", "mistag", "aggregate", "aggregate", "weak",
        ];
        let ops = (0..r.range(2, 10))
            .map(|_| {
                let k = *r.pick(&names);
                Op::new(k, &[r.next(), r.below(3), r.below(18), r.next() >> 8])
            })
            .collect();
        Plan { cfg: vec![r.below(8), r.next()], ops, sched: Schedule::quiet() }
    }
    fn exec(&self, p: &Plan, ctx: &mut Ctx) {
        alone();
        on_scheme!(p.c(0), exec2(p, ctx));
        if p.c(0) >= 5 {
            exec2_agg(p, ctx);
        }
    }
    fn rule(&self) -> &'static str {
        "one run = honest signatures by two signers and a seeded adversary on the wire: other messages, keys and tags, replays, algebraically altered or damaged signatures and keys, mis-tagged encodings, wrong aggregates; non-trivial = at least one attack; distinct by hash of the event history"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
    fn assumptions(&self) -> &'static [&'static str] {
        ASSUME
    }
}

fn exec3<S: Sch>(plan: &Plan, ctx: &mut Ctx) -> Option<()> {
    let (sk, vk) = S::keys(plan.c(1), plan.c(2));
    let mut sk = sk;
    let mut rng = SimRng::new(plan.c(3));
    let mut saved = rng.clone();
    // (message, tag) -> signature; one-time secrets seen
    let mut made: Vec<(Vec<S::U>, Vec<u8>, S::Sig)> = vec![];
    let mut keys: Vec<(SimRng, Vec<u8>)> = vec![];
    for o in &plan.ops {
        match o.k.as_str() {
            "sign" | "near" => {
                let mut m = msg::<S>(o.arg(0));
                if let ("near", Some(x)) = (o.k.as_str(), made.last()) {
                    // one element away from the message before
                    m = x.0.clone();
                    let mut r = Prng::new(o.arg(4));
                    match r.below(m.len() as u64 + 1) as usize {
                        i if i < m.len() => m[i] = S::unit(&mut r),
                        _ => m.push(S::unit(&mut r)),
                    }
                }
                let t = if o.arg(1) & 1 == 0 { own::<S>() } else { tag::<S>(o.arg(2)) };
                let mut source = match o.arg(3) % 4 {
                    0 => {
                        ctx.fault("rng_stuck");
                        SimRng::stuck(o.arg(4) >> 8)
                    },
                    1 => {
                        ctx.fault("rng_failure");
                        SimRng::failing(0, 0)
                    },
                    _ => rng.clone(),
                };
                let sig = if t == own::<S>() {
                    let x = ctx.must("sign", || e2s(S::S::sign(&(), &sk, &m, &mut source)))?;
                    match x {
                        Ok(x) => x,
                        Err(e) => {
                            ctx.violate("sign-refused", e);
                            return None;
                        },
                    }
                } else {
                    ctx.must("sign", || S::sign(&sk, &m, &t))?
                };
                if o.arg(3) % 4 > 1 {
                    rng = source;
                }
                ctx.event("sign", &by(&sig));
                ctx.state(hm::<S>(&m, &t));
                for (m2, t2, s2) in &made {
                    if (m2, t2) == (&m, &t) {
                        ctx.check(s2 == &sig, "signature-varies", || {
                            format!("{}: the same message signed twice gives different signatures", S::NAME)
                        });
                    } else if S::alias((m2, t2), (&m, &t)).is_none() {
                        ctx.check(s2 != &sig, "signature-reused", || {
                            format!("{}: different messages have one signature", S::NAME)
                        });
                        if let (Some(a), Some(b)) = (S::nonce(s2), S::nonce(&sig)) {
                            ctx.check(a != b, "one-time-secret-reused", || {
                                format!("{}: {m2:?} under {t2:?} and {m:?} under {t:?} are signed with one secret", S::NAME)
                            });
                        }
                    }
                }
                made.push((m, t, sig));
            },
            "restart" => {
                let b = S::save(&sk, o.arg(0));
                sk = ctx.must("load signing key", || S::load(&b, o.arg(0)).ok())??;
                rng = saved.clone();
                ctx.fault("crash_and_rng_rollback");
            },
            "checkpoint" => saved = rng.clone(),
            "other_key" => {
                // another key must not share one-time secrets either
                let (k2, _) = S::keys(o.arg(0), o.arg(1));
                if k2 == sk {
                    continue;
                }
                let Some((m, t, s)) = made.last() else { continue };
                let x = ctx.must("sign", || S::sign(&k2, m, t))?;
                ctx.check(&x != s, "signature-reused", || format!("{}: two keys have one signature", S::NAME));
                if let (Some(a), Some(b)) = (S::nonce(s), S::nonce(&x)) {
                    ctx.check(a != b, "one-time-secret-shared", || format!("{}: two keys share a one-time secret", S::NAME));
                }
            },
            "keygen" => {
                let source = match o.arg(0) % 3 {
                    0 => SimRng::stuck(1 + (o.arg(1) >> 10)),
                    1 => SimRng::new(o.arg(1) % 4),
                    _ => SimRng::new(o.arg(1)),
                };
                let mut s = source.clone();
                let k = ctx.must("key generation", || e2s(S::S::key_gen(&(), &mut s)))?;
                let Ok((a, v)) = k else {
                    ctx.violate("keygen-refused", "key generation failed".into());
                    return None;
                };
                ctx.check(s.drawn > 0, "keygen-ignores-source", || format!("{}: no random bytes were drawn", S::NAME));
                let mut again = source.clone();
                let (b, _) = S::S::key_gen(&(), &mut again).ok()?;
                ctx.check(a == b, "keygen-varies", || format!("{}: one source gives two keys", S::NAME));
                let same = |x: &SimRng| {
                    let (mut x, mut y) = (x.clone(), source.clone());
                    use ark_std::rand::RngCore;
                    (0..8).all(|_| x.next_u64() == y.next_u64())
                };
                let vb = by(&v);
                for (r2, v2) in &keys {
                    ctx.check((v2 == &vb) == same(r2), "keygen-repeats", || {
                        format!("{}: keys from two sources: equal {}, sources equal {}", S::NAME, v2 == &vb, same(r2))
                    });
                }
                keys.push((source.clone(), vb));
                if o.arg(3) % 8 == 0 && source.stuck.is_none() {
                    // 32 bytes, but for the bits above the group order
                    let make = |s: &mut SimRng| S::S::key_gen(&(), s).map(|k| by(&k.1)).unwrap_or_default();
                    let mut r = Prng::new(o.arg(2));
                    let x = ctx.must("key generation", || source.bytes_used(&mut r, make))?;
                    ctx.fault("altered_random_bytes");
                    ctx.check(x >= 28, "keygen-entropy", || {
                        format!("{}: the key depends on {x} bytes of its random source", S::NAME)
                    });
                    let x = ctx.must("key derivation", || S::derived(&mut r))?;
                    ctx.check(x.is_ok(), "derivation", || format!("{}: {x:?}", S::NAME));
                }
                let mut bad = source;
                bad.fail_at = o.arg(2) % s.drawn.max(1);
                ctx.fault("rng_failure");
                let x = ctx.call("key generation", || S::S::key_gen(&(), &mut bad).is_ok());
                ctx.check(x != Ok(true), "keygen-ignores-source", || {
                    format!("{}: a key was made although the source failed", S::NAME)
                });
            },
            _ => {},
        }
    }
    for (m, t, sig) in &made {
        accepted::<S>(ctx, &Sent { vk: vk.clone(), msg: m.clone(), tag: t.clone(), sig: sig.clone() }, "honest-rejected")?;
    }
    Some(())
}

impl World for S03 {
    fn property(&self) -> &'static str {
        "S03"
    }
    fn budget(&self, t: Tier) -> (u64, u64) {
        if t == Tier::Quick { (20_000, 25) } else { (2_000_000, 300) }
    }
    fn step_cap(&self) -> u64 {
        8_000_000_000
    }
    fn gen(&self, r: &mut Prng, _: Tier) -> Plan {
        // messages and tags from a small set, so that they repeat and nearly repeat
        let few: Vec<u64> = (0..4).map(|_| r.next()).collect();
        let ops = (0..r.range(3, 12))
            .map(|_| match r.below(11) {
                9 | 10 => Op::new("near", &[*r.pick(&few), r.below(2) * 2, r.below(16), r.below(8), r.next()]),
                0..=4 => Op::new("sign", &[*r.pick(&few), r.below(4), r.below(16), r.below(8), r.next()]),
                5 => Op::new("restart", &[r.below(6)]),
                6 => Op::new("checkpoint", &[]),
                7 => Op::new("other_key", &[r.next(), r.next()]),
                _ => Op::new("keygen", &[r.next(), r.next(), r.next(), r.below(64)]),
            })
            .collect();
        Plan { cfg: vec![r.below(8), r.next(), r.next(), r.next()], ops, sched: Schedule::quiet() }
    }
    fn exec(&self, p: &Plan, ctx: &mut Ctx) {
        alone();
        on_scheme!(p.c(0), exec3(p, ctx));
    }
    fn rule(&self) -> &'static str {
        "one run = a signer signing repeated and near-repeated messages while its random source is stuck, fails or is rolled back by crashes and its key is reloaded; key generation from equal, different, stuck and failing sources; non-trivial = at least one fault; distinct by hash of the event history"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
    fn assumptions(&self) -> &'static [&'static str] {
        ASSUME
    }
}
