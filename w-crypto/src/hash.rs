//! H01, H02: hashing from many threads at first use; commitments.
use crate::util::*;
use ark_crypto_primitives::sponge::{CryptographicSponge, FieldBasedCryptographicSponge};
use ark_ff::PrimeField;
use jf_commitment::CommitmentScheme;
use jf_crhf::CRHF;
use jf_poseidon2::{
    crhf::{FixedLenPoseidon2Hash, VariableLenPoseidon2Hash},
    sponge::{bls12_381::*, bn254::*},
};
use jf_prf::PRF;
use jf_rescue::{
    commitment::FixedLengthRescueCommitment, crhf::*, prf::RescuePRF, sponge::RescueSponge, Permutation, RescueParameter,
    RescueVector, CRHF_RATE, PRP, STATE_SIZE,
};
use sim::*;
use std::sync::Arc;

pub struct H01;
pub struct H02;

type B = ark_bls12_381::Fr;
type N = ark_bn254::Fr;

/// Inputs that are easily confused: a base and what is near it.
fn near<F: PrimeField>(base: u64, variant: u64) -> Vec<F> {
    let mut r = Prng::new(base);
    let n = if r.chance(1, 8) { r.below(70) } else { r.size(11) } as usize;
    let mut v: Vec<F> = elems(&mut r, n);
    let mut r = Prng::new(variant);
    let n = v.len() as u64;
    match variant % 10 {
        0 => {},
        1 => v.push(F::zero()),
        2 => v.push(F::one()),
        3 => v.extend([F::one(), F::zero()]),
        4 => {
            v.pop();
        },
        5 if n > 1 => v.swap(r.below(n) as usize, r.below(n) as usize),
        6 if n > 0 => v[r.below(n) as usize] += F::one(),
        7 => v.insert(0, F::zero()),
        8 => v.clear(),
        _ => v.extend([F::zero(), F::zero(), F::zero()]),
    }
    v
}
fn cut<F: PrimeField, const L: usize>(v: &[F]) -> [F; L] {
    let mut x = [F::zero(); L];
    for (a, b) in x.iter_mut().zip(v) {
        *a = *b;
    }
    x
}
fn show<F: PrimeField>(v: &[F]) -> Vec<u8> {
    let mut b = vec![];
    v.iter().for_each(|x| b.extend(by(x)));
    b
}

/// What was hashed (after the padding that the function is documented to apply), and the digest.
struct Done {
    key: Vec<u8>,
    digest: Vec<u8>,
}
fn done<F: PrimeField>(key: &[F], digest: &[F]) -> Done {
    Done { key: show(key), digest: show(digest) }
}

/// One evaluation.  args: [function, field, base, variant, outputs]
fn eval(o: &Op) -> Result<Done, String> {
    match o.arg(1) % 5 {
        _ if matches!(o.arg(0), 8 | 9) => poseidon(o, false),
        0 => rescue::<ark_ed_on_bls12_381::Fq>(o),
        1 => rescue::<ark_ed_on_bn254::Fq>(o),
        2 => rescue::<ark_ed_on_bls12_377::Fq>(o),
        3 => rescue::<ark_bn254::Fq>(o),
        _ => rescue::<ark_bls12_377::Fq>(o),
    }
}
fn rescue<F: RescueParameter>(o: &Op) -> Result<Done, String> {
    let v: Vec<F> = near(o.arg(2), o.arg(3));
    let outs = 1 + o.usize(4) % 8;
    let padded = |m: usize| {
        let mut p = v.clone();
        p.resize(v.len().div_ceil(m) * m, F::zero());
        p
    };
    Ok(match o.arg(0) {
        0 => done(&v, &RescueCRHF::sponge_with_bit_padding(&v, outs)),
        1 => done(&padded(CRHF_RATE), &RescueCRHF::sponge_with_zero_padding(&v, outs)),
        2 => done(&v, &e2s(RescueCRHF::sponge_no_padding(&v, outs))?),
        3 => match v.len() % 8 {
            0 | 1 => done(&cut::<F, 1>(&v), &e2s(FixedLengthRescueCRHF::<F, 1, 1>::evaluate(cut(&v)))?),
            2 => done(&cut::<F, 2>(&v), &e2s(FixedLengthRescueCRHF::<F, 2, 1>::evaluate(cut(&v)))?),
            3 => done(&cut::<F, 3>(&v), &e2s(FixedLengthRescueCRHF::<F, 3, 2>::evaluate(cut(&v)))?),
            4 => done(&cut::<F, 4>(&v), &e2s(FixedLengthRescueCRHF::<F, 4, 4>::evaluate(cut(&v)))?),
            5 => done(&cut::<F, 5>(&v), &e2s(FixedLengthRescueCRHF::<F, 5, 1>::evaluate(cut(&v)))?),
            6 => done(&cut::<F, 6>(&v), &e2s(FixedLengthRescueCRHF::<F, 6, 7>::evaluate(cut(&v)))?),
            _ => done(&cut::<F, 7>(&v), &e2s(FixedLengthRescueCRHF::<F, 7, 3>::evaluate(cut(&v)))?),
        },
        4 => match outs % 3 {
            0 => done(&v, &e2s(VariableLengthRescueCRHF::<F, 1>::evaluate(&v))?),
            1 => done(&v, &e2s(VariableLengthRescueCRHF::<F, 3>::evaluate(&v))?),
            _ => done(&v, &e2s(VariableLengthRescueCRHF::<F, 5>::evaluate(&v))?),
        },
        5 => {
            let k: [F; 9] = cut(&v);
            match outs % 3 {
                0 => done(&k[..2], &e2s(RescuePRF::<F, 1, 1>::evaluate(k[0], cut::<F, 1>(&k[1..])))?),
                1 => done(&k[..5], &e2s(RescuePRF::<F, 4, 2>::evaluate(k[0], cut::<F, 4>(&k[1..])))?),
                _ => done(&k[..8], &e2s(RescuePRF::<F, 7, 6>::evaluate(k[0], cut::<F, 7>(&k[1..])))?),
            }
        },
        6 => {
            let prp = PRP::<F>::default();
            let w: [F; 2 * STATE_SIZE] = cut(&v);
            let (k, x) = (RescueVector::from(&w[..STATE_SIZE]), RescueVector::from(&w[STATE_SIZE..]));
            let y = prp.prp(&k, &x);
            let z = prp.prp_with_round_keys(&prp.key_schedule(&k), &x);
            if y.elems() != z.elems() {
                return Err("keyed permutation differs from its scheduled form".into());
            }
            done(&w, &y.elems())
        },
        10 => {
            let mut s = RescueSponge::<F, CRHF_RATE>::new(&Permutation::default());
            // in one piece, or in two at the edge of a block
            let (a, b) = v.split_at((v.len() / 2 / CRHF_RATE * CRHF_RATE) * (o.usize(4) / 8 % 2));
            s.absorb(&a.to_vec());
            s.absorb(&b.to_vec());
            let d = s.squeeze_native_field_elements(outs);
            if d != RescueCRHF::<F>::sponge_with_zero_padding(&v, outs) {
                return Err("the sponge differs from the hash with zero padding".into());
            }
            done(&padded(CRHF_RATE), &d)
        },
        _ => {
            let x: [F; STATE_SIZE] = cut(&v);
            done(&x, &Permutation::<F>::default().eval(&RescueVector::from(&x)).elems())
        },
    })
}
fn poseidon_full(o: &Op) -> Result<Vec<u8>, String> {
    poseidon(o, true).map(|x| x.digest)
}
fn poseidon(o: &Op, full: bool) -> Result<Done, String> {
    macro_rules! both {
        ($f:ty, $p:ty) => {{
            let mut v: Vec<$f> = near(o.arg(2), o.arg(3));
            if full {
                v.resize([3, 6, 11][o.usize(4) % 3], <$f>::from(0u64));
            }
            let v = &v[..];
            if o.arg(0) & 1 == 0 {
                match o.arg(4) % 3 {
                    0 => done(v, &e2s(VariableLenPoseidon2Hash::<$f, $p, 1>::evaluate(v))?),
                    1 => done(v, &e2s(VariableLenPoseidon2Hash::<$f, $p, 2>::evaluate(v))?),
                    _ => done(v, &e2s(VariableLenPoseidon2Hash::<$f, $p, 5>::evaluate(v))?),
                }
            } else {
                match o.arg(4) % 3 {
                    0 => done(&cut::<$f, 3>(v), &e2s(FixedLenPoseidon2Hash::<$f, $p, 3, 1>::evaluate(v))?),
                    1 => done(&cut::<$f, 6>(v), &e2s(FixedLenPoseidon2Hash::<$f, $p, 6, 2>::evaluate(v))?),
                    _ => done(&cut::<$f, 11>(v), &e2s(FixedLenPoseidon2Hash::<$f, $p, 11, 3>::evaluate(v))?),
                }
            }
        }};
    }
    Ok(match o.arg(1) % 5 {
        0 => both!(B, Poseidon2PermutationBlsN2R1),
        1 => both!(B, Poseidon2PermutationBlsN3R1),
        2 => both!(B, Poseidon2PermutationBlsN3R2),
        3 => both!(N, Poseidon2PermutationBnN3R1),
        _ => both!(N, Poseidon2PermutationBnN3R2),
    })
}
/// Whether the function must refuse this input.
fn refused(o: &Op) -> bool {
    let n = near::<N>(o.arg(2), o.arg(3)).len();
    match o.arg(0) {
        2 => n % CRHF_RATE != 0,
        9 => n > [3, 6, 11][o.usize(4) % 3],
        _ => false,
    }
}
/// Functions that can be compared with each other: same function, field and shape.
fn family(o: &Op) -> Vec<u64> {
    let n = near::<N>(o.arg(2), o.arg(3)).len() as u64;
    let shape = match o.arg(0) {
        3 => (n % 8).max(1),
        0..=2 | 10 => 1 + o.arg(4) % 8,
        4 | 5 => (1 + o.arg(4) % 8) % 3,
        8 | 9 => o.arg(4) % 3,
        _ => 0,
    };
    vec![o.arg(0), o.arg(1) % 5, shape]
}
fn flat(x: &Result<Done, String>) -> Vec<u8> {
    match x {
        Ok(d) => [&b"ok"[..], &d.digest].concat(),
        Err(e) => e.clone().into_bytes(),
    }
}

impl World for H01 {
    fn property(&self) -> &'static str {
        "H01"
    }
    fn budget(&self, t: Tier) -> (u64, u64) {
        if t == Tier::Quick { (20_000, 25) } else { (2_000_000, 300) }
    }
    fn step_cap(&self) -> u64 {
        4_000_000_000
    }
    /// cfg: [threads]
    fn gen(&self, r: &mut Prng, _: Tier) -> Plan {
        // few functions and bases, so that inputs of one function meet
        let f: Vec<u64> = (0..2).map(|_| r.below(11)).collect();
        let c: Vec<u64> = (0..2).map(|_| r.below(5)).collect();
        let b: Vec<u64> = (0..2).map(|_| r.next()).collect();
        let s = r.below(24);
        let ops = (0..r.range(2, 8))
            .map(|_| {
                let shape = if r.chance(3, 4) { s } else { r.below(24) };
                Op::new("hash", &[*r.pick(&f), *r.pick(&c), *r.pick(&b), r.next() >> 40, shape])
            })
            .collect();
        Plan { cfg: vec![r.range(1, 4)], ops, sched: gen_schedule(r, 22) }
    }
    fn exec(&self, p: &Plan, ctx: &mut Ctx) {
        let ops: Arc<Vec<Op>> = Arc::new(p.ops.iter().filter(|o| o.k == "hash").cloned().collect());
        let n = ops.len();
        if n == 0 {
            return;
        }
        // each answer computed by a process that has hashed nothing else
        let want: Vec<Vec<u8>> = ops.iter().map(|o| in_child(|| flat(&eval(o)))).collect();
        let threads = p.c(0) as usize;
        let got = ctx.must("concurrent hashing", || {
            let hs: Vec<_> = (0..threads)
                .map(|t| {
                    let ops = ops.clone();
                    std::thread::spawn(move || {
                        (0..n)
                            .map(|i| {
                                let j = if t & 1 == 0 { (i + t) % n } else { n - 1 - (i + t) % n };
                                (j, flat(&eval(&ops[j])))
                            })
                            .collect::<Vec<_>>()
                    })
                })
                .collect();
            hs.into_iter().flat_map(|h| h.join().unwrap()).collect::<Vec<_>>()
        });
        let Some(got) = got else { return };
        for (j, b) in got {
            ctx.check(b == want[j], "answer-varies", || {
                format!("{:?} hashed from one of {threads} threads differs from hashing it alone", ops[j])
            });
        }
        let mut all: Vec<(Vec<u64>, Done)> = vec![];
        for (o, w) in ops.iter().zip(&want) {
            let Some(x) = ctx.must("hash", || eval(o)) else { return };
            ctx.event("hash", &flat(&x));
            ctx.state(hash_bytes(2, &flat(&x)));
            ctx.check(&flat(&x) == w, "answer-varies", || format!("{o:?} hashed later differs from hashing it first"));
            let bad = refused(o);
            ctx.check(x.is_err() == bad, if bad { "accepted" } else { "refused" }, || {
                format!("{o:?} answered {:?}", x.as_ref().map(|x| &x.digest))
            });
            let Ok(x) = x else { continue };
            for (f, y) in all.iter().filter(|(f, _)| *f == family(o)) {
                ctx.check((x.key == y.key) == (x.digest == y.digest), "digest-not-unique", || {
                    format!("function {f:?}: inputs equal {}, digests equal {}", x.key == y.key, x.digest == y.digest)
                });
            }
            // a shorter input to a fixed-length hash stands for its zero-padded form
            if o.arg(0) == 9 {
                let Some(y) = ctx.must("hash", || poseidon_full(o)) else { return };
                ctx.check(y.as_ref() == Ok(&x.digest), "padding", || {
                    format!("{o:?} differs from hashing the input with its padding written out")
                });
            }
            // more output extends less output
            if o.arg(0) < 2 {
                let longer = Op::new("hash", &[o.arg(0), o.arg(1), o.arg(2), o.arg(3), o.arg(4) % 8]);
                let more = Op::new("hash", &[o.arg(0), o.arg(1), o.arg(2), o.arg(3), 7]);
                let Some((a, b)) = ctx.must("hash", || (eval(&longer).map(|x| x.digest), eval(&more).map(|x| x.digest))) else { return };
                ctx.check(matches!((&a, &b), (Ok(a), Ok(b)) if b.starts_with(a)), "output-prefix", || {
                    format!("{o:?}: a longer output does not extend a shorter one")
                });
            }
            all.push((family(o), x));
        }
    }
    fn rule(&self) -> &'static str {
        "one run = 2-8 evaluations of hashes, sponges and keyed functions on easily confused inputs, first each alone in its own process, then by 1-4 threads in different orders starting from uninitialised tables under the schedule, then again in sequence; non-trivial = more than one thread; distinct by hash of the event history and schedule"
    }
    fn real(&self) -> &'static [&'static str] {
        &["jf-rescue over five fields, jf-poseidon2 over two, lazy_static"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["spongefish duplex sponge, ark-crypto-primitives sponge traits", "thread scheduling (simulated)"]
    }
}

struct Com<F> {
    msg: Vec<F>,
    r: F,
    c: F,
}
fn exec2<F: RescueParameter, const L: usize, const M: usize>(p: &Plan, ctx: &mut Ctx) -> Option<()> {
    type S<F, const L: usize, const M: usize> = FixedLengthRescueCommitment<F, L, M>;
    let mut made: Vec<Com<F>> = vec![];
    let arr = |m: &[F]| -> [F; L] { m.try_into().unwrap() };
    let verify = |ctx: &mut Ctx, m: &[F], r: &F, c: &F| ctx.must("verify", || S::<F, L, M>::verify(arr(m), Some(r), c));
    for o in &p.ops {
        let mut r = Prng::new(o.arg(0));
        match o.k.as_str() {
            "commit" => {
                let msg: Vec<F> = match made.last() {
                    Some(x) if r.chance(1, 3) => x.msg.clone(),
                    _ => elems(&mut r, L),
                };
                let b = match made.last() {
                    Some(x) if r.chance(1, 3) => x.r,
                    _ => elem(&mut r),
                };
                let c = ctx.must("commit", || S::<F, L, M>::commit(arr(&msg), Some(&b)))?;
                let Ok(c) = c else {
                    ctx.violate("commit-refused", format!("{L} elements"));
                    return None;
                };
                ctx.event("commit", &by(&c));
                ctx.state(hash_bytes(L as u64, &by(&c)));
                for x in &made {
                    let same = x.msg == msg && x.r == b;
                    ctx.check((x.c == c) == same, "not-binding", || format!("equal openings {same}, commitments equal {}", x.c == c));
                }
                made.push(Com { msg, r: b, c });
            },
            "open" => {
                let Some(x) = made.get(o.usize(1) % made.len().max(1)) else { continue };
                // committer and verifier both restart in between
                let g = carry_canon(ctx, Trip::honest(r.next()), "message", &x.msg);
                let m = same(ctx, "message", &x.msg, g)?;
                let g = carry_canon(ctx, Trip::honest(r.next()), "blinding", &x.r);
                let b = same(ctx, "blinding", &x.r, g)?;
                let g = carry_canon(ctx, Trip::honest(r.next()), "commitment", &x.c);
                let c = same(ctx, "commitment", &x.c, g)?;
                ctx.fault("restart");
                let v = verify(ctx, &m, &b, &c)?;
                ctx.check(matches!(v, Ok(Ok(()))), "honest-rejected", || format!("{v:?}"));
                let v = ctx.must("no blinding", || {
                    (S::<F, L, M>::commit(arr(&m), None).is_err(), S::<F, L, M>::verify(arr(&m), None, &c).is_err())
                })?;
                ctx.check(v == (true, true), "no-blinding-accepted", || format!("{v:?}"));
            },
            "attack" => {
                if made.is_empty() {
                    continue;
                }
                let x = &made[o.usize(1) % made.len()];
                let y = &made[o.usize(2) % made.len()];
                let (mut m, mut b, mut c) = (x.msg.clone(), x.r, x.c);
                let i = r.below(L as u64) as usize;
                match o.arg(3) % 9 {
                    0 => m[i] = elem(&mut r),
                    1 => m.swap(i, 0),
                    2 => b = elem(&mut r),
                    3 => c = y.c,
                    4 => m = y.msg.clone(),
                    5 => b = y.r,
                    6 => std::mem::swap(&mut m[i], &mut b),
                    7 => c += F::one(),
                    _ => match carry_canon(ctx, Trip::new(r.next(), 6), "commitment", &x.c)? {
                        Got::Damaged(Ok(d)) => c = d,
                        _ => continue,
                    },
                }
                ctx.fault("altered_opening");
                let truth = made.iter().any(|z| z.msg == m && z.r == b && z.c == c);
                let v = verify(ctx, &m, &b, &c)?;
                ctx.event("attack", &[truth as u8]);
                ctx.check(matches!(v, Ok(Ok(()))) == truth, "false-opening", || {
                    format!("attack {}: {v:?}, truth {truth}", o.arg(3) % 9)
                });
            },
            _ => {},
        }
    }
    Some(())
}

impl World for H02 {
    fn property(&self) -> &'static str {
        "H02"
    }
    fn budget(&self, t: Tier) -> (u64, u64) {
        if t == Tier::Quick { (40_000, 15) } else { (4_000_000, 240) }
    }
    fn huge_alloc_is_upstream(&self) -> bool {
        true
    }
    /// cfg: [field, length]
    fn gen(&self, r: &mut Prng, _: Tier) -> Plan {
        let mut ops = vec![Op::new("commit", &[r.next()])];
        for _ in 0..r.range(2, 12) {
            let k = *r.pick(&["commit", "commit", "open", "attack", "attack", "attack"]);
            ops.push(Op::new(k, &[r.next(), r.below(8), r.below(8), r.below(36)]));
        }
        Plan { cfg: vec![r.below(5), r.below(6)], ops, sched: Schedule::quiet() }
    }
    fn exec(&self, p: &Plan, ctx: &mut Ctx) {
        alone();
        match p.c(0) {
            0 => by_len::<ark_ed_on_bls12_381::Fq>(p, ctx),
            1 => by_len::<ark_ed_on_bn254::Fq>(p, ctx),
            2 => by_len::<ark_ed_on_bls12_377::Fq>(p, ctx),
            3 => by_len::<ark_bn254::Fq>(p, ctx),
            _ => by_len::<ark_bls12_377::Fq>(p, ctx),
        };
    }
    fn rule(&self) -> &'static str {
        "one run = commitments to 1-9 elements opened after storage and restarts, and openings altered, swapped or replayed on the way; non-trivial = at least one fault; distinct by hash of the event history"
    }
    fn real(&self) -> &'static [&'static str] {
        &["jf-rescue commitments over five fields, jf-commitment"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["ark-crypto-primitives sponge traits", "storage (simulated)"]
    }
}
fn by_len<F: RescueParameter>(p: &Plan, ctx: &mut Ctx) -> Option<()> {
    match p.c(1) {
        0 => exec2::<F, 1, 2>(p, ctx),
        1 => exec2::<F, 2, 3>(p, ctx),
        2 => exec2::<F, 3, 4>(p, ctx),
        3 => exec2::<F, 5, 6>(p, ctx),
        4 => exec2::<F, 8, 9>(p, ctx),
        _ => exec2::<F, 9, 10>(p, ctx),
    }
}
