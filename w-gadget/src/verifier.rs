//! The circuit that verifies proofs, beside the native verifier. The scalars'
//! field is the real one behind a seam: a lying prover makes single operations
//! of it give wrong results while the circuit is built.
use crate::kit::{elem, fresh, Made};
use ark_bls12_377::{Fq, FrConfig};
use ark_ec::{
    pairing::{MillerLoopOutput, Pairing, PairingOutput},
    short_weierstrass::{Affine, Projective, SWCurveConfig},
    twisted_edwards::{Affine as TEAffine, MontCurveConfig, TECurveConfig},
    AffineRepr, CurveConfig, CurveGroup,
};
use ark_ff::{AdditiveGroup, BigInt, Field, Fp, FpConfig, MontBackend, SqrtPrecomputation, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use jf_pcs::prelude::Commitment;
use jf_plonk::{
    circuit::plonk_verifier::{BatchableCircuit, VerifyingKeyVar},
    proof_system::{
        batch_arg::BatchArgument,
        structs::{BatchProof, OpenKey, VerifyingKey},
    },
    transcript::RescueTranscript,
};
use jf_relation::{
    gadgets::{ecc::TEPoint, ultraplonk::mod_arith::FpElemVar},
    Circuit, CircuitError,
};
use sim::Prng;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

type Inner = MontBackend<FrConfig, 4>;
type G1Config = ark_bls12_377::g1::Config;

pub struct Seam;
pub type S = Fp<Seam, 4>;

#[derive(Clone, Copy, PartialEq)]
enum Did {
    Sub(S, S),
    Mul(S, S),
    Inv(S),
}

#[derive(Default)]
struct Watch {
    /// operations seen, while recording
    log: Option<Vec<Did>>,
    /// the operation that gives a wrong result, and by how much
    lie: Option<(Did, S)>,
    /// how many times it is done right first, and how many times wrong then
    skip: usize,
    times: usize,
}

thread_local! {
    static WATCH: RefCell<Watch> = RefCell::default();
}

fn saw(d: Did) -> S {
    WATCH.with(|w| {
        let w = &mut *w.borrow_mut();
        if let Some(l) = &mut w.log {
            l.push(d);
        }
        match &w.lie {
            Some((k, by)) if *k == d => {
                if w.skip > 0 {
                    w.skip -= 1;
                    return S::ZERO;
                }
                if w.times == 0 {
                    return S::ZERO;
                }
                w.times -= 1;
                *by
            },
            _ => S::ZERO,
        }
    })
}

const fn wrap(x: BigInt<4>) -> S {
    Fp(x, std::marker::PhantomData)
}

fn open(x: &S) -> Fp<Inner, 4> {
    Fp(x.0, std::marker::PhantomData)
}

fn shift(a: &mut S, by: S) {
    if by.0 != BigInt::zero() {
        let mut x = open(a);
        Inner::add_assign(&mut x, &open(&by));
        a.0 = x.0;
    }
}

impl FpConfig<4> for Seam {
    const MODULUS: BigInt<4> = <Inner as FpConfig<4>>::MODULUS;
    const GENERATOR: S = wrap(<Inner as FpConfig<4>>::GENERATOR.0);
    const ZERO: S = wrap(<Inner as FpConfig<4>>::ZERO.0);
    const ONE: S = wrap(<Inner as FpConfig<4>>::ONE.0);
    const TWO_ADICITY: u32 = <Inner as FpConfig<4>>::TWO_ADICITY;
    const TWO_ADIC_ROOT_OF_UNITY: S = wrap(<Inner as FpConfig<4>>::TWO_ADIC_ROOT_OF_UNITY.0);
    const SQRT_PRECOMP: Option<SqrtPrecomputation<S>> = None;
    fn add_assign(a: &mut S, b: &S) {
        let mut x = open(a);
        Inner::add_assign(&mut x, &open(b));
        a.0 = x.0;
    }
    fn sub_assign(a: &mut S, b: &S) {
        let by = saw(Did::Sub(*a, *b));
        let mut x = open(a);
        Inner::sub_assign(&mut x, &open(b));
        a.0 = x.0;
        shift(a, by);
    }
    fn double_in_place(a: &mut S) {
        let mut x = open(a);
        Inner::double_in_place(&mut x);
        a.0 = x.0;
    }
    fn neg_in_place(a: &mut S) {
        let mut x = open(a);
        Inner::neg_in_place(&mut x);
        a.0 = x.0;
    }
    fn mul_assign(a: &mut S, b: &S) {
        let by = saw(Did::Mul(*a, *b));
        let mut x = open(a);
        Inner::mul_assign(&mut x, &open(b));
        a.0 = x.0;
        shift(a, by);
    }
    fn sum_of_products<const T: usize>(a: &[S; T], b: &[S; T]) -> S {
        let mut s = Self::ZERO;
        for (x, y) in a.iter().zip(b) {
            let mut z = *x;
            Self::mul_assign(&mut z, y);
            Self::add_assign(&mut s, &z);
        }
        s
    }
    fn square_in_place(a: &mut S) {
        let mut x = open(a);
        Inner::square_in_place(&mut x);
        a.0 = x.0;
    }
    fn inverse(a: &S) -> Option<S> {
        let by = saw(Did::Inv(*a));
        let mut x = Inner::inverse(&open(a)).map(|x| wrap(x.0))?;
        shift(&mut x, by);
        Some(x)
    }
    fn from_bigint(x: BigInt<4>) -> Option<S> {
        Inner::from_bigint(x).map(|x| wrap(x.0))
    }
    fn into_bigint(x: S) -> BigInt<4> {
        Inner::into_bigint(open(&x))
    }
}

/// The real first group, with scalars behind the seam.
#[derive(Clone, Default, PartialEq, Eq)]
pub struct P;
impl CurveConfig for P {
    type BaseField = Fq;
    type ScalarField = S;
    const COFACTOR: &'static [u64] = G1Config::COFACTOR;
    const COFACTOR_INV: S = wrap(G1Config::COFACTOR_INV.0);
}
impl SWCurveConfig for P {
    const COEFF_A: Fq = <G1Config as SWCurveConfig>::COEFF_A;
    const COEFF_B: Fq = <G1Config as SWCurveConfig>::COEFF_B;
    const GENERATOR: Affine<P> = Affine::new_unchecked(
        <G1Config as SWCurveConfig>::GENERATOR.x,
        <G1Config as SWCurveConfig>::GENERATOR.y,
    );
}
impl TECurveConfig for P {
    const COEFF_A: Fq = <G1Config as TECurveConfig>::COEFF_A;
    const COEFF_D: Fq = <G1Config as TECurveConfig>::COEFF_D;
    const GENERATOR: TEAffine<P> = TEAffine::new_unchecked(
        <G1Config as TECurveConfig>::GENERATOR.x,
        <G1Config as TECurveConfig>::GENERATOR.y,
    );
    type MontCurveConfig = P;
}
impl MontCurveConfig for P {
    const COEFF_A: Fq = <G1Config as MontCurveConfig>::COEFF_A;
    const COEFF_B: Fq = <G1Config as MontCurveConfig>::COEFF_B;
    type TECurveConfig = P;
}

#[derive(Clone, Debug, CanonicalSerialize, CanonicalDeserialize)]
pub struct Ready(Affine<P>);
impl Default for Ready {
    fn default() -> Self {
        Ready(Affine::zero())
    }
}
impl From<Affine<P>> for Ready {
    fn from(x: Affine<P>) -> Self {
        Ready(x)
    }
}
impl From<&Affine<P>> for Ready {
    fn from(x: &Affine<P>) -> Self {
        Ready(*x)
    }
}
impl From<Projective<P>> for Ready {
    fn from(x: Projective<P>) -> Self {
        Ready(x.into_affine())
    }
}
impl From<&Projective<P>> for Ready {
    fn from(x: &Projective<P>) -> Self {
        Ready(x.into_affine())
    }
}

/// No pairing is computed by the circuit or by what it is compared with.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct E;
impl Pairing for E {
    type BaseField = Fq;
    type ScalarField = S;
    type G1 = Projective<P>;
    type G1Affine = Affine<P>;
    type G1Prepared = Ready;
    type G2 = Projective<P>;
    type G2Affine = Affine<P>;
    type G2Prepared = Ready;
    type TargetField = ark_bls12_377::Fq12;
    fn multi_miller_loop(
        _: impl IntoIterator<Item = impl Into<Ready>>,
        _: impl IntoIterator<Item = impl Into<Ready>>,
    ) -> MillerLoopOutput<Self> {
        unimplemented!("pairing")
    }
    fn final_exponentiation(_: MillerLoopOutput<Self>) -> Option<PairingOutput<Self>> {
        unimplemented!("pairing")
    }
}

fn point(r: &mut Prng) -> Affine<P> {
    match r.below(16) {
        0 => Affine::zero(),
        1 => <Affine<P> as AffineRepr>::generator(),
        _ => (<Affine<P> as AffineRepr>::generator() * S::from(r.next())).into_affine(),
    }
}

struct Case {
    keys: Vec<(VerifyingKey<E>, VerifyingKey<E>)>,
    merged: Vec<VerifyingKey<E>>,
    proof: BatchProof<E>,
    inputs: Vec<S>,
    beta_g: Affine<P>,
    g: Affine<P>,
    blind: S,
    bits: u64,
    /// whether the keys are merged by the circuit
    inside: bool,
    how: u64,
}

fn case(shape: u64, vals: u64) -> Option<Case> {
    let (sh, v) = (&mut Prng::new(shape), &mut Prng::new(vals));
    let n = *sh.pick(&[1usize, 1, 1, 1, 1, 2, 2, 3]);
    let domain = 1usize << sh.range(1, 9);
    let width = (sh.range(1, 3) as usize).min(domain / 2);
    let fixed = &mut Prng::new(sh.next());
    let g = (<Affine<P> as AffineRepr>::generator() * S::from(fixed.next())).into_affine();
    let beta_g = (g * elem::<S>(fixed)).into_affine();
    let key = |v: &mut Prng, k: &[S]| {
        let mut many = |n: usize| (0..n).map(|_| Commitment(point(v))).collect::<Vec<Commitment<E>>>();
        VerifyingKey::<E> {
            domain_size: domain,
            num_inputs: width,
            sigma_comms: many(5),
            selector_comms: many(13),
            k: k.to_vec(),
            open_key: OpenKey { g, h: g, beta_h: beta_g, ..Default::default() },
            is_merged: false,
            plookup_vk: None,
        }
    };
    // the circuit is made for these
    let k: Vec<S> = (0..5).map(|i| if i == 0 { S::ONE } else { elem(fixed) }).collect();
    let keys: Vec<_> = (0..n).map(|_| (key(v, &k), key(v, &k))).collect();
    let (a, b): (Vec<_>, Vec<_>) = keys.iter().map(|(a, b)| (a, b)).unzip();
    let merged = BatchArgument::aggregate_verify_keys(&a, &b).ok()?;
    let mut bytes = vec![];
    let points = |v: &mut Prng, n: usize| (0..n).map(|_| point(v)).collect::<Vec<_>>();
    let w: Vec<Vec<Affine<P>>> = (0..n).map(|_| points(v, 5)).collect();
    w.serialize_compressed(&mut bytes).ok()?;
    points(v, n).serialize_compressed(&mut bytes).ok()?;
    (n as u64).serialize_compressed(&mut bytes).ok()?;
    for _ in 0..n {
        let mut many = |n: usize| (0..n).map(|_| elem::<S>(v)).collect::<Vec<S>>();
        many(5).serialize_compressed(&mut bytes).ok()?;
        many(4).serialize_compressed(&mut bytes).ok()?;
        elem::<S>(v).serialize_compressed(&mut bytes).ok()?;
    }
    (n as u64).serialize_compressed(&mut bytes).ok()?;
    bytes.extend(vec![0u8; n]);
    points(v, 5).serialize_compressed(&mut bytes).ok()?;
    point(v).serialize_compressed(&mut bytes).ok()?;
    point(v).serialize_compressed(&mut bytes).ok()?;
    Some(Case {
        keys,
        merged,
        proof: BatchProof::deserialize_compressed_unchecked(&bytes[..]).ok()?,
        inputs: (0..width).map(|_| elem(v)).collect(),
        beta_g,
        g,
        blind: elem(v),
        bits: *sh.pick(&[4, 8, 8, 8, 9]),
        inside: sh.chance(1, 2),
        how: sh.below(2),
    })
}

fn lift(x: &S) -> Fq {
    Fq::from(crate::kit::int(x))
}

type Built = (jf_relation::PlonkCircuit<Fq>, Vec<usize>, [usize; 4]);

fn build(k: &Case, watch: Watch) -> Result<(Built, Vec<Did>), CircuitError> {
    let c = &mut fresh::<Fq>(k.bits);
    let m = 127u64.div_ceil(k.bits) * k.bits;
    let two = Some(Fq::from(2u64).pow([m]));
    let mut seen = vec![];
    let vks = if k.inside {
        let mut a = vec![];
        let mut b = vec![];
        for (x, y) in &k.keys {
            a.push(VerifyingKeyVar::new(c, x)?);
            b.push(VerifyingKeyVar::new(c, y)?);
        }
        a.iter().chain(&b).for_each(|x| seen.extend(x.to_vec()));
        c.aggregate_verify_keys::<E, P>(&a, &b)?
    } else {
        let v = k.merged.iter().map(|x| VerifyingKeyVar::new(c, x)).collect::<Result<Vec<_>, _>>()?;
        v.iter().for_each(|x| seen.extend(x.to_vec()));
        v
    };
    let mut inputs = vec![];
    for x in &k.inputs {
        let from = c.num_vars();
        inputs.push(match k.how {
            0 => FpElemVar::new_from_field_element(c, &lift(x), m as usize, two)?,
            _ => {
                let v = c.create_public_variable(lift(x))?;
                FpElemVar::new_from_var(c, v, m as usize, two)?
            },
        });
        seen.extend(from..c.num_vars());
    }
    let from = c.num_vars();
    let proof = k.proof.create_variables(c, m as usize, two)?;
    seen.extend(from..c.num_vars());
    let blind = c.create_variable(lift(&k.blind))?;
    seen.push(blind);
    WATCH.with(|w| *w.borrow_mut() = watch);
    let out = VerifyingKeyVar::partial_verify_circuit(
        c,
        &TEPoint::from(k.beta_g),
        &TEPoint::from(k.g),
        &vks,
        &inputs,
        &proof,
        blind,
    );
    let did = WATCH.with(|w| std::mem::take(&mut *w.borrow_mut())).log.unwrap_or_default();
    let (p, q) = out?;
    let out = [p.get_x(), p.get_y(), q.get_x(), q.get_y()];
    let c = std::mem::replace(c, fresh::<Fq>(0));
    Ok(((c, seen, out), did))
}

pub fn make(shape: u64, vals: u64) -> Result<Made<Fq>, CircuitError> {
    let k = case(shape, vals).ok_or_else(|| CircuitError::ParameterError("case".into()))?;
    let (a, b) = BatchArgument::<E>::partial_verify::<RescueTranscript<Fq>>(
        &k.beta_g, &k.g, &k.merged, &k.inputs, &k.proof, k.blind,
    )
    .map_err(|e| CircuitError::ParameterError(format!("native: {e:?}")))?;
    let (a, b) = (TEPoint::from(a.into_affine()), TEPoint::from(b.into_affine()));
    let native: Vec<Fq> = vec![a.get_x(), a.get_y(), b.get_x(), b.get_y()];
    let ((c, mut seen, out), did) = build(&k, Watch { log: Some(vec![]), ..Watch::default() })?;
    let n = seen.len();
    seen.extend(out);
    let given: Vec<Fq> = seen[..n].iter().map(|v| c.witness(*v).unwrap()).collect();
    let gives = out.into_iter().zip(native.iter().copied()).collect();
    Ok(Made {
        c,
        seen,
        truth: Box::new(move |x| if x[..n] == given[..] { Some(x[n..] == native[..]) } else { None }),
        want: true,
        gives,
        note: "",
        alt: Some(Box::new(move |r, base| {
            let of = |want: fn(&Did) -> bool| {
                let mut v: Vec<Did> = vec![];
                for d in did.iter().filter(|d| want(d)) {
                    if !v.contains(d) {
                        v.push(*d);
                    }
                }
                v
            };
            let case = r.below(16);
            let from: Vec<Did> = match case {
                0 => did.iter().copied().filter(|d| matches!(d, Did::Mul(..))).collect(),
                1..=9 => of(|d| matches!(d, Did::Sub(..))),
                _ => of(|d| matches!(d, Did::Inv(..))),
            };
            // what is computed in several places
            let often: Vec<Did> =
                from.iter().copied().filter(|d| (6..=9).contains(&case) && did.iter().filter(|x| *x == d).count() > 1).collect();
            let from = if often.is_empty() { from } else { often };
            if from.is_empty() {
                return None;
            }
            let d = *r.pick(&from);
            // all the times it is done, or the first or last of them
            let n = did.iter().filter(|x| **x == d).count();
            let m = if n > 1 && r.chance(1, 2) { 2 } else { 1 + r.below(n as u64) as usize };
            let (skip, times) = match r.below(if case > 5 { 6 } else { 4 }) {
                0 | 4 | 5 => (0, m),
                1 => (n - m, m),
                _ => (0, n),
            };
            let by = match elem::<S>(r) {
                x if x.is_zero() => S::ONE,
                x => x,
            };
            // a builder may give up when its arithmetic stops making sense
            let b = catch_unwind(AssertUnwindSafe(|| build(&k, Watch { log: None, lie: Some((d, by)), skip, times })));
            WATCH.with(|w| *w.borrow_mut() = Watch::default());
            let ((c, ..), _) = b.ok()?.ok()?;
            if c.num_vars() != base.len() {
                return None;
            }
            Some(("hint", (0..base.len()).map(|v| (v, c.witness(v).unwrap())).filter(|(v, x)| base[*v] != *x).collect()))
        })),
    })
}
