//! Proof systems under test: a curve with a transcript, and honest statements.
use crate::{
    bind::{Spy, Step},
    circ::*,
    rng::SimRng,
};
use ark_ec::{pairing::Pairing, AffineRepr};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use jf_pcs::prelude::Commitment;
use jf_plonk::{
    proof_system::{
        batch_arg::{BatchArgument, Instance},
        structs::{BatchProof, Proof, ProvingKey, UniversalSrs, VerifyingKey},
        PlonkKzgSnark, UniversalSNARK,
    },
    transcript::{PlonkTranscript, RescueTranscript, SolidityTranscript, StandardTranscript},
};
use jf_relation::{Arithmetization, MergeableCircuitType, PlonkCircuit};
use sim::*;
use std::{fmt::Debug, sync::OnceLock};

pub type Res<T> = Result<T, String>;
pub fn e2s<T, E: Debug>(x: Result<T, E>) -> Res<T> {
    x.map_err(|e| format!("{e:?}"))
}
pub fn by<T: CanonicalSerialize>(x: &T) -> Vec<u8> {
    let mut v = vec![];
    x.serialize_uncompressed(&mut v).unwrap();
    v
}
pub type Extra = Option<Vec<u8>>;

pub trait Sys: 'static + Sized {
    type F: Fld;
    type E: Pairing<ScalarField = Self::F>;
    const NAME: &'static str;
    fn srs(i: u64) -> &'static UniversalSrs<Self::E>;
    fn preprocess(srs: &UniversalSrs<Self::E>, c: &PlonkCircuit<Self::F>) -> Res<(Pk<Self>, Vk<Self>)>;
    fn prove(rng: &mut SimRng, c: &PlonkCircuit<Self::F>, pk: &Pk<Self>, extra: Extra) -> Res<Pf<Self>> {
        Self::prove_any(rng, c, pk, extra)
    }
    /// For any arithmetisation.
    fn prove_any<C: Arithmetization<Self::F>>(rng: &mut SimRng, c: &C, pk: &Pk<Self>, extra: Extra) -> Res<Pf<Self>>;
    fn verify(vk: &Vk<Self>, pubs: &[Self::F], p: &Proof<Self::E>, extra: Extra) -> Res<()>;
    fn batch_prove(rng: &mut SimRng, c: &[&PlonkCircuit<Self::F>], pk: &[&Pk<Self>]) -> Res<BatchProof<Self::E>>;
    fn verify_batch_proof(vk: &[&Vk<Self>], pubs: &[&[Self::F]], p: &BatchProof<Self::E>) -> Res<()>;
    fn batch_verify(vk: &[&Vk<Self>], pubs: &[&[Self::F]], p: &[&Proof<Self::E>], extra: &[Extra]) -> Res<()>;
    fn instance(srs: &UniversalSrs<Self::E>, c: PlonkCircuit<Self::F>, t: MergeableCircuitType)
        -> Res<Instance<Self::E>>;
    fn merged_prove(rng: &mut SimRng, a: &[Instance<Self::E>], b: &[Instance<Self::E>]) -> Res<BatchProof<Self::E>>;
    /// Aggregated keys, the two group elements, and the final decision.
    fn merged_verify(
        srs: &UniversalSrs<Self::E>,
        a: &[&Vk<Self>],
        b: &[&Vk<Self>],
        shared: &[Self::F],
        p: &BatchProof<Self::E>,
        blind: Self::F,
    ) -> Res<bool>;
    /// Combiners a careless verifier could be using.
    fn guesses() -> Vec<Self::F>;
    /// Feeds a fresh transcript and returns the challenges drawn from it.
    fn exchange(steps: &[Step<Self>]) -> Res<Vec<Self::F>>;
    fn to_fields(p: Proof<Self::E>) -> Vec<Fq<Self>>;
    fn from_fields(v: Vec<Fq<Self>>) -> Res<Proof<Self::E>>;
}
pub type Fq<S> = <<S as Sys>::E as Pairing>::BaseField;
pub type G1<S> = <<S as Sys>::E as Pairing>::G1Affine;
pub type Pk<S> = ProvingKey<<S as Sys>::E>;
pub type Vk<S> = VerifyingKey<<S as Sys>::E>;
pub type Pf<S> = Proof<<S as Sys>::E>;
pub type Bp<S> = BatchProof<<S as Sys>::E>;
pub type Com<S> = Commitment<<S as Sys>::E>;

type Set<E> = (UniversalSrs<E>, UniversalSrs<E>);
macro_rules! setup {
    ($e:ty, $deg:expr) => {{
        let b = in_child(|| {
            let mut r = SimRng::new(17);
            let x: Set<$e> = (
                PlonkKzgSnark::<$e>::universal_setup_for_testing($deg, &mut r).unwrap(),
                PlonkKzgSnark::<$e>::universal_setup_for_testing($deg, &mut r).unwrap(),
            );
            by(&x)
        });
        Set::<$e>::deserialize_uncompressed_unchecked(&b[..]).unwrap()
    }};
}
static BN: OnceLock<Set<ark_bn254::Bn254>> = OnceLock::new();
static B381: OnceLock<Set<ark_bls12_381::Bls12_381>> = OnceLock::new();
static B377: OnceLock<Set<ark_bls12_377::Bls12_377>> = OnceLock::new();
pub const DEG: usize = 514;
pub fn prepare() {
    BN.get_or_init(|| setup!(ark_bn254::Bn254, DEG));
    B381.get_or_init(|| setup!(ark_bls12_381::Bls12_381, DEG));
    B377.get_or_init(|| setup!(ark_bls12_377::Bls12_377, DEG));
}

macro_rules! system {
    ($t:ident, $name:expr, $m:ident, $e:ident, $set:ident, $tr:ty) => {
        pub struct $t;
        impl Sys for $t {
            type F = $m::Fr;
            type E = $m::$e;
            const NAME: &'static str = $name;
            fn srs(i: u64) -> &'static UniversalSrs<Self::E> {
                let s = $set.get().unwrap();
                if i & 1 == 0 {
                    &s.0
                } else {
                    &s.1
                }
            }
            fn preprocess(srs: &UniversalSrs<Self::E>, c: &PlonkCircuit<Self::F>) -> Res<(Pk<Self>, Vk<Self>)> {
                e2s(PlonkKzgSnark::<Self::E>::preprocess(srs, c))
            }
            fn prove_any<C: Arithmetization<Self::F>>(
                rng: &mut SimRng,
                c: &C,
                pk: &Pk<Self>,
                extra: Extra,
            ) -> Res<Pf<Self>> {
                e2s(PlonkKzgSnark::<Self::E>::prove::<_, _, $tr>(rng, c, pk, extra))
            }
            fn verify(vk: &Vk<Self>, pubs: &[Self::F], p: &Pf<Self>, extra: Extra) -> Res<()> {
                e2s(PlonkKzgSnark::<Self::E>::verify::<$tr>(vk, pubs, p, extra))
            }
            fn batch_prove(rng: &mut SimRng, c: &[&PlonkCircuit<Self::F>], pk: &[&Pk<Self>]) -> Res<Bp<Self>> {
                e2s(PlonkKzgSnark::<Self::E>::batch_prove::<_, _, $tr>(rng, c, pk))
            }
            fn verify_batch_proof(vk: &[&Vk<Self>], pubs: &[&[Self::F]], p: &Bp<Self>) -> Res<()> {
                e2s(PlonkKzgSnark::<Self::E>::verify_batch_proof::<$tr>(vk, pubs, p))
            }
            fn batch_verify(vk: &[&Vk<Self>], pubs: &[&[Self::F]], p: &[&Pf<Self>], extra: &[Extra]) -> Res<()> {
                e2s(PlonkKzgSnark::<Self::E>::batch_verify::<$tr>(vk, pubs, p, extra))
            }
            fn instance(
                srs: &UniversalSrs<Self::E>,
                c: PlonkCircuit<Self::F>,
                t: MergeableCircuitType,
            ) -> Res<Instance<Self::E>> {
                e2s(BatchArgument::setup_instance(srs, c, t))
            }
            fn merged_prove(rng: &mut SimRng, a: &[Instance<Self::E>], b: &[Instance<Self::E>]) -> Res<Bp<Self>> {
                e2s(BatchArgument::batch_prove::<_, $tr>(rng, a, b))
            }
            fn merged_verify(
                srs: &UniversalSrs<Self::E>,
                a: &[&Vk<Self>],
                b: &[&Vk<Self>],
                shared: &[Self::F],
                p: &Bp<Self>,
                blind: Self::F,
            ) -> Res<bool> {
                let vks = e2s(BatchArgument::<Self::E>::aggregate_verify_keys(a, b))?;
                let (x, y) = e2s(BatchArgument::<Self::E>::partial_verify::<$tr>(
                    &srs.powers_of_g[1],
                    &srs.powers_of_g[0],
                    &vks,
                    shared,
                    p,
                    blind,
                ))?;
                e2s(BatchArgument::<Self::E>::decide(&vks[0].open_key, x, y))
            }
            fn guesses() -> Vec<Self::F> {
                let mut v = vec![Self::F::from(1u64), Self::F::from(2u64), -Self::F::from(1u64)];
                let mut t = <$tr as PlonkTranscript<Fq<Self>>>::new(b"batch verify");
                v.extend(PlonkTranscript::<Fq<Self>>::get_challenge::<Self::E>(&mut t, b"r").ok());
                v
            }
            fn exchange(steps: &[Step<Self>]) -> Res<Vec<Self::F>> {
                let mut t = <$tr as PlonkTranscript<Fq<Self>>>::new(b"exchange");
                let mut v = vec![];
                for s in steps {
                    match s {
                        Step::Msg(b) => e2s(PlonkTranscript::<Fq<Self>>::append_message(&mut t, b"message", b))?,
                        Step::Scalar(x) => {
                            e2s(PlonkTranscript::<Fq<Self>>::append_field_elem::<Self::E>(&mut t, b"scalar", x))?
                        },
                        Step::Point(c) => e2s(PlonkTranscript::<Fq<Self>>::append_commitment(&mut t, b"point", c))?,
                        Step::Ask => {
                            v.push(e2s(PlonkTranscript::<Fq<Self>>::get_challenge::<Self::E>(&mut t, b"challenge"))?)
                        },
                    }
                }
                Ok(v)
            }
            fn to_fields(p: Pf<Self>) -> Vec<Fq<Self>> {
                p.into()
            }
            fn from_fields(v: Vec<Fq<Self>>) -> Res<Pf<Self>> {
                e2s(v.try_into())
            }
        }
    };
}
system!(BnStd, "bn254/standard", ark_bn254, Bn254, BN, StandardTranscript);
system!(BnSol, "bn254/solidity", ark_bn254, Bn254, BN, SolidityTranscript);
system!(B381Std, "bls12-381/standard", ark_bls12_381, Bls12_381, B381, StandardTranscript);
system!(B381Sol, "bls12-381/solidity", ark_bls12_381, Bls12_381, B381, SolidityTranscript);
system!(B377Res, "bls12-377/rescue", ark_bls12_377, Bls12_377, B377, RescueTranscript<ark_bls12_377::Fq>);
system!(BnStdSpy, "bn254/standard", ark_bn254, Bn254, BN, Spy<StandardTranscript>);
system!(BnSolSpy, "bn254/solidity", ark_bn254, Bn254, BN, Spy<SolidityTranscript>);
system!(B381StdSpy, "bls12-381/standard", ark_bls12_381, Bls12_381, B381, Spy<StandardTranscript>);
system!(B381SolSpy, "bls12-381/solidity", ark_bls12_381, Bls12_381, B381, Spy<SolidityTranscript>);
system!(B377ResSpy, "bls12-377/rescue", ark_bls12_377, Bls12_377, B377, Spy<RescueTranscript<ark_bls12_377::Fq>>);

#[macro_export]
macro_rules! on_spy {
    ($c:expr, $f:ident ( $($a:expr),* )) => {
        match $c % 8 {
            0 | 1 => $f::<$crate::sys::BnStdSpy>($($a),*),
            2 | 3 => $f::<$crate::sys::BnSolSpy>($($a),*),
            4 => $f::<$crate::sys::B381StdSpy>($($a),*),
            5 => $f::<$crate::sys::B381SolSpy>($($a),*),
            _ => $f::<$crate::sys::B377ResSpy>($($a),*),
        }
    };
}
#[macro_export]
macro_rules! on_sys {
    ($c:expr, $f:ident ( $($a:expr),* )) => {
        match $c % 8 {
            0 | 1 => $f::<$crate::sys::BnStd>($($a),*),
            2 | 3 => $f::<$crate::sys::BnSol>($($a),*),
            4 => $f::<$crate::sys::B381Std>($($a),*),
            5 => $f::<$crate::sys::B381Sol>($($a),*),
            _ => $f::<$crate::sys::B377Res>($($a),*),
        }
    };
}

/// A finalised circuit with its keys.
pub struct Stmt<S: Sys> {
    pub b: Built<S::F>,
    pub pubs: Vec<S::F>,
    pub pk: Pk<S>,
    pub vk: Vk<S>,
    /// Whether the witness satisfies every constraint.
    pub holds: bool,
}

/// Builds, finalises and preprocesses; the steps must succeed exactly when the
/// parameters are large enough.
pub fn statement<S: Sys>(
    ctx: &mut Ctx,
    ops: &[Op],
    ultra: Option<usize>,
    srs: &UniversalSrs<S::E>,
) -> Option<Stmt<S>> {
    let mut b = ctx.must("build", || Built::<S::F>::build(ops, ultra))?;
    if b.wrong.is_some() {
        ctx.discard("builder disagrees with the model, the circuit property's concern");
    }
    let r = ctx.must("finalise", || b.c.finalize_for_arithmetization())?;
    if r.is_err() {
        ctx.discard("not finalised, the circuit property's concern");
    }
    let n = b.c.srs_size().unwrap();
    let fits = srs.powers_of_g.len() > n;
    let k = ctx.must("preprocess", || S::preprocess(srs, &b.c))?;
    if !ctx.check(k.is_ok() == fits, "preprocess", || {
        format!("{}: {n} of {} powers needed, answer {:?}", S::NAME, srs.powers_of_g.len() - 1, k.as_ref().err())
    }) {
        return None;
    }
    let Ok((pk, vk)) = k else {
        ctx.mark("too large for the parameters");
        return None;
    };
    ctx.mark(&format!("domain of {:4}", n - 2));
    let pubs = b.pub_values();
    let holds = b.truth(&Default::default()).unwrap();
    Some(Stmt { b, pubs, pk, vk, holds })
}

/// The encoded batch proof, read back part by part.
#[derive(Clone, CanonicalSerialize, CanonicalDeserialize)]
pub struct Parts<G: AffineRepr> {
    pub wires: Vec<Vec<G>>,
    pub perm: Vec<G>,
    pub evals: Vec<(Vec<G::ScalarField>, Vec<G::ScalarField>, G::ScalarField)>,
    pub lookup: Vec<Option<Lookup<G>>>,
    pub quot: Vec<G>,
    pub open: G,
    pub shifted: G,
}
#[derive(Clone, CanonicalSerialize, CanonicalDeserialize)]
pub struct Lookup<G: AffineRepr> {
    pub h: Vec<G>,
    pub prod: G,
    pub evals: [G::ScalarField; 15],
}

/// A single proof, likewise.
#[derive(Clone, CanonicalSerialize, CanonicalDeserialize)]
pub struct Single<G: AffineRepr> {
    pub wires: Vec<G>,
    pub perm: G,
    pub quot: Vec<G>,
    pub open: G,
    pub shifted: G,
    pub evals: (Vec<G::ScalarField>, Vec<G::ScalarField>, G::ScalarField),
    pub lookup: Option<Lookup<G>>,
}
impl<G: AffineRepr> Parts<G> {
    pub fn points(&mut self) -> Vec<(&'static str, &mut G)> {
        let mut v: Vec<(&'static str, &mut G)> = vec![];
        v.extend(self.wires.iter_mut().flatten().map(|x| ("wire commitment", x)));
        v.extend(self.perm.iter_mut().map(|x| ("permutation commitment", x)));
        v.extend(self.quot.iter_mut().map(|x| ("quotient commitment", x)));
        v.push(("opening proof", &mut self.open));
        v.push(("shifted opening proof", &mut self.shifted));
        for l in self.lookup.iter_mut().flatten() {
            v.extend(l.h.iter_mut().map(|x| ("sorted vector commitment", x)));
            v.push(("lookup product commitment", &mut l.prod));
        }
        v
    }
    pub fn scalars(&mut self) -> Vec<(&'static str, &mut G::ScalarField)> {
        let mut v: Vec<(&'static str, &mut G::ScalarField)> = vec![];
        for e in &mut self.evals {
            v.extend(e.0.iter_mut().map(|x| ("wire evaluation", x)));
            v.extend(e.1.iter_mut().map(|x| ("sigma evaluation", x)));
            v.push(("permutation evaluation", &mut e.2));
        }
        for l in self.lookup.iter_mut().flatten() {
            v.extend(l.evals.iter_mut().map(|x| ("lookup evaluation", x)));
        }
        v
    }
}
impl<G: AffineRepr> Single<G> {
    pub fn points(&mut self) -> Vec<(&'static str, &mut G)> {
        let mut v: Vec<(&'static str, &mut G)> = vec![];
        v.extend(self.wires.iter_mut().map(|x| ("wire commitment", x)));
        v.push(("permutation commitment", &mut self.perm));
        v.extend(self.quot.iter_mut().map(|x| ("quotient commitment", x)));
        v.push(("opening proof", &mut self.open));
        v.push(("shifted opening proof", &mut self.shifted));
        if let Some(l) = &mut self.lookup {
            v.extend(l.h.iter_mut().map(|x| ("sorted vector commitment", x)));
            v.push(("lookup product commitment", &mut l.prod));
        }
        v
    }
    pub fn scalars(&mut self) -> Vec<(&'static str, &mut G::ScalarField)> {
        let mut v: Vec<(&'static str, &mut G::ScalarField)> = vec![];
        v.extend(self.evals.0.iter_mut().map(|x| ("wire evaluation", x)));
        v.extend(self.evals.1.iter_mut().map(|x| ("sigma evaluation", x)));
        v.push(("permutation evaluation", &mut self.evals.2));
        if let Some(l) = &mut self.lookup {
            v.extend(l.evals.iter_mut().map(|x| ("lookup evaluation", x)));
        }
        v
    }
}
/// Reads `x` through its encoding as `T`, if the encoding is as expected.
pub fn mirror<A: CanonicalSerialize, T: CanonicalSerialize + CanonicalDeserialize>(x: &A) -> Option<T> {
    let b = by(x);
    let t = T::deserialize_uncompressed_unchecked(&b[..]).ok()?;
    (by(&t) == b).then_some(t)
}

/// The parameters cut down to exactly `n` powers beyond the first.
pub fn cut<E: Pairing>(srs: &UniversalSrs<E>, n: usize) -> UniversalSrs<E> {
    let mut s = srs.clone();
    s.powers_of_g.truncate(n + 1);
    s
}
pub fn extra(x: u64) -> Extra {
    match x % 4 {
        0 | 1 => None,
        2 => Some(Prng::new(x).bytes(1 + (x % 40) as usize)),
        _ => Some(Prng::new(x).bytes(1 + (x % 300) as usize)),
    }
}
/// Same transcript context? (an empty message adds nothing in two transcripts)
pub fn same_extra(a: &Extra, b: &Extra) -> bool {
    a.as_deref().unwrap_or(&[]) == b.as_deref().unwrap_or(&[])
}
pub fn alone() {
    let p = rayon::ThreadPoolBuilder::new().num_threads(1).use_current_thread().build().expect("pool");
    std::mem::forget(p);
}
pub fn pool(n: usize) -> rayon::ThreadPool {
    rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("pool")
}
/// A small program: `kind` 0 turbo, else range bits of an ultra circuit.
pub fn program(r: &mut Prng, ultra: u64, lies: u64, max: u64) -> Vec<Op> {
    let n = if r.chance(1, 12) { r.below(2) } else { 1 + r.size(max) };
    gen(r, n, ultra > 0, lies, false)
}
pub fn draw_ultra(r: &mut Prng) -> u64 {
    if r.chance(2, 5) {
        *r.pick(&[1u64, 2, 2, 3, 3, 4, 5])
    } else {
        0
    }
}
pub const REAL: &[&str] = &[
    "jf-plonk: preprocessing, prover, verifier, batching, transcripts",
    "jf-relation: circuits",
    "jf-pcs: KZG commitments",
    "ark-ec / ark-poly / ark-ff, rayon",
];
pub const STUBS: &[&str] = &[
    "merlin: own STROBE/Keccak transcript, bit-compatible",
    "sha3: own Keccak, bit-compatible",
    "itertools, dyn-clone: the few functions used",
    "trusted setup: the crate's own test parameters",
];
