//! Parameters, polynomials and honest openings shared by the worlds.
use ark_bls12_381::Bls12_381;
use ark_bn254::Bn254;
use ark_ec::pairing::Pairing;
use ark_ff::{FftField, PrimeField};
use ark_poly::{univariate::DensePolynomial, DenseMultilinearExtension, DenseUVPolynomial};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use jf_pcs::prelude::*;
use sim::*;
use std::sync::OnceLock;

pub type UniSrs<E> = UnivariateUniversalParams<E>;
pub type MlSrs<E> = (MultilinearUniversalParams<E>, UnivariateUniversalParams<E>);
pub type Uni<E> = UnivariateKzgPCS<E>;
pub type Ml<E> = MultilinearKzgPCS<E>;
pub type Poly<F> = DensePolynomial<F>;

/// Degrees of the prepared parameters.
pub const DEG: usize = 1030;
pub const VDEG: usize = 26;
pub const NV: usize = 8;
pub const MLDEG: usize = 130;

/// A curve with two independent sets of parameters.
pub trait Cv: Pairing {
    const NAME: &'static str;
    fn uni(i: u64) -> &'static UniSrs<Self>;
    fn ml(i: u64) -> &'static MlSrs<Self>;
}
struct Set<E: Pairing>([UniSrs<E>; 2], [MlSrs<E>; 2]);

fn make<E: Pairing>() -> Set<E> {
    type Raw<E> = (UniSrs<E>, UniSrs<E>, MlSrs<E>, MlSrs<E>);
    let b = in_child(|| {
        let mut r = crate::rng::SimRng::new(11);
        let uni = |r: &mut _, a, b| UniSrs::<E>::gen_srs_for_testing_with_verifier_degree(r, a, b).unwrap();
        let ml = |r: &mut _| {
            let m = MultilinearUniversalParams::<E>::gen_srs_for_testing(r, NV).unwrap();
            (m, uni(r, MLDEG, 1))
        };
        let x: Raw<E> = (uni(&mut r, DEG, VDEG), uni(&mut r, DEG, VDEG), ml(&mut r), ml(&mut r));
        let mut b = vec![];
        x.serialize_uncompressed(&mut b).unwrap();
        b
    });
    let x = Raw::<E>::deserialize_uncompressed_unchecked(&b[..]).unwrap();
    Set([x.0, x.1], [x.2, x.3])
}
macro_rules! curve {
    ($s:ident, $e:ty, $n:expr) => {
        static $s: OnceLock<Set<$e>> = OnceLock::new();
        impl Cv for $e {
            const NAME: &'static str = $n;
            fn uni(i: u64) -> &'static UniSrs<Self> {
                &$s.get().unwrap().0[i as usize & 1]
            }
            fn ml(i: u64) -> &'static MlSrs<Self> {
                &$s.get().unwrap().1[i as usize & 1]
            }
        }
    };
}
curve!(BN, Bn254, "bn254");
curve!(BLS, Bls12_381, "bls12-381");

pub fn prepare() {
    BN.get_or_init(make);
    BLS.get_or_init(make);
}

#[macro_export]
macro_rules! on_curve {
    ($c:expr, $f:ident ( $($a:expr),* )) => {
        if $c % 4 == 3 { $f::<ark_bls12_381::Bls12_381>($($a),*) } else { $f::<ark_bn254::Bn254>($($a),*) }
    };
}

/// A field element, biased to the edges of the field.
pub fn elem<F: PrimeField>(r: &mut Prng) -> F {
    match r.below(8) {
        0 => F::zero(),
        1 => F::one(),
        2 => -F::from(1 + r.below(3)),
        3 => F::from(r.next()),
        _ => F::from_le_bytes_mod_order(&r.bytes(64)),
    }
}
pub fn point<F: PrimeField + FftField>(r: &mut Prng) -> F {
    match r.below(3) {
        0 => {
            let w = F::get_root_of_unity(1 << r.below(9)).unwrap();
            w.pow([r.below(512)])
        },
        _ => elem(r),
    }
}
/// A polynomial of degree exactly `d` (or the zero polynomial).
pub fn poly<F: PrimeField>(r: &mut Prng, d: usize) -> Poly<F> {
    let mut c: Vec<F> = match r.below(8) {
        0 => vec![F::zero(); d + 1],
        1 => (0..=d).map(|_| if r.chance(1, 5) { elem(r) } else { F::zero() }).collect(),
        2 => {
            let k = r.below(d as u64 + 1) as usize;
            (0..=d).map(|i| if i < k { F::zero() } else { elem(r) }).collect()
        },
        3 => {
            let x = elem(r);
            vec![x; d + 1]
        },
        4 => (0..=d).map(|_| F::from(r.below(3))).collect(),
        _ => (0..=d).map(|_| F::from_le_bytes_mod_order(&r.bytes(64))).collect(),
    };
    if r.chance(1, 25) {
        c = vec![];
    } else if c[d].is_zero() {
        c[d] = F::one() + F::from(r.below(4));
    }
    Poly::from_coefficients_vec(c)
}
/// The value, by the definition.
pub fn value<F: PrimeField>(p: &Poly<F>, z: F) -> F {
    let mut pw = F::one();
    let mut s = F::zero();
    for c in &p.coeffs {
        s += pw * c;
        pw *= z;
    }
    s
}
pub fn mle<F: PrimeField>(r: &mut Prng, nv: usize) -> MLE<F> {
    let n = 1usize << nv;
    let v: Vec<F> = match r.below(6) {
        0 => vec![F::zero(); n],
        1 => (0..n).map(|_| if r.chance(1, 5) { elem(r) } else { F::zero() }).collect(),
        2 => {
            let x = elem(r);
            vec![x; n]
        },
        3 => (0..n).map(|_| elem(r)).collect(),
        _ => (0..n).map(|_| F::from_le_bytes_mod_order(&r.bytes(64))).collect(),
    };
    MLE::from(DenseMultilinearExtension::from_evaluations_vec(nv, v))
}
/// The value of the multilinear extension, by the definition.
pub fn ml_value<F: PrimeField>(p: &MLE<F>, z: &[F]) -> F {
    let mut s = F::zero();
    for (i, v) in p.evaluations.iter().enumerate() {
        let mut w = *v;
        for (j, x) in z.iter().enumerate() {
            w *= if i >> j & 1 == 1 { *x } else { F::one() - x };
        }
        s += w;
    }
    s
}
pub fn ml_point<F: PrimeField>(r: &mut Prng, nv: usize) -> Vec<F> {
    let bits = r.chance(1, 5);
    (0..nv).map(|_| if bits { F::from(r.below(2)) } else { elem(r) }).collect()
}
pub fn by<T: CanonicalSerialize>(x: &T) -> Vec<u8> {
    let mut b = vec![];
    x.serialize_uncompressed(&mut b).unwrap();
    b
}
/// A result as bytes, errors included.
pub fn rb<T: CanonicalSerialize>(x: Result<T, PCSError>) -> Vec<u8> {
    match x {
        Ok(x) => by(&x),
        Err(e) => format!("{e:?}").into_bytes(),
    }
}
pub fn pool(n: usize) -> rayon::ThreadPool {
    rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("pool")
}
/// Makes the calling thread the only worker, for worlds about values rather
/// than schedules.
pub fn alone() {
    let p = rayon::ThreadPoolBuilder::new().num_threads(1).use_current_thread().build().expect("pool");
    std::mem::forget(p);
}
pub fn e2s<T>(r: Result<T, PCSError>) -> Result<T, String> {
    r.map_err(|e| format!("{e:?}"))
}
pub const REAL: &[&str] = &[
    "jf-pcs: univariate and multilinear KZG, batching, multi-opening, parameters",
    "ark-ec / ark-poly arithmetic, pairings and FFTs",
    "rayon",
];
pub const STUBS: &[&str] = &[
    "merlin: own STROBE/Keccak transcript, bit-compatible",
    "itertools: the few adaptors used",
    "trusted setup: the crate's own test parameters",
];
