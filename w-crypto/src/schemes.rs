//! The signature schemes behind one interface.
use crate::{rng::SimRng, util::*};
use ark_ec::{twisted_edwards::TECurveConfig, AffineRepr, CurveGroup};
use ark_ff::{PrimeField, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use jf_rescue::RescueParameter;
use jf_signature::{bls_over_bls12381 as b381, bls_over_bn254 as b254, schnorr, SignatureScheme};
use sim::Prng;
use std::{
    fmt::{Debug, Display},
    str::FromStr,
};
use tagged_base64::TaggedBase64;

pub trait Sch: 'static {
    const NAME: &'static str;
    /// Accepts caller-chosen domain tags.
    const TAGS: bool;
    type S: SignatureScheme<PublicParameter = (), MessageUnit = Self::U, SigningKey = Self::Sk, VerificationKey = Self::Vk, Signature = Self::Sig>;
    type U: Clone + Debug + PartialEq;
    type Sk: Clone + PartialEq;
    type Vk: Enc + Debug + Display + FromStr<Err: Debug>;
    type Sig: Enc + Debug + Display + FromStr<Err: Debug>;
    /// A key pair with a nonzero secret, obtained in one of several ways.
    fn keys(kind: u64, seed: u64) -> (Self::Sk, Self::Vk);
    /// The verification key that belongs to a signing key, where a conversion is offered.
    fn vk(sk: &Self::Sk) -> Option<Self::Vk>;
    fn unit(r: &mut Prng) -> Self::U;
    fn zero_unit() -> Self::U;
    /// Signs under a domain tag.
    fn sign(sk: &Self::Sk, msg: &[Self::U], tag: &[u8]) -> Self::Sig;
    fn verify(vk: &Self::Vk, msg: &[Self::U], sig: &Self::Sig, tag: &[u8]) -> Result<(), String>;
    /// Whether (message, tag) pairs are one and the same input by the scheme's definition.
    fn alias(a: (&[Self::U], &[u8]), b: (&[Self::U], &[u8])) -> Option<&'static str>;
    /// Signing key as bytes (even `f`) or tagged text (odd).
    fn save(sk: &Self::Sk, f: u64) -> Vec<u8>;
    fn load(b: &[u8], f: u64) -> Result<Self::Sk, String>;
    /// Well-formed signatures derived from honest ones.
    fn tamper(a: &Self::Sig, b: &Self::Sig, k: u64, r: &mut Prng) -> Option<Self::Sig>;
    /// A signature decoded without validation.
    fn unvalidated(a: &Self::Sig, r: &mut Prng) -> Option<Self::Sig> {
        let mut b = by(a);
        let i = r.below(b.len() as u64) as usize;
        b[i] ^= 1 << r.below(8);
        Self::Sig::deserialize_uncompressed_unchecked(&b[..]).ok()
    }
    /// What tells values apart: hashes and orders, where the types have them.
    fn ident(_: &Self::Vk, _: &Self::Sig) -> Vec<u64> {
        vec![]
    }
    /// Keys that have no secret, with signatures for them.
    fn weak(_: &mut Prng) -> Vec<(Self::Vk, Self::Sig)> {
        vec![]
    }
    /// Encodings of keys and of signatures that are not in the group.
    fn invalid(r: &mut Prng) -> (Vec<Vec<u8>>, Vec<Vec<u8>>);
    /// Whether keys derived from different inputs differ.
    fn derived(_: &mut Prng) -> Result<(), String> {
        Ok(())
    }
    /// The public part of the one-time secret, if the scheme has one.
    fn nonce(_: &Self::Sig) -> Option<Vec<u8>> {
        None
    }
}
/// The scheme's own tag.
pub fn own<S: Sch>() -> Vec<u8> {
    S::S::CS_ID.as_bytes().to_vec()
}

fn tagged<E: Debug>(b: &[u8]) -> Result<TaggedBase64, String> {
    let s = e2s(std::str::from_utf8(b))?;
    e2s(TaggedBase64::parse(s))
}
/// Read by reference and by value.
fn both<T: PartialEq, E: Debug>(a: Result<T, E>, b: Result<T, E>) -> Result<T, String> {
    let (a, b) = (e2s(a), e2s(b));
    assert!(a.as_ref().ok() == b.as_ref().ok(), "read differently by reference and by value");
    a
}
fn digest<T: std::hash::Hash>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    std::hash::Hash::hash(x, &mut h);
    std::hash::Hasher::finish(&h)
}
fn nonzero<F: PrimeField>(seed: u64) -> F {
    let mut r = Prng::new(seed);
    loop {
        let x: F = elem(&mut r);
        if !x.is_zero() {
            return x;
        }
    }
}
/// Bytes of any length standing for a nonzero scalar.
fn scalar_bytes<F: PrimeField>(seed: u64) -> Vec<u8> {
    let mut r = Prng::new(seed);
    loop {
        let n = *r.pick(&[1, 8, 31, 32, 33, 48, 64]);
        let b = r.bytes(n);
        if !F::from_le_bytes_mod_order(&b).is_zero() {
            return b;
        }
    }
}

pub struct Schnorr<P>(std::marker::PhantomData<P>);
impl<F: RescueParameter, P: TECurveConfig<BaseField = F> + Clone> Sch for Schnorr<P> {
    const NAME: &'static str = "Schnorr";
    const TAGS: bool = true;
    type S = schnorr::SchnorrSignatureScheme<P>;
    type U = F;
    type Sk = schnorr::SignKey<P::ScalarField>;
    type Vk = schnorr::VerKey<P>;
    type Sig = schnorr::Signature<P>;
    fn keys(kind: u64, seed: u64) -> (Self::Sk, Self::Vk) {
        type K<P> = schnorr::KeyPair<P>;
        let rng = &mut SimRng::new(seed);
        let k = match kind % 7 {
            0 => K::<P>::generate(rng),
            1 => return Self::S::key_gen(&(), rng).unwrap(),
            2 => K::<P>::from_bytes(&scalar_bytes::<P::ScalarField>(seed)),
            3 => K::<P>::generate_with_sign_key(nonzero(seed)),
            4 => {
                let a = K::<P>::generate(rng);
                let d = nonzero::<P::ScalarField>(seed ^ 1);
                let b = a.randomize_with(&d);
                return (b.sign_key(), a.ver_key_ref().randomize_with(&d));
            },
            5 => {
                let t = K::<P>::generate(rng).to_tagged_base64().unwrap();
                K::<P>::try_from(&t).unwrap()
            },
            _ => {
                let sk = schnorr::SignKey::<P::ScalarField>::from_bytes(&scalar_bytes::<P::ScalarField>(seed));
                K::<P>::from(sk)
            },
        };
        (k.sign_key(), k.ver_key())
    }
    fn vk(sk: &Self::Sk) -> Option<Self::Vk> {
        Some(schnorr::VerKey::from(sk))
    }
    fn unit(r: &mut Prng) -> F {
        elem(r)
    }
    fn zero_unit() -> F {
        F::zero()
    }
    fn sign(sk: &Self::Sk, msg: &[F], tag: &[u8]) -> Self::Sig {
        schnorr::KeyPair::<P>::from(sk.clone()).sign(msg, tag)
    }
    fn verify(vk: &Self::Vk, msg: &[F], sig: &Self::Sig, tag: &[u8]) -> Result<(), String> {
        e2s(vk.verify(msg, sig, tag))
    }
    fn alias(a: (&[F], &[u8]), b: (&[F], &[u8])) -> Option<&'static str> {
        (a.0 == b.0 && F::from_be_bytes_mod_order(a.1) == F::from_be_bytes_mod_order(b.1)).then_some("tag-as-number")
    }
    fn save(sk: &Self::Sk, f: u64) -> Vec<u8> {
        match f % 3 {
            0 => sk.to_bytes(),
            1 => sk.to_tagged_base64().unwrap().to_string().into_bytes(),
            _ => schnorr::KeyPair::<P>::from(sk.clone()).to_tagged_base64().unwrap().to_string().into_bytes(),
        }
    }
    fn load(b: &[u8], f: u64) -> Result<Self::Sk, String> {
        match f % 3 {
            0 => Ok(schnorr::SignKey::from_bytes(b)),
            1 => {
                let t = tagged::<()>(b)?;
                both(schnorr::SignKey::try_from(&t), schnorr::SignKey::try_from(t))
            },
            _ => {
                let t = tagged::<()>(b)?;
                both(schnorr::KeyPair::<P>::try_from(&t), schnorr::KeyPair::<P>::try_from(t)).map(|k| k.sign_key())
            },
        }
    }
    fn tamper(a: &Self::Sig, b: &Self::Sig, k: u64, r: &mut Prng) -> Option<Self::Sig> {
        type A<P> = ark_ec::twisted_edwards::Affine<P>;
        let split = |x: &Self::Sig| {
            let v = by(x);
            let mut v = &v[..];
            let s = P::ScalarField::deserialize_uncompressed(&mut v).unwrap();
            (s, A::<P>::deserialize_uncompressed(&mut v).unwrap())
        };
        let ((s, p), (t, q)) = (split(a), split(b));
        let g = A::<P>::generator();
        let d = nonzero::<P::ScalarField>(r.next());
        let (s, p) = match k % 9 {
            0 => (s + d, p),
            1 => (-s, p),
            2 => (s, (-p.into_group()).into_affine()),
            3 => (-s, (-p.into_group()).into_affine()),
            4 => (t, p),
            5 => (s, q),
            6 => (s + d, (p + g * d).into_affine()),
            7 => (s, A::<P>::zero()),
            _ => (P::ScalarField::zero(), A::<P>::zero()),
        };
        let mut v = by(&s);
        p.serialize_uncompressed(&mut v).ok()?;
        Self::Sig::deserialize_uncompressed(&v[..]).ok()
    }
    fn ident(v: &Self::Vk, s: &Self::Sig) -> Vec<u64> {
        vec![digest(v), digest(s)]
    }
    fn weak(r: &mut Prng) -> Vec<(Self::Vk, Self::Sig)> {
        type A<P> = ark_ec::twisted_edwards::Affine<P>;
        let torsion = outside::<P>(r).mul_bigint(P::ScalarField::MODULUS).into_affine();
        let t = if r.chance(1, 3) { A::<P>::zero() } else { torsion };
        let vk = schnorr::VerKey::from(t);
        (0..12)
            .map(|_| {
                let d = nonzero::<P::ScalarField>(r.next());
                let mut v = by(&d);
                (A::<P>::generator() * d).into_affine().serialize_uncompressed(&mut v).unwrap();
                (vk.clone(), Self::Sig::deserialize_uncompressed(&v[..]).unwrap())
            })
            .collect()
    }
    fn invalid(r: &mut Prng) -> (Vec<Vec<u8>>, Vec<Vec<u8>>) {
        let p = outside::<P>(r);
        let mut v = by(&nonzero::<P::ScalarField>(r.next()));
        v.extend(by(&p));
        (vec![by(&p)], vec![v])
    }
    fn nonce(s: &Self::Sig) -> Option<Vec<u8>> {
        let n = P::ScalarField::zero().uncompressed_size();
        Some(by(s)[n..].to_vec())
    }
}

/// A point of the curve outside of the prime-order subgroup.
fn outside<P: TECurveConfig>(r: &mut Prng) -> ark_ec::twisted_edwards::Affine<P> {
    loop {
        let y = P::BaseField::from(r.next());
        let p = ark_ec::twisted_edwards::Affine::<P>::get_point_from_y_unchecked(y, r.chance(1, 2));
        if let Some(p) = p.filter(|p| p.is_on_curve() && !p.is_in_correct_subgroup_assuming_on_curve()) {
            return p;
        }
    }
}
/// Points of a Weierstrass curve: one outside of the subgroup, one not on the curve.
fn strays<P: ark_ec::short_weierstrass::SWCurveConfig>(r: &mut Prng) -> [ark_ec::short_weierstrass::Affine<P>; 2] {
    type A<P> = ark_ec::short_weierstrass::Affine<P>;
    let off = A::<P>::new_unchecked(P::BaseField::from(r.next()), P::BaseField::from(r.next()));
    loop {
        let p = A::<P>::get_point_from_x_unchecked(P::BaseField::from(r.next()), r.chance(1, 2));
        match p {
            Some(p) if P::cofactor_is_one() || !p.is_in_correct_subgroup_assuming_on_curve() => return [p, off],
            _ => {},
        }
    }
}

pub struct Bn;
impl Sch for Bn {
    const NAME: &'static str = "BLS/BN254";
    const TAGS: bool = true;
    type S = b254::BLSOverBN254CurveSignatureScheme;
    type U = u8;
    type Sk = b254::SignKey;
    type Vk = b254::VerKey;
    type Sig = b254::Signature;
    fn keys(kind: u64, seed: u64) -> (Self::Sk, Self::Vk) {
        type Fr = ark_bn254::Fr;
        let rng = &mut SimRng::new(seed);
        let k = match kind % 6 {
            0 => b254::KeyPair::generate(rng),
            1 => return Self::S::key_gen(&(), rng).unwrap(),
            2 => b254::KeyPair::from_bytes(&scalar_bytes::<Fr>(seed)),
            3 => b254::KeyPair::generate_with_sign_key(nonzero(seed)),
            4 => {
                let t = b254::KeyPair::generate(rng).to_tagged_base64().unwrap();
                b254::KeyPair::try_from(&t).unwrap()
            },
            _ => b254::KeyPair::from(b254::SignKey::generate(rng)),
        };
        (k.sign_key_ref().clone(), k.ver_key())
    }
    fn vk(sk: &Self::Sk) -> Option<Self::Vk> {
        Some(b254::VerKey::from(sk))
    }
    fn unit(r: &mut Prng) -> u8 {
        byte(r)
    }
    fn zero_unit() -> u8 {
        0
    }
    fn sign(sk: &Self::Sk, msg: &[u8], tag: &[u8]) -> Self::Sig {
        b254::KeyPair::from(sk.clone()).sign(msg, tag)
    }
    fn verify(vk: &Self::Vk, msg: &[u8], sig: &Self::Sig, tag: &[u8]) -> Result<(), String> {
        let a = e2s(vk.verify(msg, sig, tag));
        // the unchecked form is for validated values only
        if ark_serialize::Valid::check(&sig.sigma).is_ok() && ark_serialize::Valid::check(vk).is_ok() {
            assert!(a.is_ok() == vk.verify_unchecked(msg, sig, tag).is_ok(), "the two verification functions differ");
        }
        a
    }
    fn alias(a: (&[u8], &[u8]), b: (&[u8], &[u8])) -> Option<&'static str> {
        ([a.0, a.1].concat() == [b.0, b.1].concat()).then_some("message-tag-boundary")
    }
    fn save(sk: &Self::Sk, f: u64) -> Vec<u8> {
        match f % 3 {
            0 => sk.to_bytes(),
            1 => sk.to_tagged_base64().unwrap().to_string().into_bytes(),
            _ => b254::KeyPair::from(sk.clone()).to_tagged_base64().unwrap().to_string().into_bytes(),
        }
    }
    fn load(b: &[u8], f: u64) -> Result<Self::Sk, String> {
        match f % 3 {
            0 => Ok(b254::SignKey::from_bytes(b)),
            1 => {
                let t = tagged::<()>(b)?;
                both(b254::SignKey::try_from(&t), b254::SignKey::try_from(t))
            },
            _ => {
                let t = tagged::<()>(b)?;
                both(b254::KeyPair::try_from(&t), b254::KeyPair::try_from(t)).map(|k| k.sign_key_ref().clone())
            },
        }
    }
    fn tamper(a: &Self::Sig, b: &Self::Sig, k: u64, r: &mut Prng) -> Option<Self::Sig> {
        let d = nonzero::<ark_bn254::Fr>(r.next());
        let g = ark_bn254::G1Affine::generator();
        let sigma = match k % 6 {
            0 => a.sigma + g * d,
            1 => -a.sigma,
            2 => a.sigma * d,
            3 => a.sigma + b.sigma,
            4 => ark_bn254::G1Projective::zero(),
            _ => b.sigma,
        };
        Some(b254::Signature { sigma })
    }
    fn ident(v: &Self::Vk, s: &Self::Sig) -> Vec<u64> {
        let base = b254::VerKey::from(&b254::SignKey::from_bytes(&[1]));
        vec![digest(v), digest(s), v.cmp(&base) as u64]
    }
    fn invalid(r: &mut Prng) -> (Vec<Vec<u8>>, Vec<Vec<u8>>) {
        let v = strays::<ark_bn254::g2::Config>(r);
        (v.iter().map(by).collect(), vec![by(&strays::<ark_bn254::g1::Config>(r)[1])])
    }
}

pub struct B381;
impl Sch for B381 {
    const NAME: &'static str = "BLS/BLS12-381";
    const TAGS: bool = false;
    type S = b381::BLSSignatureScheme;
    type U = u8;
    type Sk = b381::BLSSignKey;
    type Vk = b381::BLSVerKey;
    type Sig = b381::BLSSignature;
    fn keys(kind: u64, seed: u64) -> (Self::Sk, Self::Vk) {
        let mut r = Prng::new(seed);
        match kind % 3 {
            0 => Self::S::key_gen(&(), &mut SimRng::new(seed)).unwrap(),
            1 => {
                let (a, b, c) = (32 + r.size(40) as usize, r.size(40) as usize, r.size(20) as usize);
                let (a, b, c) = (r.bytes(a), r.bytes(b), r.bytes(c));
                let k = b381::BLSSignatureScheme::key_gen_v5(&a, &b, &c).unwrap();
                assert!(k.0 == b381::BLSSignatureScheme::key_gen_v5(&a, &b, &c).unwrap().0, "derived keys differ");
                k
            },
            _ => {
                let k = Self::S::key_gen(&(), &mut SimRng::new(seed)).unwrap();
                (b381::BLSSignKey::from_bytes(&k.0.to_bytes()).unwrap(), k.1)
            },
        }
    }
    fn vk(_: &Self::Sk) -> Option<Self::Vk> {
        None
    }
    fn unit(r: &mut Prng) -> u8 {
        byte(r)
    }
    fn zero_unit() -> u8 {
        0
    }
    fn sign(sk: &Self::Sk, msg: &[u8], _: &[u8]) -> Self::Sig {
        Self::S::sign(&(), sk, msg, &mut SimRng::new(1)).unwrap()
    }
    fn verify(vk: &Self::Vk, msg: &[u8], sig: &Self::Sig, _: &[u8]) -> Result<(), String> {
        e2s(Self::S::verify(&(), vk, msg, sig))
    }
    fn alias(a: (&[u8], &[u8]), b: (&[u8], &[u8])) -> Option<&'static str> {
        (a.0 == b.0).then_some("tags-unused")
    }
    fn save(sk: &Self::Sk, f: u64) -> Vec<u8> {
        match f % 2 {
            0 => sk.to_bytes().to_vec(),
            _ => sk.to_tagged_base64().unwrap().to_string().into_bytes(),
        }
    }
    fn load(b: &[u8], f: u64) -> Result<Self::Sk, String> {
        match f % 2 {
            0 => e2s(b381::BLSSignKey::from_bytes(&e2s(b.try_into())?)),
            _ => {
                let t = tagged::<()>(b)?;
                both(b381::BLSSignKey::try_from(&t), b381::BLSSignKey::try_from(t))
            },
        }
    }
    fn tamper(a: &Self::Sig, b: &Self::Sig, k: u64, r: &mut Prng) -> Option<Self::Sig> {
        type A = ark_bls12_381::G1Affine;
        let p = |x: &Self::Sig| A::deserialize_uncompressed(&x.serialize()[..]).unwrap();
        let d = nonzero::<ark_bls12_381::Fr>(r.next());
        let mut v = by(a);
        v.truncate(v.len() - a.serialize().len());
        let (a, b) = (p(a), p(b));
        let c = match k % 6 {
            0 => (a + A::generator() * d).into_affine(),
            1 => -a,
            2 => (a * d).into_affine(),
            3 => (a + b).into_affine(),
            4 => A::zero(),
            _ => b,
        };
        c.serialize_uncompressed(&mut v).unwrap();
        Self::Sig::deserialize_uncompressed_unchecked(&v[..]).ok()
    }
    fn weak(_: &mut Prng) -> Vec<(Self::Vk, Self::Sig)> {
        let (v, s) = (framed(&ark_bls12_381::G2Affine::zero()), framed(&ark_bls12_381::G1Affine::zero()));
        let v = Self::Vk::deserialize_uncompressed_unchecked(&v[..]).ok();
        let s = Self::Sig::deserialize_uncompressed_unchecked(&s[..]).ok();
        v.zip(s).into_iter().collect()
    }
    fn invalid(r: &mut Prng) -> (Vec<Vec<u8>>, Vec<Vec<u8>>) {
        let v = strays::<ark_bls12_381::g2::Config>(r);
        let s = strays::<ark_bls12_381::g1::Config>(r);
        let (mut v, mut s): (Vec<_>, Vec<_>) = (v.iter().map(framed).collect(), s.iter().map(framed).collect());
        v.push(framed(&ark_bls12_381::G2Affine::zero()));
        s.push(framed(&ark_bls12_381::G1Affine::zero()));
        (v, s)
    }
    fn derived(r: &mut Prng) -> Result<(), String> {
        let make = |p: &[Vec<u8>]| e2s(b381::BLSSignatureScheme::key_gen_v5(&p[0], &p[1], &p[2])).map(|k| k.0.to_bytes());
        let (a, b, c) = (32 + r.size(40) as usize, 1 + r.size(40) as usize, 1 + r.size(20) as usize);
        let p = [r.bytes(a), r.bytes(b), r.bytes(c)];
        let k = make(&p)?;
        for i in 0..3 {
            let mut q = p.clone();
            let j = r.below(q[i].len() as u64) as usize;
            q[i][j] ^= 1 << r.below(8);
            if make(&q)? == k {
                return Err(format!("part {i} does not matter to a derived key"));
            }
        }
        Ok(())
    }
}
/// A point as these types encode it: after its length.
fn framed<T: CanonicalSerialize>(p: &T) -> Vec<u8> {
    by(&by(p))
}
fn byte(r: &mut Prng) -> u8 {
    match r.below(3) {
        0 => 0,
        1 => 0xff,
        _ => r.next() as u8,
    }
}

#[macro_export]
macro_rules! on_scheme {
    ($k:expr, $f:ident($($a:expr),*)) => {
        match $k % 8 {
            0 => $f::<Schnorr<ark_ed_on_bn254::EdwardsConfig>>($($a),*),
            1 => $f::<Schnorr<ark_ed_on_bls12_381::EdwardsConfig>>($($a),*),
            2 => $f::<Schnorr<ark_ed_on_bls12_377::EdwardsConfig>>($($a),*),
            3 | 4 => $f::<B381>($($a),*),
            _ => $f::<Bn>($($a),*),
        }
    };
}
