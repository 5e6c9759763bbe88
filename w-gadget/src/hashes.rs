//! Circuits of hashes, pseudorandom functions, commitments, encryption and signatures.
use crate::kit::{Alt, elem, fresh, int, Made};
use crate::rng::SimRng;
use ark_ec::{
    twisted_edwards::{Affine, TECurveConfig},
    AffineRepr, CurveConfig, CurveGroup,
};
use ark_ff::{BigInteger, PrimeField};
use jf_commitment::CommitmentScheme;
use jf_elgamal::gadgets::ElGamalEncryptionGadget;
use jf_prf::PRF;
use jf_relation::{Circuit, CircuitError, PlonkCircuit, Variable};
use jf_rescue::{
    commitment::FixedLengthRescueCommitment,
    crhf::RescueCRHF,
    gadgets::{commitment::CommitmentGadget, prf::PRFGadget, RescueNativeGadget, RescueStateVar},
    prf::RescuePRF,
    Permutation, RescueParameter, RescueVector, PRP,
};
use jf_signature::{constants::CS_ID_SCHNORR, gadgets::schnorr::SignatureGadget, schnorr};
use jf_utils::{challenge_bit_len, fr_to_fq};
use sim::Prng;

pub const KINDS: &[&str] = &[
    "perm", "prp", "sponge", "sponge_pad", "keyed", "keyed_pad", "commit", "prf", "encrypt", "verify", "validity",
];

fn vars<F: PrimeField>(c: &mut PlonkCircuit<F>, x: &[F], sh: &mut Prng) -> Result<Vec<Variable>, CircuitError> {
    let public = sh.chance(1, 4);
    x.iter().map(|x| if public { c.create_public_variable(*x) } else { c.create_variable(*x) }).collect()
}

fn vec4<F: PrimeField>(x: &[F]) -> RescueVector<F> {
    RescueVector::from(&[x[0], x[1], x[2], x[3]])
}

/// A full-state keyed sponge, from its definition.
pub fn keyed<F: RescueParameter>(key: F, data: &[F]) -> F {
    let mut s = vec![F::zero(), F::zero(), F::zero(), key];
    let p = Permutation::<F>::default();
    for b in data.chunks(4) {
        for (i, x) in b.iter().enumerate() {
            s[i] += x;
        }
        s = p.eval(&vec4(&s)).elems();
    }
    s[0]
}

/// The function a kind computes, from the native library.
fn native<F: RescueParameter>(k: &str, x: &[F], outs: usize) -> Vec<F> {
    match k {
        "perm" => Permutation::<F>::default().eval(&vec4(x)).elems(),
        "prp" => PRP::<F>::default().prp(&vec4(x), &vec4(&x[4..])).elems(),
        "sponge" => RescueCRHF::sponge_no_padding(x, outs).unwrap(),
        "sponge_pad" => RescueCRHF::sponge_with_bit_padding(x, outs),
        "keyed" | "keyed_pad" => vec![keyed(x[0], &x[1..])],
        "prf" => {
            fn go<F: RescueParameter, const L: usize>(x: &[F]) -> F {
                let mut a = [F::zero(); L];
                a.copy_from_slice(&x[1..]);
                RescuePRF::<F, L, 1>::evaluate(x[0], a).unwrap()[0]
            }
            vec![match x.len() - 1 {
                1 => go::<F, 1>(x),
                2 => go::<F, 2>(x),
                3 => go::<F, 3>(x),
                4 => go::<F, 4>(x),
                5 => go::<F, 5>(x),
                7 => go::<F, 7>(x),
                _ => go::<F, 9>(x),
            }]
        },
        _ => {
            fn go<F: RescueParameter, const L: usize, const M: usize>(x: &[F]) -> F {
                let mut a = [F::zero(); L];
                a.copy_from_slice(&x[1..]);
                FixedLengthRescueCommitment::<F, L, M>::commit(a, Some(&x[0])).unwrap()
            }
            vec![match x.len() - 1 {
                1 => go::<F, 1, 2>(x),
                2 => go::<F, 2, 3>(x),
                3 => go::<F, 3, 4>(x),
                4 => go::<F, 4, 5>(x),
                5 => go::<F, 5, 6>(x),
                7 => go::<F, 7, 8>(x),
                _ => go::<F, 9, 10>(x),
            }]
        },
    }
}

fn function<F: RescueParameter>(k: &str, sh: &mut Prng, v: &mut Prng) -> Result<Made<F>, CircuitError> {
    let mut c = fresh::<F>(if sh.chance(1, 6) { sh.range(2, 6) } else { 0 });
    let outs = if k.starts_with("sponge") { sh.range(1, 8) as usize } else { 1 };
    let n = match k {
        "perm" => 4,
        "prp" => 8,
        "sponge" => 3 * sh.range(1, 4),
        "sponge_pad" => sh.range(1, 11),
        "keyed" => 1 + 4 * sh.range(1, 3),
        "keyed_pad" => 1 + sh.range(1, 10),
        _ => 1 + *sh.pick(&[1u64, 2, 3, 4, 5, 7, 9]),
    } as usize;
    let x: Vec<F> = (0..n).map(|_| elem(v)).collect();
    let i = vars(&mut c, &x, sh)?;
    let four = |i: &[Variable]| RescueStateVar::from([i[0], i[1], i[2], i[3]]);
    let o = match k {
        "perm" => RescueNativeGadget::<F>::rescue_permutation(&mut c, four(&i))?.array().to_vec(),
        "prp" => RescueNativeGadget::<F>::prp(&mut c, &four(&i), &four(&i[4..]))?.array().to_vec(),
        "sponge" => RescueNativeGadget::<F>::rescue_sponge_no_padding(&mut c, &i, outs)?,
        "sponge_pad" => RescueNativeGadget::<F>::rescue_sponge_with_padding(&mut c, &i, outs)?,
        "keyed" => vec![RescueNativeGadget::<F>::rescue_full_state_keyed_sponge_no_padding(&mut c, i[0], &i[1..])?],
        "keyed_pad" => vec![RescueNativeGadget::<F>::rescue_full_state_keyed_sponge_with_zero_padding(&mut c, i[0], &i[1..])?],
        "prf" => vec![c.eval_prf(i[0], &i[1..])?],
        _ => vec![<PlonkCircuit<F> as CommitmentGadget>::commit(&mut c, &i[1..], i[0])?],
    };
    let name = k.to_string();
    let m = o.len();
    Ok(Made {
        c,
        seen: [i, o].concat(),
        truth: Box::new(move |s| Some(native(&name, &s[..n], outs) == s[n..n + m])),
        want: true,
        gives: vec![],
        note: "",
        alt: None,
    })
}

pub fn scalar<P: TECurveConfig>(r: &mut Prng) -> P::ScalarField {
    match r.below(8) {
        0 => P::ScalarField::from(r.below(4)),
        1 => -P::ScalarField::from(r.below(3) + 1),
        _ => elem(r),
    }
}

pub fn point<P: TECurveConfig>(x: &P::BaseField, y: &P::BaseField) -> Option<Affine<P>> {
    let p = Affine::<P>::new_unchecked(*x, *y);
    (p.is_on_curve() && p.is_in_correct_subgroup_assuming_on_curve()).then_some(p)
}

pub fn as_scalar<P: TECurveConfig>(x: &P::BaseField) -> P::ScalarField
where
    P::BaseField: PrimeField,
{
    P::ScalarField::from(int(x))
}

fn encrypt<P: TECurveConfig>(sh: &mut Prng, v: &mut Prng) -> Result<Made<P::BaseField>, CircuitError>
where
    P::BaseField: RescueParameter,
{
    type B<P> = <P as CurveConfig>::BaseField;
    let mut c = fresh::<B<P>>(if sh.chance(1, 6) { sh.range(3, 6) } else { 0 });
    let n = sh.below(10) as usize;
    let key = jf_elgamal::KeyPair::<P>::generate(&mut SimRng::new(v.next())).enc_key();
    let r = scalar::<P>(v);
    let msg: Vec<B<P>> = (0..n).map(|_| elem(v)).collect();
    let ct = key.deterministic_encrypt(r, &msg);
    let pk = ElGamalEncryptionGadget::<_, P>::create_enc_key_variable(&mut c, &key)?;
    let d = vars(&mut c, &msg, sh)?;
    let rv = c.create_variable(fr_to_fq::<_, P>(&r))?;
    let out = ElGamalEncryptionGadget::<_, P>::elgamal_encrypt(&mut c, &pk, &d, rv)?;
    let mut seen = vec![pk.0.get_x(), pk.0.get_y(), rv];
    seen.extend(&d);
    seen.extend([out.ephemeral.get_x(), out.ephemeral.get_y()]);
    seen.extend(&out.symm_ctxts);
    let mut want = true;
    if sh.chance(1, 2) {
        // compare with a given ciphertext, as a wallet circuit would
        let mut s = ct.to_scalars();
        if v.chance(1, 3) {
            let i = v.below(s.len() as u64 - 2 + (s.len() == 2) as u64) as usize + 2;
            if i < s.len() {
                s[i] += B::<P>::from(1u64 + v.below(3));
                want = false;
            }
        }
        let given = jf_elgamal::Ciphertext::<P>::from_scalars(&s).expect("on the curve");
        let g = ElGamalEncryptionGadget::<_, P>::create_ciphertext_variable(&mut c, &given)?;
        c.enforce_point_equal(&g.ephemeral, &out.ephemeral)?;
        for (a, b) in g.symm_ctxts.iter().zip(&out.symm_ctxts) {
            c.enforce_equal(*a, *b)?;
        }
        let k = seen.len() - n;
        seen[k..].copy_from_slice(&g.symm_ctxts);
    }
    Ok(Made {
        c,
        seen,
        truth: Box::new(move |s| {
            let pk = point::<P>(&s[0], &s[1])?;
            let r = as_scalar::<P>(&s[2]);
            let shared = (pk * r).into_affine();
            let z = B::<P>::from(0u64);
            let key = Permutation::default().eval(&RescueVector::from(&[shared.x, shared.y, z, z]));
            let e = (Affine::<P>::generator() * r).into_affine();
            let mut ok = (s[3 + n], s[4 + n]) == (e.x, e.y);
            for (i, b) in s[3..3 + n].chunks(4).enumerate() {
                let t = PRP::default().prp(&key, &RescueVector::from(&[B::<P>::from(i as u64), z, z, z])).elems();
                for (j, x) in b.iter().enumerate() {
                    ok &= s[5 + n + 4 * i + j] == *x + t[j];
                }
            }
            Some(ok)
        }),
        want,
        gives: vec![],
        note: "",
        alt: None,
    })
}

fn sign<P: TECurveConfig>(k: &str, sh: &mut Prng, v: &mut Prng) -> Result<Made<P::BaseField>, CircuitError>
where
    P::BaseField: RescueParameter,
{
    type B<P> = <P as CurveConfig>::BaseField;
    let mut c = fresh::<B<P>>(if sh.chance(1, 6) { sh.range(3, 6) } else { 0 });
    let n = sh.below(6) as usize;
    let key = schnorr::KeyPair::<P>::generate(&mut SimRng::new(v.next()));
    let msg: Vec<B<P>> = (0..n).map(|_| elem(v)).collect();
    let tag = if v.chance(1, 5) { "another tag" } else { CS_ID_SCHNORR };
    let mut sig = key.sign(&msg, tag);
    let mut vk = key.ver_key();
    let mut said = msg.clone();
    match v.below(6) {
        0 if n > 0 => said[v.below(n as u64) as usize] += B::<P>::from(1u64),
        1 => vk = schnorr::KeyPair::<P>::generate(&mut SimRng::new(v.next())).ver_key(),
        2 if n > 0 => {
            let mut m = msg.clone();
            m[0] = elem(v);
            sig = key.sign(&m, tag);
        },
        _ => {},
    }
    let want = vk.verify(&said, &sig, CS_ID_SCHNORR).is_ok();
    let vkv = SignatureGadget::<_, P>::create_signature_vk_variable(&mut c, &vk)?;
    let m = vars(&mut c, &said, sh)?;
    let sv = SignatureGadget::<_, P>::create_signature_variable(&mut c, &sig)?;
    let mut seen = vec![vkv.0.get_x(), vkv.0.get_y(), sv.s, sv.R.get_x(), sv.R.get_y()];
    seen.extend(&m);
    let answers = k == "validity";
    let mut answer = 0;
    if answers {
        answer = SignatureGadget::<_, P>::check_signature_validity(&mut c, &vkv, &m, &sv)?.into();
        seen.push(answer);
    } else {
        SignatureGadget::<_, P>::verify_signature(&mut c, &vkv, &m, &sv)?;
    }
    Ok(Made {
        c,
        seen,
        truth: Box::new(move |x| {
            let (vk, big_r) = (point::<P>(&x[0], &x[1])?, point::<P>(&x[3], &x[4])?);
            let tag = B::<P>::from_be_bytes_mod_order(CS_ID_SCHNORR.as_ref());
            let mut h = vec![tag, x[0], x[1], x[3], x[4]];
            h.extend(&x[5..5 + n]);
            let ch = RescueCRHF::sponge_with_bit_padding(&h, 1)[0];
            let bits = &ch.into_bigint().to_bits_le()[..challenge_bit_len::<B<P>>()];
            let ch = P::ScalarField::from(int(&B::<P>::from_bigint(BigInteger::from_bits_le(bits)).unwrap()));
            let good = Affine::<P>::generator() * as_scalar::<P>(&x[2]) == big_r + vk * ch;
            Some(if answers { x[5 + n] == B::<P>::from(good as u64) } else { good })
        }),
        want: answers || want,
        gives: if answers { vec![(answer, B::<P>::from(want as u64))] } else { vec![] },
        note: "",
        alt: (tag != CS_ID_SCHNORR).then(|| -> Alt<B<P>> {
            Box::new(move |_, base| {
                let [old, new] = [CS_ID_SCHNORR, tag].map(|t| B::<P>::from_be_bytes_mod_order(t.as_ref()));
                let at = (0..base.len()).filter(|i| base[*i] == old);
                Some(("another purpose of the signature", at.map(|i| (i, new)).collect()))
            })
        }),
    })
}

pub fn make<P: TECurveConfig>(k: &str, shape: u64, vals: u64) -> Result<Made<P::BaseField>, CircuitError>
where
    P::BaseField: RescueParameter,
{
    let (sh, v) = (&mut Prng::new(shape), &mut Prng::new(vals));
    match k {
        "encrypt" => encrypt::<P>(sh, v),
        "verify" | "validity" => sign::<P>(k, sh, v),
        _ => function(k, sh, v),
    }
}
