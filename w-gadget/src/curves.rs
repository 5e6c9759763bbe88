//! Circuits of curve arithmetic, of fields emulated in limbs and of modular arithmetic.
use crate::hashes::{point, scalar};
use crate::kit::{elem, fresh, int, modulus, Alt, Made};
use ark_ec::{
    short_weierstrass::{Affine as SWAffine, SWCurveConfig},
    twisted_edwards::{Affine, MontCurveConfig, TECurveConfig},
    AffineRepr, CurveConfig, CurveGroup,
};
use ark_ff::{AdditiveGroup, Field, Zero, Fp256, MontBackend, MontConfig, MontFp, PrimeField};
use jf_relation::{
    gadgets::{
        ecc::{
            emulated::{EmulatedSWPointVariable, EmulatedTEPointVariable, SWPoint},
            MultiScalarMultiplicationCircuit, PointVariable, SWToTEConParam, TEPoint,
        },
        ultraplonk::mod_arith::{FpElem, FpElemVar},
        EmulatedVariable, EmulationConfig,
    },
    Circuit, CircuitError, PlonkCircuit, Variable,
};
use jf_rescue::{crhf::RescueCRHF, gadgets::RescueNonNativeGadget, RescueParameter};
use num_bigint::{BigInt, BigUint};
use sim::Prng;

pub const TE: &[&str] = &["fixed_mul", "var_mul", "msm", "msm_short", "glv"];
pub const EMU: &[&str] =
    &["e_mul", "e_mulc", "e_add", "e_addc", "e_sub", "e_subc", "e_select", "e_eq", "e_zero", "e_same", "e_gate"];
pub const SW: &[&str] = &["sw_add", "sw_eq", "sw_select", "sw_same"];
pub const PT: &[&str] = &["pt_add", "pt_eq", "pt_same", "pt_neutral", "pt_curve", "pt_select", "pt_inv"];
const LIGHT: &[&str] = &[
    "fixed_mul", "var_mul", "msm", "msm_short", "msm_short", "glv", "glv", "e_mul", "e_mulc", "e_add", "e_addc", "e_sub", "e_subc",
    "e_select", "e_eq", "e_zero", "e_same", "sw_eq", "sw_select", "sw_same", "m_add", "m_addc", "m_addv", "m_mul",
    "m_mulc", "m_neg", "m_pow5", "m_pow11", "m_linear", "m_chain", "e_gate", "e_gate", "m_same", "m_new", "m_gate",
];

/// The kind a number stands for; large circuits are rare.
pub fn kind(i: u64) -> &'static str {
    match i % 256 {
        0 => ["m_sponge", "m_keyed"][(i / 256 % 2) as usize],
        1..=4 => "sw_add",
        5..=10 => "te_add",
        11..=14 => "glv",
        15..=19 => "sw_gate",
        20..=24 => "te_gate",
        25..=44 => PT[(i / 256) as usize % PT.len()],
        45..=60 => ["e_add", "e_addc", "e_mul", "e_mulc"][(i / 256 % 4) as usize],
        _ => LIGHT[(i / 256) as usize % LIGHT.len()],
    }
}

/// The Bandersnatch curve, whose circuits split scalars by an endomorphism.
#[derive(MontConfig)]
#[modulus = "13108968793781547619861935127046491459309155893440570251786403306729687672801"]
#[generator = "7"]
pub struct BanderFrConfig;
pub type BanderFr = Fp256<MontBackend<BanderFrConfig, 4>>;

#[derive(Clone, Copy, Default, PartialEq, Eq)]
pub struct Bander;
impl CurveConfig for Bander {
    type BaseField = ark_bls12_381::Fr;
    type ScalarField = BanderFr;
    const COFACTOR: &'static [u64] = &[4];
    const COFACTOR_INV: BanderFr =
        MontFp!("9831726595336160714896451345284868594481866920080427688839802480047265754601");
}
impl TECurveConfig for Bander {
    const COEFF_A: ark_bls12_381::Fr = MontFp!("-5");
    const COEFF_D: ark_bls12_381::Fr =
        MontFp!("45022363124591815672509500913686876175488063829319466900776701791074614335719");
    const GENERATOR: Affine<Self> = Affine::new_unchecked(
        MontFp!("18886178867200960497001835917649091219057080094937609519140440539760939937304"),
        MontFp!("19188667384257783945677642223292697773471335439753913231509108946878080696678"),
    );
    type MontCurveConfig = Self;
}
impl MontCurveConfig for Bander {
    const COEFF_A: ark_bls12_381::Fr =
        MontFp!("29978822694968839326280996386011761570173833766074948509196803838190355340952");
    const COEFF_B: ark_bls12_381::Fr =
        MontFp!("25465760566081946422412445027709227188579564747101592991722834452325077642517");
    type TECurveConfig = Self;
}

fn te<P: TECurveConfig>(c: &mut PlonkCircuit<P::BaseField>, p: Affine<P>, how: u64) -> Result<PointVariable, CircuitError>
where
    P::BaseField: PrimeField,
{
    let p = TEPoint::from(p);
    match how {
        0 => c.create_public_point_variable(p),
        _ => c.create_point_variable(p),
    }
}

/// Whether exactly these are public, in order.
fn shown<F: PrimeField>(c: &PlonkCircuit<F>, vars: &[Variable]) -> bool {
    c.public_input().ok() == Some(vars.iter().map(|v| c.witness(*v).unwrap()).collect())
}

/// A point of the prime-order group, sometimes the neutral one.
fn group<P: TECurveConfig>(r: &mut Prng) -> Affine<P> {
    match r.below(8) {
        0 => Affine::<P>::zero(),
        1 => Affine::<P>::generator(),
        _ => (Affine::<P>::generator() * scalar::<P>(r)).into_affine(),
    }
}

fn times<P: TECurveConfig>(p: &Affine<P>, k: &BigUint) -> Affine<P> {
    p.mul_bigint(k.to_u64_digits()).into_affine()
}

pub fn make_te<P: TECurveConfig>(k: &str, shape: u64, vals: u64) -> Result<Made<P::BaseField>, CircuitError>
where
    P::BaseField: PrimeField,
{
    let (sh, v) = (&mut Prng::new(shape), &mut Prng::new(vals));
    let bits = if sh.chance(1, 2) { sh.range(2, 8) } else { 0 };
    let mut c = fresh::<P::BaseField>(bits);
    let glv = k == "glv" || bits > 0 && P::ScalarField::MODULUS_BIT_SIZE == 253 && k == "var_mul";
    let how = sh.below(3);
    let size = P::ScalarField::MODULUS_BIT_SIZE as u64;
    let wide = |v: &mut Prng, glv: bool| -> BigUint {
        if !glv && v.chance(1, 8) {
            // as many bits as the circuit takes, not reduced
            BigUint::from_bytes_le(&v.bytes(40)) % (BigUint::from(1u32) << size).min(modulus::<P::BaseField>())
        } else {
            int(&scalar::<P>(v))
        }
    };
    if k == "fixed_mul" {
        let base = group::<P>(sh);
        let s = c.create_variable(P::BaseField::from(wide(v, false)))?;
        let o = c.fixed_base_scalar_mul(s, &base)?;
        return Ok(Made {
            c,
            seen: vec![s, o.get_x(), o.get_y()],
            truth: Box::new(move |x| {
                let p = times(&base, &int(&x[0]));
                Some((p.x, p.y) == (x[1], x[2]))
            }),
            want: true,
            gives: vec![],
            note: "",
            alt: None,
        });
    }
    let (n, len) = match k {
        "var_mul" | "glv" => (1, 0),
        "msm" => (sh.range(1, 2) as usize, 0),
        _ => (sh.range(1, 9) as usize, if sh.chance(1, 10) { sh.range(25, 90) } else { sh.range(1, 24) }),
    };
    let mut seen = vec![];
    let (mut ps, mut ss) = (vec![], vec![]);
    for _ in 0..n {
        let q = te(&mut c, group::<P>(v), how)?;
        let s = if k == "msm_short" {
            match v.below(4) {
                0 => (BigUint::from(1u32) << len) - 1u32,
                _ => BigUint::from_bytes_le(&v.bytes(16)) % (BigUint::from(1u32) << len),
            }
        } else {
            wide(v, glv)
        };
        let s = c.create_variable(P::BaseField::from(s))?;
        seen.extend([q.get_x(), q.get_y(), s]);
        ps.push(q);
        ss.push(s);
    }
    // lists that do not belong together
    let mut odd = true;
    if k == "msm_short" && sh.chance(1, 2) {
        let mut d = fresh::<P::BaseField>(bits);
        let mut a: Vec<_> = (0..n + 1).map(|_| te(&mut d, group::<P>(v), 2)).collect::<Result<_, _>>()?;
        let mut b: Vec<_> = (0..n + 1).map(|i| d.create_variable((i as u64).into())).collect::<Result<_, _>>()?;
        let cut = sh.range(1, n as u64) as usize;
        if sh.chance(1, 2) {
            a.truncate(cut);
        } else {
            b.truncate(cut);
        }
        odd = MultiScalarMultiplicationCircuit::<_, P>::msm(&mut d, &a, &b).is_err();
    }
    let o = match k {
        "glv" => c.glv_mul::<P>(ss[0], &ps[0])?,
        "var_mul" => c.variable_base_scalar_mul::<P>(ss[0], &ps[0])?,
        "msm" => MultiScalarMultiplicationCircuit::<_, P>::msm(&mut c, &ps, &ss)?,
        _ => MultiScalarMultiplicationCircuit::<_, P>::msm_with_var_scalar_length(&mut c, &ps, &ss, len as usize)?,
    };
    let open: Vec<Variable> = if how == 0 { ps.iter().flat_map(|p| [p.get_x(), p.get_y()]).collect() } else { vec![] };
    let want = odd && shown(&c, &open);
    seen.extend([o.get_x(), o.get_y()]);
    Ok(Made {
        c,
        seen,
        truth: Box::new(move |x| {
            let mut sum = Affine::<P>::zero();
            for i in 0..n {
                let p = point::<P>(&x[3 * i], &x[3 * i + 1])?;
                sum = (sum + times(&p, &int(&x[3 * i + 2]))).into_affine();
            }
            Some((sum.x, sum.y) == (x[3 * n], x[3 * n + 1]))
        }),
        want,
        gives: vec![],
        note: "",
        alt: None,
    })
}

/// The integer in limbs, unless a limb is too large.
fn limbs<E: EmulationConfig<F>, F: PrimeField>(x: &[F]) -> Option<BigUint> {
    let mut s = BigUint::from(0u32);
    for l in x.iter().rev() {
        let l = int(l);
        if l.bits() > E::B as u64 {
            return None;
        }
        s = (s << E::B) + l;
    }
    Some(s)
}

/// The element in limbs if it is written in the usual way.
fn canonical<E: EmulationConfig<F>, F: PrimeField>(x: &[F]) -> Option<E> {
    let s = limbs::<E, F>(x)?;
    (s < modulus::<E>()).then(|| E::from(s))
}

fn emu<E: EmulationConfig<F>, F: PrimeField>(
    c: &mut PlonkCircuit<F>,
    x: E,
    how: u64,
    sh: &mut Prng,
) -> Result<EmulatedVariable<E>, CircuitError> {
    match how {
        0 => c.create_public_emulated_variable(x),
        1 => c.create_constant_emulated_variable(elem::<E>(sh)),
        _ => c.create_emulated_variable(x),
    }
}

/// A product with another quotient and result that agree in the native field,
/// in the limbs or in both.
fn wrap<E: EmulationConfig<F>, F: PrimeField>(
    r: &mut Prng,
    v: &[F],
    seen: &[Variable],
    by: Option<&BigUint>,
) -> Option<(&'static str, Vec<(Variable, F)>)> {
    let n = E::NUM_LIMBS;
    let get = |i: usize| limbs::<E, F>(&seen[i..i + n].iter().map(|i| v[*i]).collect::<Vec<_>>());
    let a = get(0)?;
    let b = match by {
        Some(b) => b.clone(),
        None => get(n)?,
    };
    let out = &seen[seen.len() - n..];
    let q = modulus::<E>();
    let one = BigUint::from(1u32);
    let top = &one << E::T;
    let (what, m) = match r.below(4) {
        0 => ("both moduli", &top * modulus::<F>()),
        1 => ("limbs", top.clone()),
        2 => ("native field", modulus::<F>()),
        _ => ("neither", one.clone()),
    };
    let split = |x: &BigUint| -> Vec<F> {
        (0..n).map(|i| F::from((x >> (i * E::B)) & ((&one << E::B) - &one))).collect()
    };
    let (x, y, w) = (split(&a), split(&b), split(&(&top - &q)));
    let unit = F::from(2u64).pow([E::B as u64]).inverse()?;
    let carries = |k: &[F], c: &[F]| {
        let mut carry = F::zero();
        (0..n)
            .map(|i| {
                let s: F = (0..=i).map(|j| x[j] * y[i - j] + k[j] * w[i - j]).sum();
                carry = (s + carry - c[i]) * unit;
                carry
            })
            .collect::<Vec<F>>()
    };
    let (k, c) = (&a * &b / &q, &a * &b % &q);
    let total = &a * &b + &m * r.range(1, 3);
    let (k2, c2) = (&total / &q, &total % &q);
    if k2 >= top {
        return None;
    }
    // where the honest prover put them
    let mut at = *out.iter().max()? + 1;
    let mut find = |run: &[F]| -> Option<usize> {
        let i = (at..v.len() + 1 - run.len()).find(|i| v[*i..*i + run.len()] == *run)?;
        at = i + run.len();
        Some(i)
    };
    let mut new = vec![];
    let (ks, cs) = (split(&k), split(&c));
    let (ks2, cs2) = (split(&k2), split(&c2));
    if k.bits() < 64 {
        return None;
    }
    let i = find(&ks)?;
    for j in 0..n {
        new.push((out[j], cs2[j]));
        new.push((i + j, ks2[j]));
    }
    for (old, now) in carries(&ks, &cs).into_iter().zip(carries(&ks2, &cs2)) {
        if int(&old).bits() < 64 {
            return None;
        }
        new.push((find(&[old])?, now));
    }
    Some((what, new))
}

/// A sum with other carries, another multiple of the modulus or one that only
/// agrees in the native field.
fn spill<E: EmulationConfig<F>, F: PrimeField>(
    r: &mut Prng,
    v: &[F],
    seen: &[Variable],
    by: Option<&BigUint>,
) -> Option<(&'static str, Vec<(Variable, F)>)> {
    let n = E::NUM_LIMBS;
    let get = |i: usize| limbs::<E, F>(&seen[i..i + n].iter().map(|i| v[*i]).collect::<Vec<_>>());
    let a = get(0)?;
    let b = match by {
        Some(b) => b.clone(),
        None => get(n)?,
    };
    let out = &seen[seen.len() - n..];
    let (q, p) = (BigInt::from(modulus::<E>()), BigInt::from(modulus::<F>()));
    let top = BigInt::from(1) << E::T;
    let fits = |x: &BigInt| x >= &BigInt::from(0) && x < &top;
    let split = |x: &BigInt| -> Vec<F> {
        let x = x.magnitude();
        (0..n).map(|i| F::from((x >> (i * E::B)) % (BigUint::from(1u32) << E::B))).collect()
    };
    let sum = BigInt::from(a.clone() + b.clone());
    let old = split(&sum);
    // where the honest prover put them
    let from = *out.iter().max()? + 1;
    let s = (from..v.len() + 1 - n).find(|i| v[*i..*i + n] == *old)?;
    let rest = v.len() - (s + n);
    if rest % n != 0 || s == 0 {
        return None;
    }
    let step = rest / n - 1;
    let first = |i: usize| s + n + i * step;
    let second = |i: usize| v.len() - n + i;
    let two = F::from(2u64).pow([E::B as u64]);
    let unit = two.inverse()?;
    let (x, y, w) = (split(&BigInt::from(a)), split(&BigInt::from(b)), split(&q));
    let mut k = v[s - 1];
    let mut now = sum.clone();
    let mut res = BigInt::from(limbs::<E, F>(&out.iter().map(|i| v[*i]).collect::<Vec<_>>())?);
    let what = match r.below(6) {
        0 => {
            now += &p * [-2, -1, 1, 2][r.below(4) as usize];
            k = F::from((now >= q) as u64);
            res = if now >= q { &now - &q } else { now.clone() };
            "a sum of the native field"
        },
        1 => {
            res += &p * [-2, -1, 1, 2][r.below(4) as usize];
            "a result of the native field"
        },
        2 => {
            let m = r.below(5);
            k = F::from(m);
            res = &now - &q * m;
            "another multiple"
        },
        _ => "other carries",
    };
    if !fits(&now) || !fits(&res) {
        return None;
    }
    let (ss, cs) = (split(&now), split(&res));
    let mut new = vec![(s - 1, k)];
    let (mut c1, mut c2) = (F::zero(), F::zero());
    for i in 0..n {
        let (mut sv, mut cv) = (ss[i], cs[i]);
        let (mut d1, mut d2) = ((x[i] + y[i] + c1 - sv) * unit, (k * w[i] + cv + c2 - sv) * unit);
        if what == "other carries" && i + 1 < n {
            d1 = v[first(i)];
            if r.chance(1, 6) {
                d1 = F::one() - d1;
            }
            d2 = v[second(i)];
            if r.chance(1, 3) {
                d2 = F::one() - d2;
            }
        }
        if what == "other carries" {
            if i + 1 == n {
                (d1, d2) = (F::zero(), F::zero());
            }
            sv = x[i] + y[i] + c1 - two * d1;
            cv = sv + two * d2 - c2 - k * w[i];
        }
        new.extend([(s + i, sv), (out[i], cv), (first(i), d1), (second(i), d2)]);
        (c1, c2) = (d1, d2);
    }
    Some((what, new))
}

/// Usually what is right, or something near or related to it.
fn other<E: PrimeField>(v: &mut Prng, right: E, near: &[E]) -> E {
    match v.below(6) {
        0 | 1 => right,
        2 => right + E::one(),
        3 => right - E::from(2u64).pow([v.below(E::MODULUS_BIT_SIZE as u64)]),
        4 => *v.pick(near),
        _ => elem(v),
    }
}

pub fn make_emu<E: EmulationConfig<F>, F: PrimeField>(k: &str, shape: u64, vals: u64) -> Result<Made<F>, CircuitError> {
    let (sh, v) = (&mut Prng::new(shape), &mut Prng::new(vals));
    let mut c = fresh::<F>(if sh.chance(1, 3) { sh.range(2, 8) } else { 0 });
    let n = E::NUM_LIMBS;
    let (ha, hb) = (sh.below(6), sh.below(6));
    let k0: E = elem(sh);
    let a = emu(&mut c, elem::<E>(v), ha, sh)?;
    let mut seen = a.native_vars();
    let name = k.to_string();
    let mut want = shown(&c, if ha == 0 { &seen } else { &[] });
    let mut gives = vec![];
    let mut gate = 0;
    match k {
        "e_mulc" | "e_addc" | "e_subc" => {
            let o = match k {
                "e_mulc" => c.emulated_mul_constant(&a, k0)?,
                "e_addc" => c.emulated_add_constant(&a, k0)?,
                _ => c.emulated_sub_constant(&a, k0)?,
            };
            seen.extend(o.native_vars());
        },
        "e_zero" => {
            let z = c.emulated_witness(&a)?.is_zero();
            let b: Variable = c.is_emulated_var_zero(&a)?.into();
            gives.push((b, F::from(z as u64)));
            seen.push(b);
        },
        "e_gate" => {
            // the result is the prover's to give
            let op = sh.below(4);
            let b = if op % 2 == 0 { Some(emu(&mut c, elem::<E>(v), hb, sh)?) } else { None };
            let x = c.emulated_witness(&a)?;
            let y = match &b {
                Some(b) => c.emulated_witness(b)?,
                None => k0,
            };
            let right = if op < 2 { x * y } else { x + y };
            let z = other(v, right, &[x, y, x * y, x + y, x - y]);
            want &= z == right;
            let o = emu(&mut c, z, if sh.chance(1, 4) { 0 } else { 2 }, sh)?;
            match (op, &b) {
                (0, Some(b)) => c.emulated_mul_gate(&a, b, &o)?,
                (1, _) => c.emulated_mul_constant_gate(&a, k0, &o)?,
                (_, Some(b)) => c.emulated_add_gate(&a, b, &o)?,
                _ => c.emulated_add_constant_gate(&a, k0, &o)?,
            }
            if let Some(b) = &b {
                seen.extend(b.native_vars());
            }
            seen.extend(o.native_vars());
            gate = op;
        },
        _ => {
            let same = v.chance(1, 2);
            let y = if same { c.emulated_witness(&a)? } else { elem::<E>(v) };
            let b = emu(&mut c, y, hb, sh)?;
            seen.extend(b.native_vars());
            let eq = c.emulated_witness(&a)? == c.emulated_witness(&b)?;
            match k {
                "e_mul" => seen.extend(c.emulated_mul(&a, &b)?.native_vars()),
                "e_add" => seen.extend(c.emulated_add(&a, &b)?.native_vars()),
                "e_sub" => seen.extend(c.emulated_sub(&a, &b)?.native_vars()),
                "e_select" => {
                    let s = c.create_boolean_variable(v.chance(1, 2))?;
                    seen.push(s.into());
                    seen.extend(c.conditional_select_emulated(s, &a, &b)?.native_vars());
                },
                "e_eq" => {
                    let r: Variable = c.is_emulated_var_equal(&a, &b)?.into();
                    gives.push((r, F::from(eq as u64)));
                    seen.push(r);
                },
                _ => {
                    c.enforce_emulated_var_equal(&a, &b)?;
                    want &= eq;
                },
            }
        },
    }
    let alt: Option<Alt<F>> = match k {
        "e_mul" | "e_mulc" => {
            let s = seen.clone();
            let k0 = (k == "e_mulc").then(|| int(&k0));
            Some(Box::new(move |r, v| wrap::<E, F>(r, v, &s, k0.as_ref())))
        },
        "e_add" | "e_addc" => {
            let s = seen.clone();
            let k0 = (k == "e_addc").then(|| int(&k0));
            Some(Box::new(move |r, v| spill::<E, F>(r, v, &s, k0.as_ref())))
        },
        _ => None,
    };
    Ok(Made {
        c,
        seen,
        truth: Box::new(move |x| {
            let el = |x: &[F]| limbs::<E, F>(x).map(E::from);
            let a = el(&x[..n])?;
            // results come with their range checked
            let out = |i: usize, want: E| Some(el(&x[i..i + n]) == Some(want));
            match name.as_str() {
                "e_mulc" => return out(n, a * k0),
                "e_addc" => return out(n, a + k0),
                "e_subc" => return out(n, a - k0),
                "e_zero" => return Some(x[n] == F::from(canonical::<E, F>(&x[..n])?.is_zero() as u64)),
                "e_gate" => {
                    let b = if gate % 2 == 0 { el(&x[n..2 * n])? } else { k0 };
                    let o = el(&x[x.len() - n..])?;
                    return Some(o == if gate < 2 { a * b } else { a + b });
                },
                _ => {},
            }
            let b = el(&x[n..2 * n])?;
            match name.as_str() {
                "e_mul" => out(2 * n, a * b),
                "e_add" => out(2 * n, a + b),
                "e_sub" => out(2 * n, a - b),
                "e_select" => {
                    let w = if x[2 * n].is_one() {
                        &x[n..2 * n]
                    } else if x[2 * n].is_zero() {
                        &x[..n]
                    } else {
                        return Some(false);
                    };
                    Some(&x[2 * n + 1..] == w)
                },
                "e_eq" => {
                    Some(x[2 * n] == F::from((canonical::<E, F>(&x[..n])? == canonical::<E, F>(&x[n..2 * n])?) as u64))
                },
                _ => Some(canonical::<E, F>(&x[..n])? == canonical::<E, F>(&x[n..2 * n])?),
            }
        }),
        want,
        gives,
        note: "",
        alt,
    })
}

fn sw_var<E: EmulationConfig<F>, F: PrimeField>(
    c: &mut PlonkCircuit<F>,
    p: SWPoint<E>,
    how: u64,
) -> Result<EmulatedSWPointVariable<E>, CircuitError> {
    match how {
        0 => c.create_public_emulated_sw_point_variable(p),
        _ => c.create_emulated_sw_point_variable(p),
    }
}

fn sw_seen<E: PrimeField>(p: &EmulatedSWPointVariable<E>) -> Vec<Variable> {
    let mut s = p.0.native_vars();
    s.extend(p.1.native_vars());
    s.push(p.2.into());
    s
}

fn sw_point<P, E, F>(x: &[F]) -> Option<SWAffine<P>>
where
    P: SWCurveConfig<BaseField = E>,
    E: EmulationConfig<F>,
    F: PrimeField,
{
    let n = E::NUM_LIMBS;
    if x[2 * n].is_one() {
        // infinity is written with zero coordinates
        return x[..2 * n].iter().all(|l| l.is_zero()).then(SWAffine::zero);
    }
    if !x[2 * n].is_zero() {
        return None;
    }
    let p = SWAffine::<P>::new_unchecked(canonical::<E, F>(&x[..n])?, canonical::<E, F>(&x[n..2 * n])?);
    p.is_on_curve().then_some(p)
}

pub fn make_sw<P, E, F>(k: &str, shape: u64, vals: u64) -> Result<Made<F>, CircuitError>
where
    P: SWCurveConfig<BaseField = E>,
    E: EmulationConfig<F>,
    F: PrimeField,
{
    let (sh, v) = (&mut Prng::new(shape), &mut Prng::new(vals));
    let mut c = fresh::<F>(if sh.chance(1, 3) { sh.range(2, 8) } else { 0 });
    let m = 2 * E::NUM_LIMBS + 1;
    let (ha, hb) = (sh.below(4), sh.below(4));
    let rand = |v: &mut Prng| -> SWAffine<P> {
        match v.below(8) {
            0 => SWAffine::zero(),
            1 => SWAffine::generator(),
            _ => (SWAffine::<P>::generator() * elem::<P::ScalarField>(v)).into_affine(),
        }
    };
    let p = rand(v);
    let q = match v.below(6) {
        0 => p,
        1 => -p,
        2 => (p + p).into_affine(),
        _ => rand(v),
    };
    let note = if !p.is_zero() && p == -q { "opposite points" } else { "" };
    let a = sw_var(&mut c, SWPoint::from(p), ha)?;
    let b = sw_var(&mut c, SWPoint::from(q), hb)?;
    let mut seen = [sw_seen(&a), sw_seen(&b)].concat();
    let open = |how: u64, p| if how == 0 { sw_seen(p) } else { vec![] };
    let mut want = shown(&c, &[open(ha, &a), open(hb, &b)].concat());
    let mut gives = vec![];
    match k {
        "sw_add" => seen.extend(sw_seen(&c.emulated_sw_ecc_add(&a, &b, P::COEFF_A)?)),
        "sw_eq" => {
            let r: Variable = c.is_emulated_sw_point_equal(&a, &b)?.into();
            gives.push((r, F::from((p == q) as u64)));
            seen.push(r);
        },
        "sw_select" => {
            let s = c.create_boolean_variable(v.chance(1, 2))?;
            seen.push(s.into());
            seen.extend(sw_seen(&c.binary_emulated_sw_point_vars_select(s, &a, &b)?));
        },
        _ => {
            c.enforce_emulated_sw_point_equal(&a, &b)?;
            want &= p == q;
        },
    }
    let name = k.to_string();
    Ok(Made {
        c,
        seen,
        truth: Box::new(move |x| {
            let (p, q) = (sw_point::<P, E, F>(&x[..m])?, sw_point::<P, E, F>(&x[m..2 * m])?);
            match name.as_str() {
                "sw_add" => {
                    let s = (p + q).into_affine();
                    let o = &x[2 * m..];
                    if s.infinity {
                        return Some(o[m - 1].is_one());
                    }
                    let n = E::NUM_LIMBS;
                    let ok = limbs::<E, F>(&o[..n]).map(E::from) == Some(s.x)
                        && limbs::<E, F>(&o[n..2 * n]).map(E::from) == Some(s.y);
                    Some(ok && o[m - 1].is_zero())
                },
                "sw_eq" => Some(x[2 * m] == F::from((p == q) as u64)),
                "sw_select" => {
                    let w = if x[2 * m].is_one() {
                        &x[m..2 * m]
                    } else if x[2 * m].is_zero() {
                        &x[..m]
                    } else {
                        return Some(false);
                    };
                    Some(&x[2 * m + 1..] == w)
                },
                _ => Some(p == q),
            }
        }),
        want,
        gives,
        note: if k == "sw_add" { note } else { "" },
        alt: None,
    })
}

/// Affine addition for any coefficient; nothing for points not on one curve.
fn sw_sum<E: PrimeField>(p: SWPoint<E>, q: SWPoint<E>, a: E) -> Option<SWPoint<E>> {
    let none = SWPoint(E::zero(), E::zero(), true);
    if p.2 {
        return Some(q);
    }
    if q.2 {
        return Some(p);
    }
    let s = if p.0 != q.0 {
        (p.1 - q.1) / (p.0 - q.0)
    } else if p.1 == -q.1 {
        return Some(none);
    } else if p.1 == q.1 {
        (p.0.square() * E::from(3u64) + a) / p.1.double()
    } else {
        return None;
    };
    let x = s.square() - p.0 - q.0;
    Some(SWPoint(x, s * (p.0 - x) - p.1, false))
}

/// Three points given by the prover, on a curve of any coefficient.
pub fn make_sw_gate<E: EmulationConfig<F>, F: PrimeField>(shape: u64, vals: u64) -> Result<Made<F>, CircuitError> {
    let (sh, v) = (&mut Prng::new(shape), &mut Prng::new(vals));
    let mut c = fresh::<F>(if sh.chance(1, 3) { sh.range(2, 8) } else { 0 });
    let n = E::NUM_LIMBS;
    let m = 2 * n + 1;
    let a: E = elem(sh);
    let none = SWPoint(E::zero(), E::zero(), true);
    let p = match v.below(8) {
        0 => none,
        1 => SWPoint(elem(v), E::zero(), false),
        _ => SWPoint(elem(v), elem(v), false),
    };
    // any two points with different abscissas are on some curve
    let q = match v.below(8) {
        0 | 1 => p,
        2 => SWPoint(p.0, -p.1, p.2),
        3 => none,
        4 => sw_sum(p, p, a).unwrap_or(none),
        _ => {
            let x = elem::<E>(v);
            if x == p.0 {
                p
            } else {
                SWPoint(x, elem(v), false)
            }
        },
    };
    let right = sw_sum(p, q, a).unwrap_or(none);
    // the line through both points, or the tangent
    let slope = if p.2 || q.2 {
        None
    } else if p == q {
        (p.1 + p.1).inverse().map(|i| (p.0 * p.0 * E::from(3u64) + a) * i)
    } else {
        (p.0 - q.0).inverse().map(|i| (p.1 - q.1) * i)
    };
    let z = match v.below(14) {
        0..=3 => right,
        12 | 13 => {
            let x = elem::<E>(v);
            SWPoint(x, slope.map_or(E::zero(), |s| s * (p.0 - x) - p.1), false)
        },
        4 => SWPoint(right.0, -right.1, right.2),
        5 => SWPoint(right.0, other(v, right.1, &[p.1, q.1]), right.2),
        6 => SWPoint(other(v, right.0, &[p.0, q.0]), right.1, right.2),
        7 => SWPoint(right.0, right.1, !right.2),
        8 => p,
        9 => q,
        10 => none,
        _ => SWPoint(elem(v), elem(v), false),
    };
    let hows = [sh.below(4), sh.below(4), sh.below(4)];
    let mut seen = vec![];
    let mut vars = vec![];
    for (p, how) in [p, q, z].into_iter().zip(hows) {
        let x = sw_var(&mut c, p, how)?;
        seen.extend(sw_seen(&x));
        vars.push(x);
    }
    c.emulated_sw_ecc_add_gate(&vars[0], &vars[1], &vars[2], a)?;
    let point = move |x: &[F]| -> Option<SWPoint<E>> {
        let inf = x[2 * n].is_one();
        if !inf && !x[2 * n].is_zero() {
            return None;
        }
        let p = SWPoint(canonical::<E, F>(&x[..n])?, canonical::<E, F>(&x[n..2 * n])?, inf);
        // infinity is written with zero coordinates
        (!inf || p.0.is_zero() && p.1.is_zero()).then_some(p)
    };
    // nothing is said of the coordinates of infinity
    let same = |a: SWPoint<E>, b: SWPoint<E>| a.2 == b.2 && (a.2 || a.0 == b.0 && a.1 == b.1);
    let strict = p.2 || q.2;
    Ok(Made {
        c,
        seen,
        truth: Box::new(move |x| {
            let (p, q) = (point(&x[..m])?, point(&x[m..2 * m])?);
            let s = sw_sum(p, q, a)?;
            let o = &x[2 * m..];
            let e = |x: &[F]| limbs::<E, F>(x).map(E::from);
            if s.2 {
                return Some(o[m - 1].is_one());
            }
            Some(o[m - 1].is_zero() && e(&o[..n]) == Some(s.0) && e(&o[n..2 * n]) == Some(s.1))
        }),
        want: if strict { z == right } else { same(z, right) },
        gives: vec![],
        note: if z != right { "" } else if !p.2 && right.2 { "opposite points" } else { "" },
        alt: None,
    })
}

/// Circuits of single points of a curve over the circuit's own field.
pub fn make_pt<P: TECurveConfig>(k: &str, shape: u64, vals: u64) -> Result<Made<P::BaseField>, CircuitError>
where
    P::BaseField: PrimeField,
{
    let (sh, v) = (&mut Prng::new(shape), &mut Prng::new(vals));
    let mut c = fresh::<P::BaseField>(if sh.chance(1, 3) { sh.range(2, 8) } else { 0 });
    let (one, zero) = (P::BaseField::ONE, P::BaseField::ZERO);
    let free = ["pt_eq", "pt_same", "pt_neutral", "pt_curve", "pt_select", "pt_inv"].contains(&k);
    let coord = |v: &mut Prng| -> P::BaseField {
        match v.below(5) {
            0 => zero,
            1 => one,
            2 => -one,
            _ => elem(v),
        }
    };
    let any = |v: &mut Prng| -> (P::BaseField, P::BaseField) {
        if free && v.chance(1, 2) {
            return (coord(v), coord(v));
        }
        let p = group::<P>(v);
        if v.chance(1, 5) {
            // with the point of order two added
            (-p.x, -p.y)
        } else {
            (p.x, p.y)
        }
    };
    let p = any(v);
    let q = match v.below(8) {
        0 | 1 => p,
        2 => (-p.0, p.1),
        3 if free => (p.0, any(v).1),
        4 if free => (any(v).0, p.1),
        5 if free => (p.1, p.0),
        _ => any(v),
    };
    let how = sh.below(3);
    let var = |c: &mut PlonkCircuit<P::BaseField>, p: (P::BaseField, P::BaseField)| match how {
        0 => c.create_public_point_variable(TEPoint::from(Affine::<P>::new_unchecked(p.0, p.1))),
        _ => c.create_point_variable(TEPoint::from(Affine::<P>::new_unchecked(p.0, p.1))),
    };
    let a = var(&mut c, p)?;
    let b = var(&mut c, q)?;
    let mut seen = vec![a.get_x(), a.get_y(), b.get_x(), b.get_y()];
    let (mut want, mut gives) = (shown(&c, if how == 0 { &seen } else { &[] }), vec![]);
    let bit = |x: bool| P::BaseField::from(x as u64);
    let on = |p: (P::BaseField, P::BaseField)| Affine::<P>::new_unchecked(p.0, p.1).is_on_curve();
    match k {
        "pt_add" => {
            let o = c.ecc_add::<P>(&a, &b)?;
            seen.extend([o.get_x(), o.get_y()]);
        },
        "pt_eq" => {
            let r: Variable = c.is_point_equal(&a, &b)?.into();
            gives.push((r, bit(p == q)));
            seen.push(r);
        },
        "pt_same" => {
            c.enforce_point_equal(&a, &b)?;
            want &= p == q;
        },
        "pt_neutral" => {
            let r: Variable = c.is_neutral_point::<P>(&a)?.into();
            gives.push((r, bit(p == (zero, one))));
            seen.push(r);
        },
        "pt_curve" => {
            c.enforce_on_curve::<P>(&a)?;
            want &= on(p);
        },
        "pt_select" => {
            let s = c.create_boolean_variable(v.chance(1, 2))?;
            let o = c.binary_point_vars_select(s, &a, &b)?;
            seen.extend([s.into(), o.get_x(), o.get_y()]);
        },
        _ => {
            let o = c.inverse_point(&a)?;
            seen.extend([o.get_x(), o.get_y()]);
        },
    }
    let name = k.to_string();
    Ok(Made {
        c,
        seen,
        truth: Box::new(move |x| {
            let (p, q) = ((x[0], x[1]), (x[2], x[3]));
            Some(match name.as_str() {
                "pt_add" => {
                    if !on(p) || !on(q) {
                        return None;
                    }
                    let t = P::COEFF_D * p.0 * p.1 * q.0 * q.1;
                    let s = (
                        (p.0 * q.1 + p.1 * q.0) * (one + t).inverse()?,
                        (p.1 * q.1 - P::COEFF_A * p.0 * q.0) * (one - t).inverse()?,
                    );
                    s == (x[4], x[5])
                },
                "pt_eq" => x[4] == bit(p == q),
                "pt_same" => p == q,
                "pt_neutral" => x[4] == bit(p == (zero, one)),
                "pt_curve" => on(p),
                "pt_select" => (x[5], x[6]) == if x[4] == one { q } else { p } && (x[4] == one || x[4] == zero),
                _ => (x[4], x[5]) == (-p.0, p.1),
            })
        }),
        want,
        gives,
        note: "",
        alt: None,
    })
}

/// Points of the twisted Edwards form of BLS12-377's first group over the scalar field of BN254.
pub fn make_te_add(given: bool, shape: u64, vals: u64) -> Result<Made<ark_bn254::Fr>, CircuitError> {
    type E = ark_bls12_377::Fq;
    type F = ark_bn254::Fr;
    let d: E = MontFp!("122268283598675559488486339158635529096981886914877139579534153582033676785385790730042363341236035746924960903179");
    let (sh, v) = (&mut Prng::new(shape), &mut Prng::new(vals));
    let mut c = fresh::<F>(if sh.chance(1, 3) { sh.range(2, 8) } else { 0 });
    let n = <E as EmulationConfig<F>>::NUM_LIMBS;
    let _ = <E as SWToTEConParam>::S;
    let rand = |v: &mut Prng| -> TEPoint<E> {
        match v.below(8) {
            0 => TEPoint::default(),
            _ => {
                let p = (ark_bls12_377::G1Affine::generator() * elem::<ark_bls12_377::Fr>(v)).into_affine();
                if p.is_zero() {
                    TEPoint::default()
                } else {
                    TEPoint::from(p)
                }
            },
        }
    };
    let p = rand(v);
    let q = match v.below(6) {
        0 => p,
        1 => p.inverse(),
        _ => rand(v),
    };
    let kind = if given { 5 } else { sh.below(5) };
    let public = sh.chance(1, 4);
    let var = |c: &mut PlonkCircuit<F>, p: TEPoint<E>| -> Result<EmulatedTEPointVariable<E>, CircuitError> {
        if public {
            c.create_public_emulated_te_point_variable(p)
        } else {
            c.create_emulated_te_point_variable(p)
        }
    };
    let (a, b) = (var(&mut c, p)?, var(&mut c, q)?);
    let see = |p: &EmulatedTEPointVariable<E>| [p.0.native_vars(), p.1.native_vars()].concat();
    let mut seen = [see(&a), see(&b)].concat();
    let mut gives = vec![];
    let mut want = shown(&c, if public { &seen } else { &[] });
    match kind {
        0 | 1 => seen.extend(see(&c.emulated_te_ecc_add(&a, &b, d)?)),
        2 => {
            let r: Variable = c.is_emulated_te_point_equal(&a, &b)?.into();
            gives.push((r, F::from((p == q) as u64)));
            seen.push(r);
        },
        3 => {
            let s = c.create_boolean_variable(v.chance(1, 2))?;
            let o = c.binary_emulated_te_point_vars_select(s, &a, &b)?;
            seen.push(s.into());
            seen.extend(see(&o));
        },
        4 => {
            c.enforce_emulated_te_point_equal(&a, &b)?;
            want &= p == q;
        },
        _ => {
            // the result is the prover's to give
            let (x, y) = (p.get_x() * q.get_y() + q.get_x() * p.get_y(), p.get_y() * q.get_y() + p.get_x() * q.get_x());
            let t = d * p.get_x() * p.get_y() * q.get_x() * q.get_y();
            let s = (x / (E::ONE + t), y / (E::ONE - t));
            let z = match v.below(6) {
                0 | 1 => s,
                2 => (s.0, other(v, s.1, &[p.get_y(), q.get_y()])),
                3 => (other(v, s.0, &[p.get_x(), q.get_x()]), s.1),
                4 => (-s.0, s.1),
                _ => (rand(v).get_x(), rand(v).get_y()),
            };
            want &= z == s;
            let x = c.create_emulated_variable(z.0)?;
            let y = c.create_emulated_variable(z.1)?;
            let o = EmulatedTEPointVariable(x, y);
            c.emulated_te_ecc_add_gate(&a, &b, &o, d)?;
            seen.extend(see(&o));
        },
    }
    let m = 2 * n;
    Ok(Made {
        c,
        seen,
        truth: Box::new(move |x| {
            let at = |i: usize| -> Option<(E, E)> {
                Some((canonical::<E, F>(&x[i..i + n])?, canonical::<E, F>(&x[i + n..i + m])?))
            };
            let ((px, py), (qx, qy)) = (at(0)?, at(m)?);
            let on = |x: E, y: E| y.square() - x.square() == E::ONE + d * x.square() * y.square();
            if !on(px, py) || !on(qx, qy) {
                return None;
            }
            match kind {
                0 | 1 | 5 => {
                    let t = d * px * py * qx * qy;
                    let (u, w) = (E::ONE + t, E::ONE - t);
                    if u.is_zero() || w.is_zero() {
                        return None;
                    }
                    let s = ((px * qy + qx * py) / u, (py * qy + px * qx) / w);
                    let o = |i: usize| limbs::<E, F>(&x[i..i + n]).map(E::from);
                    Some(o(2 * m) == Some(s.0) && o(2 * m + n) == Some(s.1))
                },
                2 => Some(x[2 * m] == F::from((px == qx && py == qy) as u64)),
                4 => Some(px == qx && py == qy),
                _ => {
                    let w = if x[2 * m] == F::from(1u64) {
                        &x[m..2 * m]
                    } else if x[2 * m] == F::ZERO {
                        &x[..m]
                    } else {
                        return Some(false);
                    };
                    Some(&x[2 * m + 1..] == w)
                },
            }
        }),
        want,
        gives,
        note: "",
        alt: None,
    })
}

/// A product whose first factor is split into halves of any size that still
/// add up to it, with another quotient, result and carries.
fn split<F: PrimeField>(
    r: &mut Prng,
    v: &[F],
    (x, y, z): ((Variable, Variable), (F, F), (Variable, Variable)),
    p: FpElem<F>,
    loose: u64,
) -> Option<(&'static str, Vec<(Variable, F)>)> {
    let m = p.param_m();
    let (p0, p1) = p.components();
    let two = p.two_power_m();
    let whole = |a: F, b: F| int(&a) + (int(&b) << m);
    // what the honest prover computes
    let prod = whole(v[x.0], v[x.1]) * whole(y.0, y.1);
    let quot = prod / whole(p0, p1);
    let w = (F::from(&quot & ((BigUint::from(1u32) << m) - 1u32)), F::from(&quot >> m));
    let c0 = (v[z.0] + w.0 * p0 - v[x.0] * y.0) / two + two;
    let c1 = v[x.1] * y.1 - w.1 * p1 + two.double();
    let near = |a: F| (z.0.saturating_sub(20)..(z.1 + 20).min(v.len())).find(|i| v[*i] == a && int(&a).bits() > 40);
    let at = [z.0, z.1, near(w.0)?, near(w.1)?, near(c0)?, near(c1)?];
    // differences of result, quotient and carries that some split allows
    let (inv, down) = (y.0.inverse()?, two.inverse()?);
    let k = y.1 - y.0 * down;
    let q = BigInt::from(modulus::<F>());
    let scale = BigInt::from(1u64 << loose);
    let weight = |i: usize| if i < 4 { scale.clone() } else { BigInt::from(1) };
    let shift = |d: &[F; 6]| (d[0] + p0 * d[2] - two * d[4]) * inv;
    let mut basis: Vec<Vec<BigInt>> = vec![];
    for i in [0usize, 2, 3, 4] {
        let mut d = [F::zero(); 6];
        d[i] = F::ONE;
        let s = shift(&d);
        d[5] = -(p1 * d[3] + s * y.1 * down);
        d[1] = -(p1 * d[2] + p0 * d[3] - s * k + d[4] - two * d[5]);
        basis.push((0..6).map(|j| BigInt::from(int(&d[j])) * weight(j)).collect());
    }
    for i in [1usize, 5] {
        basis.push((0..6).map(|j| if i == j { q.clone() * weight(j) } else { BigInt::from(0) }).collect());
    }
    crate::lattice::reduce(&mut basis);
    let honest: Vec<BigInt> = at.iter().map(|i| BigInt::from(int(&v[*i]))).collect();
    for _ in 0..3000 {
        let f: Vec<i64> = (0..6).map(|_| r.below(5) as i64 - 2).collect();
        let new: Vec<BigInt> = (0..6)
            .map(|j| &honest[j] + (0..6).map(|i| &basis[i][j] * f[i]).sum::<BigInt>() / weight(j))
            .collect();
        let fits = (0..6).all(|j| new[j].sign() != num_bigint::Sign::Minus && new[j].bits() <= m as u64 + if j < 4 { 0 } else { loose });
        if !fits || new[..2] == honest[..2] {
            continue;
        }
        let to = |b: &BigInt| F::from(b.to_biguint().unwrap());
        let d: Vec<F> = (0..6).map(|j| to(&new[j]) - v[at[j]]).collect();
        let s = shift(&d.clone().try_into().unwrap());
        let mut out: Vec<(Variable, F)> = (0..6).map(|j| (at[j], to(&new[j]))).collect();
        out.push((x.0, v[x.0] + s));
        out.push((x.1, v[x.1] - s * down));
        return Some(("split", out));
    }
    None
}

/// Modular arithmetic over a larger field.
pub fn make_mod<T: RescueParameter, F: PrimeField>(k: &str, shape: u64, vals: u64) -> Result<Made<F>, CircuitError>
where
    T: PrimeField,
{
    let (sh, v) = (&mut Prng::new(shape), &mut Prng::new(vals));
    let bits = sh.range(3, 8) as usize;
    let mut c = fresh::<F>(bits as u64);
    let m = (T::MODULUS_BIT_SIZE as usize / 2 / bits + 1) * bits;
    let two = F::from(2u64).pow([m as u64]);
    let big = |x: &T| F::from(int(x));
    let p = FpElem::new(&F::from(modulus::<T>()), m, Some(two))?;
    let n = match k {
        "m_add" | "m_mul" | "m_same" | "m_gate" => 2,
        "m_addv" => 1 + sh.below(((1u64 << bits) / 2 - 1).min(9)) as usize,
        "m_linear" => 4,
        "m_chain" => 3,
        "m_sponge" => 1 + sh.below(3) as usize,
        "m_keyed" => 2 + sh.below(4) as usize,
        _ => 1,
    };
    let checked = sh.chance(1, 2);
    let mut xs = vec![];
    let mut seen = vec![];
    let mut want = !sh.chance(1, 4) || refuses::<T, F>(sh.next(), bits, m, two);
    let how = sh.below(8);
    let mut first = BigUint::from(0u32);
    let mut whole = None;
    for i in 0..n {
        let t: T = elem(v);
        let mut t = int(&t);
        let half = BigUint::from(1u32) << m;
        match (k, i) {
            ("m_same" | "m_gate", 0) => first = t.clone(),
            ("m_same", _) => {
                // alike in one half, or in both
                t = match v.below(4) {
                    0 | 1 => first.clone(),
                    2 => &first % &half + &t / &half * &half,
                    _ => &t % &half + &first / &half * &half,
                };
                want &= t == first;
            },
            ("m_gate", _) => {
                let y = int(&T::from(first.clone()).pow([11u64]));
                t = match v.below(4) {
                    0 | 1 => y.clone(),
                    2 => &y % &half + &t / &half * &half,
                    _ => &t % &half + &y / &half * &half,
                };
                want &= t == y;
            },
            _ => (),
        }
        let t = F::from(t);
        if k == "m_new" && how % 3 == 0 {
            let x = c.create_variable(t)?;
            let e = FpElemVar::new_from_var(&mut c, x, m, Some(two))?;
            seen.extend([e.components().0, e.components().1]);
            xs.push(e);
            whole = Some(x);
            continue;
        }
        if k == "m_new" && how % 3 == 1 {
            let e = FpElem::new(&t, m, Some(two))?;
            let e = FpElemVar::new_from_fp_elem(&mut c, &e, m, sh.chance(1, 2).then_some(two))?;
            seen.extend([e.components().0, e.components().1]);
            xs.push(e);
            continue;
        }
        let e = if checked || k == "m_new" || k == "m_gate" || k.starts_with("m_mul") || k.starts_with("m_pow") || k == "m_linear" || k == "m_chain" {
            FpElemVar::new_from_field_element(&mut c, &t, m, Some(two))?
        } else {
            let x = c.create_variable(t)?;
            FpElemVar::new_unchecked(&mut c, x, m, Some(two))?
        };
        seen.extend([e.components().0, e.components().1]);
        xs.push(e);
    }
    let ks: Vec<T> = (0..5).map(|_| elem(sh)).collect();
    let kf: Vec<FpElem<F>> = ks.iter().map(|x| FpElem::new(&big(x), m, Some(two))).collect::<Result<_, _>>()?;
    let mut alt: Option<Alt<F>> = None;
    let outs = if k == "m_sponge" { 1 + sh.below(4) as usize } else { 1 };
    let o: Vec<FpElemVar<F>> = match k {
        "m_same" => {
            xs[0].enforce_equal(&mut c, &xs[1])?;
            vec![]
        },
        "m_gate" => {
            c.non_native_power_11_gate::<T>(&xs[0], &xs[1])?;
            vec![]
        },
        "m_new" => vec![],
        "m_add" => vec![c.mod_add(&xs[0], &xs[1], &p)?],
        "m_addc" => vec![c.mod_add_constant(&xs[0], &kf[0], &p)?],
        "m_addv" => vec![c.mod_add_vec(&xs, &p)?],
        "m_mul" => vec![c.mod_mul(&xs[0], &xs[1], &p)?],
        "m_mulc" => vec![c.mod_mul_constant(&xs[0], &kf[0], &p)?],
        "m_neg" => vec![c.mod_negate(&xs[0], &p.field_elem())?],
        "m_pow5" => vec![c.non_native_power_5_gen::<T>(&xs[0])?],
        "m_pow11" => vec![c.non_native_power_11_gen::<T>(&xs[0])?],
        "m_linear" => vec![c.non_native_linear_gen::<T>(&xs, &kf[..4], &kf[4])?],
        "m_chain" => {
            let x = match how / 2 {
                0 => c.mod_add(&xs[0], &xs[1], &p)?,
                1 => c.mod_add_constant(&xs[0], &kf[0], &p)?,
                2 => c.mod_add_vec(&xs, &p)?,
                _ => c.mod_negate(&xs[0], &p.field_elem())?,
            };
            let z = if how % 2 == 0 { c.mod_mul(&x, &xs[2], &p)? } else { c.mod_mul_constant(&x, &kf[1], &p)? };
            let (by, fixed) = ((how % 2 == 0).then(|| xs[2].components()), kf[1].components());
            alt = Some(Box::new(move |r, v| {
                let y = by.map_or(fixed, |(a, b)| (v[a], v[b]));
                split::<F>(r, v, (x.components(), y, z.components()), p, bits as u64)
            }));
            vec![z]
        },
        "m_sponge" => RescueNonNativeGadget::<T, F>::rescue_sponge_with_padding(&mut c, &xs, outs)?,
        _ => vec![RescueNonNativeGadget::<T, F>::rescue_full_state_keyed_sponge_with_zero_padding(
            &mut c, xs[0], &xs[1..],
        )?],
    };
    for e in &o {
        seen.extend([e.components().0, e.components().1]);
    }
    seen.extend(whole);
    let name = k.to_string();
    Ok(Made {
        c,
        seen,
        truth: Box::new(move |x| {
            let narrow = |x: &F| int(x).bits() <= m as u64;
            if name == "m_new" {
                let sum = whole.is_none() || x[0] + two * x[1] == x[2];
                return Some(narrow(&x[0]) && narrow(&x[1]) && sum);
            }
            if name == "m_same" {
                return Some((x[0], x[1]) == (x[2], x[3]));
            }
            let mut a: Vec<T> = vec![];
            for i in 0..n {
                let (lo, hi) = (int(&x[2 * i]), int(&x[2 * i + 1]));
                if lo.bits() > m as u64 || hi.bits() > m as u64 {
                    return None;
                }
                a.push(T::from(lo + (hi << m)));
            }
            let w = match name.as_str() {
                "m_gate" => return Some(a[0].pow([11u64]) == a[1]),
                "m_addc" => vec![a[0] + ks[0]],
                "m_add" | "m_addv" => vec![a.iter().sum()],
                "m_mul" => vec![a[0] * a[1]],
                "m_mulc" => vec![a[0] * ks[0]],
                "m_neg" => vec![-a[0]],
                "m_pow5" => vec![a[0].pow([5u64])],
                "m_pow11" => vec![a[0].pow([11u64])],
                "m_linear" => vec![(0..4).map(|i| a[i] * ks[i]).sum::<T>() + ks[4]],
                "m_chain" => {
                    let x = match how / 2 {
                        0 => a[0] + a[1],
                        1 => a[0] + ks[0],
                        2 => a[0] + a[1] + a[2],
                        _ => -a[0],
                    };
                    vec![x * if how % 2 == 0 { a[2] } else { ks[1] }]
                },
                "m_sponge" => RescueCRHF::sponge_with_bit_padding(&a, outs),
                _ => vec![crate::hashes::keyed(a[0], &a[1..])],
            };
            if !x[2 * n..].iter().all(narrow) {
                return Some(false);
            }
            let got: Vec<T> =
                (n..n + w.len()).map(|i| T::from(int(&(x[2 * i] + x[2 * i + 1] * two)))).collect();
            Some(got == w)
        }),
        want,
        gives: vec![],
        note: "",
        alt,
    })
}

/// Whether the circuits decline values and parameters they cannot work with.
fn refuses<T: PrimeField, F: PrimeField>(seed: u64, bits: usize, m: usize, two: F) -> bool {
    let r = &mut Prng::new(seed);
    let c = &mut fresh::<F>(bits as u64);
    let q = modulus::<T>();
    let mut try_it = || -> Result<bool, CircuitError> {
        let p = FpElem::new(&F::from(q.clone()), m, Some(two))?;
        let (a, b): (T, T) = (elem(r), elem(r));
        let a = FpElemVar::new_from_field_element(c, &F::from(int(&a)), m, Some(two))?;
        let (o, w) = if r.chance(1, 2) { (m + bits, None) } else { (m, Some(two / F::from(2u64))) };
        let k = FpElem::new(&F::from(int(&b)), o, w)?;
        let b = FpElemVar::new_from_field_element(c, &F::from(int(&b)), o, w)?;
        Ok(match r.below(8) {
            0 | 1 => {
                // a number that is not below the modulus has no negative
                let over = &q + BigUint::from_bytes_le(&r.bytes(40)) % ((BigUint::from(1u32) << (2 * m)) - &q);
                let over = if r.chance(1, 4) { q.clone() } else { over };
                let x = c.create_variable(F::from(over))?;
                let x = FpElemVar::new_unchecked(c, x, m, Some(two))?;
                c.mod_negate(&x, &p.field_elem()).is_err()
            },
            2 => a.enforce_equal(c, &b).is_err(),
            3 => c.mod_add(&a, &b, &p).is_err(),
            4 => c.mod_mul(&b, &a, &p).is_err(),
            5 => c.mod_add_constant(&a, &k, &p).is_err(),
            6 => c.mod_mul_constant(&a, &k, &p).is_err(),
            _ => c.mod_add_vec(&[a, a, b], &p).is_err(),
        })
    };
    try_it().unwrap_or(false)
}
