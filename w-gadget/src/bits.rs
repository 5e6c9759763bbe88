//! Circuits that read field elements as numbers: bits, ranges, comparisons, truncation.
use crate::kit::{Alt, elem, fresh, int, modulus, Made, Truth};
use ark_ff::{BigInteger, Fp64, MontBackend, MontConfig, PrimeField};
use jf_relation::{BoolVar, Circuit, CircuitError, PlonkCircuit, Variable};
use num_bigint::BigUint;
use sim::Prng;

pub const KINDS: &[&str] = &[
    "unpack", "unpack", "unpack", "truncate", "truncate", "truncated", "in_range", "range", "range", "range", "cmp", "cmp_const", "order",
    "order_const", "zero", "equal", "logic", "power", "choose",
];

/// Small fields, where wrap-around is never far.
#[derive(MontConfig)]
#[modulus = "12289"]
#[generator = "11"]
pub struct P14Config;
pub type P14 = Fp64<MontBackend<P14Config, 1>>;

#[derive(MontConfig)]
#[modulus = "18446744069414584321"]
#[generator = "7"]
pub struct P64Config;
pub type P64 = Fp64<MontBackend<P64Config, 1>>;

fn two(n: u64) -> BigUint {
    BigUint::from(1u32) << n
}

/// A number below both `2^bits` and the field's order, often near an edge.
fn number<F: PrimeField>(r: &mut Prng, bits: u64) -> BigUint {
    let top = two(bits).min(modulus::<F>());
    let near = BigUint::from(r.size(200));
    match r.below(8) {
        0 => near % top,
        1 => &top - 1u32 - near % &top,
        // where adding the order still fits
        2 if two(bits) > modulus::<F>() => BigUint::from_bytes_le(&r.bytes(80)) % (two(bits) - modulus::<F>()).min(top),
        3 => int(&F::from(F::MODULUS_MINUS_ONE_DIV_TWO)).min(&top - 1u32),
        4 => two(r.below(bits)).min(&top - 1u32),
        _ => BigUint::from_bytes_le(&r.bytes(80)) % top,
    }
}

/// A number with one bit at or above `bits` besides those below.
fn beyond<F: PrimeField>(r: &mut Prng, bits: u64) -> BigUint {
    let (top, e) = (F::MODULUS_BIT_SIZE as u64 - 1, bits + r.size(6));
    let e = *r.pick(&[bits, e, e, top]);
    let low = if r.chance(1, 2) { number::<F>(r, bits) } else { BigUint::from(r.size(3)) };
    (low + two(e.min(top))).min(modulus::<F>() - 1u32)
}

fn var<F: PrimeField>(c: &mut PlonkCircuit<F>, x: &BigUint, how: u64) -> Result<Variable, CircuitError> {
    let x = F::from(x.clone());
    match how {
        0 => c.create_public_variable(x),
        _ => c.create_variable(x),
    }
}

fn holds(op: u64, a: &BigUint, b: &BigUint) -> bool {
    match op {
        0 => a < b,
        1 => a <= b,
        2 => a > b,
        _ => a >= b,
    }
}

/// Compares with a constant, giving an answer or enforcing it.
fn against<F: PrimeField>(
    c: &mut PlonkCircuit<F>,
    a: Variable,
    y: &BigUint,
    op: u64,
    answer: bool,
) -> Result<Option<BoolVar>, CircuitError> {
    let f = F::from(y.clone());
    if answer {
        return Ok(Some(match op {
            0 => c.is_lt_constant(a, f)?,
            1 => c.is_leq_constant(a, f)?,
            2 => c.is_gt_constant(a, f)?,
            _ => c.is_geq_constant(a, f)?,
        }));
    }
    match op {
        0 => c.enforce_lt_constant(a, f)?,
        1 => c.enforce_leq_constant(a, f)?,
        2 => c.enforce_gt_constant(a, f)?,
        _ => c.enforce_geq_constant(a, f)?,
    }
    Ok(None)
}

pub fn make<F: PrimeField>(k: &str, shape: u64, vals: u64) -> Result<Made<F>, CircuitError> {
    let (sh, v) = (&mut Prng::new(shape), &mut Prng::new(vals));
    let size = F::MODULUS_BIT_SIZE as u64;
    let lookup = if k.starts_with("trunc") || sh.chance(1, if k == "range" { 2 } else { 3 }) { sh.range(2, 8) } else { 0 };
    let mut c = fresh::<F>(lookup);
    let (how, op, word) = (sh.below(3), sh.below(4), F::BigInt::NUM_LIMBS as u64 * 64);
    let b = |x: &F| x.is_one();
    let mut want = true;
    let mut gives: Vec<(Variable, F)> = vec![];
    let mut alt: Option<Alt<F>> = None;
    let (seen, truth): (Vec<Variable>, Truth<F>) = match k {
        "unpack" => {
            let n = match sh.below(4) {
                0 => size,
                1 => sh.range(size, word),
                _ => sh.range(1, size),
            };
            let x = number::<F>(v, n);
            let a = var(&mut c, &x, how)?;
            let bits = c.unpack(a, n as usize)?;
            want = bits.len() == n as usize;
            if n < size && v.chance(1, 3) {
                let x = if v.chance(1, 3) { two(n) } else { beyond::<F>(v, n) };
                let mut c = c.clone();
                let a = var(&mut c, &x, how)?;
                want &= c.unpack(a, n as usize).is_err();
            }
            let mut seen = vec![a];
            seen.extend(bits.iter().map(|b| Variable::from(*b)));
            (seen, Box::new(|s| Some(s[1..].iter().enumerate().all(|(i, y)| *y == F::from(int(&s[0]).bit(i as u64))))))
        },
        "truncate" | "truncated" => {
            let n = sh.range(1, size - 1);
            let x = number::<F>(v, size);
            let a = var(&mut c, &x, how)?;
            let y = &x % two(n);
            let b = if k == "truncate" {
                c.truncate(a, n as usize)?
            } else {
                let y = if v.chance(1, 3) { number::<F>(v, n) } else { y.clone() };
                let b = var(&mut c, &y, sh.below(3))?;
                c.truncate_gate(a, b, n as usize)?;
                want = &x % two(n) == y;
                b
            };
            if k == "truncate" {
                gives.push((b, F::from(y)));
            }
            (vec![a, b], Box::new(move |s| Some(int(&s[1]) == int(&s[0]) % two(n))))
        },
        "in_range" => {
            let n = sh.range(1, size - 1);
            let x = match v.below(4) {
                0 | 1 => number::<F>(v, n),
                2 => beyond::<F>(v, n),
                _ => number::<F>(v, size),
            };
            let a = var(&mut c, &x, how)?;
            let y = c.is_in_range(a, n as usize)?;
            gives.push((y.into(), F::from(x < two(n))));
            (vec![a, y.into()], Box::new(move |s| Some(s[1] == F::from(int(&s[0]) < two(n)))))
        },
        "range" => {
            let n = sh.range(1, size);
            let x = match v.below(6) {
                0..=2 => number::<F>(v, n),
                3 | 4 if n < size => beyond::<F>(v, n),
                _ => number::<F>(v, size),
            };
            let a = var(&mut c, &x, how)?;
            c.enforce_in_range(a, n as usize)?;
            want = x < two(n);
            (vec![a], Box::new(move |s| Some(int(&s[0]) < two(n))))
        },
        "cmp" | "order" => {
            let x = number::<F>(v, size);
            let y = match v.below(4) {
                0 => x.clone(),
                1 => (&x + 1u32) % modulus::<F>(),
                _ => number::<F>(v, size),
            };
            let (a, b) = (var(&mut c, &x, how)?, var(&mut c, &y, how)?);
            if k == "cmp" {
                let z = match op {
                    0 => c.is_lt(a, b)?,
                    1 => c.is_leq(a, b)?,
                    2 => c.is_gt(a, b)?,
                    _ => c.is_geq(a, b)?,
                };
                gives.push((z.into(), F::from(holds(op, &x, &y))));
                let f = move |s: &[F]| Some(s[2] == F::from(holds(op, &int(&s[0]), &int(&s[1]))));
                (vec![a, b, z.into()], Box::new(f))
            } else {
                match op {
                    0 => c.enforce_lt(a, b)?,
                    1 => c.enforce_leq(a, b)?,
                    2 => c.enforce_gt(a, b)?,
                    _ => c.enforce_geq(a, b)?,
                }
                want = holds(op, &x, &y);
                (vec![a, b], Box::new(move |s| Some(holds(op, &int(&s[0]), &int(&s[1])))))
            }
        },
        "cmp_const" | "order_const" => {
            // the constant is part of the circuit
            let y = number::<F>(sh, size);
            let x = match v.below(4) {
                0 => y.clone(),
                1 => (&y + 1u32) % modulus::<F>(),
                2 => (&y + modulus::<F>() - 1u32) % modulus::<F>(),
                _ => number::<F>(v, size),
            };
            let a = var(&mut c, &x, how)?;
            let answer = k == "cmp_const";
            let z = against(&mut c, a, &y, op, answer)?;
            // the witness of a circuit with another constant
            let x2 = x.clone();
            alt = Some(Box::new(move |r, _| {
                let y = if r.chance(1, 2) { x2.clone() } else { number::<F>(r, size) };
                let mut c = fresh::<F>(lookup);
                let a = var(&mut c, &x2, how).ok()?;
                against(&mut c, a, &y, op, answer).ok()?;
                Some(("another constant", (2..c.num_vars()).map(|v| (v, c.witness(v).unwrap())).collect()))
            }));
            if let Some(z) = z {
                gives.push((z.into(), F::from(holds(op, &x, &y))));
                (vec![a, z.into()], Box::new(move |s| Some(s[1] == F::from(holds(op, &int(&s[0]), &y)))))
            } else {
                want = holds(op, &x, &y);
                (vec![a], Box::new(move |s| Some(holds(op, &int(&s[0]), &y))))
            }
        },
        "zero" => {
            let x = if v.chance(1, 3) { BigUint::from(0u32) } else { number::<F>(v, size) };
            let a = var(&mut c, &x, how)?;
            let zero = x == BigUint::from(0u32);
            if op == 0 {
                c.non_zero_gate(a)?;
                want = !zero;
                (vec![a], Box::new(|s| Some(!s[0].is_zero())))
            } else {
                let z = c.is_zero(a)?;
                gives.push((z.into(), F::from(zero)));
                (vec![a, z.into()], Box::new(|s| Some(s[1] == F::from(s[0].is_zero()))))
            }
        },
        "equal" => {
            let x: F = elem(v);
            let y: F = if v.chance(1, 2) { x } else { elem(v) };
            let (a, b) = (c.create_variable(x)?, c.create_variable(y)?);
            let z = c.is_equal(a, b)?;
            gives.push((z.into(), F::from(x == y)));
            (vec![a, b, z.into()], Box::new(|s| Some(s[2] == F::from(s[0] == s[1]))))
        },
        "logic" => {
            let n = if sh.chance(1, 2) { sh.range(2, 5) } else { sh.range(6, 40) };
            // all, all but one, one, or any
            let (mostly, one) = (v.below(4), v.below(n));
            let xs: Vec<BoolVar> = (0..n)
                .map(|i| {
                    let x = match mostly {
                        0 => true,
                        1 => i != one,
                        2 => i == one,
                        _ => v.chance(1, 2),
                    };
                    c.create_boolean_variable(x)
                })
                .collect::<Result<_, _>>()?;
            let all = c.logic_and_all(&xs)?;
            let any = xs[1..].iter().try_fold(xs[0], |s, x| c.logic_or(s, *x))?;
            let not = c.logic_neg(all)?;
            let mut seen: Vec<Variable> = xs.iter().map(|x| (*x).into()).collect();
            seen.extend([all, any, not].map(Variable::from));
            let n = n as usize;
            (
                seen,
                Box::new(move |s| {
                    let and = s[..n].iter().all(b);
                    Some(
                        s[..n].iter().all(|x| x.is_zero() || x.is_one())
                            && s[n] == F::from(and)
                            && s[n + 1] == F::from(s[..n].iter().any(b))
                            && s[n + 2] == F::from(!and),
                    )
                }),
            )
        },
        "power" => {
            let x: F = elem(v);
            let a = c.create_variable(x)?;
            let z = if op == 0 {
                let y = if v.chance(1, 3) { elem(v) } else { x.pow([11u64]) };
                want = y == x.pow([11u64]);
                let z = c.create_variable(y)?;
                c.power_11_gate(a, z)?;
                z
            } else {
                let z = c.power_11_gen(a)?;
                gives.push((z, x.pow([11u64])));
                z
            };
            (vec![a, z], Box::new(|s| Some(s[1] == s[0].pow([11u64]))))
        },
        _ => {
            let (x, y, t) = (elem::<F>(v), elem::<F>(v), v.chance(1, 2));
            let (a, b, s) = (c.create_variable(x)?, c.create_variable(y)?, c.create_boolean_variable(t)?);
            let z = c.conditional_select(s, a, b)?;
            gives.push((z, if t { y } else { x }));
            let f = |s: &[F]| Some(s[2].is_zero() && s[3] == s[0] || s[2].is_one() && s[3] == s[1]);
            (vec![a, b, s.into(), z], Box::new(f))
        },
    };
    Ok(Made { c, seen, truth, want, gives, note: "", alt })
}
