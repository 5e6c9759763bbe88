//! Circuit programs: a plan's operations are run against the circuit builder
//! and against a model that knows what every variable must hold and what every
//! constraint must require.
use ark_ec::{
    twisted_edwards::{Affine, TECurveConfig},
    AffineRepr, CurveGroup,
};
use ark_ff::PrimeField;
use jf_relation::{
    gadgets::ecc::{PointVariable, TEPoint},
    BoolVar, Circuit, CircuitError, PlonkCircuit, Variable,
};
use num_bigint::BigUint;
use sim::*;
use std::collections::{BTreeMap, BTreeSet};

/// A circuit field with an Edwards curve over it.
pub trait Fld: PrimeField {
    type Ed: TECurveConfig<BaseField = Self>;
}
impl Fld for ark_bn254::Fr {
    type Ed = ark_ed_on_bn254::EdwardsConfig;
}
impl Fld for ark_bls12_381::Fr {
    type Ed = ark_ed_on_bls12_381::EdwardsConfig;
}
impl Fld for ark_bls12_377::Fr {
    type Ed = ark_ed_on_bls12_377::EdwardsConfig;
}

type Rule<F> = Box<dyn Fn(&[F]) -> bool>;

enum Kind<F> {
    /// Holds exactly when the rule says so.
    Exact(Rule<F>),
    /// Held (or not) as built; breaks when exactly one of the variables changes.
    Tied(bool),
    /// As built; breaks when exactly one of the first `n` variables changes and
    /// nothing else; otherwise nothing is said.
    Out(bool, usize),
}
struct Con<F> {
    vars: Vec<Variable>,
    kind: Kind<F>,
    lookup: bool,
}

pub struct Built<F: Fld> {
    pub c: PlonkCircuit<F>,
    /// What each variable the program can name must hold.
    pub m: BTreeMap<Variable, F>,
    pub vars: Vec<Variable>,
    pub bools: Vec<BoolVar>,
    pub points: Vec<(Variable, Variable, Affine<F::Ed>, PointVariable)>,
    pub pubs: Vec<Variable>,
    cons: Vec<Con<F>>,
    pub ultra: Option<usize>,
    /// First disagreement between circuit and model while building.
    pub wrong: Option<(String, String)>,
    pub refused: u64,
}

pub fn elem<F: PrimeField>(r: &mut Prng) -> F {
    match r.below(10) {
        0 => F::zero(),
        1 => F::one(),
        2 => -F::from(1 + r.below(3)),
        3 | 4 => F::from(r.below(40)),
        5 => F::from(r.next()),
        _ => F::from_le_bytes_mod_order(&r.bytes(64)),
    }
}
fn big<F: PrimeField>(x: F) -> BigUint {
    x.into()
}
/// A value below 2^bits, biased to the edges.
fn small<F: PrimeField>(r: &mut Prng, bits: usize) -> F {
    let top = BigUint::from(1u8) << bits;
    let p: BigUint = F::MODULUS.into();
    let v = match r.below(4) {
        0 => BigUint::from(r.below(2)),
        1 => &top - 1u8,
        _ => BigUint::from_bytes_le(&r.bytes(40)) % &top,
    };
    F::from(v % p)
}

pub const LIGHT: &[&str] = &[
    "const", "var", "pub", "bool", "pubbool", "setpub", "add", "sub", "mul", "lc", "mul_add", "quad", "sum", "addc",
    "mulc", "pow11", "g_add", "g_sub", "g_mul", "g_lc", "g_mul_add", "g_quad", "g_addc", "g_mulc", "g_pow11", "g_eq",
    "g_const", "g_bool", "g_nonzero", "g_or", "is_zero", "is_equal", "neg", "and", "or", "and_all", "select", "unpack",
    "range", "pad", "bad", "point", "ecc_add", "on_curve", "pt_inv", "pt_eq", "pt_sel", "pt_neutral",
];
pub const ULTRA: &[&str] = &["rc", "table", "table", "truncate", "rc_many", "rc_full", "table_full"];
pub const HEAVY: &[&str] =
    &["is_lt", "is_leq", "is_gt", "is_geq", "lt_c", "leq_c", "gt_c", "geq_c", "in_range", "g_lt", "g_leq", "bin_mul", "g_geq", "g_gt"];

/// Draws a program. `lies` is the per-mille chance that a stated fact is false.
pub fn gen(r: &mut Prng, n: u64, ultra: bool, lies: u64, heavy: bool) -> Vec<Op> {
    let mut v = vec![];
    // a theme makes runs of the same few operations likely
    let theme: Vec<&str> = (0..6).map(|_| *r.pick(LIGHT)).collect();
    let full = ultra && r.chance(1, 12);
    for i in 0..n {
        let k = if full && i + 1 == n {
            "table_full"
        } else if ultra && r.chance(1, 4) {
            *r.pick(ULTRA)
        } else if heavy && i + 1 == n {
            *r.pick(HEAVY)
        } else if r.chance(1, 2) {
            *r.pick(&theme)
        } else {
            *r.pick(LIGHT)
        };
        let lie = if r.below(1000) < lies { 1 + r.below(4) } else { 0 };
        v.push(Op::new(k, &[r.next(), lie, r.next(), r.next(), r.next(), r.next()]));
    }
    v
}

impl<F: Fld> Built<F> {
    pub fn new(ultra: Option<usize>) -> Self {
        let c = match ultra {
            None => PlonkCircuit::new_turbo_plonk(),
            Some(b) => PlonkCircuit::new_ultra_plonk(b),
        };
        let mut s = Self {
            c,
            m: BTreeMap::new(),
            vars: vec![],
            bools: vec![],
            points: vec![],
            pubs: vec![],
            cons: vec![],
            ultra,
            wrong: None,
            refused: 0,
        };
        let (z, o) = (s.c.zero(), s.c.one());
        s.m.insert(z, F::zero());
        s.m.insert(o, F::one());
        s.vars = vec![z, o];
        s.bools = vec![s.c.false_var(), s.c.true_var()];
        s.exact(&[z], |v| v[0].is_zero());
        s.exact(&[o], |v| v[0].is_one());
        s
    }
    pub fn build(ops: &[Op], ultra: Option<usize>) -> Self {
        let mut s = Self::new(ultra);
        for o in ops {
            if let Err(e) = s.step(o) {
                s.bad("refused", format!("{o:?} was refused: {e:?}"));
            }
            if s.wrong.is_some() {
                break;
            }
        }
        s
    }
    fn bad(&mut self, class: &str, what: String) {
        if self.wrong.is_none() {
            self.wrong = Some((class.to_string(), what));
        }
    }
    fn exact(&mut self, vars: &[Variable], f: impl Fn(&[F]) -> bool + 'static) {
        self.cons.push(Con { vars: vars.to_vec(), kind: Kind::Exact(Box::new(f)), lookup: false });
    }
    fn lookup(&mut self, vars: &[Variable], f: impl Fn(&[F]) -> bool + 'static) {
        self.cons.push(Con { vars: vars.to_vec(), kind: Kind::Exact(Box::new(f)), lookup: true });
    }
    fn tied(&mut self, vars: &[Variable], ok: bool) {
        self.cons.push(Con { vars: vars.to_vec(), kind: Kind::Tied(ok), lookup: false });
    }
    fn out(&mut self, outs: &[Variable], ins: &[Variable], ok: bool) {
        let vars = [outs, ins].concat();
        self.cons.push(Con { vars, kind: Kind::Out(ok, outs.len()), lookup: false });
    }
    fn v(&self, i: u64) -> Variable {
        // recent variables are used more
        let n = self.vars.len() as u64;
        if i >> 60 < 8 {
            self.vars[(n - 1 - (i % 8).min(n - 1)) as usize]
        } else {
            self.vars[(i % n) as usize]
        }
    }
    fn b(&self, i: u64) -> BoolVar {
        self.bools[(i % self.bools.len() as u64) as usize]
    }
    fn val(&self, v: Variable) -> F {
        self.m[&v]
    }
    /// A new variable the circuit says exists; the model says what it holds.
    fn got(&mut self, k: &str, v: Variable, want: F) {
        self.m.insert(v, want);
        self.vars.push(v);
        match self.c.witness(v) {
            Ok(x) if x == want => {},
            x => self.bad("value", format!("{k} gave {x:?}, expected {want}")),
        }
    }
    fn gotb(&mut self, k: &str, v: BoolVar, want: bool) {
        self.got(k, v.into(), F::from(want as u64));
        self.bools.push(v);
    }
    fn fresh(&mut self, x: F) -> Result<Variable, CircuitError> {
        let v = self.c.create_variable(x)?;
        self.got("create_variable", v, x);
        Ok(v)
    }
    fn lie(&self, o: &Op) -> F {
        match o.arg(1) {
            0 => F::zero(),
            1 => F::one(),
            2 => -F::one(),
            _ => elem::<F>(&mut Prng::new(o.arg(0) ^ 77)) + F::from(2u64),
        }
    }
    fn point(&mut self, x: Affine<F::Ed>, how: u64) -> Result<usize, CircuitError> {
        let t = TEPoint::from(x);
        let p = match how % 3 {
            0 => self.c.create_point_variable(t)?,
            1 => {
                let p = self.c.create_constant_point_variable(t)?;
                for (v, w) in [(p.get_x(), x.x), (p.get_y(), x.y)] {
                    self.exact(&[v], move |a| a[0] == w);
                }
                p
            },
            _ => {
                let p = self.c.create_public_point_variable(t)?;
                self.pubs.push(p.get_x());
                self.pubs.push(p.get_y());
                p
            },
        };
        self.got("point", p.get_x(), x.x);
        self.got("point", p.get_y(), x.y);
        self.points.push((p.get_x(), p.get_y(), x, p));
        Ok(self.points.len() - 1)
    }
    fn pt(&mut self, i: u64) -> Result<(Variable, Variable, Affine<F::Ed>, PointVariable), CircuitError> {
        if self.points.is_empty() {
            self.point(Affine::<F::Ed>::generator(), 0)?;
        }
        Ok(self.points[(i % self.points.len() as u64) as usize])
    }
    fn gotp(&mut self, k: &str, p: PointVariable, want: Affine<F::Ed>) {
        self.got(k, p.get_x(), want.x);
        self.got(k, p.get_y(), want.y);
        self.points.push((p.get_x(), p.get_y(), want, p));
    }

    fn step(&mut self, o: &Op) -> Result<(), CircuitError> {
        let k = o.k.as_str();
        let mut r = Prng::new(o.arg(0));
        let d = self.lie(o);
        let (a, b, e, f) = (self.v(o.arg(2)), self.v(o.arg(3)), self.v(o.arg(4)), self.v(o.arg(5)));
        let (x, y, z, w) = (self.val(a), self.val(b), self.val(e), self.val(f));
        let q: Vec<F> = (0..8).map(|_| elem(&mut r)).collect();
        let (ba, bb) = (self.b(o.arg(2)), self.b(o.arg(3)));
        let (va, vb): (Variable, Variable) = (ba.into(), bb.into());
        let (xa, xb) = (self.val(va).is_one(), self.val(vb).is_one());
        let lc4 = [q[0], q[1], q[2], q[3]];
        match k {
            "const" => {
                let v = self.c.create_constant_variable(q[0])?;
                let c = q[0];
                self.exact(&[v], move |t| t[0] == c);
                self.got(k, v, c);
            },
            "var" => {
                self.fresh(q[0])?;
            },
            "pub" => {
                let v = self.c.create_public_variable(q[0])?;
                self.pubs.push(v);
                self.got(k, v, q[0]);
            },
            "bool" => {
                let x = r.chance(1, 2);
                let v = self.c.create_boolean_variable(x)?;
                self.exact(&[v.into()], |t| t[0].is_zero() || t[0].is_one());
                self.gotb(k, v, x);
            },
            "pubbool" => {
                let x = r.chance(1, 2);
                let v = self.c.create_public_boolean_variable(x)?;
                self.pubs.push(v.into());
                self.gotb(k, v, x);
            },
            "setpub" => {
                self.c.set_variable_public(a)?;
                self.pubs.push(a);
            },
            "add" => {
                let v = self.c.add(a, b)?;
                self.exact(&[a, b, v], |t| t[0] + t[1] == t[2]);
                self.got(k, v, x + y);
            },
            "sub" => {
                let v = self.c.sub(a, b)?;
                self.exact(&[a, b, v], |t| t[0] - t[1] == t[2]);
                self.got(k, v, x - y);
            },
            "mul" => {
                let v = self.c.mul(a, b)?;
                self.exact(&[a, b, v], |t| t[0] * t[1] == t[2]);
                self.got(k, v, x * y);
            },
            "g_add" => {
                let v = self.fresh(x + y + d)?;
                self.c.add_gate(a, b, v)?;
                self.exact(&[a, b, v], |t| t[0] + t[1] == t[2]);
            },
            "g_sub" => {
                let v = self.fresh(x - y + d)?;
                self.c.sub_gate(a, b, v)?;
                self.exact(&[a, b, v], |t| t[0] - t[1] == t[2]);
            },
            "g_mul" => {
                let v = self.fresh(x * y + d)?;
                self.c.mul_gate(a, b, v)?;
                self.exact(&[a, b, v], |t| t[0] * t[1] == t[2]);
            },
            "lc" | "g_lc" => {
                let want = x * lc4[0] + y * lc4[1] + z * lc4[2] + w * lc4[3];
                let v = if k == "lc" {
                    let v = self.c.lc(&[a, b, e, f], &lc4)?;
                    self.got(k, v, want);
                    v
                } else {
                    let v = self.fresh(want + d)?;
                    self.c.lc_gate(&[a, b, e, f, v], &lc4)?;
                    v
                };
                self.exact(&[a, b, e, f, v], move |t| {
                    t[0] * lc4[0] + t[1] * lc4[1] + t[2] * lc4[2] + t[3] * lc4[3] == t[4]
                });
            },
            "mul_add" | "g_mul_add" => {
                let m = [q[4], q[5]];
                let want = m[0] * x * y + m[1] * z * w;
                let v = if k == "mul_add" {
                    let v = self.c.mul_add(&[a, b, e, f], &m)?;
                    self.got(k, v, want);
                    v
                } else {
                    let v = self.fresh(want + d)?;
                    self.c.mul_add_gate(&[a, b, e, f, v], &m)?;
                    v
                };
                self.exact(&[a, b, e, f, v], move |t| m[0] * t[0] * t[1] + m[1] * t[2] * t[3] == t[4]);
            },
            "quad" | "g_quad" => {
                let m = [q[4], q[5]];
                let (qc, mut qo) = (q[6], q[7]);
                let s = x * lc4[0] + y * lc4[1] + z * lc4[2] + w * lc4[3] + m[0] * x * y + m[1] * z * w + qc;
                let v = if k == "quad" {
                    qo = F::one();
                    let v = self.c.gen_quad_poly(&[a, b, e, f], &lc4, &m, qc)?;
                    self.got(k, v, s);
                    v
                } else {
                    if qo.is_zero() {
                        qo = F::one() + F::one();
                    }
                    let v = self.fresh(s / qo + d)?;
                    self.c.quad_poly_gate(&[a, b, e, f, v], &lc4, &m, qo, qc)?;
                    v
                };
                self.exact(&[a, b, e, f, v], move |t| {
                    t[0] * lc4[0]
                        + t[1] * lc4[1]
                        + t[2] * lc4[2]
                        + t[3] * lc4[3]
                        + m[0] * t[0] * t[1]
                        + m[1] * t[2] * t[3]
                        + qc
                        == qo * t[4]
                });
            },
            "sum" => {
                let n = if r.chance(1, 12) { r.range(15, 90) } else { 1 + r.size(14) } as usize;
                let l: Vec<Variable> = (0..n).map(|_| self.v(r.next())).collect();
                let s: F = l.iter().map(|&v| self.val(v)).sum();
                let v = self.c.sum(&l)?;
                self.got(k, v, s);
                let mut all = l;
                all.push(v);
                self.tied(&all, true);
            },
            "addc" | "g_addc" => {
                let c = q[0];
                let v = if k == "addc" {
                    let v = self.c.add_constant(a, &c)?;
                    self.got(k, v, x + c);
                    v
                } else {
                    let v = self.fresh(x + c + d)?;
                    self.c.add_constant_gate(a, c, v)?;
                    v
                };
                self.exact(&[a, v], move |t| t[0] + c == t[1]);
            },
            "mulc" | "g_mulc" => {
                let c = q[0];
                let v = if k == "mulc" {
                    let v = self.c.mul_constant(a, &c)?;
                    self.got(k, v, x * c);
                    v
                } else {
                    let v = self.fresh(x * c + d)?;
                    self.c.mul_constant_gate(a, c, v)?;
                    v
                };
                self.exact(&[a, v], move |t| t[0] * c == t[1]);
            },
            "pow11" => {
                let v = self.c.power_11_gen(a)?;
                let want = x.pow([11u64]);
                self.got(k, v, want);
                self.out(&[v], &[a], true);
            },
            "g_pow11" => {
                let v = self.fresh(x.pow([11u64]) + d)?;
                self.c.power_11_gate(a, v)?;
                self.out(&[v], &[a], d.is_zero());
            },
            "g_eq" => {
                let v = self.fresh(x + d)?;
                self.c.enforce_equal(a, v)?;
                self.exact(&[a, v], |t| t[0] == t[1]);
            },
            "g_const" => {
                let c = x + d;
                self.c.enforce_constant(a, c)?;
                self.exact(&[a], move |t| t[0] == c);
            },
            "g_bool" => {
                let x = if o.arg(1) == 0 { F::from(r.below(2)) } else { d };
                let v = self.fresh(x)?;
                self.c.enforce_bool(v)?;
                self.exact(&[v], |t| t[0].is_zero() || t[0].is_one());
            },
            "g_nonzero" => {
                let x = if o.arg(1) != 0 {
                    F::zero()
                } else if q[0].is_zero() {
                    F::one()
                } else {
                    q[0]
                };
                let v = self.fresh(x)?;
                self.c.non_zero_gate(v)?;
                self.tied(&[v], !x.is_zero());
            },
            "g_or" => {
                // stated of boolean variables only
                if xa || xb || o.arg(1) != 0 {
                    self.c.logic_or_gate(ba, bb)?;
                    let ok = xa || xb;
                    self.cons.push(Con {
                        vars: vec![va, vb],
                        kind: Kind::Exact(Box::new(|t: &[F]| t[0] + t[1] - t[0] * t[1] == F::one())),
                        lookup: false,
                    });
                    let _ = ok;
                }
            },
            "is_zero" => {
                let v = self.c.is_zero(a)?;
                self.gotb(k, v, x.is_zero());
                let inv = x.inverse().unwrap_or_default();
                self.exact(&[a, v.into()], move |t| t[0] * inv + t[1] == F::one() && (t[0] * t[1]).is_zero());
            },
            "is_equal" => {
                let (b, y) = if o.arg(5) % 3 == 0 { (self.fresh(x)?, x) } else { (b, y) };
                let v = self.c.is_equal(a, b)?;
                self.gotb(k, v, x == y);
                self.out(&[v.into()], &[a, b], true);
            },
            "neg" => {
                let v = self.c.logic_neg(ba)?;
                self.gotb(k, v, !xa);
                self.out(&[v.into()], &[va], true);
            },
            "and" => {
                let v = self.c.logic_and(ba, bb)?;
                self.gotb(k, v, xa && xb);
                self.exact(&[va, vb, v.into()], |t| t[0] * t[1] == t[2]);
            },
            "or" => {
                let v = self.c.logic_or(ba, bb)?;
                self.gotb(k, v, xa || xb);
                self.exact(&[va, vb, v.into()], |t| t[0] + t[1] - t[0] * t[1] == t[2]);
            },
            "and_all" => {
                let n = 1 + r.size(8) as usize;
                let l: Vec<BoolVar> = (0..n).map(|_| self.b(r.next())).collect();
                let want = l.iter().all(|&b| self.val(b.into()).is_one());
                let v = self.c.logic_and_all(&l)?;
                if n > 1 {
                    self.gotb(k, v, want);
                    let ins: Vec<Variable> = l.iter().map(|&b| b.into()).collect();
                    self.out(&[v.into()], &ins, true);
                }
            },
            "select" => {
                let v = self.c.conditional_select(ba, a, b)?;
                self.got(k, v, if xa { y } else { x });
                self.exact(&[va, a, b, v], |t| (F::one() - t[0]) * t[1] + t[0] * t[2] == t[3]);
            },
            "unpack" => {
                let full = F::MODULUS_BIT_SIZE as usize;
                let bits = if r.chance(1, 60) { full } else { 1 + r.size(20) as usize };
                let x: F = if bits == full { elem(&mut r) } else { small(&mut r, bits) };
                let src = self.fresh(x)?;
                let l = self.c.unpack(src, bits)?;
                if l.len() != bits {
                    self.bad("value", format!("unpack to {bits} bits gave {} variables", l.len()));
                    return Ok(());
                }
                let n = big(x);
                let mut outs = vec![];
                for (i, &b) in l.iter().enumerate() {
                    self.gotb(k, b, n.bit(i as u64));
                    outs.push(b.into());
                }
                outs.push(src);
                self.tied(&outs, true);
                // a small one cannot be unpacked to fewer bits
                if bits > 1 && bits < full && n.bits() as usize == bits {
                    self.refuse(k, |c| c.unpack(src, bits - 1).is_ok());
                }
            },
            "range" => {
                let bits = 1 + r.size(20) as usize;
                let mut x: F = small(&mut r, bits);
                if o.arg(1) == 1 {
                    x = F::from(BigUint::from(1u8) << bits);
                } else if o.arg(1) != 0 {
                    x = -F::one() - x;
                }
                let v = self.fresh(x)?;
                self.c.enforce_in_range(v, bits)?;
                let ok = big(x).bits() as usize <= bits;
                self.tied(&[v], ok);
            },
            "pad" => self.c.pad_gates(1 + r.size(9) as usize),
            "bad" => self.misuse(o, &mut r),
            "point" => {
                let s = r.next();
                let p = match r.below(5) {
                    0 => Affine::<F::Ed>::zero(),
                    _ => (Affine::<F::Ed>::generator() * <F::Ed as ark_ec::CurveConfig>::ScalarField::from(s)).into_affine(),
                };
                self.point(p, r.next())?;
            },
            "ecc_add" => {
                let (p, s) = (self.pt(o.arg(2))?, self.pt(o.arg(3))?);
                let v = self.c.ecc_add::<F::Ed>(&p.3, &s.3)?;
                let want = (p.2 + s.2).into_affine();
                self.gotp(k, v, want);
                self.out(&[v.get_x(), v.get_y()], &[p.0, p.1, s.0, s.1], true);
            },
            "on_curve" => {
                let p = self.pt(o.arg(2))?;
                if o.arg(1) != 0 {
                    let (px, py) = (p.2.x, p.2.y + d);
                    let t = TEPoint::from(Affine::<F::Ed>::new_unchecked(px, py));
                    let v = self.c.create_point_variable(t)?;
                    self.got(k, v.get_x(), px);
                    self.got(k, v.get_y(), py);
                    self.c.enforce_on_curve::<F::Ed>(&v)?;
                    self.on_curve(v.get_x(), v.get_y());
                } else {
                    self.c.enforce_on_curve::<F::Ed>(&p.3)?;
                    self.on_curve(p.0, p.1);
                }
            },
            "pt_inv" => {
                let p = self.pt(o.arg(2))?;
                let v = self.c.inverse_point(&p.3)?;
                let (px, vx) = (p.0, v.get_x());
                self.gotp(k, v, -p.2);
                self.exact(&[px, vx], |t| (t[0] + t[1]).is_zero());
            },
            "pt_eq" => {
                let (p, s) = (self.pt(o.arg(2))?, self.pt(o.arg(3))?);
                if p.2 == s.2 || o.arg(1) != 0 {
                    self.c.enforce_point_equal(&p.3, &s.3)?;
                    self.exact(&[p.0, s.0], |t| t[0] == t[1]);
                    self.exact(&[p.1, s.1], |t| t[0] == t[1]);
                }
                let v = self.c.is_point_equal(&p.3, &s.3)?;
                self.gotb(k, v, p.2 == s.2);
                self.out(&[v.into()], &[p.0, p.1, s.0, s.1], true);
            },
            "pt_sel" => {
                let (p, s) = (self.pt(o.arg(2))?, self.pt(o.arg(3))?);
                let sel = self.b(o.arg(4));
                let v = self.c.binary_point_vars_select(sel, &p.3, &s.3)?;
                let one = self.val(sel.into()).is_one();
                self.gotp(k, v, if one { s.2 } else { p.2 });
                self.out(&[v.get_x(), v.get_y()], &[p.0, p.1, s.0, s.1, sel.into()], true);
            },
            "pt_neutral" => {
                let p = self.pt(o.arg(2))?;
                let v = self.c.is_neutral_point::<F::Ed>(&p.3)?;
                self.gotb(k, v, p.2.is_zero());
                self.out(&[v.into()], &[p.0, p.1], true);
            },
            "bin_mul" => {
                let p = self.pt(o.arg(2))?;
                let n = 1 + r.size(16) as usize;
                let l: Vec<BoolVar> = (0..n).map(|_| self.b(r.next())).collect();
                let mut s = 0u64;
                for (i, b) in l.iter().enumerate() {
                    s |= (self.val((*b).into()).is_one() as u64) << i;
                }
                let v = self.c.variable_base_binary_scalar_mul::<F::Ed>(&l, &p.3)?;
                let want = (p.2 * <F::Ed as ark_ec::CurveConfig>::ScalarField::from(s)).into_affine();
                let mut ins: Vec<Variable> = l.iter().map(|&b| b.into()).collect();
                ins.extend([p.0, p.1]);
                self.gotp(k, v, want);
                self.out(&[v.get_x(), v.get_y()], &ins, true);
            },
            "rc" => {
                let Some(bits) = self.ultra else { return Ok(()) };
                let mut x = F::from(r.below(1 << bits));
                if o.arg(1) == 1 {
                    x = F::from(1u64 << bits);
                } else if o.arg(1) != 0 {
                    x = -F::one();
                }
                let v = self.fresh(x)?;
                self.c.add_range_check_variable(v)?;
                self.lookup(&[v], move |t| big(t[0]) < BigUint::from(1u64 << bits));
            },
            "rc_many" => {
                let Some(bits) = self.ultra else { return Ok(()) };
                let n = r.size(40);
                for _ in 0..n {
                    let v = self.fresh(F::from(r.below(1 << bits)))?;
                    self.c.add_range_check_variable(v)?;
                    self.lookup(&[v], move |t| big(t[0]) < BigUint::from(1u64 << bits));
                }
            },
            // as many as make the slots run out, of one variable or several
            "rc_full" => {
                let Some(bits) = self.ultra else { return Ok(()) };
                let n = (1u64 << (bits + 1).max(2)) << r.below(2);
                let same = r.chance(1, 2);
                let mut v = self.fresh(F::from(r.below(1 << bits)))?;
                for i in 0..n - r.below(2) {
                    if i > 0 && !same {
                        v = self.fresh(F::from(r.below(1 << bits)))?;
                    }
                    self.c.add_range_check_variable(v)?;
                    self.lookup(&[v], move |t| big(t[0]) < BigUint::from(1u64 << bits));
                }
            },
            "table" | "table_full" => self.table(o, &mut r)?,
            "truncate" => {
                if self.ultra.is_none() {
                    return Ok(());
                }
                let bits = 1 + r.size(20) as usize;
                let v = self.c.truncate(a, bits)?;
                let want = big(x) % (BigUint::from(1u8) << bits);
                self.got(k, v, F::from(want));
                self.out(&[v], &[a], true);
            },
            "is_lt" | "is_leq" | "is_gt" | "is_geq" => {
                let (b, y) = if o.arg(5) % 3 == 0 { (self.fresh(x)?, x) } else { (b, y) };
                let (v, want) = match k {
                    "is_lt" => (self.c.is_lt(a, b)?, big(x) < big(y)),
                    "is_leq" => (self.c.is_leq(a, b)?, big(x) <= big(y)),
                    "is_gt" => (self.c.is_gt(a, b)?, big(x) > big(y)),
                    _ => (self.c.is_geq(a, b)?, big(x) >= big(y)),
                };
                self.gotb(k, v, want);
                self.out(&[v.into()], &[a, b], true);
            },
            "lt_c" | "leq_c" | "gt_c" | "geq_c" => {
                let y = match r.below(4) {
                    0 => x,
                    1 => x + F::one(),
                    2 => x - F::one(),
                    _ => q[0],
                };
                let (v, want) = match k {
                    "lt_c" => (self.c.is_lt_constant(a, y)?, big(x) < big(y)),
                    "leq_c" => (self.c.is_leq_constant(a, y)?, big(x) <= big(y)),
                    "gt_c" => (self.c.is_gt_constant(a, y)?, big(x) > big(y)),
                    _ => (self.c.is_geq_constant(a, y)?, big(x) >= big(y)),
                };
                self.gotb(k, v, want);
                self.out(&[v.into()], &[a], true);
            },
            "g_lt" | "g_leq" | "g_gt" | "g_geq" => {
                // order the operands so that the fact is true unless a lie is asked for
                let y = match r.below(3) {
                    0 => x + F::one(),
                    1 => x - F::one(),
                    _ => elem(&mut r),
                };
                let b = self.fresh(y)?;
                let holds = |p: F, q: F| match k {
                    "g_lt" => big(p) < big(q),
                    "g_leq" => big(p) <= big(q),
                    "g_gt" => big(p) > big(q),
                    _ => big(p) >= big(q),
                };
                let (p, q) = if holds(x, y) == (o.arg(1) == 0) { (a, b) } else { (b, a) };
                let ok = holds(self.val(p), self.val(q));
                if !ok && o.arg(1) == 0 {
                    return Ok(());
                }
                match k {
                    "g_lt" => self.c.enforce_lt(p, q)?,
                    "g_leq" => self.c.enforce_leq(p, q)?,
                    "g_gt" => self.c.enforce_gt(p, q)?,
                    _ => self.c.enforce_geq(p, q)?,
                }
                self.out(&[], &[p, q], ok);
            },
            "in_range" => {
                let full = F::MODULUS_BIT_SIZE as usize;
                let bits = match r.below(4) {
                    0 => full - 1 - r.size(3) as usize,
                    _ => 1 + r.size(40) as usize,
                };
                let (src, x) = if r.chance(1, 2) {
                    let x: F = small(&mut r, bits);
                    (self.fresh(x)?, x)
                } else {
                    (a, x)
                };
                let v = self.c.is_in_range(src, bits)?;
                self.gotb(k, v, big(x).bits() as usize <= bits);
                self.out(&[v.into()], &[src], true);
            },
            _ => {},
        }
        Ok(())
    }

    fn on_curve(&mut self, x: Variable, y: Variable) {
        let (ca, cd) = (F::Ed::COEFF_A, F::Ed::COEFF_D);
        self.exact(&[x, y], move |t| {
            let (x2, y2) = (t[0] * t[0], t[1] * t[1]);
            ca * x2 + y2 == F::one() + cd * x2 * y2
        });
    }

    fn table(&mut self, o: &Op, r: &mut Prng) -> Result<(), CircuitError> {
        if self.ultra.is_none() {
            return Ok(());
        }
        let n = 1 + r.size(9) as usize;
        let m = r.size(9) as usize;
        let mut t = vec![];
        for _ in 0..n {
            let (a, b) = if r.chance(1, 2) {
                (self.v(r.next()), self.v(r.next()))
            } else {
                let (x, y) = (elem(r), elem(r));
                (self.fresh(x)?, self.fresh(y)?)
            };
            t.push((a, b));
        }
        let mut l = vec![];
        for i in 0..m {
            let j = r.below(n as u64) as usize;
            let mut key = F::from(j as u64);
            let (mut x, mut y) = (self.val(t[j].0), self.val(t[j].1));
            if o.arg(1) != 0 && i == m - 1 {
                match o.arg(1) {
                    1 => x += F::one(),
                    2 => y -= F::one(),
                    3 => key = F::from(n as u64),
                    _ => key += F::one(),
                }
            }
            l.push((self.fresh(key)?, self.fresh(x)?, self.fresh(y)?));
        }
        if o.k == "table_full" {
            // the last of the table's rows is the circuit's last
            let d = n.max(m);
            let full = (self.c.num_gates() + d).max(2 << self.ultra.unwrap_or(1)).next_power_of_two();
            self.c.pad_gates(full - d - self.c.num_gates());
        }
        self.c.create_table_and_lookup_variables(&l, &t)?;
        // each looked-up triple must be one of the rows
        for &(k, x, y) in &l {
            let mut vars = vec![k, x, y];
            for &(a, b) in &t {
                vars.push(a);
                vars.push(b);
            }
            self.lookup(&vars, move |v| {
                (0..n).any(|j| v[0] == F::from(j as u64) && v[1] == v[3 + 2 * j] && v[2] == v[4 + 2 * j])
            });
        }
        Ok(())
    }

    fn refuse(&mut self, k: &str, f: impl FnOnce(&mut PlonkCircuit<F>) -> bool) {
        self.refused += 1;
        if f(&mut self.c) {
            self.bad(&format!("misuse accepted:{k}"), format!("{k}: an impossible request was accepted"));
        }
    }

    /// Requests that must be refused and leave the circuit as it was.
    fn misuse(&mut self, o: &Op, r: &mut Prng) {
        let a = self.v(o.arg(2));
        let x = self.c.num_vars() + r.size(5) as usize;
        let ultra = self.ultra.is_some();
        let which = if r.chance(1, 100) { 14 } else { r.below(14) as usize };
        const NAMES: [&str; 15] = [
            "add", "mul_gate", "enforce_constant", "enforce_bool", "sum", "sum of nothing", "range", "is_zero", "public",
            "range check", "table", "witness", "and of nothing", "range of no bits",
            "in range of more bits than the field",
        ];
        let wide = F::MODULUS_BIT_SIZE as usize + r.size(4) as usize;
        self.refuse(NAMES[which], |c| match which {
            0 => c.add(a, x).is_ok(),
            1 => c.mul_gate(x, a, a).is_ok(),
            2 => c.enforce_constant(x, F::one()).is_ok(),
            3 => c.enforce_bool(x).is_ok(),
            4 => c.sum(&[a, x]).is_ok(),
            5 => c.sum(&[]).is_ok(),
            6 => c.enforce_in_range(x, 4).is_ok(),
            7 => c.is_zero(x).is_ok(),
            8 => c.set_variable_public(x).is_ok(),
            9 if !ultra => c.add_range_check_variable(a).is_ok(),
            9 => c.add_range_check_variable(x).is_ok(),
            10 if !ultra => c.create_table_and_lookup_variables(&[(a, a, a)], &[(a, a)]).is_ok(),
            10 => c.create_table_and_lookup_variables(&[(a, x, a)], &[(a, a)]).is_ok(),
            11 => c.witness(x).is_ok(),
            12 => c.logic_and_all(&[]).is_ok(),
            13 => c.enforce_in_range(a, 0).is_ok(),
            // every element is; saying so is as good as refusing
            _ => c.is_in_range(a, wide).is_ok_and(|v| c.witness(v.into()).ok() != Some(F::one())),
        });
    }

    pub fn pub_values(&self) -> Vec<F> {
        self.pubs.iter().map(|v| self.val(*v)).collect()
    }
    /// Whether every constraint holds for the model's values with `set` changed;
    /// None when the model cannot tell.
    pub fn truth(&self, set: &BTreeMap<Variable, F>) -> Option<bool> {
        self.truth_of(set, None)
    }
    /// Of the lookups only, of everything else only, or of both.
    pub fn truth_of(&self, set: &BTreeMap<Variable, F>, lookups: Option<bool>) -> Option<bool> {
        let changed: BTreeSet<Variable> =
            set.iter().filter(|(k, v)| self.m.get(k) != Some(v)).map(|(k, _)| *k).collect();
        let at = |v: &Variable| set.get(v).copied().unwrap_or_else(|| self.m[v]);
        let mut all = Some(true);
        for c in self.cons.iter().filter(|c| lookups.map_or(true, |l| l == c.lookup)) {
            let t = match &c.kind {
                Kind::Exact(f) => Some(f(&c.vars.iter().map(at).collect::<Vec<_>>())),
                Kind::Tied(ok) => {
                    let n: BTreeSet<_> = c.vars.iter().filter(|v| changed.contains(v)).collect();
                    match n.len() {
                        0 => Some(*ok),
                        1 if *ok => Some(false),
                        _ => None,
                    }
                },
                Kind::Out(ok, k) => {
                    let n: BTreeSet<_> = c.vars.iter().filter(|v| changed.contains(v)).collect();
                    let ins = c.vars[*k..].iter().any(|v| changed.contains(v));
                    match (n.len(), ins) {
                        (0, _) => Some(*ok),
                        (1, false) if *ok => Some(false),
                        _ => None,
                    }
                },
            };
            match t {
                Some(false) => return Some(false),
                None => all = None,
                _ => {},
            }
        }
        all
    }
}

/// A change of some variables: the new values by variable.
pub fn alteration<F: Fld>(b: &Built<F>, o: &Op) -> BTreeMap<Variable, F> {
    let mut r = Prng::new(o.arg(0));
    let mut s = BTreeMap::new();
    let n = 1 + r.below(3);
    let pick = |r: &mut Prng| b.vars[r.below(b.vars.len() as u64) as usize];
    match o.arg(1) % 4 {
        0 => {
            let v = pick(&mut r);
            s.insert(v, b.m[&v] + elem::<F>(&mut r));
        },
        1 => {
            let (v, w) = (pick(&mut r), pick(&mut r));
            s.insert(v, b.m[&w]);
            s.insert(w, b.m[&v]);
        },
        2 => {
            for _ in 0..n {
                let v = pick(&mut r);
                s.insert(v, b.m[&v] + F::one());
            }
        },
        _ => {
            let v = pick(&mut r);
            let x = b.m[&v];
            let y = match r.below(4) {
                0 => -x,
                1 => F::zero(),
                2 => F::one(),
                _ => x + F::from(2u64).pow([r.below(30)]),
            };
            s.insert(v, y);
        },
    }
    s
}
