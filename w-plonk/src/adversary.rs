//! Z02: statements, keys and proofs pass through an adversary's hands.
use crate::{circ::*, on_sys, relation::range_bits, rng::SimRng, sys::*};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{One, PrimeField, Zero};
use ark_poly::{univariate::DensePolynomial, DenseUVPolynomial, EvaluationDomain, Radix2EvaluationDomain};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};
use jf_pcs::prelude::Commitment;
use jf_relation::{Arithmetization, Circuit, CircuitError, PlonkCircuit, Variable};
use sim::{disk::damage, *};

pub struct Z02;

pub const KINDS: u64 = 15;

impl World for Z02 {
    fn property(&self) -> &'static str {
        "Z02"
    }
    fn budget(&self, tier: Tier) -> (u64, u64) {
        match tier {
            Tier::Quick => (10_000, 40),
            Tier::Thorough => (2_000_000, 500),
        }
    }
    fn step_cap(&self) -> u64 {
        40_000_000_000
    }
    fn huge_alloc_is_upstream(&self) -> bool {
        true
    }
    fn prepare(&self) {
        prepare()
    }
    /// cfg: [system, range bits or 0, extra message, rng seed]; ops: the
    /// program, "twist" [seed] making the second circuit, "attack" [kind, seed,
    /// second kind, seed], "lie" [seed, kind of
    /// falsification, parts taken from the false witness, cunning]
    fn gen(&self, r: &mut Prng, _: Tier) -> Plan {
        let ultra = draw_ultra(r);
        let lies = if r.chance(1, 8) { 400 } else { 0 };
        let mut ops = program(r, ultra, lies, 8);
        let alone = ultra > 0 && ultra < 4 && r.chance(1, 8);
        if alone {
            ops = vec![Op::new("rc_full", &[r.next(), 0])];
        }
        if !alone && r.chance(1, 2) {
            for _ in 0..r.range(1, 4) {
                let at = r.below(ops.len() as u64 + 1) as usize;
                ops.insert(at, Op::new("pub", &[r.next(), 0, r.next(), r.next(), r.next(), r.next()]));
            }
        }
        let sys = r.below(8);
        ops.push(Op::new("twist", &[r.next() >> 1]));
        for _ in 0..if sys >= 6 { r.range(2, 8) } else { r.range(6, 30) } {
            let second = if r.chance(1, 6) { r.below(KINDS) } else { KINDS };
            ops.push(Op::new("attack", &[r.below(KINDS), r.next() >> 1, second, r.next() >> 1]));
        }
        for _ in 0..r.below(if alone { 16 } else { 6 }) {
            let parts = if r.chance(1, 3) { 31 } else { r.below(32) };
            ops.push(Op::new("lie", &[r.next() >> 1, r.below(7), parts, if r.chance(1, 2) { r.range(1, CUNNING) } else { 0 }]));
        }
        Plan { cfg: vec![sys, ultra, r.next() >> 1, r.next() >> 1], ops, sched: Schedule::quiet() }
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) {
        on_sys!(plan.c(0), z02(plan, ctx))
    }
    fn rule(&self) -> &'static str {
        "an honest prover proves two related statements; an adversary between prover and verifier changes public \
         inputs, keys, context, and every part of the proof by substitution, transplant, removal, duplication and \
         byte damage; nothing but what an honest prover made may be accepted, and provers with a falsified witness \
         must get nowhere"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
}

/// What a verifier is shown.
pub struct Shown<S: Sys> {
    pub vk: Vk<S>,
    pub pubs: Vec<S::F>,
    pub p: Pf<S>,
    pub x: Extra,
}
impl<S: Sys> Clone for Shown<S> {
    fn clone(&self) -> Self {
        Self { vk: self.vk.clone(), pubs: self.pubs.clone(), p: self.p.clone(), x: self.x.clone() }
    }
}
impl<S: Sys> Shown<S> {
    pub fn is(&self, o: &Self) -> bool {
        self.pubs == o.pubs && same_extra(&self.x, &o.x) && by(&self.p) == by(&o.p) && by(&self.vk) == by(&o.vk)
    }
}

/// A related program: one step changed, dropped, doubled or moved.
pub fn twisted(prog: &[Op], seed: u64) -> Vec<Op> {
    let mut r = Prng::new(seed);
    let mut v = prog.to_vec();
    if v.is_empty() {
        v.push(Op::new("mul", &[r.next(), 0, r.next(), r.next(), r.next(), r.next()]));
        return v;
    }
    let i = r.below(v.len() as u64) as usize;
    match r.below(5) {
        0 => {
            v.remove(i);
        },
        1 => {
            let o = v[i].clone();
            v.insert(i, o);
        },
        2 => {
            let j = r.below(v.len() as u64) as usize;
            v.swap(i, j);
        },
        3 => {
            let o = Op::new(*r.pick(LIGHT), &[r.next(), 0, r.next(), r.next(), r.next(), r.next()]);
            v.insert(i, o);
        },
        _ => {
            let k = v[i].k.clone();
            v[i] = Op::new(&k, &[r.next(), 0, r.next(), r.next(), r.next(), r.next()]);
        },
    }
    v
}

fn z02<S: Sys>(plan: &Plan, ctx: &mut Ctx) {
    alone();
    let prog: Vec<Op> = plan.ops.iter().filter(|o| !["twist", "attack", "lie"].contains(&o.k.as_str())).cloned().collect();
    let ultra = range_bits(plan.c(1));
    let Some(s) = statement::<S>(ctx, &prog, ultra, S::srs(0)) else { return };
    let mut rng = SimRng::new(plan.c(3));
    let x = extra(plan.c(2));
    if !s.holds {
        // the circuit states something false
        ctx.mark("false statements");
        unproved::<S, _>(ctx, (&s.pk, &s.vk, &s.pubs), &s.b.c, &mut rng, "false statement");
        return;
    }
    let mut made: Vec<Shown<S>> = vec![];
    let mut prove = |ctx: &mut Ctx, s: &Stmt<S>, x: &Extra, made: &mut Vec<Shown<S>>| -> Option<()> {
        let p = ctx.must("prove", || S::prove(&mut rng, &s.b.c, &s.pk, x.clone()))?;
        let Ok(p) = p else {
            ctx.discard("not proved, another property's concern");
        };
        let h = Shown { vk: s.vk.clone(), pubs: s.pubs.clone(), p, x: x.clone() };
        ctx.event("proof", &by(&h.p));
        let ok = ctx.must("verify", || S::verify(&h.vk, &h.pubs, &h.p, h.x.clone()))?;
        ctx.check(ok.is_ok(), "honest proof rejected", || format!("{}: {ok:?}", S::NAME)).then(|| made.push(h))
    };
    if prove(ctx, &s, &x, &mut made).is_none() {
        return;
    }
    // a second proof of the same, and one of a related statement
    let attacks: Vec<&Op> = plan.ops.iter().filter(|o| o.k == "attack").collect();
    let foreign = |k: u64| [2, 8, 9, 12, 13].contains(&k);
    if attacks.iter().any(|o| foreign(o.arg(0)) || foreign(o.arg(2))) {
        if prove(ctx, &s, &x, &mut made).is_none() {
            return;
        }
        let seed = plan.ops.iter().find(|o| o.k == "twist").map_or(1, |o| o.arg(0));
        let t = twisted(&prog, seed);
        if let Some(s2) = statement::<S>(ctx, &t, ultra, S::srs(seed >> 5 & (seed >> 6) & 1)) {
            let x2 = if seed & 16 == 0 { x.clone() } else { extra(seed >> 8) };
            if s2.holds && prove(ctx, &s2, &x2, &mut made).is_none() {
                return;
            }
        }
    }
    for o in attacks {
        let mut w = made[0].clone();
        let mut done = vec![];
        for (k, seed) in [(o.arg(0), o.arg(1)), (o.arg(2), o.arg(3))] {
            if k < KINDS {
                let Some(d) = attack::<S>(ctx, k, seed, &mut w, &made) else { return };
                done.push(d);
            }
        }
        if made.iter().any(|h| h.is(&w)) || done.iter().any(|d| d.is_empty()) {
            ctx.mark("attacks without effect");
            continue;
        }
        for d in &done {
            ctx.fault(d);
        }
        let Some(r) = ctx.must("verify", || S::verify(&w.vk, &w.pubs, &w.p, w.x.clone())) else { return };
        ctx.event("verdict", &[r.is_ok() as u8]);
        ctx.state(mix(&[hash_bytes(5, &by(&w.p)), hash_bytes(6, &by(&w.pubs)), hash_bytes(7, &by(&w.vk))]));
        if !ctx.check(r.is_err(), &format!("accepted:{}", done.join(" + ")), || {
            format!("{}: accepted after: {}", S::NAME, done.join(" + "))
        }) {
            return;
        }
    }
    let mut bad = Built::<S::F>::build(&prog, ultra);
    if bad.c.finalize_for_arithmetization().is_err() {
        return;
    }
    for o in plan.ops.iter().filter(|o| o.k == "lie") {
        if o.arg(1) == 6 {
            if !torn::<S>(ctx, o, ultra) {
                return;
            }
            continue;
        }
        let mut set = alteration(&s.b, o);
        let mut g = Rogue { good: &s.b.c, bad: &s.b.c, from_bad: o.arg(2), claim: None, poke: vec![], cunning: o.arg(3), k: &s.vk.k };
        let mut r = Prng::new(o.arg(0));
        let what = match o.arg(1) {
            4 => {
                set.clear();
                let d: S::F = elem(&mut r);
                // the first gate's first inputs are the constant zero, used by nothing but the copy constraints
                g.poke = vec![(r.below(4) as usize, 0, if d.is_zero() { S::F::one() } else { d })];
                "broken copy constraint"
            },
            5 => {
                set.clear();
                let mut p = s.pubs.clone();
                if p.is_empty() {
                    continue;
                }
                let i = if r.chance(1, 2) { p.len() - 1 } else { r.below(p.len() as u64) as usize };
                p[i] += S::F::one();
                g.claim = Some(p);
                "false claim about the public inputs"
            },
            _ => {
                if s.b.truth(&set) != Some(false) {
                    ctx.mark("alterations not known to be wrong");
                    continue;
                }
                "falsified witness"
            },
        };
        for (v, x) in &set {
            *bad.c.witness_mut(*v) = *x;
        }
        let g = Rogue { bad: &bad.c, ..g };
        ctx.fault(what);
        if o.arg(3) > 0 {
            ctx.fault(&format!("cunning prover {}", o.arg(3)));
        }
        let mut rng = SimRng::new(o.arg(0));
        if !unproved::<S, _>(ctx, (&s.pk, &s.vk, &s.pubs), &g, &mut rng, what) {
            return;
        }
        for v in set.keys() {
            *bad.c.witness_mut(*v) = s.b.m[v];
        }
    }
}

/// One unknown used by many gates, each with a public result; the prover uses
/// one value here and another there, where the permutation seems to let it.
fn torn<S: Sys>(ctx: &mut Ctx, o: &Op, ultra: Option<usize>) -> bool {
    let mut r = Prng::new(o.arg(0));
    let (n, a) = (r.range(2, 90) as usize, elem::<S::F>(&mut r));
    let uses: Vec<(usize, S::F)> = (0..n).map(|_| (r.below(4) as usize, S::F::from(r.range(1, 1 << 30)))).collect();
    let build = || -> Result<(PlonkCircuit<S::F>, Variable, Vec<Variable>), CircuitError> {
        let mut c = match ultra {
            Some(b) => PlonkCircuit::new_ultra_plonk(b),
            None => PlonkCircuit::new_turbo_plonk(),
        };
        let x = c.create_variable(a)?;
        let mut ys = vec![];
        for (at, k) in &uses {
            let (mut w, mut q) = ([c.zero(); 4], [S::F::zero(); 4]);
            (w[*at], q[*at]) = (x, *k);
            let y = c.lc(&w, &q)?;
            c.set_variable_public(y)?;
            ys.push(y);
        }
        c.finalize_for_arithmetization()?;
        Ok((c, x, ys))
    };
    let (Ok((good, x, ys)), Ok((mut bad, ..)), Ok((mut tell, ..))) = (build(), build(), build()) else {
        ctx.mark("not built, the circuit property's concern");
        return true;
    };
    if S::srs(0).powers_of_g.len() <= good.srs_size().unwrap() {
        ctx.mark("too large for the parameters");
        return true;
    }
    let Some(k) = ctx.must("preprocess", || S::preprocess(S::srs(0), &good)) else { return false };
    let Ok((pk, vk)) = k else { return true };
    // which wires are whose: every variable is given a value of its own
    for v in 0..tell.num_vars() {
        *tell.witness_mut(v) = S::F::from(v as u64);
    }
    let d = Radix2EvaluationDomain::<S::F>::new(good.eval_domain_size().unwrap()).unwrap();
    let (Ok(w), Ok(s)) = (tell.compute_wire_polynomials(), good.compute_extended_permutation_polynomials()) else { return true };
    let w: Vec<Vec<S::F>> = w.iter().map(|p| d.fft(&p.coeffs)).collect();
    let s: Vec<Vec<S::F>> = s.iter().map(|p| d.fft(&p.coeffs)).collect();
    let mut wires = vec![];
    for (i, col) in w.iter().enumerate() {
        for j in (0..d.size()).filter(|j| col[*j] == S::F::from(x as u64)) {
            let y = ys.iter().position(|y| w.iter().any(|c| c[j] == S::F::from(*y as u64)));
            wires.push((i, j, y));
        }
    }
    // whither the permutation leads from each
    let id = |i: usize, j: usize| vk.k[i] * d.element(j);
    let next: Vec<Option<usize>> =
        wires.iter().map(|(i, j, _)| wires.iter().position(|(a, b, _)| id(*a, *b) == s[*i][*j])).collect();
    let mut round: Vec<usize> = (0..wires.len()).collect();
    for _ in 0..wires.len() {
        for t in 0..wires.len() {
            if let Some(u) = next[t] {
                let m = round[t].min(round[u]);
                (round[t], round[u]) = (m, m);
            }
        }
    }
    let apart = round.iter().any(|m| *m != round[0]);
    let mut moved: Vec<bool> = (0..wires.len()).map(|_| r.chance(1, 3)).collect();
    if apart {
        ctx.mark("wires of one variable in several cycles");
        let last = *round.last().unwrap();
        moved = round.iter().map(|m| *m == last).collect();
    }
    if wires.len() != n || wires.iter().any(|w| w.2.is_none()) || !moved.contains(&true) || !moved.contains(&false) {
        ctx.mark("no wires to tear apart");
        return true;
    }
    let mut poke = vec![];
    for ((i, j, y), _) in wires.iter().zip(&moved).filter(|(_, m)| **m) {
        let y = y.unwrap();
        poke.push((*i, *j, S::F::one()));
        *bad.witness_mut(ys[y]) = uses[y].1 * (a + S::F::one());
    }
    ctx.fault("one unknown with two values");
    let pubs = good.public_input().unwrap();
    let g = Rogue { good: &good, bad: &bad, from_bad: 31, claim: None, poke, cunning: 2, k: &vk.k };
    unproved::<S, _>(ctx, (&pk, &vk, &pubs), &g, &mut SimRng::new(o.arg(0)), "one unknown with two values")
}

/// Proving must fail or give something that is rejected.
fn unproved<S: Sys, C: Arithmetization<S::F>>(
    ctx: &mut Ctx,
    (pk, vk, pubs): (&Pk<S>, &Vk<S>, &[S::F]),
    c: &C,
    rng: &mut SimRng,
    what: &str,
) -> bool {
    let Some(p) = ctx.must("prove", || S::prove_any(rng, c, pk, None)) else { return false };
    let Ok(p) = p else {
        ctx.mark("prover refuses");
        return true;
    };
    ctx.mark("worthless proofs");
    for q in [c.public_input().unwrap(), pubs.to_vec()] {
        let Some(r) = ctx.must("verify", || S::verify(vk, &q, &p, None)) else { return false };
        if !ctx.check(r.is_err(), &format!("accepted:{what}"), || format!("{}: accepted with {what}", S::NAME)) {
            return false;
        }
    }
    true
}

/// A prover's view of a circuit whose wires are wrong, the other parts taken
/// from the right or the wrong witness.
struct Rogue<'a, F: PrimeField> {
    good: &'a PlonkCircuit<F>,
    bad: &'a PlonkCircuit<F>,
    from_bad: u64,
    claim: Option<Vec<F>>,
    /// Columns and rows that are changed, and by how much.
    poke: Vec<(usize, usize, F)>,
    /// What the prover makes of its own: 1 no permutation product, 2 the
    /// product its wires give; 3, 4 no lookup product, 5 the product its wires
    /// give, 6 the sorted vector in two pieces; 7 no product at all; 8 like 5,
    /// right at its end instead of its beginning.
    cunning: u64,
    k: &'a [F],
}
const CUNNING: u64 = 8;
impl<F: PrimeField> Rogue<'_, F> {
    fn of(&self, part: u64) -> &PlonkCircuit<F> {
        if self.from_bad >> part & 1 == 1 {
            self.bad
        } else {
            self.good
        }
    }
    /// The wires' values, row by row.
    fn rows(&self) -> Result<(Radix2EvaluationDomain<F>, Vec<Vec<F>>), CircuitError> {
        let d = Radix2EvaluationDomain::new(self.good.eval_domain_size()?).ok_or(CircuitError::DomainCreationError)?;
        let w = self.compute_wire_polynomials()?;
        Ok((d, w.iter().map(|p| d.fft(&p.coeffs)).collect()))
    }
    fn lookups(&self, tau: F) -> Result<(Radix2EvaluationDomain<F>, Vec<F>), CircuitError> {
        let (d, w) = self.rows()?;
        let q = self.good.compute_selector_polynomials()?;
        let q = d.fft(&q.last().ok_or(CircuitError::IndexError)?.coeffs);
        let s = d.fft(&self.good.compute_q_dom_sep_polynomial()?.coeffs);
        let f = (0..q.len()).map(|j| w[5][j] + q[j] * tau * (s[j] + tau * (w[0][j] + tau * (w[1][j] + tau * w[2][j]))));
        Ok((d, f.collect()))
    }
}
macro_rules! no_building {
    ($($f:ident ( $($a:ident : $t:ty),* ) $(-> $o:ty)?;)*) => {
        $(fn $f(&mut self $(, $a: $t)*) $(-> Result<$o, CircuitError>)? { $(let _ = $a;)* panic!("a prover does not build") })*
    };
}
impl<F: PrimeField> Circuit<F> for Rogue<'_, F> {
    fn num_gates(&self) -> usize {
        self.good.num_gates()
    }
    fn num_vars(&self) -> usize {
        self.good.num_vars()
    }
    fn num_inputs(&self) -> usize {
        self.good.num_inputs()
    }
    fn num_wire_types(&self) -> usize {
        self.good.num_wire_types()
    }
    fn public_input(&self) -> Result<Vec<F>, CircuitError> {
        match &self.claim {
            Some(c) => Ok(c.clone()),
            None => self.of(0).public_input(),
        }
    }
    fn check_circuit_satisfiability(&self, p: &[F]) -> Result<(), CircuitError> {
        self.good.check_circuit_satisfiability(p)
    }
    fn zero(&self) -> Variable {
        self.good.zero()
    }
    fn one(&self) -> Variable {
        self.good.one()
    }
    fn witness(&self, v: Variable) -> Result<F, CircuitError> {
        self.bad.witness(v)
    }
    fn support_lookup(&self) -> bool {
        self.good.support_lookup()
    }
    no_building! {
        create_constant_variable(a: F) -> Variable;
        create_variable(a: F) -> Variable;
        create_public_variable(a: F) -> Variable;
        set_variable_public(a: Variable) -> ();
        enforce_constant(a: Variable, b: F) -> ();
        add_gate(a: Variable, b: Variable, c: Variable) -> ();
        add(a: Variable, b: Variable) -> Variable;
        sub_gate(a: Variable, b: Variable, c: Variable) -> ();
        sub(a: Variable, b: Variable) -> Variable;
        mul_gate(a: Variable, b: Variable, c: Variable) -> ();
        mul(a: Variable, b: Variable) -> Variable;
        enforce_bool(a: Variable) -> ();
        enforce_equal(a: Variable, b: Variable) -> ();
        pad_gates(n: usize);
    }
}
type Sorted<F> = (Vec<F>, DensePolynomial<F>, DensePolynomial<F>);
impl<F: PrimeField> Arithmetization<F> for Rogue<'_, F> {
    fn srs_size(&self) -> Result<usize, CircuitError> {
        self.good.srs_size()
    }
    fn eval_domain_size(&self) -> Result<usize, CircuitError> {
        self.good.eval_domain_size()
    }
    fn compute_selector_polynomials(&self) -> Result<Vec<DensePolynomial<F>>, CircuitError> {
        self.good.compute_selector_polynomials()
    }
    fn compute_extended_permutation_polynomials(&self) -> Result<Vec<DensePolynomial<F>>, CircuitError> {
        self.good.compute_extended_permutation_polynomials()
    }
    fn compute_prod_permutation_polynomial(&self, b: &F, g: &F) -> Result<DensePolynomial<F>, CircuitError> {
        match self.cunning {
            1 | 7 => Ok(DensePolynomial::zero()),
            2 => {
                let (d, w) = self.rows()?;
                let s = self.good.compute_extended_permutation_polynomials()?;
                let s: Vec<Vec<F>> = s.iter().map(|p| d.fft(&p.coeffs)).collect();
                let mut z = vec![F::one()];
                for j in 0..d.size() - 1 {
                    let (mut x, mut y) = (z[j], F::one());
                    for i in 0..w.len() {
                        x *= w[i][j] + *g + *b * self.k[i] * d.element(j);
                        y *= w[i][j] + *g + *b * s[i][j];
                    }
                    z.push(x / y);
                }
                Ok(DensePolynomial::from_coefficients_vec(d.ifft(&z)))
            },
            _ => self.of(1).compute_prod_permutation_polynomial(b, g),
        }
    }
    fn compute_wire_polynomials(&self) -> Result<Vec<DensePolynomial<F>>, CircuitError> {
        let mut w = self.bad.compute_wire_polynomials()?;
        let n = self.good.eval_domain_size()?;
        let d = Radix2EvaluationDomain::<F>::new(n).ok_or(CircuitError::DomainCreationError)?;
        for (i, p) in w.iter_mut().enumerate().filter(|(i, _)| self.poke.iter().any(|x| x.0 == *i)) {
            let mut by = vec![F::zero(); n];
            self.poke.iter().filter(|x| x.0 == i).for_each(|x| by[x.1] += x.2);
            *p = &*p + &DensePolynomial::from_coefficients_vec(d.ifft(&by));
        }
        Ok(w)
    }
    fn compute_pub_input_polynomial(&self) -> Result<DensePolynomial<F>, CircuitError> {
        self.of(2).compute_pub_input_polynomial()
    }
    fn compute_range_table_polynomial(&self) -> Result<DensePolynomial<F>, CircuitError> {
        self.good.compute_range_table_polynomial()
    }
    fn compute_key_table_polynomial(&self) -> Result<DensePolynomial<F>, CircuitError> {
        self.good.compute_key_table_polynomial()
    }
    fn compute_table_dom_sep_polynomial(&self) -> Result<DensePolynomial<F>, CircuitError> {
        self.good.compute_table_dom_sep_polynomial()
    }
    fn compute_q_dom_sep_polynomial(&self) -> Result<DensePolynomial<F>, CircuitError> {
        self.good.compute_q_dom_sep_polynomial()
    }
    fn compute_merged_lookup_table(&self, tau: F) -> Result<Vec<F>, CircuitError> {
        self.of(3).compute_merged_lookup_table(tau)
    }
    fn compute_lookup_sorted_vec_polynomials(&self, tau: F, t: &[F]) -> Result<Sorted<F>, CircuitError> {
        if self.cunning < 4 {
            return self.of(3).compute_lookup_sorted_vec_polynomials(tau, t);
        }
        let (d, f) = self.lookups(tau)?;
        let n = d.size();
        let mut s = t.to_vec();
        s.extend(&f[..n - 1]);
        let h = if self.cunning == 6 { vec![f[0]; n] } else { s[n - 1..].to_vec() };
        let h1 = DensePolynomial::from_coefficients_vec(d.ifft(t));
        let h2 = DensePolynomial::from_coefficients_vec(d.ifft(&h));
        Ok((s, h1, h2))
    }
    fn compute_lookup_prod_polynomial(
        &self,
        tau: &F,
        b: &F,
        g: &F,
        t: &[F],
        s: &[F],
    ) -> Result<DensePolynomial<F>, CircuitError> {
        match self.cunning {
            3 | 4 | 7 => Ok(DensePolynomial::zero()),
            5 | 6 | 8 => {
                let (d, f) = self.lookups(*tau)?;
                let n = d.size();
                let h2 = |j: usize| if self.cunning == 6 { f[0] } else { s[n - 1 + j] };
                let one = F::one() + *b;
                let mut p = vec![F::one()];
                for j in 0..n - 1 {
                    let x = one * (*g + f[j]) * (*g * one + t[j] + *b * t[j + 1]);
                    let y = (*g * one + s[j] + *b * s[j + 1]) * (*g * one + h2(j) + *b * h2(j + 1));
                    p.push(p[j] * x / y);
                }
                if self.cunning == 8 {
                    let last = p[n - 1].inverse().unwrap_or(F::one());
                    p.iter_mut().for_each(|x| *x *= last);
                }
                Ok(DensePolynomial::from_coefficients_vec(d.ifft(&p)))
            },
            _ => self.of(4).compute_lookup_prod_polynomial(tau, b, g, t, s),
        }
    }
}

pub fn point<G: AffineRepr>(r: &mut Prng, x: G, others: &[G]) -> (G, &'static str) {
    let g = G::generator();
    match r.below(6) {
        0 => (G::zero(), "replaced by infinity"),
        1 => (g, "replaced by the generator"),
        2 => ((-x.into_group()).into_affine(), "negated"),
        3 => ((x.into_group() + g).into_affine(), "shifted"),
        4 => ((x.into_group() * G::ScalarField::from(2 + r.below(9))).into_affine(), "multiplied"),
        _ => (*r.pick(others), "replaced by another of its points"),
    }
}

fn decode<S: Sys>(b: &[u8]) -> Option<Pf<S>> {
    Pf::<S>::deserialize_uncompressed_unchecked(b).ok()
}

/// Changes `w`; the name of the change, empty if it does not apply. None after a violation.
pub fn attack<S: Sys>(ctx: &mut Ctx, kind: u64, seed: u64, w: &mut Shown<S>, made: &[Shown<S>]) -> Option<String> {
    let mut r = Prng::new(seed);
    let other = if made.len() > 1 { &made[1 + r.below(made.len() as u64 - 1) as usize] } else { &made[0] };
    let nothing = Some(String::new());
    let name: String;
    match kind {
        0 => {
            if w.pubs.is_empty() {
                return nothing;
            }
            let i = r.below(w.pubs.len() as u64) as usize;
            let d: S::F = elem(&mut r);
            w.pubs[i] += if d.is_zero() { S::F::one() } else { d };
            name = "public input changed".into();
        },
        1 => {
            let n = w.pubs.len();
            name = match r.below(5) {
                0 => {
                    w.pubs.push(S::F::zero());
                    "public input added"
                },
                1 => {
                    w.pubs.pop();
                    "public input dropped"
                },
                2 => {
                    w.pubs.reverse();
                    "public inputs permuted"
                },
                3 => {
                    w.pubs.rotate_left(n.min(1));
                    "public inputs permuted"
                },
                _ => {
                    w.pubs.iter_mut().for_each(|x| *x = S::F::zero());
                    "public inputs zeroed"
                },
            }
            .into();
        },
        2 => {
            w.vk = other.vk.clone();
            name = "another key".into();
        },
        3 | 14 => name = key_change::<S>(&mut r, &mut w.vk),
        4 => {
            let mut b = w.x.clone().unwrap_or_default();
            match r.below(5) {
                0 => b.push(0),
                1 => b.insert(0, 0),
                2 => {
                    b.pop();
                },
                3 => b.clear(),
                _ => {
                    if b.is_empty() {
                        b.push(7);
                    }
                    let i = r.below(b.len() as u64) as usize;
                    b[i] ^= 1 << r.below(8);
                },
            }
            w.x = if b.is_empty() { None } else { Some(b) };
            name = "context changed".into();
        },
        5..=9 => {
            let Some(mut q) = mirror::<_, Single<G1<S>>>(&w.p) else {
                ctx.mark("encoding not understood");
                return nothing;
            };
            let Some(mut t) = mirror::<_, Single<G1<S>>>(&other.p) else { return nothing };
            match kind {
                5 => {
                    let all: Vec<G1<S>> = q.points().iter().map(|x| *x.1).collect();
                    let mut ps = q.points();
                    let i = r.below(ps.len() as u64) as usize;
                    let (what, p) = &mut ps[i];
                    let (y, how) = point(&mut r, **p, &all);
                    **p = y;
                    name = format!("{what} {how}");
                },
                6 => {
                    let mut xs = q.scalars();
                    let n = xs.len() as u64;
                    let (i, j) = (r.below(n) as usize, r.below(n) as usize);
                    let y = *xs[j].1;
                    let (what, x) = &mut xs[i];
                    match r.below(4) {
                        0 => **x = S::F::zero(),
                        1 => **x = y,
                        2 => **x = elem(&mut r),
                        _ => **x += S::F::one(),
                    }
                    name = format!("{what} changed");
                },
                7 => {
                    fn list<T: Clone>(r: &mut Prng, v: &mut Vec<T>) -> &'static str {
                        let n = v.len() as u64;
                        if n == 0 {
                            return "kept";
                        }
                        let i = r.below(n) as usize;
                        match r.below(4) {
                            0 => {
                                v.remove(i);
                                "shortened"
                            },
                            1 => {
                                let x = v[i].clone();
                                v.insert(r.below(n + 1) as usize, x);
                                "lengthened"
                            },
                            2 => {
                                v.rotate_left(1);
                                "rotated"
                            },
                            _ => {
                                v.clear();
                                "emptied"
                            },
                        }
                    }
                    name = match (r.below(5), &mut q.lookup) {
                        (0, _) => format!("wire commitments {}", list(&mut r, &mut q.wires)),
                        (1, _) => format!("quotient commitments {}", list(&mut r, &mut q.quot)),
                        (2, _) => format!("wire evaluations {}", list(&mut r, &mut q.evals.0)),
                        (4, Some(l)) => format!("sorted vector commitments {}", list(&mut r, &mut l.h)),
                        _ => format!("sigma evaluations {}", list(&mut r, &mut q.evals.1)),
                    };
                },
                8 => {
                    name = match (&q.lookup, r.below(2)) {
                        (Some(_), 0) => {
                            q.lookup = None;
                            "lookup part removed"
                        },
                        (Some(_), _) => {
                            q.lookup = t.lookup.take();
                            "lookup part of another proof"
                        },
                        _ => {
                            q.lookup = Some(Lookup {
                                h: vec![q.perm; r.below(3) as usize],
                                prod: q.perm,
                                evals: [S::F::one(); 15],
                            });
                            "lookup part added"
                        },
                    }
                    .into();
                },
                _ => {
                    // transplant: one value, or a whole group
                    match r.below(4) {
                        0 => {
                            let mut a = q.points();
                            let b = t.points();
                            let i = r.below(a.len().min(b.len()) as u64) as usize;
                            name = format!("{} of another proof", a[i].0);
                            *a[i].1 = *b[i].1;
                        },
                        1 => {
                            q.evals = t.evals;
                            name = "evaluations of another proof".into();
                        },
                        2 => {
                            q.open = t.open;
                            q.shifted = t.shifted;
                            name = "openings of another proof".into();
                        },
                        _ => {
                            q.wires = t.wires;
                            q.perm = t.perm;
                            name = "witness commitments of another proof".into();
                        },
                    }
                },
            }
            match decode::<S>(&by(&q)) {
                Some(p) => w.p = p,
                None => return Some(name + ", refused when read"),
            }
        },
        10 => {
            let c = if r.chance(1, 2) { Compress::Yes } else { Compress::No };
            let mut b = vec![];
            w.p.serialize_with_mode(&mut b, c).unwrap();
            let how = damage(&mut b, r.next(), r.next());
            let p = ctx.must("decode", || Pf::<S>::deserialize_with_mode(&b[..], c, Validate::Yes))?;
            match p {
                Ok(p) => w.p = p,
                Err(_) => {
                    ctx.mark("damage noticed when read");
                    return nothing;
                },
            }
            name = format!("bytes: {how}");
        },
        11 => {
            if w.p.plookup_proof.is_some() {
                return nothing;
            }
            let mut v = ctx.must("to fields", || S::to_fields(w.p.clone()))?;
            if v.is_empty() {
                return nothing;
            }
            let (i, j) = (r.below(v.len() as u64) as usize, r.below(v.len() as u64) as usize);
            match r.below(6) {
                0 => v[i] = Fq::<S>::zero(),
                1 => v[i] += Fq::<S>::one(),
                2 => v.swap(i, j),
                3 => v[i] = -v[i],
                4 => {
                    v.pop();
                },
                _ => v.push(Fq::<S>::one()),
            }
            let p = ctx.must("from fields", || S::from_fields(v))?;
            match p {
                Ok(p) => w.p = p,
                Err(_) => {
                    ctx.mark("wrong field elements refused");
                    return nothing;
                },
            }
            name = "field element form changed".into();
        },
        12 => {
            w.p = other.p.clone();
            if r.chance(1, 2) {
                w.pubs = other.pubs.clone();
            }
            name = "another statement's proof".into();
        },
        _ => {
            w.pubs = other.pubs.clone();
            name = "another statement's public inputs".into();
        },
    }
    Some(name)
}

fn key_change<S: Sys>(r: &mut Prng, vk: &mut Vk<S>) -> String {
    let coms = |v: &mut Vec<Com<S>>, r: &mut Prng| {
        let n = v.len() as u64;
        let (i, j) = (r.below(n) as usize, r.below(n) as usize);
        if r.chance(1, 2) {
            let all: Vec<G1<S>> = v.iter().map(|c| c.0).collect();
            v[i] = Commitment(point(r, v[i].0, &all).0);
        } else {
            v.swap(i, j);
        }
    };
    match r.below(8) {
        0 | 1 => {
            coms(&mut vk.selector_comms, r);
            "selector commitment of the key changed"
        },
        2 | 3 => {
            coms(&mut vk.sigma_comms, r);
            "permutation commitment of the key changed"
        },
        4 => {
            let n = vk.k.len() as u64;
            let (i, j) = (r.below(n) as usize, r.below(n) as usize);
            if r.chance(1, 2) {
                vk.k[i] += S::F::one();
            } else {
                vk.k.swap(i, j);
            }
            "wire separator of the key changed"
        },
        5 => {
            // still a possible key: keys are trusted to be well-formed
            let half = vk.domain_size / 2;
            vk.domain_size = if r.chance(1, 2) || half <= vk.num_inputs { vk.domain_size * 2 } else { half };
            "domain size of the key changed"
        },
        6 => {
            vk.num_inputs = if r.chance(1, 2) && vk.num_inputs < vk.domain_size { vk.num_inputs + 1 } else { vk.num_inputs.saturating_sub(1) };
            "input count of the key changed"
        },
        _ => {
            let t = S::srs(1);
            vk.open_key.beta_h = t.beta_h;
            vk.open_key.h = t.h;
            vk.open_key.powers_of_h = t.powers_of_h.clone();
            if r.chance(1, 2) {
                vk.open_key.g = t.powers_of_g[0];
            }
            "opening key of other parameters"
        },
    }
    .into()
}
