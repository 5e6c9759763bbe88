//! R01: circuit checking and the preprocessed form of circuits.
use crate::circ::*;
use ark_ff::PrimeField;
use ark_poly::{univariate::DensePolynomial, EvaluationDomain, Radix2EvaluationDomain};
use ark_serialize::CanonicalSerialize;
use jf_relation::{
    constants::compute_coset_representatives, Arithmetization, Circuit, CircuitError, MergeableCircuitType, PlonkCircuit,
};
use sim::*;
use std::collections::{BTreeMap, HashMap, HashSet};

pub struct R01;

#[macro_export]
macro_rules! on_field {
    ($c:expr, $f:ident ( $($a:expr),* )) => {
        match $c % 5 {
            3 => $f::<ark_bls12_381::Fr>($($a),*),
            4 => $f::<ark_bls12_377::Fr>($($a),*),
            _ => $f::<ark_bn254::Fr>($($a),*),
        }
    };
}

pub fn range_bits(x: u64) -> Option<usize> {
    match x {
        0 => None,
        b => Some((b as usize).min(8)),
    }
}

impl World for R01 {
    fn property(&self) -> &'static str {
        "R01"
    }
    fn budget(&self, tier: Tier) -> (u64, u64) {
        match tier {
            Tier::Quick => (60_000, 30),
            Tier::Thorough => (20_000_000, 500),
        }
    }
    fn step_cap(&self) -> u64 {
        4_000_000_000
    }
    /// cfg: [field, range bits or 0, threads or 0, merge with a second program?, ops of the first program]
    fn gen(&self, r: &mut Prng, tier: Tier) -> Plan {
        let ultra = if r.chance(2, 5) { *r.pick(&[1u64, 2, 2, 3, 3, 4, 5, 8]) } else { 0 };
        let n = match r.below(8) {
            0 => r.below(4),
            1 if tier == Tier::Thorough => 40 + r.size(400),
            1 => 30 + r.size(60),
            _ => 3 + r.size(25),
        };
        let heavy = r.chance(1, 50);
        let lies = if r.chance(1, 3) { 60 } else { 0 };
        let mut ops = gen(r, n, ultra > 0, lies, heavy);
        let first = ops.len() as u64;
        let merge = ultra == 0 && r.chance(1, 4);
        if merge {
            let m = 2 + r.size(25);
            ops.extend(gen(r, m, false, 0, false));
        }
        for _ in 0..r.range(1, 6) {
            ops.push(Op::new("alter", &[r.next(), r.below(8), r.below(2)]));
        }
        let threads = if r.chance(1, 4) { r.range(1, 4) } else { 0 };
        Plan {
            cfg: vec![r.below(5), ultra, threads, merge as u64, first],
            ops,
            sched: if threads > 0 { gen_schedule(r, 20) } else { Schedule::quiet() },
        }
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) {
        on_field!(plan.c(0), exec(plan, ctx))
    }
    fn rule(&self) -> &'static str {
        "a random circuit program is built beside a model of what every variable holds and every constraint \
         requires; the circuit check must agree with the model for the honest witness, for altered witnesses and \
         for wrong public inputs, before and after finalisation, and the polynomials of the finalised circuit must \
         carry the same constraints row by row, the same on every schedule"
    }
    fn real(&self) -> &'static [&'static str] {
        &["jf-relation: circuit builder, gadgets, finalisation, arithmetisation", "ark-ff, ark-ec, ark-poly", "rayon"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["dyn-clone: own implementation of the two functions used"]
    }
}

fn evals<F: PrimeField>(d: &Radix2EvaluationDomain<F>, p: &DensePolynomial<F>) -> Vec<F> {
    d.fft(&p.coeffs)
}
fn put<F: PrimeField>(b: &mut Vec<u8>, p: &DensePolynomial<F>) {
    p.serialize_uncompressed(b).unwrap();
}

/// Everything the prover asks of a circuit.
struct Polys<F: PrimeField> {
    n: usize,
    sel: Vec<DensePolynomial<F>>,
    sigma: Vec<DensePolynomial<F>>,
    wires: Vec<DensePolynomial<F>>,
    pi: DensePolynomial<F>,
    z: Option<DensePolynomial<F>>,
    range: Option<DensePolynomial<F>>,
    key: Option<DensePolynomial<F>>,
    tdom: Option<DensePolynomial<F>>,
    qdom: Option<DensePolynomial<F>>,
    table: Vec<F>,
    sorted: Result<(Vec<F>, DensePolynomial<F>, DensePolynomial<F>), String>,
    lprod: Option<DensePolynomial<F>>,
}
fn challenges<F: PrimeField>(seed: u64) -> [F; 3] {
    let mut r = Prng::new(seed ^ 0x5a5a);
    [0, 1, 2].map(|_| F::from_le_bytes_mod_order(&r.bytes(48)))
}
/// `half`: a circuit waiting to be merged has no complete permutation.
fn polys<F: PrimeField>(c: &PlonkCircuit<F>, half: bool) -> Result<Polys<F>, CircuitError> {
    let [tau, beta, gamma] = challenges::<F>(7);
    let ultra = c.support_lookup();
    let mut p = Polys {
        n: c.eval_domain_size()?,
        sel: c.compute_selector_polynomials()?,
        sigma: c.compute_extended_permutation_polynomials()?,
        wires: c.compute_wire_polynomials()?,
        pi: c.compute_pub_input_polynomial()?,
        z: if half { None } else { Some(c.compute_prod_permutation_polynomial(&beta, &gamma)?) },
        range: None,
        key: None,
        tdom: None,
        qdom: None,
        table: vec![],
        sorted: Err("none".into()),
        lprod: None,
    };
    if ultra {
        p.range = Some(c.compute_range_table_polynomial()?);
        p.key = Some(c.compute_key_table_polynomial()?);
        p.tdom = Some(c.compute_table_dom_sep_polynomial()?);
        p.qdom = Some(c.compute_q_dom_sep_polynomial()?);
        p.table = c.compute_merged_lookup_table(tau)?;
        p.sorted = c.compute_lookup_sorted_vec_polynomials(tau, &p.table).map_err(|e| format!("{e:?}"));
        if let Ok(s) = &p.sorted {
            p.lprod = Some(c.compute_lookup_prod_polynomial(&tau, &beta, &gamma, &p.table, &s.0)?);
        }
    }
    Ok(p)
}
impl<F: PrimeField> Polys<F> {
    fn bytes(&self) -> Vec<u8> {
        let mut b = vec![];
        for p in self.sel.iter().chain(&self.sigma).chain(&self.wires).chain([&self.pi]).chain(&self.z) {
            put(&mut b, p);
        }
        for p in [&self.range, &self.key, &self.tdom, &self.qdom, &self.lprod].into_iter().flatten() {
            put(&mut b, p);
        }
        self.table.serialize_uncompressed(&mut b).unwrap();
        match &self.sorted {
            Ok(s) => s.serialize_uncompressed(&mut b).unwrap(),
            Err(e) => b.extend(e.bytes()),
        }
        b
    }
}

/// How the circuit(s) of a plan are finished.
fn finish<F: Fld>(plan: &Plan) -> Result<(PlonkCircuit<F>, bool), CircuitError> {
    let (a, b) = programs(plan);
    let mut c = Built::<F>::build(a, range_bits(plan.c(1))).c;
    if plan.c(3) == 0 {
        c.finalize_for_arithmetization()?;
        return Ok((c, false));
    }
    let mut d = Built::<F>::build(b, None).c;
    c.finalize_for_mergeable_circuit(MergeableCircuitType::TypeA)?;
    d.finalize_for_mergeable_circuit(MergeableCircuitType::TypeB)?;
    match c.merge(&d) {
        Ok(m) => Ok((m, false)),
        Err(_) => Ok((c, true)),
    }
}
fn programs(plan: &Plan) -> (&[Op], &[Op]) {
    let end = plan.ops.iter().position(|o| o.k == "alter").unwrap_or(plan.ops.len());
    let first = if plan.c(3) == 0 { end } else { (plan.c(4) as usize).min(end) };
    (&plan.ops[..first], &plan.ops[first..end])
}
fn alters(plan: &Plan) -> impl Iterator<Item = &Op> {
    plan.ops.iter().filter(|o| o.k == "alter")
}
fn pool(n: usize) -> rayon::ThreadPool {
    rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("pool")
}

/// Makes the calling thread the only worker, for runs about values rather than
/// schedules.
pub fn alone() {
    let p = rayon::ThreadPoolBuilder::new().num_threads(1).use_current_thread().build().expect("pool");
    std::mem::forget(p);
}

fn exec<F: Fld>(plan: &Plan, ctx: &mut Ctx) {
    if plan.c(2) == 0 {
        alone();
    }
    let (p1, p2) = programs(plan);
    let Some(mut b) = ctx.must("build", || Built::<F>::build(p1, range_bits(plan.c(1)))) else { return };
    if let Some((c, w)) = b.wrong.take() {
        ctx.violate(&c, w);
        return;
    }
    let wit: Vec<F> = b.vars.iter().map(|v| b.m[v]).collect();
    let mut bytes = vec![];
    wit.serialize_uncompressed(&mut bytes).unwrap();
    ctx.event("built", &bytes);
    ctx.state(mix(&[hash_bytes(4, &bytes), b.c.num_gates() as u64, plan.c(1)]));
    for _ in 0..b.refused {
        ctx.fault("request that must be refused");
    }
    let ok = b.truth(&BTreeMap::new());
    ctx.mark(if ok == Some(true) { "satisfied" } else { "unsatisfied" });
    if !checks(&mut b, plan, ctx, "open") {
        return;
    }
    let merge = plan.c(3) != 0;
    if !merge {
        let r = ctx.must("finalise", || b.c.finalize_for_arithmetization());
        let Some(r) = r else { return };
        if !ctx.check(r.is_ok(), "finalise refused", || format!("{r:?}")) {
            return;
        }
        // gates may have moved, nothing else
        if !checks(&mut b, plan, ctx, "final") {
            return;
        }
        if !closed(&mut b, ctx) {
            return;
        }
        if !arithmetised(&b, ctx) {
            return;
        }
    } else {
        let Some(mut d) = ctx.must("build", || Built::<F>::build(p2, None)) else { return };
        if let Some((c, w)) = d.wrong.take() {
            ctx.violate(&c, w);
            return;
        }
        if !merged(&mut b, &mut d, plan, ctx) {
            return;
        }
    }
    if plan.c(2) == 0 {
        return;
    }
    // the same polynomials whatever the threads do
    let one = pool(1);
    let many = pool(plan.c(2) as usize);
    let run = || match finish::<F>(plan).and_then(|(c, half)| polys(&c, half)) {
        Ok(p) => p.bytes(),
        Err(e) => format!("{e:?}").into_bytes(),
    };
    let Some(want) = ctx.must("arithmetise", || one.install(run)) else { return };
    let Some(got) = ctx.must("arithmetise", || many.install(run)) else { return };
    ctx.event("arithmetised", &want);
    ctx.state(hash_bytes(5, &want));
    ctx.check(want == got, "schedule", || format!("{} threads give other polynomials than one", plan.c(2)));
    std::mem::forget(one);
    std::mem::forget(many);
}

/// The circuit's verdict against the model's, for the honest and for altered
/// witnesses and public inputs.
fn checks<F: Fld>(b: &mut Built<F>, plan: &Plan, ctx: &mut Ctx, when: &str) -> bool {
    let want = b.pub_values();
    let got = b.c.public_input();
    if !ctx.check(got.as_ref().ok() == Some(&want) && b.c.num_inputs() == want.len(), &format!("public inputs:{when}"), || {
        format!("{got:?} instead of {want:?}")
    }) {
        return false;
    }
    let ok = b.truth(&BTreeMap::new()).unwrap();
    let r = b.c.check_circuit_satisfiability(&want);
    if !ctx.check(r.is_ok() == ok, &format!("satisfiability:{when}"), || format!("model says {ok}, circuit says {r:?}")) {
        return false;
    }
    for o in alters(plan) {
        let mut r = Prng::new(o.arg(0) ^ 3);
        // wrong public inputs
        if !want.is_empty() {
            let mut p = want.clone();
            match o.arg(1) % 4 {
                0 => {
                    p.pop();
                },
                1 => p.push(elem(&mut r)),
                2 => {
                    let i = r.below(p.len() as u64) as usize;
                    p[i] += F::one() + F::from(r.below(3));
                },
                _ => {
                    let (i, j) = (r.below(p.len() as u64) as usize, r.below(p.len() as u64) as usize);
                    p.swap(i, j);
                },
            }
            if p != want {
                let v = b.c.check_circuit_satisfiability(&p);
                if !ctx.check(v.is_err(), &format!("wrong public inputs accepted:{when}"), || {
                    format!("accepted {p:?} for {want:?}")
                }) {
                    return false;
                }
            }
        } else if b.c.check_circuit_satisfiability(&[F::zero()]).is_ok() {
            ctx.violate(&format!("wrong public inputs accepted:{when}"), "surplus public input accepted".into());
            return false;
        }
        // altered witness
        let s = alteration(b, o);
        ctx.fault("witness alteration");
        for (v, x) in &s {
            *b.c.witness_mut(*v) = *x;
        }
        let p: Vec<F> = b.pubs.iter().map(|v| s.get(v).copied().unwrap_or(b.m[v])).collect();
        let now = b.truth(&s);
        let r = b.c.check_circuit_satisfiability(&p);
        let own = b.c.check_circuit_satisfiability(&want);
        for v in s.keys() {
            *b.c.witness_mut(*v) = b.m[v];
        }
        if let Some(t) = now {
            ctx.mark(if t { "alterations that must be accepted" } else { "alterations that must be rejected" });
            if !ctx.check(r.is_ok() == t, &format!("altered witness:{when}"), || {
                format!("after changing {s:?} the model says {t}, the circuit says {r:?}")
            }) {
                return false;
            }
        }
        if p != want
            && !ctx.check(own.is_err(), &format!("altered public witness:{when}"), || {
                format!("after changing {s:?} the old public inputs are still accepted")
            })
        {
            return false;
        }
    }
    true
}

/// A finalised circuit takes no further changes.
fn closed<F: Fld>(b: &mut Built<F>, ctx: &mut Ctx) -> bool {
    let (v, w) = (b.vars[0], *b.vars.last().unwrap());
    let (g, n, i) = (b.c.num_gates(), b.c.num_vars(), b.c.num_inputs());
    let c = &mut b.c;
    let r = [
        c.create_variable(F::one()).is_ok(),
        c.create_public_variable(F::one()).is_ok(),
        c.set_variable_public(v).is_ok(),
        c.enforce_constant(v, F::zero()).is_ok(),
        c.add(v, w).is_ok(),
        c.mul_gate(v, w, v).is_ok(),
        c.enforce_equal(v, v).is_ok(),
        c.add_range_check_variable(v).is_ok(),
        c.create_table_and_lookup_variables(&[(v, v, v)], &[(v, v)]).is_ok(),
    ];
    let same = (c.num_gates(), c.num_vars(), c.num_inputs()) == (g, n, i);
    ctx.check(same && r.iter().all(|x| !x), "changed after finalisation", || format!("{r:?} sizes kept: {same}"))
        && match c.finalize_for_arithmetization() {
            Ok(()) => true,
            Err(e) => ctx.check(false, "finalise twice", || format!("{e:?}")),
        }
}

/// The gate equations of the polynomials, row by row.
fn rows<F: PrimeField>(p: &Polys<F>) -> Vec<bool> {
    let d = Radix2EvaluationDomain::<F>::new(p.n).unwrap();
    let q: Vec<Vec<F>> = p.sel.iter().map(|x| evals(&d, x)).collect();
    let w: Vec<Vec<F>> = p.wires.iter().map(|x| evals(&d, x)).collect();
    let pi = evals(&d, &p.pi);
    (0..p.n)
        .map(|j| {
            let x: Vec<F> = (0..5).map(|i| w[i][j]).collect();
            let mut s = pi[j] + q[11][j];
            for i in 0..4 {
                s += q[i][j] * x[i] + q[6 + i][j] * x[i].pow([5u64]);
            }
            s += q[4][j] * x[0] * x[1] + q[5][j] * x[2] * x[3];
            s += q[12][j] * x[0] * x[1] * x[2] * x[3] * x[4];
            s == q[10][j] * x[4]
        })
        .collect()
}

fn arithmetised<F: Fld>(b: &Built<F>, ctx: &mut Ctx) -> bool {
    let p = match ctx.must("arithmetise", || polys(&b.c, false)) {
        Some(Ok(p)) => p,
        Some(Err(e)) => {
            ctx.violate("arithmetise refused", format!("{e:?}"));
            return false;
        },
        None => return false,
    };
    let d = Radix2EvaluationDomain::<F>::new(p.n).unwrap();
    if !ctx.check(p.n >= b.c.num_gates() && b.c.srs_size().unwrap_or(0) >= p.n, "domain", || format!("domain {}", p.n)) {
        return false;
    }
    // public inputs sit in the first rows, where the verifier puts them
    let mut pi = b.pub_values();
    pi.resize(p.n, F::zero());
    if !ctx.check(evals(&d, &p.pi) == pi, "public input rows", || "not the public inputs in order".into()) {
        return false;
    }
    let all = rows(&p).iter().all(|x| *x);
    let gates = b.truth_of(&BTreeMap::new(), Some(false)).unwrap();
    if !ctx.check(all == gates, "gate rows", || format!("gates hold: {gates}, rows hold: {all}")) {
        return false;
    }
    if !permutation(&b.c, &p, ctx) || !products(&p, ctx, gates) {
        return false;
    }
    if b.ultra.is_some() {
        let t = b.truth_of(&BTreeMap::new(), Some(true)).unwrap();
        let s = &p.sorted;
        if !ctx.check(s.is_ok() == t, "lookup rows", || {
            format!("lookups hold: {t}, the prover's table says {:?}", s.as_ref().err())
        }) {
            return false;
        }
        if t && !lookups(&p, ctx) {
            return false;
        }
    }
    true
}

/// The wires holding one variable form one cycle.
fn permutation<F: PrimeField>(c: &PlonkCircuit<F>, p: &Polys<F>, ctx: &mut Ctx) -> bool {
    let mut c = c.clone();
    let m = c.num_vars();
    for v in 0..m {
        *c.witness_mut(v) = F::from(v as u64 + 1);
    }
    let Some(Ok(w)) = ctx.must("wires", || c.compute_wire_polynomials()) else { return false };
    let n = p.n;
    let d = Radix2EvaluationDomain::<F>::new(n).unwrap();
    let k: Vec<F> = compute_coset_representatives(c.num_wire_types(), Some(n));
    let mut slot = HashMap::new();
    let el: Vec<F> = d.elements().collect();
    for (i, k) in k.iter().enumerate() {
        for (j, e) in el.iter().enumerate() {
            slot.insert(*k * e, i * n + j);
        }
    }
    let names: HashMap<F, usize> = (0..m).map(|v| (F::from(v as u64 + 1), v)).collect();
    let mut var = vec![];
    for x in &w {
        for y in evals(&d, x) {
            var.push(names.get(&y).copied());
        }
    }
    if !ctx.check(slot.len() == var.len() && var.iter().all(|v| v.is_some()), "wire values", || {
        "a wire holds no variable".into()
    }) {
        return false;
    }
    let mut next = vec![];
    for s in &p.sigma {
        for y in evals(&d, s) {
            next.push(slot.get(&y).copied());
        }
    }
    let good = next.iter().all(|x| x.is_some())
        && next.len() == var.len()
        && next.iter().collect::<HashSet<_>>().len() == next.len()
        && next.iter().enumerate().all(|(i, x)| var[i] == var[x.unwrap()]);
    if !ctx.check(good, "permutation", || "not a permutation keeping every variable".into()) {
        return false;
    }
    let mut seen = vec![false; var.len()];
    let mut done = HashSet::new();
    for i in 0..var.len() {
        if seen[i] {
            continue;
        }
        if !ctx.check(done.insert(var[i]), "copy cycle", || format!("wires of variable {:?} are not tied together", var[i])) {
            return false;
        }
        let mut j = i;
        while !seen[j] {
            seen[j] = true;
            j = next[j].unwrap();
        }
    }
    true
}

/// The running product over the permutation.
fn products<F: PrimeField>(p: &Polys<F>, ctx: &mut Ctx, _gates: bool) -> bool {
    let Some(z) = &p.z else { return true };
    let [_, beta, gamma] = challenges::<F>(7);
    let n = p.n;
    let d = Radix2EvaluationDomain::<F>::new(n).unwrap();
    let k: Vec<F> = compute_coset_representatives(p.wires.len(), Some(n));
    let el: Vec<F> = d.elements().collect();
    let z = evals(&d, z);
    let w: Vec<Vec<F>> = p.wires.iter().map(|x| evals(&d, x)).collect();
    let s: Vec<Vec<F>> = p.sigma.iter().map(|x| evals(&d, x)).collect();
    let bad = (0..n).find(|&j| {
        let (mut a, mut b) = (F::one(), F::one());
        for i in 0..w.len() {
            a *= w[i][j] + beta * k[i] * el[j] + gamma;
            b *= w[i][j] + beta * s[i][j] + gamma;
        }
        z[(j + 1) % n] * b != z[j] * a
    });
    ctx.check(z[0].is_one() && bad.is_none(), "running product", || format!("wrong at row {bad:?}"))
}

/// The sorted vector and running product of the lookups.
fn lookups<F: PrimeField>(p: &Polys<F>, ctx: &mut Ctx) -> bool {
    let [tau, beta, gamma] = challenges::<F>(7);
    let n = p.n;
    let d = Radix2EvaluationDomain::<F>::new(n).unwrap();
    let e = |x: &Option<DensePolynomial<F>>| evals(&d, x.as_ref().unwrap());
    let (range, key, tdom, qdom) = (e(&p.range), e(&p.key), e(&p.tdom), e(&p.qdom));
    let ql = evals(&d, &p.sel[13]);
    let w: Vec<Vec<F>> = p.wires.iter().map(|x| evals(&d, x)).collect();
    let merge = |q: F, dom: F, k: F, a: F, b: F| q * tau * (dom + tau * (k + tau * (a + tau * b)));
    let table: Vec<F> = (0..n).map(|j| range[j] + merge(ql[j], tdom[j], key[j], w[3][j], w[4][j])).collect();
    let wire: Vec<F> = (0..n).map(|j| w[5][j] + merge(ql[j], qdom[j], w[0][j], w[1][j], w[2][j])).collect();
    if !ctx.check(table == p.table, "merged table", || "not what the verifier computes".into()) {
        return false;
    }
    let s = p.sorted.as_ref().unwrap();
    let (h1, h2) = (evals(&d, &s.1), evals(&d, &s.2));
    let z = evals(&d, p.lprod.as_ref().unwrap());
    if !ctx.check(h1[n - 1] == h2[0] && z[0].is_one() && z[n - 1].is_one() && ql[n - 1].is_zero(), "lookup ends", || {
        "the sorted vector or the running product does not close, or a lookup sits in the unchecked last row".into()
    }) {
        return false;
    }
    let g = gamma * (F::one() + beta);
    let bad = (0..n - 1).find(|&j| {
        let a = (F::one() + beta) * (gamma + wire[j]) * (g + table[j] + beta * table[j + 1]);
        let b = (g + h1[j] + beta * h1[j + 1]) * (g + h2[j] + beta * h2[j + 1]);
        z[j] * a != z[j + 1] * b
    });
    ctx.check(bad.is_none(), "lookup product", || format!("wrong at row {bad:?} of {n}"))
}

/// Two circuits finished for merging, alone and together.
fn merged<F: Fld>(a: &mut Built<F>, b: &mut Built<F>, plan: &Plan, ctx: &mut Ctx) -> bool {
    use MergeableCircuitType::*;
    let r = ctx.must("finalise for merging", || {
        (a.c.finalize_for_mergeable_circuit(TypeA), b.c.finalize_for_mergeable_circuit(TypeB))
    });
    let Some(r) = r else { return false };
    if !ctx.check(r.0.is_ok() && r.1.is_ok(), "finalise refused", || format!("{r:?}")) {
        return false;
    }
    if !checks(a, plan, ctx, "half A") || !checks(b, plan, ctx, "half B") {
        return false;
    }
    let Some(m) = ctx.must("merge", || a.c.merge(&b.c)) else { return false };
    let fits = a.c.eval_domain_size().unwrap() == b.c.eval_domain_size().unwrap() && a.pubs.len() == b.pubs.len();
    if fits && a.pubs.is_empty() {
        // with nothing public the two kinds cannot be told apart
        return true;
    }
    if !ctx.check(m.is_ok() == fits, "merge", || format!("fits: {fits}, answer {:?}", m.as_ref().err())) {
        return false;
    }
    let swapped = b.c.merge(&a.c);
    if !ctx.check(swapped.is_err(), "merge swapped", || "a B circuit was taken for an A circuit".into()) {
        return false;
    }
    let Ok(m) = m else { return true };
    ctx.mark("merged circuits");
    let ok = a.truth(&BTreeMap::new()).unwrap() && b.truth(&BTreeMap::new()).unwrap();
    let mut pubs = a.pub_values();
    pubs.extend(b.pub_values());
    let r = m.check_circuit_satisfiability(&pubs);
    if !ctx.check(r.is_ok() == ok, "merged satisfiability", || format!("model says {ok}, circuit says {r:?}")) {
        return false;
    }
    if !ctx.check(m.public_input().ok().as_ref() == Some(&pubs), "merged public inputs", || format!("{:?}", m.public_input())) {
        return false;
    }
    let p = match ctx.must("arithmetise", || polys(&m, false)) {
        Some(Ok(p)) => p,
        Some(Err(e)) => {
            ctx.violate("arithmetise refused", format!("{e:?}"));
            return false;
        },
        None => return false,
    };
    let d = Radix2EvaluationDomain::<F>::new(p.n).unwrap();
    // first rows carry the first circuit's inputs, last rows the second's in reverse
    let mut pi = vec![F::zero(); p.n];
    for (i, x) in a.pub_values().into_iter().enumerate() {
        pi[i] = x;
    }
    for (i, x) in b.pub_values().into_iter().enumerate() {
        pi[p.n - 1 - i] = x;
    }
    if !ctx.check(evals(&d, &p.pi) == pi, "public input rows", || "not the public inputs in order".into()) {
        return false;
    }
    let all = rows(&p).iter().all(|x| *x);
    if !ctx.check(all == ok, "gate rows", || format!("gates hold: {ok}, rows hold: {all}")) {
        return false;
    }
    permutation(&m, &p, ctx) && products(&p, ctx, ok)
}
