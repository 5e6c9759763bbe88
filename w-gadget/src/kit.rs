//! Builds a circuit of one gadget beside a statement of what its visible
//! variables must satisfy, and plays a lying prover against it.
use ark_ff::{BigInteger, PrimeField};
use ark_poly::{EvaluationDomain, Radix2EvaluationDomain};
use ark_serialize::CanonicalSerialize;
use jf_relation::{Arithmetization, Circuit, CircuitError, PlonkCircuit, Variable};
use num_bigint::{BigInt, BigUint, Sign};
use sim::{mix, Ctx, Op, Plan, Prng};
use std::collections::{BTreeMap, BTreeSet};

/// What the visible values say: true, false, or outside what the gadget promises.
pub type Truth<F> = Box<dyn Fn(&[F]) -> Option<bool>>;

pub type Alt<F> = Box<dyn Fn(&mut Prng, &[F]) -> Option<(&'static str, Vec<(Variable, F)>)>>;

pub struct Made<F: PrimeField> {
    pub c: PlonkCircuit<F>,
    pub seen: Vec<Variable>,
    pub truth: Truth<F>,
    /// whether the honest build is satisfied
    pub want: bool,
    /// what variables hold in the honest build, by the native library
    pub gives: Vec<(Variable, F)>,
    /// names the special case, if the values are one
    pub note: &'static str,
    /// a lie made for this circuit: its name and the variables it changes
    pub alt: Option<Alt<F>>,
}

pub type Make<'a, F> = dyn Fn(u64) -> Result<Made<F>, CircuitError> + 'a;

pub fn fresh<F: PrimeField>(bits: u64) -> PlonkCircuit<F> {
    if bits > 0 {
        PlonkCircuit::new_ultra_plonk(bits as usize)
    } else {
        PlonkCircuit::new_turbo_plonk()
    }
}

pub fn int<F: PrimeField>(x: &F) -> BigUint {
    BigUint::from_bytes_le(&x.into_bigint().to_bytes_le())
}

pub fn modulus<F: PrimeField>() -> BigUint {
    BigUint::from_bytes_le(&F::MODULUS.to_bytes_le())
}

/// A field element, often a small or extreme one.
pub fn elem<F: PrimeField>(r: &mut Prng) -> F {
    match r.below(11) {
        10 => F::from(BigUint::from_bytes_le(&r.bytes(64)) % (BigUint::from(1u32) << r.range(1, F::MODULUS_BIT_SIZE as u64 - 1))),
        0 => F::zero(),
        1 => F::one(),
        2 => -F::one(),
        3 => F::from(r.below(300)),
        4 => F::from(2u64).pow([r.below(F::MODULUS_BIT_SIZE as u64)]),
        _ => F::from_le_bytes_mod_order(&r.bytes(F::MODULUS_BIT_SIZE as usize / 8 + 16)),
    }
}

impl<F: PrimeField> Made<F> {
    pub fn values(&self) -> Vec<F> {
        (0..self.c.num_vars()).map(|v| self.c.witness(v).unwrap()).collect()
    }
    fn seen_values(&self) -> Vec<F> {
        self.seen.iter().map(|v| self.c.witness(*v).unwrap()).collect()
    }
    fn accepts(&self) -> bool {
        match self.c.public_input() {
            Ok(p) => self.c.check_circuit_satisfiability(&p).is_ok(),
            Err(_) => false,
        }
    }
    fn put(&mut self, vals: &[F]) {
        for (v, x) in vals.iter().enumerate() {
            *self.c.witness_mut(v) = *x;
        }
    }
}

/// One row of the arithmetised circuit: selectors and wires.
struct Row<F> {
    q: Vec<F>,
    w: [Variable; 5],
    io: bool,
}

struct Rows<F> {
    rows: Vec<Row<F>>,
    first: Vec<usize>,
    /// in how many rows a variable takes part
    uses: Vec<u32>,
    /// keys looked up: the table, the key and the two values
    looks: Vec<(F, [Variable; 3])>,
    tables: std::collections::HashMap<(F, F), [Variable; 2]>,
}

fn rows<F: PrimeField>(c: &PlonkCircuit<F>) -> Result<Rows<F>, CircuitError> {
    let mut d = c.clone();
    for v in 0..d.num_vars() {
        *d.witness_mut(v) = F::from(v as u64 + 1);
    }
    d.finalize_for_arithmetization()?;
    let n = d.eval_domain_size()?;
    let dom = Radix2EvaluationDomain::<F>::new(n).unwrap();
    let sel: Vec<Vec<F>> = d.compute_selector_polynomials()?.iter().map(|p| dom.fft(&p.coeffs)).collect();
    let wires: Vec<Vec<F>> = d.compute_wire_polynomials()?.iter().map(|p| dom.fft(&p.coeffs)).collect();
    let mut out = Rows { rows: vec![], first: vec![usize::MAX; d.num_vars()], uses: vec![0; d.num_vars()], looks: vec![], tables: Default::default() };
    let mut tab = vec![];
    if d.support_lookup() {
        for p in [d.compute_q_dom_sep_polynomial()?, d.compute_table_dom_sep_polynomial()?, d.compute_key_table_polynomial()?] {
            tab.push(dom.fft(&p.coeffs));
        }
    }
    for j in 0..n {
        let q: Vec<F> = sel.iter().map(|s| s[j]).collect();
        let wire = |i: usize| (wires[i][j].into_bigint().as_ref()[0] - 1) as usize;
        if q.get(13).is_some_and(|x| !x.is_zero()) {
            if !tab[0][j].is_zero() {
                out.looks.push((tab[0][j], [wire(0), wire(1), wire(2)]));
            }
            if !tab[1][j].is_zero() {
                out.tables.insert((tab[1][j], tab[2][j]), [wire(3), wire(4)]);
            }
        }
        if q[..13].iter().all(|x| x.is_zero()) {
            continue;
        }
        let mut w = [0; 5];
        for i in 0..5 {
            w[i] = wire(i);
        }
        let k = out.rows.len();
        for v in w {
            out.uses[v] += 1;
            if out.first[v] == usize::MAX {
                out.first[v] = k;
            }
        }
        out.rows.push(Row { q, w, io: j < d.num_inputs() });
    }
    Ok(out)
}

impl<F: PrimeField> Row<F> {
    fn eval(&self, x: [F; 5]) -> F {
        let q = &self.q;
        let mut s = q[11] - q[10] * x[4];
        for i in 0..4 {
            s += q[i] * x[i];
            if !q[6 + i].is_zero() {
                s += q[6 + i] * x[i].pow([5u64]);
            }
        }
        s + q[4] * x[0] * x[1] + q[5] * x[2] * x[3] + q[12] * x[0] * x[1] * x[2] * x[3] * x[4]
    }
    fn at(&self, vals: &[F]) -> F {
        self.eval(self.w.map(|v| vals[v]))
    }
    /// The value of `v` that makes the row hold, if it is found easily.
    fn solve(&self, vals: &[F], v: Variable, root: Option<&Vec<u64>>) -> Option<F> {
        let on = |x: F| self.eval(self.w.map(|u| if u == v { x } else { vals[u] }));
        let k = on(F::zero());
        // linear in v?
        let lin = on(F::one()) - k;
        let two = F::from(2u64);
        if on(two) - k == lin.double() && on(-F::one()) - k == -lin && on(F::from(3u64)) - k == lin * F::from(3u64) {
            return if lin.is_zero() { None } else { Some(-k / lin) };
        }
        // a fifth power alone?
        let root = root?;
        if on(two) - k == lin * F::from(32u64) && on(F::from(3u64)) - k == lin * F::from(243u64) && !lin.is_zero() {
            return Some((-k / lin).pow(root));
        }
        None
    }
}

impl<F: PrimeField> Row<F> {
    /// The base, if the row says that its output is written in digits.
    fn base(&self) -> Option<BigUint> {
        let q = &self.q;
        let digits = q[3].is_one()
            && q[1] == q[2] * q[2]
            && q[0] == q[1] * q[2]
            && q[10].is_one()
            && q[4..10].iter().chain(&q[11..13]).all(|x| x.is_zero());
        let b = int(&q[2]);
        (digits && b.bits() > 1 && b.bits() < 30).then_some(b)
    }
}

impl<F: PrimeField> Row<F> {
    /// The places, lowest first, if the row says that its output is a sum of
    /// numbers at different powers of two.
    fn places(&self) -> Option<Vec<(usize, u64)>> {
        let q = &self.q;
        if !q[10].is_one() || q[4..10].iter().chain(&q[11..13]).any(|x| !x.is_zero()) {
            return None;
        }
        let mut at = vec![];
        for i in (0..4).filter(|i| !q[*i].is_zero()) {
            let n = int(&q[i]);
            if n.count_ones() != 1 {
                return None;
            }
            at.push((i, n.bits() - 1));
        }
        at.sort_by_key(|x| x.1);
        (at.len() > 1 && at[0].1 == 0 && at.windows(2).all(|w| w[0].1 < w[1].1)).then_some(at)
    }
    /// Coefficient of a wire in a row without products.
    fn coef(&self, i: usize) -> F {
        if i == 4 {
            -self.q[10]
        } else {
            self.q[i]
        }
    }
    /// The wire that carries into the next limb and the width of a limb.
    fn carry(&self) -> Option<(usize, u64)> {
        if self.base().is_some() || self.q[4..10].iter().chain(&self.q[12..13]).any(|x| !x.is_zero()) {
            return None;
        }
        (0..5).find_map(|i| {
            let c = -self.coef(i);
            let n = int(&c);
            (n.bits() > 16 && n.count_ones() == 1).then(|| (i, n.bits() - 1))
        })
    }
    /// Repairs the row at wire `at`, keeping it within a limb by the carry.
    fn carry_over(&self, vals: &mut [F], fixed: &mut [bool], at: usize) -> bool {
        let Some((c, k)) = self.carry() else { return false };
        let (u, v) = (self.w[c], self.w[at]);
        if u == v || u < 2 || v < 2 || fixed[v] || self.coef(at).is_zero() {
            return false;
        }
        for x in if fixed[u] { vec![vals[u]] } else { vec![F::zero(), F::one()] } {
            vals[u] = x;
            if let Some(y) = self.solve(vals, v, None) {
                if int(&y).bits() <= k {
                    vals[v] = y;
                    fixed[u] = true;
                    fixed[v] = true;
                    return true;
                }
            }
        }
        false
    }
}

/// Rows that end a number written in digits.
fn numbers<F: PrimeField>(t: &Rows<F>) -> Vec<usize> {
    let tails: std::collections::BTreeSet<Variable> =
        t.rows.iter().filter_map(|r| r.places().and_then(|p| p.last().map(|x| r.w[x.0]))).collect();
    (0..t.rows.len()).filter(|i| t.rows[*i].places().is_some() && !tails.contains(&t.rows[*i].w[4])).collect()
}

/// Writes numbers anew in digits where they no longer match them; the one at
/// row `more` is written with the field's order added.
fn digits<F: PrimeField>(t: &Rows<F>, vals: &mut [F], mut more: Option<usize>) {
    for _ in 0..4 {
        let mut any = false;
        for (i, row) in t.rows.iter().enumerate().rev() {
            if row.at(vals).is_zero() && more != Some(i) {
                continue;
            }
            let Some(at) = row.places() else { continue };
            let mut n = int(&vals[row.w[4]]);
            if more == Some(i) {
                n += modulus::<F>();
                more = None;
            }
            for (k, (w, e)) in at.iter().enumerate() {
                let x = match at.get(k + 1) {
                    Some((_, f)) => (&n >> e) % (BigUint::from(1u32) << (f - e)),
                    None => &n >> e,
                };
                if row.w[*w] > 1 {
                    vals[row.w[*w]] = F::from(x);
                    any = true;
                }
            }
        }
        if !any {
            break;
        }
    }
}

/// Reads the tables again where a key or a table has changed.
fn look<F: PrimeField>(t: &Rows<F>, vals: &mut [F], fixed: &mut [bool]) {
    for (dom, [k, a, b]) in &t.looks {
        let Some(to) = t.tables.get(&(*dom, vals[*k])) else { continue };
        for (x, y) in [a, b].into_iter().zip(to) {
            if vals[*x] != vals[*y] && *x > 1 {
                vals[*x] = vals[*y];
                fixed[*x] = true;
            }
        }
    }
}

/// Widths of the numbers that are written in short digits.
fn widths<F: PrimeField>(t: &Rows<F>) -> BTreeMap<Variable, u64> {
    let mut w: BTreeMap<Variable, u64> = BTreeMap::new();
    // digits come before what is made of them
    for _ in 0..2 {
        for row in &t.rows {
            let Some(mut at) = row.places().filter(|p| p[1].1 <= 20) else { continue };
            let gap = at[1].1;
            while at.last().is_some_and(|x| row.w[x.0] < 2) {
                at.pop();
            }
            let Some((i, e)) = at.last().copied() else { continue };
            let b = e + w.get(&row.w[i]).copied().unwrap_or(gap);
            w.entry(row.w[4]).and_modify(|x| *x = b.min(*x)).or_insert(b);
        }
    }
    w
}

/// Finds numbers that fit their digits and satisfy the same equations as the
/// honest ones, in a part of the circuit that only such numbers hold together.
fn fitting<F: PrimeField>(t: &Rows<F>, base: &[F], seen: &[Variable], r: &mut Prng) -> Option<Vec<(Variable, F)>> {
    let wide = widths(t);
    let ends: BTreeSet<Variable> = numbers(t).into_iter().map(|i| t.rows[i].w[4]).collect();
    let starts: Vec<Variable> = wide.iter().filter(|(v, w)| **w > 20 && ends.contains(v)).map(|(v, _)| *v).collect();
    if starts.is_empty() {
        return None;
    }
    let mut still = vec![false; base.len()];
    still[0] = true;
    still[1] = true;
    let free = r.below(4);
    for v in seen {
        still[*v] = free == 0 || r.chance(1, free + 1);
    }
    let plain: Vec<&Row<F>> = t.rows.iter().filter(|x| !x.io && x.places().is_none_or(|p| p[1].1 > 20)).collect();
    let mut on: Vec<Vec<usize>> = vec![vec![]; base.len()];
    for (i, row) in plain.iter().enumerate() {
        if !row.q[4].is_zero() && row.w[0] == row.w[1] && row.w[1] == row.w[4] {
            // a bit
            still[row.w[0]] = true;
        }
        for v in row.w {
            if on[v].last() != Some(&i) {
                on[v].push(i);
            }
        }
    }
    // the part around one of them
    let first = *r.pick(&starts);
    still[first] = false;
    let mut part = BTreeSet::from([first]);
    let mut used = BTreeSet::new();
    let mut todo = vec![first];
    while let Some(v) = todo.pop() {
        for i in &on[v] {
            used.insert(*i);
            for u in plain[*i].w {
                if !still[u] && part.insert(u) {
                    todo.push(u);
                }
            }
        }
        if part.len() > 60 {
            return None;
        }
    }
    // what each row says about small changes
    let mut eqs: Vec<BTreeMap<Variable, F>> = vec![];
    for i in used {
        let row = plain[i];
        let of = |d: &[(Variable, u64)]| {
            row.eval(row.w.map(|v| base[v] + F::from(d.iter().find(|x| x.0 == v).map_or(0, |x| x.1))))
        };
        let zero = of(&[]);
        let u: Vec<Variable> = row.w.into_iter().filter(|v| part.contains(v)).collect::<BTreeSet<_>>().into_iter().collect();
        let eq: BTreeMap<Variable, F> = u.iter().map(|v| (*v, of(&[(*v, 1)]) - zero)).collect();
        let flat = u.iter().all(|v| of(&[(*v, 2)]) - zero == eq[v].double())
            && u.iter().enumerate().all(|(i, a)| u[..i].iter().all(|b| of(&[(*a, 1), (*b, 1)]) - zero == eq[a] + eq[b]));
        if flat {
            eqs.push(eq);
        } else if r.chance(1, 2) {
            // a product of two that move: keep one of them
            let v = *r.pick(&u);
            part.remove(&v);
            eqs.push(BTreeMap::from([(v, F::one())]));
            if r.chance(1, 2) && v != first {
                let eq = eq.into_iter().filter(|x| x.0 != v).collect();
                eqs.push(eq);
            }
        }
    }
    let cols: Vec<Variable> = {
        let (a, b): (Vec<Variable>, Vec<Variable>) = part.iter().partition(|v| !wide.contains_key(v));
        a.into_iter().chain(b).collect()
    };
    let loose = cols.iter().filter(|v| !wide.contains_key(v)).count();
    let n = cols.len() - loose;
    if n == 0 || n > 12 || n > 7 && r.chance(3, 4) {
        return None;
    }
    let mut m: Vec<Vec<F>> =
        eqs.iter().map(|e| cols.iter().map(|v| e.get(v).copied().unwrap_or(F::zero())).collect()).collect();
    let mut lead: Vec<Option<usize>> = vec![None; cols.len()];
    let mut top = 0;
    for c in 0..cols.len() {
        let Some(p) = (top..m.len()).find(|i| !m[*i][c].is_zero()) else { continue };
        m.swap(top, p);
        let k = m[top][c].inverse()?;
        m[top].iter_mut().for_each(|x| *x *= k);
        for i in (0..m.len()).filter(|i| *i != top) {
            let k = m[i][c];
            if !k.is_zero() {
                for j in 0..cols.len() {
                    let y = m[top][j] * k;
                    m[i][j] -= y;
                }
            }
        }
        lead[c] = Some(top);
        top += 1;
    }
    let bits: Vec<u64> = cols[loose..].iter().map(|v| wide[v]).collect();
    let most = *bits.iter().max()?;
    let scale = |j: usize| BigInt::from(1) << (most - bits[j]);
    let q = BigInt::from(modulus::<F>());
    let mut basis: Vec<Vec<BigInt>> = (0..n)
        .map(|i| {
            (0..n)
                .map(|j| {
                    let x = match (lead[loose + i], lead[loose + j]) {
                        (None, Some(row)) => BigInt::from(int(&-m[row][loose + i])),
                        (None, None) if i == j => BigInt::from(1),
                        (Some(_), _) if i == j => q.clone(),
                        _ => BigInt::from(0),
                    };
                    x * scale(j)
                })
                .collect()
        })
        .collect();
    crate::lattice::reduce(&mut basis);
    let honest: Vec<BigInt> = cols[loose..].iter().map(|v| BigInt::from(int(&base[*v]))).collect();
    for _ in 0..400 {
        let mut f = vec![0i64; n];
        for _ in 0..r.range(1, 3) {
            f[r.below(n as u64) as usize] += if r.chance(1, 2) { 1 } else { -1 };
        }
        let d: Vec<BigInt> = (0..n).map(|j| (0..n).map(|i| &basis[i][j] * f[i]).sum::<BigInt>() / scale(j)).collect();
        let fits = (0..n).all(|j| {
            let x = &honest[j] + &d[j];
            x.sign() != Sign::Minus && x.bits() <= bits[j]
        });
        if !fits || d.iter().all(|x| x.sign() == Sign::NoSign) {
            continue;
        }
        let mut delta = vec![F::zero(); cols.len()];
        for j in 0..n {
            let x = F::from(d[j].magnitude().clone());
            delta[loose + j] = if d[j].sign() == Sign::Minus { -x } else { x };
        }
        for c in (0..loose).rev() {
            if let Some(row) = lead[c] {
                delta[c] = -(c + 1..cols.len()).map(|j| m[row][j] * delta[j]).sum::<F>();
            }
        }
        return Some(cols.iter().zip(&delta).filter(|x| !x.1.is_zero()).map(|(v, d)| (*v, base[*v] + d)).collect());
    }
    None
}

/// The exponent that undoes a fifth power, where there is one.
fn fifth_root<F: PrimeField>() -> Option<Vec<u64>> {
    let m = modulus::<F>() - 1u32;
    (1u32..5).find(|k| ((&m * k) + 1u32) % 5u32 == BigUint::from(0u32)).map(|k| (((&m * k) + 1u32) / 5u32).to_u64_digits())
}

/// Goes through the rows in order and repairs those that fail by changing the
/// variable they define.
fn push<F: PrimeField>(
    t: &Rows<F>,
    vals: &mut [F],
    fixed: &mut [bool],
    (skip, careful): (bool, bool),
    at: Option<usize>,
    r: &mut Prng,
) {
    let root = fifth_root::<F>();
    for (i, row) in t.rows.iter().enumerate() {
        if row.io || row.at(vals).is_zero() || (skip && row.base().is_some()) {
            continue;
        }
        if at.is_some_and(|at| row.carry_over(vals, fixed, at)) {
            continue;
        }
        let mut c: Vec<Variable> = vec![];
        for v in row.w {
            if !fixed[v] && v > 1 && !c.contains(&v) {
                c.push(v);
            }
        }
        let new: Vec<Variable> = c.iter().copied().filter(|v| t.first[*v] == i).collect();
        // of several, the next row may decide one
        let next = t.rows.get(i + 1).filter(|n| careful && new.len() > 1 && !n.io);
        if let Some(n) = next.filter(|n| !n.at(vals).is_zero()) {
            let both: Vec<Variable> = new.iter().copied().filter(|v| n.w.contains(v)).collect();
            if let [v] = both[..] {
                if let Some(x) = n.solve(vals, v, root.as_ref()) {
                    vals[v] = x;
                    fixed[v] = true;
                }
            }
            if row.at(vals).is_zero() {
                continue;
            }
        }
        let mut c = if new.is_empty() {
            c.sort();
            c.reverse();
            c.truncate(1);
            c
        } else {
            new
        };
        c.retain(|v| !fixed[*v]);
        if r.chance(1, 2) && !careful {
            r.shuffle(&mut c);
        } else {
            c.sort_by_key(|v| usize::from(row.w[4] != *v));
        }
        let mut worse = None;
        for v in c {
            if let Some(x) = row.solve(vals, v, root.as_ref()) {
                let old = std::mem::replace(&mut vals[v], x);
                if next.is_some_and(|n| n.w.contains(&v) && !n.at(vals).is_zero()) {
                    vals[v] = old;
                    worse.get_or_insert((v, x));
                    continue;
                }
                fixed[v] = true;
                worse = None;
                break;
            }
        }
        if let Some((v, x)) = worse {
            vals[v] = x;
            fixed[v] = true;
        }
    }
}

fn altered<F: PrimeField>(x: F, vals: &[F], r: &mut Prng) -> F {
    match r.below(11) {
        0 => F::zero(),
        1 => F::one(),
        2 => -x,
        3 => x + F::one(),
        4 => x - F::one(),
        5 => F::one() - x,
        6 => x.double(),
        7 => *r.pick(vals),
        8 => x + F::from(2u64).pow([r.below(F::MODULUS_BIT_SIZE as u64)]),
        9 => x - F::from(2u64).pow([r.below(F::MODULUS_BIT_SIZE as u64)]),
        _ => elem(r),
    }
}

/// The witness a lying prover would present.
fn lie<F: PrimeField>(
    op: &Op,
    a: &Made<F>,
    base: &[F],
    other: Option<&[F]>,
    t: &mut Option<Rows<F>>,
) -> Option<(Vec<F>, &'static str)> {
    let r = &mut Prng::new(op.arg(0));
    let mut v = base.to_vec();
    let mut fixed = vec![false; v.len()];
    fixed[0] = true;
    fixed[1] = true;
    let mut at = None;
    let mut what = "";
    let n = v.len() as u64;
    let pick = |r: &mut Prng| -> usize {
        if !a.seen.is_empty() && r.chance(1, 2) {
            *r.pick(&a.seen)
        } else if r.chance(1, 20) {
            r.below(2) as usize
        } else {
            r.below(n) as usize
        }
    };
    match op.k.as_str() {
        "one" => {
            let mut i = pick(r);
            if r.chance(1, 4) {
                // something that little else depends on
                if t.is_none() {
                    *t = rows(&a.c).ok();
                }
                let few: Vec<Variable> = (2..v.len()).filter(|v| t.as_ref().is_some_and(|t| t.uses[*v] == 1)).collect();
                if !few.is_empty() {
                    i = *r.pick(&few);
                }
            }
            v[i] = altered(v[i], base, r);
            fixed[i] = true;
        },
        "two" => {
            let (i, j) = (pick(r), pick(r));
            let d: F = match r.below(3) {
                0 => F::one(),
                1 => F::from(2u64).pow([r.below(250)]),
                _ => elem(r),
            };
            v[i] += d;
            if r.chance(2, 3) {
                v[j] -= d;
            } else {
                v[j] += d;
            }
            fixed[i] = true;
            fixed[j] = true;
        },
        "none" | "hint" => {
            // a lie made for the circuit, where there is one
            if let Some((w, new)) = a.alt.as_ref().filter(|_| op.k == "hint" || r.chance(3, 4)).and_then(|f| f(r, base)) {
                what = w;
                for (i, x) in new.into_iter().filter(|x| x.0 < base.len()) {
                    v[i] = x;
                    fixed[i] = true;
                }
            }
        },
        "fit" => {
            if t.is_none() {
                *t = rows(&a.c).ok();
            }
            for (i, x) in fitting(t.as_ref()?, base, &a.seen, r)? {
                v[i] = x;
                fixed[i] = true;
            }
        },
        "carry" => {
            if t.is_none() {
                *t = rows(&a.c).ok();
            }
            let with: Vec<&Row<F>> = t.as_ref()?.rows.iter().filter(|r| r.carry().is_some()).collect();
            if with.is_empty() {
                return None;
            }
            let row = *r.pick(&with);
            let i = row.w[r.below(5) as usize];
            v[i] = if r.chance(1, 2) { F::one() - v[i] } else { altered(v[i], base, r) };
            fixed[i] = true;
            at = Some(r.below(5) as usize);
        },
        _ => {
            let o = other?;
            let (lo, hi) = match r.below(4) {
                0 => (0, r.below(n) as usize),
                1 => (r.below(n) as usize, n as usize),
                _ => {
                    let s = r.below(n);
                    let len = r.size(n - s) + 1;
                    (s as usize, ((s + len) as usize).min(n as usize))
                },
            };
            let keep = r.below(3);
            for i in lo..hi {
                if keep != 0 || r.chance(1, 2) {
                    v[i] = o[i];
                    fixed[i] = true;
                }
            }
            if r.chance(1, 3) {
                // take the whole of the other's visible values too
                for i in &a.seen {
                    if r.chance(1, 2) {
                        v[*i] = o[*i];
                        fixed[*i] = true;
                    }
                }
            }
        },
    }
    if op.arg(1) > 0 {
        if t.is_none() {
            *t = rows(&a.c).ok();
        }
        if r.chance(1, 4) && what.is_empty() && op.k != "fit" {
            // only the visible values stay as claimed
            fixed.iter_mut().for_each(|x| *x = false);
            a.seen.iter().for_each(|i| fixed[*i] = true);
        }
        let rewrite = if what.is_empty() { op.arg(2) } else { 1 };
        if rewrite == 2 {
            let at = numbers(t.as_ref()?);
            if !at.is_empty() {
                digits(t.as_ref()?, &mut v, Some(*r.pick(&at)));
                look(t.as_ref()?, &mut v, &mut fixed);
            }
        }
        let careful = !what.is_empty() || r.chance(1, 3);
        for _ in 0..op.arg(1) + 2 * u64::from(!what.is_empty()) {
            push(t.as_ref()?, &mut v, &mut fixed, (rewrite > 0, careful), at, r);
            if rewrite == 1 {
                digits(t.as_ref()?, &mut v, None);
                look(t.as_ref()?, &mut v, &mut fixed);
            }
        }
    }
    Some((v, what))
}

/// Lies for a plan.
pub fn lies(r: &mut Prng, n: u64) -> Vec<Op> {
    (0..n)
        .map(|_| {
            let k = *r.pick(&["one", "one", "two", "splice", "splice", "carry", "fit", "none"]);
            if k == "fit" {
                return Op::new(k, &[r.next(), 2, 1]);
            }
            if k == "carry" {
                return Op::new(k, &[r.next(), r.range(1, 2), 1]);
            }
            if k == "none" {
                return Op::new(k, &[r.next(), r.range(1, 2), 2]);
            }
            let passes = *r.pick(&[0u64, 1, 1, 1, 2]);
            Op::new(k, &[r.next(), passes, *r.pick(&[0, 0, 1, 1, 2])])
        })
        .collect()
}

/// cfg: [kind, curve, shape seed, values, other values, range bits or 0, threads or 0]
pub fn judge<F: PrimeField>(name: &str, make: &Make<F>, plan: &Plan, ctx: &mut Ctx) {
    let a = match ctx.must(&format!("build {name}"), || make(plan.c(3))) {
        Some(Ok(a)) => a,
        Some(Err(e)) => {
            ctx.violate(&format!("refused:{name}"), format!("{e:?}"));
            return;
        },
        None => return,
    };
    let mut a = a;
    let class = |w: &str, note: &str| if note.is_empty() { format!("{w}:{name}") } else { format!("{w}:{name}:{note}") };
    ctx.event("built", name.as_bytes());
    ctx.state(mix(&[sim::hash_bytes(0, name.as_bytes()), a.c.num_gates() as u64, a.want as u64]));
    let truth = (a.truth)(&a.seen_values());
    // trees may be asked about a commitment nobody knows
    let open = name.ends_with("member");
    if !ctx.check(!a.want || truth.unwrap_or(open), &class("value", a.note), || format!("statement is {truth:?}")) {
        return;
    }
    let off = a.gives.iter().find(|(v, x)| a.c.witness(*v).ok() != Some(*x));
    if !ctx.check(off.is_none(), &class("value", a.note), || format!("{off:?} is what the native library gives")) {
        return;
    }
    let Some(ok) = ctx.must("check", || a.accepts()) else { return };
    if !ctx.check(ok == a.want, &class("satisfied", a.note), || format!("circuit satisfied: {ok}, native says {}", a.want)) {
        return;
    }
    let base = a.values();
    if plan.c(6) > 0 {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(plan.c(6) as usize).build().unwrap();
        let seed = plan.c(3);
        // circuits cannot leave their thread: only the witness does
        struct Ptr<T>(T);
        unsafe impl<T> Send for Ptr<T> {}
        unsafe impl<T> Sync for Ptr<T> {}
        let m = Ptr(make);
        let same = ctx.must("build in a pool", || {
            pool.install(|| {
                let m = &m;
                (m.0)(seed).map(|b| b.values()).ok()
            })
        });
        drop(pool);
        let Some(same) = same else { return };
        if !ctx.check(same.as_ref() == Some(&base), &class("schedule", ""), || "another witness under threads".into()) {
            return;
        }
    }
    // the same circuit on other values
    let more = match a.c.num_gates() {
        _ if name.ends_with("gate") || name.starts_with("pt") => 6,
        0..=8_000 => 2,
        _ => 0,
    };
    for i in 0..more {
        let b = match ctx.must(&format!("build {name}"), || make(mix(&[plan.c(3), i, 77]))) {
            Some(Ok(b)) => b,
            Some(Err(_)) | None => return,
        };
        ctx.state(mix(&[sim::hash_bytes(0, name.as_bytes()), b.c.num_gates() as u64, b.want as u64]));
        let truth = (b.truth)(&b.seen_values());
        if !ctx.check(!b.want || truth.unwrap_or(open), &class("value", b.note), || format!("statement is {truth:?}")) {
            return;
        }
        let off = b.gives.iter().find(|(v, x)| b.c.witness(*v).ok() != Some(*x));
        if !ctx.check(off.is_none(), &class("value", b.note), || format!("{off:?} is what the native library gives")) {
            return;
        }
        let Some(ok) = ctx.must("check", || b.accepts()) else { return };
        if !ctx.check(ok == b.want, &class("satisfied", b.note), || format!("circuit satisfied: {ok}, native says {}", b.want)) {
            return;
        }
    }
    let other = if plan.ops.iter().any(|o| o.k == "splice") {
        match ctx.must(&format!("build {name}"), || make(plan.c(4))) {
            Some(Ok(b)) => Some(b.values()),
            Some(Err(_)) => None,
            None => return,
        }
    } else {
        None
    };
    let other = other.filter(|o| o.len() == base.len());
    let mut t = None;
    // taking a large circuit apart is slow
    let apart = match a.c.num_gates() {
        0..=8_000 => true,
        8_001..=40_000 => mix(&[plan.c(2)]) % 4 == 0,
        40_001..=70_000 => mix(&[plan.c(2)]) % 12 == 0,
        _ => mix(&[plan.c(2)]) % 300 == 0,
    };
    for op in &plan.ops {
        if !apart && op.arg(1) > 0 {
            continue;
        }
        let Some((v, what)) = lie(op, &a, &base, other.as_deref(), &mut t) else { continue };
        a.put(&v);
        ctx.fault(&format!("lie:{}{}", op.k, if op.arg(1) > 0 { " carried forward" } else { "" }));
        let Some(ok) = ctx.must("check", || a.accepts()) else { return };
        if ok {
            let s = (a.truth)(&a.seen_values());
            ctx.mark(match s {
                Some(true) => "another true statement accepted",
                Some(false) => "false statement accepted",
                None => "accepted outside the promise",
            });
            if !ctx.check(s != Some(false), &class("unsound", what), || format!("{op:?} accepted with a false statement")) {
                return;
            }
        }
    }
    a.put(&base);
    let Some(ok) = ctx.must("check", || a.accepts()) else { return };
    ctx.check(ok == a.want, &class("satisfied", a.note), || "answer changed after restoring the witness".into());
}

/// What preprocessing would use of the circuit.
fn shape<F: PrimeField>(c: &PlonkCircuit<F>) -> Result<Vec<(&'static str, u64)>, CircuitError> {
    let mut d = c.clone();
    if c.num_gates() > 60_000 {
        // too slow to take apart
        return Ok(vec![
            ("variables", c.num_vars() as u64),
            ("gates", c.num_gates() as u64),
            ("inputs", c.num_inputs() as u64),
        ]);
    }
    d.finalize_for_arithmetization()?;
    let h = |v: &dyn Fn(&mut Vec<u8>)| {
        let mut b = vec![];
        v(&mut b);
        sim::hash_bytes(0, &b)
    };
    let mut out = vec![
        ("variables", c.num_vars() as u64),
        ("gates", c.num_gates() as u64),
        ("inputs", c.num_inputs() as u64),
        ("domain", d.eval_domain_size()? as u64),
    ];
    let s = d.compute_selector_polynomials()?;
    out.push(("selectors", h(&|b| s.serialize_uncompressed(b).unwrap())));
    let s = d.compute_extended_permutation_polynomials()?;
    out.push(("wiring", h(&|b| s.serialize_uncompressed(b).unwrap())));
    if d.support_lookup() {
        let s = d.compute_range_table_polynomial()?;
        out.push(("range table", h(&|b| s.serialize_uncompressed(b).unwrap())));
        let s = d.compute_key_table_polynomial()?;
        out.push(("table keys", h(&|b| s.serialize_uncompressed(b).unwrap())));
        let s = d.compute_table_dom_sep_polynomial()?;
        out.push(("table tags", h(&|b| s.serialize_uncompressed(b).unwrap())));
        let s = d.compute_q_dom_sep_polynomial()?;
        out.push(("lookup tags", h(&|b| s.serialize_uncompressed(b).unwrap())));
    }
    Ok(out)
}

/// Two builds of one shape with different values must preprocess alike.
pub fn alike<F: PrimeField>(name: &str, make: &Make<F>, plan: &Plan, ctx: &mut Ctx) {
    let mut first: Option<Vec<(&'static str, u64)>> = None;
    let mut large = false;
    let mut seeds = vec![plan.c(3), plan.c(4)];
    seeds.extend(plan.ops.iter().filter(|o| o.k == "again").map(|o| o.arg(0)));
    for (k, seed) in seeds.into_iter().enumerate() {
        if large && k > 1 {
            break;
        }
        let m = match ctx.must(&format!("build {name}"), || make(seed)) {
            Some(Ok(m)) => m,
            // whether a value is refused is not this property's concern
            Some(Err(_)) => continue,
            None => return,
        };
        large = m.c.num_gates() > 20_000;
        let Some(Ok(s)) = ctx.must("arithmetise", || shape(&m.c)) else { return };
        ctx.event("built", format!("{name} {k} {s:?}").as_bytes());
        ctx.state(mix(&[sim::hash_bytes(0, name.as_bytes()), s.iter().fold(0, |a, x| mix(&[a, x.1]))]));
        match &first {
            None => first = Some(s),
            Some(f) => {
                let d: Vec<&str> = f.iter().zip(&s).filter(|(x, y)| x != y).map(|(x, _)| x.0).collect();
                if !ctx.check(d.is_empty(), &format!("shape:{name}"), || format!("differs with the values: {d:?}")) {
                    return;
                }
            },
        }
    }
}
