//! K02: honest openings.  K03: openings altered on the way to the verifier.
use crate::{on_curve, rng::SimRng, util::*};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{PrimeField, Zero};
use ark_poly::{EvaluationDomain, Polynomial};
use jf_pcs::{prelude::*, UnivariatePCS};
use sim::*;

pub struct K02;
pub struct K03;

fn degree(r: &mut Prng, max: u64) -> u64 {
    match r.below(6) {
        0 => r.below(3),
        1 => (1u64 << r.below(7)).min(max).saturating_sub(r.below(2)),
        2 => (1u64 << r.below(7)).min(max - 1) + r.below(2),
        _ => r.size(max),
    }
    .min(max)
}

impl World for K02 {
    fn property(&self) -> &'static str {
        "K02"
    }
    fn budget(&self, tier: Tier) -> (u64, u64) {
        match tier {
            Tier::Quick => (8_000, 40),
            Tier::Thorough => (3_000_000, 500),
        }
    }
    fn step_cap(&self) -> u64 {
        8_000_000_000
    }
    fn prepare(&self) {
        prepare()
    }
    /// cfg: [curve, pool]; op: [seed, degree, count, slack]
    fn gen(&self, r: &mut Prng, tier: Tier) -> Plan {
        let max = if tier == Tier::Thorough { 120 } else { 40 };
        let n = r.range(1, 4);
        let ops = (0..n)
            .map(|_| {
                let k = *r.pick(&[
                    "single", "single", "batch", "multi", "rou", "rou", "points", "ml", "ml_batch", "ml_batch",
                ]);
                let k2 = if r.chance(1, 60) { "multi_many" } else { k };
                if r.chance(1, 400) {
                    let d = r.range(256, 700);
                    let k = if r.chance(1, 2) { "multi" } else { "rou" };
                    return Op::new(k, &[r.next(), *r.pick(&[255, 256, 511, 512, d]), 1, 0]);
                }
                Op::new(k2, &[r.next(), degree(r, max), r.size(13), r.below(4)])
            })
            .collect();
        let threaded = r.chance(1, 6);
        Plan {
            cfg: vec![r.below(8), threaded as u64],
            ops,
            sched: if threaded { gen_schedule(r, 22) } else { Schedule::quiet() },
        }
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) {
        if plan.c(1) == 0 {
            alone();
        }
        on_curve!(plan.c(0), k02(plan, ctx))
    }
    fn rule(&self) -> &'static str {
        "for each polynomial and point set: the value equals the definition, the proof verifies, and the \
         batch, multi-point and root-of-unity forms equal the single openings"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
}

macro_rules! ok {
    ($ctx:expr, $label:expr, $class:expr, $e:expr) => {{
        let Some(x) = $ctx.must($label, || e2s($e)) else { return };
        match x {
            Ok(x) => x,
            Err(e) => {
                $ctx.violate($class, format!("{} failed: {e}", $label));
                return;
            },
        }
    }};
}

fn k02<E: Cv>(plan: &Plan, ctx: &mut Ctx) {
    for o in &plan.ops {
        let mut r = Prng::new(o.arg(0));
        let d = o.usize(1).min(DEG - 6);
        let k = o.usize(2).max(1);
        ctx.state(mix(&[hash_bytes(0, o.k.as_bytes()), d as u64, k as u64]));
        match o.k.as_str() {
            "ml" => k02_ml::<E>(o, ctx),
            "ml_batch" => k02_ml_batch::<E>(o, ctx),
            x => {
                let srs = E::uni(o.arg(0));
                let sup = match x {
                    "multi" | "rou" | "multi_many" => {
                        let d = if x == "multi_many" { d % 6 } else { d };
                        jf_pcs::checked_fft_size(d).unwrap()
                    },
                    _ => d + o.usize(3),
                };
                let d = if x == "multi_many" { d % 6 } else { d };
                let (ck, vk) =
                    ok!(ctx, "trim", "refused:trim", srs.trim_with_verifier_degree(sup.min(DEG), VDEG));
                let p: Poly<E::ScalarField> = poly(&mut r, d);
                let c = ok!(ctx, "commit", "refused:commit", Uni::<E>::commit(&ck, &p));
                ctx.event("commit", &by(&c));
                let mut want = E::G1::zero();
                for (g, a) in srs.powers_of_g.iter().zip(&p.coeffs) {
                    want += *g * a;
                }
                ctx.check(c.0 == want.into_affine(), "commit:value", || {
                    format!("{}: commitment of a degree-{d} polynomial is not its value at the secret point", E::NAME)
                });
                match x {
                    "single" => {
                        for _ in 0..2 {
                            let z = point(&mut r);
                            let (pr, v) = ok!(ctx, "open", "refused:open", Uni::<E>::open(&ck, &p, &z));
                            ctx.check(v == value(&p, z), "open:value", || {
                                format!("{}: opened value differs from the polynomial at {z}", E::NAME)
                            });
                            let a = ok!(ctx, "verify", "refused:verify", Uni::<E>::verify(&vk, &c, &z, &v, &pr));
                            ctx.check(a, "open:rejected", || {
                                format!("{}: honest opening at {z}, degree {d}, rejected", E::NAME)
                            });
                        }
                    },
                    "batch" => {
                        let ps: Vec<_> = (0..k)
                            .map(|i| {
                                if i > 0 && r.chance(1, 6) {
                                    return p.clone();
                                }
                                let x = r.below(d as u64 + 1) as usize;
                                poly(&mut r, x)
                            })
                            .collect();
                        let mut zs: Vec<_> = (0..k).map(|_| point(&mut r)).collect();
                        if r.chance(1, 4) {
                            let z = zs[0];
                            zs.fill(z);
                        }
                        let cs = ok!(ctx, "batch_commit", "refused:batch_commit", Uni::<E>::batch_commit(&ck, &ps));
                        if r.chance(1, 4) {
                            // lists that do not belong together
                            ctx.fault("mismatched_lists");
                            let (mut ps, mut zs) = (ps.clone(), zs.clone());
                            match r.below(4) {
                                0 => zs.truncate(r.below(k as u64) as usize),
                                1 => zs.push(point(&mut r)),
                                2 => ps.truncate(r.below(k as u64) as usize),
                                _ => ps.push(p.clone()),
                            }
                            let Some(x) = ctx.must("batch_open", || e2s(Uni::<E>::batch_open(&ck, &cs, &ps, &zs))) else {
                                return;
                            };
                            ctx.check(x.is_err(), "batch:mismatched-lists", || {
                                format!("{}: {} polynomials were opened at {} points", E::NAME, ps.len(), zs.len())
                            });
                        }
                        let (bp, vs) =
                            ok!(ctx, "batch_open", "refused:batch_open", Uni::<E>::batch_open(&ck, &cs, &ps, &zs));
                        ctx.check(cs.len() == k && bp.len() == k && vs.len() == k, "batch:length", || {
                            format!("{k} polynomials gave {} commitments, {} proofs, {} values", cs.len(), bp.len(), vs.len())
                        });
                        for i in 0..k {
                            let c1 = ok!(ctx, "commit", "refused:commit", Uni::<E>::commit(&ck, &ps[i]));
                            let o1 = ok!(ctx, "open", "refused:open", Uni::<E>::open(&ck, &ps[i], &zs[i]));
                            ctx.check(cs[i] == c1, "batch:commit-differs", || format!("member {i} of {k}"));
                            ctx.check(vs[i] == value(&ps[i], zs[i]), "open:value", || format!("member {i} of {k}"));
                            ctx.check((bp[i].clone(), vs[i]) == o1, "batch:open-differs", || format!("member {i} of {k}"));
                        }
                        let mut rg = if r.chance(1, 4) { SimRng::stuck(r.below(2)) } else { SimRng::new(r.next()) };
                        let a = ok!(
                            ctx,
                            "batch_verify",
                            "refused:batch_verify",
                            Uni::<E>::batch_verify(&vk, &cs, &zs, &vs, &bp, &mut rg)
                        );
                        ctx.check(a, "batch:rejected", || format!("{}: honest batch of {k} rejected", E::NAME));
                    },
                    "multi" | "multi_many" => {
                        let k = if x == "multi_many" { 700 + k * 30 } else { k };
                        let mut zs: Vec<_> = (0..k).map(|_| point(&mut r)).collect();
                        if k > 1 && r.chance(1, 4) {
                            zs[k - 1] = zs[0];
                        }
                        let (prs, vs) =
                            ok!(ctx, "multi_open", "refused:multi_open", Uni::<E>::multi_open(&ck, &p, &zs));
                        ctx.check(prs.len() == k && vs.len() == k, "multi:length", || {
                            format!("{k} points gave {} proofs, {} values", prs.len(), vs.len())
                        });
                        let n = if k > 100 { 3 } else { k };
                        for j in 0..n {
                            let i = if k > 100 { r.below(k as u64) as usize } else { j };
                            let o1 = ok!(ctx, "open", "refused:open", Uni::<E>::open(&ck, &p, &zs[i]));
                            ctx.check((prs[i].clone(), vs[i]) == o1, "multi:differs", || {
                                format!("{}: multi-opening differs from the single one at {} (degree {d})", E::NAME, zs[i])
                            });
                        }
                        let i = r.below(k as u64) as usize;
                        let a = ok!(ctx, "verify", "refused:verify", Uni::<E>::verify(&vk, &c, &zs[i], &vs[i], &prs[i]));
                        ctx.check(a, "multi:rejected", || format!("{}: opening {i} of {k} rejected", E::NAME));
                    },
                    "rou" => {
                        let k = if r.chance(1, 6) { k * 9 } else { k };
                        // declared degree may exceed the actual one
                        let dd = d + if r.chance(1, 3) { o.usize(3) } else { 0 };
                        let dom = ok!(
                            ctx,
                            "eval_domain",
                            "refused:domain",
                            Uni::<E>::multi_open_rou_eval_domain(dd, k)
                        );
                        ctx.check(dom.size() >= k, "rou:domain", || format!("domain {} for {k} points", dom.size()));
                        let (prs, vs) =
                            ok!(ctx, "multi_open_rou", "refused:rou", Uni::<E>::multi_open_rou(&ck, &p, k, &dom));
                        ctx.check(prs.len() == k && vs.len() == k, "rou:length", || {
                            format!("{}: {k} points, degree {d}, gave {} proofs, {} values", E::NAME, prs.len(), vs.len())
                        });
                        let pr2 = ok!(
                            ctx,
                            "multi_open_rou_proofs",
                            "refused:rou",
                            Uni::<E>::multi_open_rou_proofs(&ck, &p, k, &dom)
                        );
                        let ev2 =
                            ok!(ctx, "multi_open_rou_evals", "refused:rou", Uni::<E>::multi_open_rou_evals(&p, k, &dom));
                        ctx.check(prs == pr2 && vs == ev2, "rou:differs", || "the parts differ from the whole".into());
                        if r.chance(1, 4) {
                            // a domain not made for this polynomial
                            ctx.fault("other_domain");
                            let d2 = r.below(2 * d as u64 + 2) as usize;
                            let dom = Uni::<E>::multi_open_rou_eval_domain(d2, 1).unwrap();
                            let n = 1 + r.below(dom.size().min(9) as u64) as usize;
                            let Some(x) = ctx.must("multi_open_rou_evals", || {
                                e2s(Uni::<E>::multi_open_rou_evals(&p, n, &dom))
                            }) else {
                                return;
                            };
                            let want: Vec<_> = dom.elements().take(n).map(|z| value(&p, z)).collect();
                            ctx.check(x.map_or(true, |x| x == want), "rou:value", || {
                                format!("{}: degree {d} on a domain of {}", E::NAME, dom.size())
                            });
                        }
                        for i in 0..k {
                            let z = dom.element(i);
                            ctx.check(vs[i] == value(&p, z), "rou:value", || format!("value {i} of {k}, degree {d}"));
                            if i < 6 || r.chance(1, 6) {
                                let o1 = ok!(ctx, "open", "refused:open", Uni::<E>::open(&ck, &p, &z));
                                ctx.check((prs[i].clone(), vs[i]) == o1, "rou:differs", || {
                                    format!("{}: root-of-unity opening {i} of {k} differs from the single one (degree {d})", E::NAME)
                                });
                            }
                        }
                        let i = r.below(k as u64) as usize;
                        let a = ok!(
                            ctx,
                            "verify",
                            "refused:verify",
                            Uni::<E>::verify(&vk, &c, &dom.element(i), &vs[i], &prs[i])
                        );
                        ctx.check(a, "rou:rejected", || format!("{}: opening {i} of {k} rejected", E::NAME));
                    },
                    _ => {
                        let mut zs: Vec<E::ScalarField> = vec![];
                        for _ in 0..k {
                            let z = point(&mut r);
                            if !zs.contains(&z) {
                                zs.push(z);
                            }
                        }
                        let (pr, vs) = ok!(
                            ctx,
                            "multi_point_open",
                            "refused:points",
                            Uni::<E>::multi_point_open(&ck, &p, &zs)
                        );
                        ctx.check(vs.len() == zs.len(), "points:length", || format!("{} values", vs.len()));
                        for (z, v) in zs.iter().zip(&vs) {
                            ctx.check(*v == value(&p, *z), "points:value", || format!("at {z}"));
                        }
                        let a = ok!(
                            ctx,
                            "multi_point_verify",
                            "refused:points-verify",
                            Uni::<E>::multi_point_verify(&vk, &c, &zs, &vs, &pr)
                        );
                        ctx.check(a, "points:rejected", || {
                            format!("{}: honest opening at {} points, degree {d}, rejected", E::NAME, zs.len())
                        });
                        if zs.len() == 1 {
                            let o1 = ok!(ctx, "open", "refused:open", Uni::<E>::open(&ck, &p, &zs[0]));
                            ctx.check((pr, vs[0]) == o1, "points:differs", || "one point".into());
                        }
                    },
                }
            },
        }
    }
}

fn k02_ml<E: Cv>(o: &Op, ctx: &mut Ctx) {
    let mut r = Prng::new(o.arg(0));
    let nv = 1 + o.usize(1) % 6;
    let sup = (nv + o.usize(3)).min(NV);
    let (ck, vk) = ok!(ctx, "trim", "refused:trim", Ml::<E>::trim(E::ml(o.arg(0)), 1, Some(sup)));
    let p: MLE<E::ScalarField> = mle(&mut r, nv);
    let c = ok!(ctx, "ml_commit", "refused:ml_commit", Ml::<E>::commit(&ck, &p));
    ctx.event("ml_commit", &by(&c));
    let zs: Vec<_> = (0..2).map(|_| ml_point(&mut r, nv)).collect();
    let (prs, vs) = ok!(ctx, "ml_multi_open", "refused:ml_multi_open", Ml::<E>::multi_open(&ck, &p, &zs));
    for i in 0..zs.len() {
        let (pr, v) = ok!(ctx, "ml_open", "refused:ml_open", Ml::<E>::open(&ck, &p, &zs[i]));
        ctx.check(v == ml_value(&p, &zs[i]), "ml:value", || {
            format!("{}: multilinear value differs from the definition, {nv} variables", E::NAME)
        });
        ctx.check(pr == prs[i] && v == vs[i], "ml:multi-differs", || format!("point {i}"));
        let a = ok!(ctx, "ml_verify", "refused:ml_verify", Ml::<E>::verify(&vk, &c, &zs[i], &v, &pr));
        ctx.check(a, "ml:rejected", || {
            format!("{}: honest multilinear opening rejected, {nv} of {sup} variables", E::NAME)
        });
    }
}

/// `(commitment, proof, values, polynomials, points, keys)` of an honest batch.
struct MlBatch<E: Cv> {
    ck: <MlSrs<E> as StructuredReferenceString>::ProverParam,
    vk: <MlSrs<E> as StructuredReferenceString>::VerifierParam,
    ps: Vec<MLE<E::ScalarField>>,
    zs: Vec<Vec<E::ScalarField>>,
    c: Commitment<E>,
    proof: MultilinearKzgBatchProof<E>,
    vs: Vec<E::ScalarField>,
}
fn ml_batch<E: Cv>(o: &Op, ctx: &mut Ctx, r: &mut Prng) -> Option<MlBatch<E>> {
    let k = 1 + o.usize(2) % 7;
    let nv = 1 + o.usize(1) % 5;
    let m = get_batched_nv(nv, k);
    let slack = if o.arg(3) == 3 { NV - m } else { 0 };
    let (ck, vk) = Ml::<E>::trim(E::ml(o.arg(0)), MLDEG, Some(m + slack)).ok()?;
    let ps: Vec<_> = (0..k).map(|_| mle(r, nv)).collect();
    let mut zs: Vec<_> = (0..k).map(|_| ml_point(r, nv)).collect();
    if r.chance(1, 6) {
        let z = zs[0].clone();
        zs.fill(z);
    }
    let c = ctx.must("ml_batch_commit", || e2s(Ml::<E>::batch_commit(&ck, &ps)))?;
    let c = match c {
        Ok(c) => c,
        Err(e) => {
            ctx.violate("refused:ml_batch_commit", e);
            return None;
        },
    };
    let x = ctx.must("ml_batch_open", || e2s(Ml::<E>::batch_open(&ck, &c, &ps, &zs)))?;
    match x {
        Ok((proof, vs)) => Some(MlBatch { ck, vk, ps, zs, c, proof, vs }),
        Err(e) => {
            ctx.violate(
                "refused:ml_batch_open",
                format!("{}: batch opening of {k} polynomials in {nv} variables failed: {e}", E::NAME),
            );
            None
        },
    }
}
fn k02_ml_batch<E: Cv>(o: &Op, ctx: &mut Ctx) {
    let mut r = Prng::new(o.arg(0));
    let Some(b) = ml_batch::<E>(o, ctx, &mut r) else { return };
    ctx.event("ml_batch", &by(&b.proof));
    if r.chance(1, 4) {
        // lists that do not belong together
        ctx.fault("mismatched_lists");
        let (mut ps, mut zs) = (b.ps.clone(), b.zs.clone());
        let (k, nv) = (ps.len(), ps[0].num_vars);
        match r.below(4) {
            0 => zs.truncate(r.below(k as u64) as usize),
            1 => zs.push(ml_point(&mut r, nv)),
            2 => {
                ps.pop();
            },
            _ => {
                let i = r.below(k as u64) as usize;
                let n = if nv > 1 && r.chance(1, 2) { nv - 1 } else { nv + 1 };
                ps[i] = mle(&mut r, n);
                if r.chance(1, 2) {
                    zs[i] = ml_point(&mut r, n);
                }
                let Some(x) = ctx.must("ml_batch_commit", || e2s(Ml::<E>::batch_commit(&b.ck, &ps))) else { return };
                ctx.check(k == 1 || x.is_err(), "ml_batch:mismatched-lists", || {
                    format!("{}: a polynomial in {n} variables committed with others in {nv}", E::NAME)
                });
                if k == 1 {
                    zs.clear();
                }
            },
        }
        let Some(x) = ctx.must("ml_batch_open", || e2s(Ml::<E>::batch_open(&b.ck, &b.c, &ps, &zs))) else { return };
        ctx.check(x.is_err(), "ml_batch:mismatched-lists", || {
            format!("{}: {} polynomials opened at {} points, not all in {nv} variables", E::NAME, ps.len(), zs.len())
        });
    }
    for i in 0..b.ps.len() {
        let mut rev = b.zs[i].clone();
        rev.reverse();
        let class = if b.vs[i] == ml_value(&b.ps[i], &rev) {
            "ml_batch:value:reversed-variable-order"
        } else {
            "ml_batch:value"
        };
        ctx.check(b.vs[i] == ml_value(&b.ps[i], &b.zs[i]), class, || {
            format!("{}: value {i} of a batch of {} differs from the definition", E::NAME, b.ps.len())
        });
    }
    let a = ok!(
        ctx,
        "ml_batch_verify",
        "refused:ml_batch_verify",
        Ml::<E>::batch_verify(&b.vk, &b.c, &b.zs, &b.vs, &b.proof, &mut SimRng::new(1))
    );
    ctx.check(a, "ml_batch:rejected", || {
        format!(
            "{}: honest batch of {} polynomials in {} variables rejected (keys for {})",
            E::NAME,
            b.ps.len(),
            b.ps[0].num_vars,
            b.ck.0.num_vars
        )
    });
    if b.ps.len() == 1 {
        let c = ok!(ctx, "ml_commit", "refused:ml_commit", Ml::<E>::commit(&b.ck, &b.ps[0]));
        ctx.check(c == b.c, "ml_batch:commit-differs", || "batch of one".into());
    }
}

impl World for K03 {
    fn property(&self) -> &'static str {
        "K03"
    }
    fn budget(&self, tier: Tier) -> (u64, u64) {
        match tier {
            Tier::Quick => (10_000, 25),
            Tier::Thorough => (3_000_000, 500),
        }
    }
    fn step_cap(&self) -> u64 {
        8_000_000_000
    }
    fn prepare(&self) {
        prepare()
    }
    /// cfg: [curve, form, seed, degree, count, slack]; ops alter parts in transit
    fn gen(&self, r: &mut Prng, _: Tier) -> Plan {
        let form = r.below(5);
        let n = r.range(1, 3);
        let ops = (0..n)
            .map(|_| {
                let k = *r.pick(&[
                    "value", "value_pair", "point", "commit", "proof", "swap", "omit", "add", "key", "other", "cross",
                    "neg", "zero", "part",
                ]);
                Op::new(k, &[r.next(), r.next(), r.below(8)])
            })
            .collect();
        Plan {
            cfg: vec![r.below(8), form, r.next(), degree(r, 20), r.size(7), r.below(4)],
            ops,
            sched: Schedule::quiet(),
        }
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) {
        alone();
        on_curve!(plan.c(0), k03(plan, ctx))
    }
    fn rule(&self) -> &'static str {
        "honest openings travel to the verifier and parts are altered, exchanged, dropped or added; \
         the verifier must accept exactly when every claim is true and comes with its honest proof"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
}

/// One claim as the verifier sees it; `p` is what the commitment holds, if known.
#[derive(Clone)]
struct Claim<E: Cv> {
    p: Option<Poly<E::ScalarField>>,
    c: Commitment<E>,
    z: E::ScalarField,
    v: E::ScalarField,
    pr: UnivariateKzgProof<E>,
}
impl<E: Cv> Claim<E> {
    fn valid(&self, ck: &UnivariateProverParam<E>) -> bool {
        match &self.p {
            Some(p) => {
                let (pr, v) = Uni::<E>::open(ck, p, &self.z).unwrap();
                self.v == value(p, self.z) && v == self.v && pr == self.pr
            },
            None => false,
        }
    }
}
fn claim<E: Cv>(ck: &UnivariateProverParam<E>, r: &mut Prng, d: usize) -> Claim<E> {
    let p = poly(r, d);
    let z = point(r);
    let c = Uni::<E>::commit(ck, &p).unwrap();
    let (pr, v) = Uni::<E>::open(ck, &p, &z).unwrap();
    Claim { p: Some(p), c, z, v, pr }
}
fn nonzero<F: PrimeField>(r: &mut Prng) -> F {
    loop {
        let x: F = elem(r);
        if !x.is_zero() {
            return x;
        }
    }
}
fn other_point<E: Cv>(r: &mut Prng, g: E::G1Affine) -> E::G1Affine {
    match r.below(4) {
        0 => E::G1Affine::zero(),
        1 => (-g.into_group()).into_affine(),
        2 => (g + E::G1Affine::generator()).into_affine(),
        _ => (E::G1Affine::generator() * nonzero::<E::ScalarField>(r)).into_affine(),
    }
}

/// Another commitment, with what it holds if that is known.
fn other_commit<E: Cv>(
    r: &mut Prng,
    c: Commitment<E>,
    p: Option<Poly<E::ScalarField>>,
) -> (Commitment<E>, Option<Poly<E::ScalarField>>) {
    let n = other_point::<E>(r, c.0);
    let p = if n == c.0 {
        p
    } else if n.is_zero() {
        Some(Poly { coeffs: vec![] })
    } else if n == (-c.0.into_group()).into_affine() {
        p.map(|p| -p)
    } else {
        None
    };
    (Commitment(n), p)
}

/// Alters one claim.  `others` are honest claims of the same run.
fn alter<E: Cv>(o: &Op, k: &Claim<E>, others: &[Claim<E>], ck: &UnivariateProverParam<E>) -> Claim<E> {
    let mut r = Prng::new(o.arg(0));
    let mut x = k.clone();
    let y = &others[o.arg(1) as usize % others.len()];
    match o.k.as_str() {
        "value" => x.v += nonzero::<E::ScalarField>(&mut r),
        "point" => {
            x.z = point(&mut r);
            if o.arg(2) < 4 {
                // keep the value of the old point
            } else if let Some(p) = &x.p {
                // true value at the new point, proof of the old one
                x.v = p.evaluate(&x.z);
            }
        },
        "commit" => {
            if o.arg(2) < 4 {
                // shift polynomial and commitment by a constant: value no longer fits
                let s = nonzero::<E::ScalarField>(&mut r);
                x.c = Commitment((x.c.0 + ck.powers_of_g[0] * s).into_affine());
                if let Some(p) = &mut x.p {
                    *p = &*p + &Poly { coeffs: vec![s] };
                }
                if o.arg(2) == 0 {
                    x.v += s; // consistent again
                }
            } else {
                (x.c, x.p) = other_commit::<E>(&mut r, x.c, x.p);
            }
        },
        "proof" | "part" => x.pr.proof = other_point::<E>(&mut r, x.pr.proof),
        "neg" => {
            x.c = Commitment((-x.c.0.into_group()).into_affine());
            if let Some(p) = &mut x.p {
                *p = -p.clone();
            }
            if o.arg(2) & 1 == 1 {
                x.v = -x.v;
            }
            if o.arg(2) & 2 == 2 {
                x.pr.proof = (-x.pr.proof.into_group()).into_affine();
            }
        },
        "zero" => {
            if o.arg(2) & 1 == 1 {
                x.pr.proof = E::G1Affine::zero();
            }
            if o.arg(2) & 2 == 2 {
                x.c = Commitment(E::G1Affine::zero());
                x.p = Some(Poly { coeffs: vec![] });
            }
            if o.arg(2) & 4 == 4 {
                x.v = E::ScalarField::zero();
            }
        },
        "swap" | "cross" => match o.arg(2) % 4 {
            0 => x.v = y.v,
            1 => x.z = y.z,
            2 => x.pr = y.pr.clone(),
            _ => {
                x.c = y.c;
                x.p = y.p.clone();
            },
        },
        _ => {},
    }
    x
}

fn k03<E: Cv>(plan: &Plan, ctx: &mut Ctx) {
    match plan.c(1) {
        0 => k03_single::<E>(plan, ctx),
        1 => k03_batch::<E>(plan, ctx),
        2 => k03_points::<E>(plan, ctx),
        3 => k03_ml::<E>(plan, ctx),
        _ => k03_ml_batch::<E>(plan, ctx),
    }
}

fn keys<E: Cv>(plan: &Plan) -> (UnivariateProverParam<E>, UnivariateVerifierParam<E>, UnivariateVerifierParam<E>) {
    let d = plan.c(3) as usize + 2;
    let (ck, vk) = E::uni(0).trim_with_verifier_degree(d, VDEG).unwrap();
    let (_, vk2) = E::uni(1).trim_with_verifier_degree(d, VDEG).unwrap();
    (ck, vk, vk2)
}

fn k03_single<E: Cv>(plan: &Plan, ctx: &mut Ctx) {
    let mut r = Prng::new(plan.c(2));
    let (ck, vk, vk2) = keys::<E>(plan);
    let d = plan.c(3) as usize;
    let honest: Vec<_> = (0..3).map(|_| claim::<E>(&ck, &mut r, d)).collect();
    let mut x = honest[0].clone();
    let mut foreign = false;
    for o in &plan.ops {
        ctx.fault(&format!("altered_{}", o.k));
        if o.k == "key" {
            foreign = true;
        }
        x = alter(o, &x, &honest[1..], &ck);
        let v = if foreign { &vk2 } else { &vk };
        let Some(a) = ctx.must("verify", || e2s(Uni::<E>::verify(v, &x.c, &x.z, &x.v, &x.pr))) else { return };
        let a = a == Ok(true);
        ctx.event("verdict", &[a as u8]);
        // under foreign parameters a constant polynomial's commitment is still wrong
        // unless everything is zero
        let want = if foreign {
            x.c.0.is_zero() && x.v.is_zero() && x.pr.proof.is_zero()
        } else {
            x.valid(&ck)
        };
        ctx.state(mix(&[hash_bytes(0, o.k.as_bytes()), a as u64, want as u64]));
        verdict::<E>(ctx, "single", a, want, &format!("{o:?}"));
    }
}
fn verdict<E: Cv>(ctx: &mut Ctx, form: &str, got: bool, want: bool, what: &str) {
    if want {
        ctx.check(got, &format!("true-claim-rejected:{form}"), || {
            format!("{}: a true claim with its honest proof was rejected after {what}", E::NAME)
        });
    } else {
        ctx.check(!got, &format!("false-claim-accepted:{form}"), || {
            format!("{}: a false or altered claim was accepted after {what}", E::NAME)
        });
    }
}

/// Guesses at what one member of a batch weighs in terms of another.
fn weight_ratio<F: PrimeField>(r: &mut Prng, how: u64, i: usize, j: usize) -> F {
    let base = F::from(*r.pick(&[2u64, 2, 3, 5, 7, 31, 256, 65536]));
    let x = match how {
        0..=3 => return F::from(1u64),
        4 => base.pow([i.abs_diff(j) as u64]),
        // each weight made from the one before
        5 => base.pow([(1u64 << i.max(j)) - (1u64 << i.min(j))]),
        6 => F::from(j as u64 + 1) / F::from(i as u64 + 1),
        _ => -F::from(r.range(1, 9)) / F::from(r.range(1, 9)),
    };
    if i > j && how < 6 {
        x.inverse().unwrap()
    } else {
        x
    }
}
fn k03_batch<E: Cv>(plan: &Plan, ctx: &mut Ctx) {
    let mut r = Prng::new(plan.c(2));
    let (ck, vk, vk2) = keys::<E>(plan);
    let d = plan.c(3) as usize;
    let k = plan.c(4).max(1) as usize;
    let mut xs: Vec<_> = (0..k).map(|_| claim::<E>(&ck, &mut r, d)).collect();
    if r.chance(1, 6) {
        let x = xs[0].clone();
        xs.fill(x);
    }
    let extra: Vec<_> = (0..2).map(|_| claim::<E>(&ck, &mut r, d)).collect();
    // lengths of the four lists may come to differ
    let mut cut: [Option<usize>; 4] = [None; 4];
    let mut foreign = false;
    for o in &plan.ops {
        ctx.fault(&format!("altered_{}", o.k));
        let n = xs.len();
        let i = o.arg(1) as usize % n.max(1);
        match o.k.as_str() {
            "key" => foreign = true,
            _ if n == 0 => {},
            "value_pair" => {
                // errors that cancel unless every member has its own weight
                let j = (i + 1 + (o.arg(0) as usize % n.max(1))) % n;
                let mut r = Prng::new(o.arg(0));
                let s = nonzero::<E::ScalarField>(&mut r);
                let t = weight_ratio::<E::ScalarField>(&mut r, o.arg(2), i, j) * s;
                xs[i].v += t;
                xs[j].v -= s;
            },
            "cross" => {
                let j = o.arg(0) as usize % n;
                if i != j {
                    let (a, b) = (xs[i].clone(), xs[j].clone());
                    match o.arg(2) % 4 {
                        0 => (xs[i].v, xs[j].v) = (b.v, a.v),
                        1 => (xs[i].z, xs[j].z) = (b.z, a.z),
                        2 => (xs[i].pr, xs[j].pr) = (b.pr, a.pr),
                        _ => {
                            (xs[i].c, xs[j].c) = (b.c, a.c);
                            (xs[i].p, xs[j].p) = (b.p, a.p);
                        },
                    }
                }
            },
            "omit" => {
                if o.arg(2) == 7 {
                    xs.remove(i); // from all lists: still honest
                } else {
                    cut[o.arg(2) as usize % 4] = Some(o.arg(0) as usize % n);
                }
            },
            "add" => {
                let y = extra[0].clone();
                if o.arg(2) == 7 {
                    xs.insert(i, y);
                } else {
                    // one list longer than the others
                    let l = o.arg(2) as usize % 4;
                    for (m, c) in cut.iter_mut().enumerate() {
                        if m != l {
                            *c = Some(c.unwrap_or(n).min(n));
                        }
                    }
                    xs.push(y);
                }
            },
            _ => xs[i] = alter(o, &xs[i], &extra, &ck),
        }
        let n = xs.len();
        let len = |j: usize| cut[j].unwrap_or(n).min(n);
        let cs: Vec<_> = xs.iter().take(len(0)).map(|x| x.c).collect();
        let zs: Vec<_> = xs.iter().take(len(1)).map(|x| x.z).collect();
        let vs: Vec<_> = xs.iter().take(len(2)).map(|x| x.v).collect();
        let ps: Vec<_> = xs.iter().take(len(3)).map(|x| x.pr.clone()).collect();
        let same = cs.len() == zs.len() && zs.len() == vs.len() && vs.len() == ps.len();
        let v = if foreign { &vk2 } else { &vk };
        let mut rg = SimRng::new(o.arg(0));
        let Some(a) = ctx.must("batch_verify", || e2s(Uni::<E>::batch_verify(v, &cs, &zs, &vs, &ps, &mut rg)))
        else {
            return;
        };
        let a = a == Ok(true);
        ctx.event("verdict", &[a as u8]);
        ctx.check(!a || n < 2 || rg.drawn >= 2, "weights-not-random", || {
            format!("{}: {n} openings combined with {} random words", E::NAME, rg.drawn)
        });
        if !same {
            ctx.check(!a, "mismatched-lists-accepted", || {
                format!(
                    "{}: accepted {} commitments, {} points, {} values, {} proofs",
                    E::NAME,
                    cs.len(),
                    zs.len(),
                    vs.len(),
                    ps.len()
                )
            });
            continue;
        }
        let xs = &xs[..cs.len()];
        let want = xs.iter().all(|x| {
            if foreign {
                x.c.0.is_zero() && x.v.is_zero() && x.pr.proof.is_zero()
            } else {
                x.valid(&ck)
            }
        });
        ctx.state(mix(&[hash_bytes(0, o.k.as_bytes()), a as u64, want as u64, xs.len() as u64]));
        verdict::<E>(ctx, "batch", a, want, &format!("{o:?} in a batch of {}", xs.len()));
    }
}

fn k03_points<E: Cv>(plan: &Plan, ctx: &mut Ctx) {
    let mut r = Prng::new(plan.c(2));
    let (ck, vk, vk2) = keys::<E>(plan);
    let d = plan.c(3) as usize;
    let k = plan.c(4).max(1) as usize;
    let mut zs: Vec<E::ScalarField> = vec![];
    for _ in 0..k {
        let z = point(&mut r);
        if !zs.contains(&z) {
            zs.push(z);
        }
    }
    let mut p: Option<Poly<E::ScalarField>> = Some(poly(&mut r, d));
    let q: Poly<E::ScalarField> = poly(&mut r, d);
    let mut c = Uni::<E>::commit(&ck, p.as_ref().unwrap()).unwrap();
    let (mut pr, mut vs) = Uni::<E>::multi_point_open(&ck, p.as_ref().unwrap(), &zs).unwrap();
    let mut foreign = false;
    for o in &plan.ops {
        ctx.fault(&format!("altered_{}", o.k));
        let mut r = Prng::new(o.arg(0));
        let n = zs.len();
        let i = o.arg(1) as usize % n.max(1);
        let j = o.arg(0) as usize % n.max(1);
        match o.k.as_str() {
            _ if n == 0 || vs.is_empty() => {},
            "key" => foreign = true,
            "value" => {
                let m = vs.len();
                vs[i % m] += nonzero::<E::ScalarField>(&mut r)
            },
            "value_pair" => {
                let m = vs.len();
                let s = nonzero::<E::ScalarField>(&mut r);
                vs[i % m] += s;
                vs[j % m] -= s;
            },
            "swap" => {
                let m = vs.len();
                vs.swap(i % m, j % m)
            },
            "cross" => {
                // same claims in another order: still honest
                if vs.len() == n {
                    zs.swap(i, j);
                    vs.swap(i, j);
                }
            },
            "point" => {
                let z = point(&mut r);
                if o.arg(2) < 2 && n > 1 {
                    ctx.fault("repeated_point");
                    zs[i] = zs[(i + 1) % n];
                } else if !zs.contains(&z) {
                    zs[i] = z;
                }
            },
            "commit" | "neg" => {
                (c, p) = other_commit::<E>(&mut r, c, p);
            },
            "other" => {
                c = Uni::<E>::commit(&ck, &q).unwrap();
                p = Some(q.clone());
            },
            "zero" => {
                pr.proof = E::G1Affine::zero();
            },
            "proof" | "part" => pr.proof = other_point::<E>(&mut r, pr.proof),
            "omit" => match o.arg(2) % 3 {
                0 => {
                    zs.remove(i);
                },
                1 => {
                    vs.remove(i % vs.len());
                },
                _ if vs.len() == n => {
                    zs.remove(i);
                    vs.remove(i);
                },
                _ => {},
            },
            _ => match o.arg(2) % 3 {
                0 => zs.push(E::ScalarField::from(r.next())),
                1 => vs.push(elem(&mut r)),
                _ => {
                    zs.push(E::ScalarField::from(r.next()));
                    vs.push(elem(&mut r));
                },
            },
        }
        let v = if foreign { &vk2 } else { &vk };
        let Some(a) = ctx.must("multi_point_verify", || e2s(Uni::<E>::multi_point_verify(v, &c, &zs, &vs, &pr))) else {
            return;
        };
        let a = a == Ok(true);
        ctx.event("verdict", &[a as u8]);
        let distinct = (0..zs.len()).all(|i| !zs[..i].contains(&zs[i]));
        let truth = zs.len() == vs.len()
            && !zs.is_empty()
            && p.as_ref().is_some_and(|p| zs.iter().zip(&vs).all(|(z, v)| value(p, *z) == *v));
        let honest = truth && distinct && Uni::<E>::multi_point_open(&ck, p.as_ref().unwrap(), &zs).unwrap().0 == pr;
        let want = if foreign {
            c.0.is_zero() && pr.proof.is_zero() && vs.iter().all(|v| v.is_zero()) && zs.len() == vs.len() && !zs.is_empty()
        } else {
            honest
        };
        // repeated points may be refused, but never make a false claim true
        if !distinct {
            if !truth {
                ctx.check(!a, "false-claim-accepted:points", || format!("{}: repeated point, {o:?}", E::NAME));
            }
            continue;
        }
        ctx.state(mix(&[hash_bytes(0, o.k.as_bytes()), a as u64, want as u64, zs.len() as u64]));
        verdict::<E>(ctx, "points", a, want, &format!("{o:?} with {} points", zs.len()));
    }
}

fn k03_ml<E: Cv>(plan: &Plan, ctx: &mut Ctx) {
    let mut r = Prng::new(plan.c(2));
    let nv = 1 + plan.c(3) as usize % 5;
    let sup = (nv + plan.c(5) as usize).min(NV);
    let (ck, vk) = Ml::<E>::trim(E::ml(0), 1, Some(sup)).unwrap();
    let (_, vk2) = Ml::<E>::trim(E::ml(1), 1, Some(sup)).unwrap();
    let ps: Vec<MLE<E::ScalarField>> = (0..2).map(|_| mle(&mut r, nv)).collect();
    let zs: Vec<Vec<E::ScalarField>> = (0..2).map(|_| ml_point(&mut r, nv)).collect();
    let cs: Vec<_> = ps.iter().map(|p| Ml::<E>::commit(&ck, p).unwrap()).collect();
    let os: Vec<_> = (0..2).map(|i| Ml::<E>::open(&ck, &ps[i], &zs[i]).unwrap()).collect();
    let (mut p, mut c, mut z, mut v, mut pr) = (Some(ps[0].clone()), cs[0], zs[0].clone(), os[0].1, os[0].0.clone());
    let mut foreign = false;
    for o in &plan.ops {
        ctx.fault(&format!("altered_{}", o.k));
        let mut r = Prng::new(o.arg(0));
        let n = pr.proofs.len();
        let i = o.arg(1) as usize % n.max(1);
        match o.k.as_str() {
            "key" => foreign = true,
            "value" | "value_pair" => v += nonzero::<E::ScalarField>(&mut r),
            "point" => {
                if o.arg(2) < 2 {
                    z = zs[1].clone();
                } else if !z.is_empty() {
                    let m = z.len();
                    z[o.arg(1) as usize % m] = elem(&mut r);
                }
                if o.arg(2) & 1 == 1 && z.len() == nv {
                    if let Some(p) = &p {
                        v = ml_value(p, &z);
                    }
                }
            },
            "commit" | "neg" => {
                let x = other_point::<E>(&mut r, c.0);
                if x.is_zero() && !c.0.is_zero() {
                    p = Some(MLE::new(ark_poly::DenseMultilinearExtension::from_evaluations_vec(nv, vec![E::ScalarField::zero(); 1 << nv])));
                } else if x == (-c.0.into_group()).into_affine() {
                    p = p.map(|p| MLE::new(-(*p).clone()));
                } else if x != c.0 {
                    p = None;
                }
                c = Commitment(x);
            },
            "zero" => {
                if o.arg(2) & 1 == 1 {
                    pr.proofs.fill(E::G1Affine::zero());
                }
                if o.arg(2) & 2 == 2 {
                    v = E::ScalarField::zero();
                }
            },
            "other" => {
                p = Some(ps[1].clone());
                c = cs[1];
            },
            "cross" => match o.arg(2) % 3 {
                0 => v = os[1].1,
                1 => pr = os[1].0.clone(),
                _ => z = zs[1].clone(),
            },
            "swap" if n > 0 => {
                let j = o.arg(0) as usize % n;
                pr.proofs.swap(i, j);
            },
            "omit" => match o.arg(2) % 3 {
                0 if n > 0 => {
                    pr.proofs.remove(i);
                },
                1 if !z.is_empty() => {
                    z.pop();
                },
                _ => {
                    pr.proofs.clear();
                },
            },
            "add" => match o.arg(2) % 2 {
                0 => pr.proofs.push(other_point::<E>(&mut r, E::G1Affine::generator())),
                _ => z.push(elem(&mut r)),
            },
            _ if n > 0 => pr.proofs[i] = other_point::<E>(&mut r, pr.proofs[i]),
            _ => {},
        }
        let k = if foreign { &vk2 } else { &vk };
        let Some(a) = ctx.must("ml_verify", || e2s(Ml::<E>::verify(k, &c, &z, &v, &pr))) else { return };
        let a = a == Ok(true);
        ctx.event("verdict", &[a as u8]);
        let zero = c.0.is_zero() && v.is_zero() && pr.proofs.iter().all(|x| x.is_zero());
        let fits = z.len() == nv && pr.proofs.len() == nv;
        let want = if foreign {
            // the zero polynomial is committed to alike under all parameters
            if zero {
                continue;
            }
            false
        } else if !fits {
            let parts = pr.proofs.iter().chain(&os[0].0.proofs).chain(&os[1].0.proofs);
            if z.len() == pr.proofs.len() && parts.into_iter().any(|x| x.is_zero()) {
                continue; // may be a polynomial of fewer variables
            }
            false
        } else {
            p.as_ref().is_some_and(|p| v == ml_value(p, &z) && Ml::<E>::open(&ck, p, &z).unwrap().0 == pr)
        };
        ctx.state(mix(&[hash_bytes(0, o.k.as_bytes()), a as u64, want as u64, nv as u64]));
        verdict::<E>(ctx, "ml", a, want, &format!("{o:?}, {nv} of {sup} variables"));
    }
}

fn k03_ml_batch<E: Cv>(plan: &Plan, ctx: &mut Ctx) {
    let mut r = Prng::new(plan.c(2));
    let o = Op::new("", &[0, plan.c(3) % 4, plan.c(4), 0]);
    let Some(b) = ml_batch::<E>(&o, ctx, &mut r) else { return };
    let (_, vk2) = Ml::<E>::trim(E::ml(1), MLDEG, Some(b.vk.0.num_vars)).unwrap();
    let (mut c, mut zs, mut vs, mut pr) = (b.c, b.zs.clone(), b.vs.clone(), b.proof.clone());
    let mut foreign = false;
    for o in &plan.ops {
        ctx.fault(&format!("altered_{}", o.k));
        let mut r = Prng::new(o.arg(0));
        let i = o.arg(1) as usize;
        let j = o.arg(0) as usize;
        match o.k.as_str() {
            "key" => foreign = true,
            "value" if !vs.is_empty() => {
                let n = vs.len();
                vs[i % n] += nonzero::<E::ScalarField>(&mut r)
            },
            "value_pair" if !vs.is_empty() => {
                let n = vs.len();
                let s = nonzero::<E::ScalarField>(&mut r);
                vs[i % n] += s;
                vs[j % n] -= s;
            },
            "swap" => match o.arg(2) % 3 {
                0 if !vs.is_empty() => {
                    let n = vs.len();
                    vs.swap(i % n, j % n)
                },
                1 if !zs.is_empty() => {
                    let n = zs.len();
                    zs.swap(i % n, j % n)
                },
                _ if !pr.q_x_opens.is_empty() => {
                    let n = pr.q_x_opens.len();
                    pr.q_x_opens.swap(i % n, j % n)
                },
                _ => {},
            },
            "point" if !zs.is_empty() => {
                let n = zs.len();
                let z = &mut zs[i % n];
                let m = z.len();
                if o.arg(2) == 0 {
                    z.pop();
                } else if m > 0 {
                    z[j % m] += nonzero::<E::ScalarField>(&mut r);
                }
            },
            "commit" | "neg" => {
                if o.arg(2) < 4 {
                    c = Commitment(other_point::<E>(&mut r, c.0))
                } else {
                    pr.q_x_commit = Commitment(other_point::<E>(&mut r, pr.q_x_commit.0))
                }
            },
            "omit" => match o.arg(2) % 4 {
                0 => {
                    zs.pop();
                },
                1 => {
                    vs.pop();
                },
                2 => {
                    pr.q_x_opens.pop();
                },
                _ => {
                    pr.proof.proofs.pop();
                },
            },
            "add" => match o.arg(2) % 4 {
                0 => zs.push(ml_point(&mut r, 1 + plan.c(3) as usize % 4)),
                1 => vs.push(elem(&mut r)),
                2 => {
                    let x = b.proof.q_x_opens[0].clone();
                    pr.q_x_opens.push(x)
                },
                _ => pr.proof.proofs.push(E::G1Affine::generator()),
            },
            "zero" => match o.arg(2) % 3 {
                0 => vs.fill(E::ScalarField::zero()),
                1 => pr.proof.proofs.fill(E::G1Affine::zero()),
                _ => pr.q_x_opens.fill(UnivariateKzgProof { proof: E::G1Affine::zero() }),
            },
            "part" if !pr.q_x_opens.is_empty() => {
                let n = pr.q_x_opens.len();
                pr.q_x_opens[i % n].proof = other_point::<E>(&mut r, pr.q_x_opens[i % n].proof);
            },
            "proof" if !pr.proof.proofs.is_empty() => {
                let n = pr.proof.proofs.len();
                pr.proof.proofs[i % n] = other_point::<E>(&mut r, pr.proof.proofs[i % n]);
            },
            _ => {},
        }
        let k = if foreign { &vk2 } else { &b.vk };
        let Some(a) = ctx.must("ml_batch_verify", || {
            e2s(Ml::<E>::batch_verify(k, &c, &zs, &vs, &pr, &mut SimRng::new(2)))
        }) else {
            return;
        };
        let a = a == Ok(true);
        ctx.event("verdict", &[a as u8]);
        let zero = c.0.is_zero()
            && pr.q_x_commit.0.is_zero()
            && vs.iter().all(|v| v.is_zero())
            && pr.proof.proofs.iter().all(|x| x.is_zero())
            && pr.q_x_opens.iter().all(|x| x.proof.is_zero());
        // everything zero is true of zero polynomials under any parameters and points
        if zero {
            continue;
        }
        let want = !foreign && c == b.c && zs == b.zs && vs == b.vs && pr == b.proof;
        if !want && !foreign && c == b.c && zs.len() == b.zs.len() && vs.len() == b.vs.len() && zs != b.zs {
            // other points: the claim may still be true with an honest proof only if
            // the honest opening there gives the same proof
            if zs.iter().all(|z| z.len() == b.zs[0].len()) {
                if let Ok((p2, v2)) = Ml::<E>::batch_open(&b.ck, &c, &b.ps, &zs) {
                    if p2 == pr && v2 == vs {
                        continue;
                    }
                }
            }
        }
        ctx.state(mix(&[hash_bytes(0, o.k.as_bytes()), a as u64, want as u64]));
        verdict::<E>(ctx, "ml_batch", a, want, &format!("{o:?} in a batch of {}", b.ps.len()));
    }
}
