//! Z06: challenges seen through a transcript that keeps a record of them.
use crate::{circ::*, on_spy, relation::range_bits, rng::SimRng, sys::*};
use ark_ec::{pairing::Pairing, short_weierstrass::*, AffineRepr, CurveGroup};
use ark_ff::{One, Zero};
use ark_serialize::CanonicalDeserialize;
use jf_pcs::prelude::Commitment;
use jf_plonk::{
    errors::PlonkError,
    proof_system::structs::{PlookupEvaluations, ProofEvaluations, VerifyingKey},
    transcript::PlonkTranscript,
};
use sim::*;
use std::sync::Mutex;

/// One transcript's challenges: name and value.
pub type Record = Vec<(String, Vec<u8>)>;
static LOG: Mutex<Vec<Record>> = Mutex::new(Vec::new());
fn take() -> Vec<Record> {
    std::mem::take(&mut *LOG.lock().unwrap())
}

/// A transcript that notes what is drawn from it.
pub struct Spy<T>(T, usize);
type Done = Result<(), PlonkError>;
impl<F, T: PlonkTranscript<F>> PlonkTranscript<F> for Spy<T> {
    fn new(label: &'static [u8]) -> Self {
        let mut l = LOG.lock().unwrap();
        l.push(vec![]);
        Spy(T::new(label), l.len() - 1)
    }
    fn append_vk_and_pub_input<E, P>(&mut self, vk: &VerifyingKey<E>, x: &[E::ScalarField]) -> Done
    where
        E: Pairing<BaseField = F, G1Affine = Affine<P>>,
        P: SWCurveConfig<BaseField = F>,
    {
        self.0.append_vk_and_pub_input(vk, x)
    }
    fn append_message(&mut self, label: &'static [u8], m: &[u8]) -> Done {
        self.0.append_message(label, m)
    }
    fn append_commitments<E, P>(&mut self, label: &'static [u8], c: &[Commitment<E>]) -> Done
    where
        E: Pairing<BaseField = F, G1Affine = Affine<P>>,
        P: SWCurveConfig<BaseField = F>,
    {
        self.0.append_commitments(label, c)
    }
    fn append_commitment<E, P>(&mut self, label: &'static [u8], c: &Commitment<E>) -> Done
    where
        E: Pairing<BaseField = F, G1Affine = Affine<P>>,
        P: SWCurveConfig<BaseField = F>,
    {
        self.0.append_commitment(label, c)
    }
    fn append_field_elem<E: Pairing<BaseField = F>>(&mut self, label: &'static [u8], x: &E::ScalarField) -> Done {
        self.0.append_field_elem::<E>(label, x)
    }
    fn append_field_elems<E: Pairing<BaseField = F>>(&mut self, label: &'static [u8], x: &[E::ScalarField]) -> Done {
        self.0.append_field_elems::<E>(label, x)
    }
    fn append_proof_evaluations<E: Pairing<BaseField = F>>(&mut self, x: &ProofEvaluations<E::ScalarField>) -> Done {
        self.0.append_proof_evaluations::<E>(x)
    }
    fn append_plookup_evaluations<E: Pairing<BaseField = F>>(&mut self, x: &PlookupEvaluations<E::ScalarField>) -> Done {
        self.0.append_plookup_evaluations::<E>(x)
    }
    fn get_challenge<E: Pairing<BaseField = F>>(&mut self, label: &'static [u8]) -> Result<E::ScalarField, PlonkError> {
        let c = self.0.get_challenge::<E>(label)?;
        if let Some(l) = LOG.lock().unwrap().get_mut(self.1) {
            l.push((String::from_utf8_lossy(label).into_owned(), by(&c)));
        }
        Ok(c)
    }
}

pub struct Z06;

impl World for Z06 {
    fn property(&self) -> &'static str {
        "Z06"
    }
    fn budget(&self, tier: Tier) -> (u64, u64) {
        match tier {
            Tier::Quick => (10_000, 30),
            Tier::Thorough => (2_000_000, 400),
        }
    }
    fn step_cap(&self) -> u64 {
        40_000_000_000
    }
    fn huge_alloc_is_upstream(&self) -> bool {
        true
    }
    fn prepare(&self) {
        prepare()
    }
    /// cfg: [system, range bits or 0, context, rng seed, 0 separate proofs / 1
    /// one proof, proofs or instances]; ops: the program, "alter" [member,
    /// seed], "say" [kind, seed] and "ask" making up a bare exchange, "fault"
    /// [place, kind, seed] in it
    fn gen(&self, r: &mut Prng, _: Tier) -> Plan {
        let ultra = draw_ultra(r);
        let sys = r.below(8);
        let mut ops = program(r, ultra, 0, 8);
        for _ in 0..r.below(4) {
            let at = r.below(ops.len() as u64 + 1) as usize;
            ops.insert(at, Op::new("pub", &[r.next(), 0, r.next(), r.next(), r.next(), r.next()]));
        }
        let n = *r.pick(&[1, 1, 1, 2, 2, 3]);
        for _ in 0..if sys >= 6 { r.range(4, 12) } else { r.range(12, 40) } {
            ops.push(Op::new("alter", &[r.below(n), r.next() >> 1]));
        }
        for _ in 0..r.range(3, 14) {
            if r.chance(2, 5) {
                ops.push(Op::new("ask", &[]));
            } else {
                ops.push(Op::new("say", &[r.below(4), r.next() >> 1]));
            }
        }
        for _ in 0..r.range(2, 8) {
            ops.push(Op::new("fault", &[r.next() >> 1, r.below(3), r.next() >> 1]));
        }
        Plan { cfg: vec![sys, ultra, r.next() >> 1, r.next() >> 1, r.below(2), n], ops, sched: Schedule::quiet() }
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) {
        on_spy!(plan.c(0), z06(plan, ctx))
    }
    fn rule(&self) -> &'static str {
        "prover and verifier use a transcript that keeps a record of the challenges; on the way from one to the other \
         single parts of the statement or proof are changed or exchanged, and every challenge drawn after the changed \
         part was sent must come out different, while the unchanged exchange gives both sides the same, pairwise \
         different challenges; the same for bare exchanges of messages with one altered, lost or moved"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
}

/// Several members' proofs and the statement they are shown with.
struct Case<S: Sys> {
    vks: Vec<Vk<S>>,
    pubs: Vec<Vec<S::F>>,
    extra: Vec<Extra>,
    /// One for each member, or a single one for all.
    single: Vec<Single<G1<S>>>,
    joint: Option<Parts<G1<S>>>,
}
impl<S: Sys> Clone for Case<S> {
    fn clone(&self) -> Self {
        Self {
            vks: self.vks.clone(),
            pubs: self.pubs.clone(),
            extra: self.extra.clone(),
            single: self.single.clone(),
            joint: self.joint.clone(),
        }
    }
}

/// The challenge from which on a part matters.
fn since(part: &str) -> &'static str {
    match part {
        "sorted vector commitment" => "beta",
        "permutation commitment" | "lookup product commitment" => "alpha",
        "quotient commitment" => "zeta",
        "wire evaluation" | "sigma evaluation" | "permutation evaluation" | "lookup evaluation" => "v",
        "opening proof" | "shifted opening proof" => "u",
        _ => "",
    }
}

/// The records of one verification, and its answer.
fn verify<S: Sys>(ctx: &mut Ctx, c: &Case<S>) -> Option<(Vec<Record>, bool)> {
    take();
    let vks: Vec<&Vk<S>> = c.vks.iter().collect();
    let pubs: Vec<&[S::F]> = c.pubs.iter().map(|x| &x[..]).collect();
    let ok = match &c.joint {
        Some(q) => {
            let Ok(p) = Bp::<S>::deserialize_uncompressed_unchecked(&by(q)[..]) else {
                ctx.discard("parts not read back");
            };
            ctx.must("verify", || S::verify_batch_proof(&vks, &pubs, &p))?.is_ok()
        },
        None => {
            let mut ps = vec![];
            for q in &c.single {
                let Ok(p) = Pf::<S>::deserialize_uncompressed_unchecked(&by(q)[..]) else {
                    ctx.discard("parts not read back");
                };
                ps.push(p);
            }
            let ps: Vec<&Pf<S>> = ps.iter().collect();
            ctx.must("verify", || S::batch_verify(&vks, &pubs, &ps, &c.extra))?.is_ok()
        },
    };
    Some((take(), ok))
}

/// Changes one part of member `i`; its name, "same" if nothing changed.
fn alter<S: Sys>(r: &mut Prng, c: &mut Case<S>, i: usize) -> String {
    let shift = |x: &mut G1<S>, r: &mut Prng| {
        let g = G1::<S>::generator().into_group();
        *x = match r.below(3) {
            0 if !x.is_zero() => (-x.into_group()).into_affine(),
            1 => (x.into_group() + g * S::F::from(1 + r.below(5))).into_affine(),
            _ => (g * S::F::from(2 + r.below(1000))).into_affine(),
        };
    };
    let bump = |x: &mut S::F, r: &mut Prng| {
        let d: S::F = elem(r);
        *x += if d.is_zero() { S::F::one() } else { d };
    };
    match r.below(12) {
        0 | 1 if !c.pubs[i].is_empty() => {
            let n = c.pubs[i].len() as u64;
            let (a, b) = (r.below(n) as usize, r.below(n) as usize);
            if r.chance(1, 3) && c.pubs[i][a] != c.pubs[i][b] {
                c.pubs[i].swap(a, b);
                "public input exchanged".into()
            } else {
                bump(&mut c.pubs[i][a], r);
                "public input".into()
            }
        },
        2 if c.joint.is_none() => {
            let mut b = c.extra[i].clone().unwrap_or_default();
            let n = b.len() as u64;
            if n > 0 && r.chance(2, 3) {
                b[r.below(n) as usize] ^= 1 << r.below(8);
            } else {
                b.push(1 + r.below(255) as u8);
            }
            c.extra[i] = Some(b);
            "context".into()
        },
        3 => {
            let v = &mut c.vks[i].selector_comms;
            let k = r.below(v.len() as u64) as usize;
            shift(&mut v[k].0, r);
            "selector commitment of the key".into()
        },
        4 => {
            let v = &mut c.vks[i].sigma_comms;
            let k = r.below(v.len() as u64) as usize;
            shift(&mut v[k].0, r);
            "permutation commitment of the key".into()
        },
        // left out by the transcript made for recursion
        5 if !S::NAME.ends_with("rescue") => {
            if r.chance(1, 2) {
                let k = r.below(c.vks[i].k.len() as u64) as usize;
                bump(&mut c.vks[i].k[k], r);
                "wire separator of the key".into()
            } else {
                // every member's, or they would not be verified together
                for vk in &mut c.vks {
                    let t = S::srs(1);
                    vk.open_key.beta_h = t.beta_h;
                    vk.open_key.powers_of_h = vec![vk.open_key.h, t.beta_h];
                }
                "setup of the key".into()
            }
        },
        n => {
            // points or scalars
            if let Some(q) = &mut c.joint {
                let mut one = Parts {
                    wires: vec![q.wires[i].clone()],
                    perm: vec![q.perm[i]],
                    evals: vec![q.evals[i].clone()],
                    lookup: vec![q.lookup[i].clone()],
                    quot: q.quot.clone(),
                    open: q.open,
                    shifted: q.shifted,
                };
                let name = if n % 2 == 0 { pick(r, one.points(), &shift) } else { pick(r, one.scalars(), &bump) };
                q.wires[i] = one.wires.remove(0);
                q.perm[i] = one.perm[0];
                q.evals[i] = one.evals.remove(0);
                q.lookup[i] = one.lookup.remove(0);
                q.quot = one.quot;
                q.open = one.open;
                q.shifted = one.shifted;
                name
            } else if n % 2 == 0 {
                pick(r, c.single[i].points(), &shift)
            } else {
                pick(r, c.single[i].scalars(), &bump)
            }
        },
    }
}

/// Changes one of the values, or exchanges it with a different one of its kind.
fn pick<T: PartialEq + Copy>(
    r: &mut Prng,
    mut v: Vec<(&'static str, &mut T)>,
    change: &dyn Fn(&mut T, &mut Prng),
) -> String {
    let i = r.below(v.len() as u64) as usize;
    let kin: Vec<usize> = (0..v.len()).filter(|&j| v[j].0 == v[i].0).collect();
    let j = *r.pick(&kin);
    if r.chance(1, 3) && *v[i].1 != *v[j].1 {
        let (a, b) = (*v[i].1, *v[j].1);
        *v[i].1 = b;
        *v[j].1 = a;
        return format!("{} exchanged", v[i].0);
    }
    let before = *v[i].1;
    change(v[i].1, r);
    if *v[i].1 == before {
        return "same".into();
    }
    v[i].0.to_string()
}

fn z06<S: Sys>(plan: &Plan, ctx: &mut Ctx) {
    alone();
    bare::<S>(plan, ctx);
    let prog: Vec<Op> =
        plan.ops.iter().filter(|o| !["alter", "say", "ask", "fault"].contains(&o.k.as_str())).cloned().collect();
    let Some(s) = statement::<S>(ctx, &prog, range_bits(plan.c(1)), S::srs(0)) else { return };
    if !s.holds {
        ctx.discard("not satisfied");
    }
    let mut rng = SimRng::new(plan.c(3));
    let n = plan.c(5).clamp(1, 3) as usize;
    let mut case = Case::<S> {
        vks: vec![s.vk.clone(); n],
        pubs: vec![s.pubs.clone(); n],
        extra: vec![None; n],
        single: vec![],
        joint: None,
    };
    take();
    if plan.c(4) == 0 {
        for i in 0..n {
            let x = extra(mix(&[plan.c(2), i as u64]));
            let Some(p) = ctx.must("prove", || S::prove(&mut rng, &s.b.c, &s.pk, x.clone())) else { return };
            let Ok(p) = p else {
                ctx.discard("not proved, another property's concern");
            };
            case.extra[i] = x;
            let Some(q) = mirror::<_, Single<G1<S>>>(&p) else {
                ctx.discard("encoding not understood");
            };
            case.single.push(q);
        }
    } else {
        let cs = vec![&s.b.c; n];
        let pks = vec![&s.pk; n];
        let Some(p) = ctx.must("prove", || S::batch_prove(&mut rng, &cs, &pks)) else { return };
        let Ok(p) = p else {
            ctx.discard("not proved, another property's concern");
        };
        let Some(q) = mirror::<_, Parts<G1<S>>>(&p) else {
            ctx.discard("encoding not understood");
        };
        case.joint = Some(q);
    }
    let prover = take();
    let Some((honest, ok)) = verify(ctx, &case) else { return };
    if !ok {
        ctx.discard("honest proof rejected, another property's concern");
    }
    let rounds = if case.joint.is_some() { 1 } else { n };
    if honest.len() < rounds || prover.len() < rounds {
        ctx.discard("exchange not recorded");
    }
    ctx.mark(if case.joint.is_some() { "one proof for all" } else { "separate proofs" });
    // the same at both ends, and no challenge twice
    for k in 0..rounds {
        ctx.event("challenges", &hash_bytes(1, &honest[k].iter().flat_map(|x| x.1.clone()).collect::<Vec<u8>>()).to_le_bytes());
        // the verifier draws further ones on its own
        let agree = !prover[k].is_empty() && prover[k].iter().all(|x| honest[k].iter().any(|y| y.1 == x.1));
        if !ctx.check(agree, "ends disagree", || {
            format!("{}: prover drew {:?}, verifier {:?}", S::NAME, prover[k], honest[k])
        }) {
            return;
        }
    }
    for h in &honest {
        for (i, x) in h.iter().enumerate() {
            if !ctx.check(h[..i].iter().all(|y| y.1 != x.1), "challenge drawn twice", || {
                format!("{}: {} equals an earlier challenge", S::NAME, x.0)
            }) || !ctx.check(!guessable(&x.1), "challenge can be guessed", || {
                format!("{}: {} is {:?}", S::NAME, x.0, x.1)
            }) {
                return;
            }
        }
    }
    let ultra = s.vk.plookup_vk.is_some();
    for o in plan.ops.iter().filter(|o| o.k == "alter") {
        let mut c = case.clone();
        let i = o.usize(0) % n;
        let mut r = Prng::new(o.arg(1));
        let what = alter::<S>(&mut r, &mut c, i);
        if what == "same" {
            ctx.mark("alterations without effect");
            continue;
        }
        ctx.fault(&what);
        let Some((now, _)) = verify(ctx, &c) else { return };
        let k = if case.joint.is_some() { 0 } else { i };
        if now.len() != honest.len() || now[k].len() != honest[k].len() {
            ctx.mark("refused before the end of the exchange");
            continue;
        }
        ctx.state(mix(&[hash_bytes(3, what.as_bytes()), ultra as u64, n as u64, plan.c(4), plan.c(0) % 8]));
        let first = since(what.trim_end_matches(" exchanged"));
        let h = &honest[k];
        // challenges by other names: at least the last must have changed
        let from = if first.is_empty() { 0 } else { h.iter().position(|x| x.0 == first).unwrap_or(h.len() - 1) };
        for j in from..h.len() {
            if !ctx.check(now[k][j].1 != h[j].1, &format!("not bound:{what}"), || {
                format!("{}: challenge {} stays the same after a change of: {what}", S::NAME, h[j].0)
            }) {
                return;
            }
        }
        // what combines the proofs depends on each
        for j in rounds..honest.len() {
            for (a, b) in now[j].iter().zip(&honest[j]) {
                if !ctx.check(a.1 != b.1, &format!("combination not bound:{what}"), || {
                    format!("{}: combining challenge {} stays the same after a change of: {what}", S::NAME, b.0)
                }) {
                    return;
                }
            }
        }
    }
}

#[derive(Clone, PartialEq)]
enum Said {
    Msg(Vec<u8>),
    Scalar(u64),
    Point(u64),
    Ask,
}

/// Fewer than 64 bits that vary.
fn guessable(x: &[u8]) -> bool {
    x.iter().filter(|b| **b != 0 && **b != 255).count() < 8
}

/// A bare exchange of messages with challenges drawn in between.
fn bare<S: Sys>(plan: &Plan, ctx: &mut Ctx) {
    let script: Vec<Said> = plan
        .ops
        .iter()
        .filter_map(|o| match (o.k.as_str(), o.arg(0)) {
            ("ask", _) => Some(Said::Ask),
            ("say", 0) => Some(Said::Scalar(o.arg(1))),
            ("say", 1) => Some(Said::Point(o.arg(1))),
            ("say", _) => Some(Said::Msg(Prng::new(o.arg(1)).bytes(1 + o.arg(1) as usize % 70))),
            _ => None,
        })
        .chain([Said::Ask])
        .collect();
    let Some(Ok(honest)) = ctx.must("exchange", || S::exchange(&play::<S>(&script))) else { return };
    let Some(Ok(again)) = ctx.must("exchange", || S::exchange(&play::<S>(&script))) else { return };
    if !ctx.check(honest == again, "exchange:not repeatable", || format!("{}: other challenges the second time", S::NAME)) {
        return;
    }
    for (i, x) in honest.iter().enumerate() {
        if !ctx.check(!honest[..i].contains(x), "exchange:challenge drawn twice", || {
            format!("{}: challenge {i} equals an earlier one", S::NAME)
        }) || !ctx.check(!guessable(&by(x)), "exchange:challenge can be guessed", || {
            format!("{}: challenge {i} is {x:?}", S::NAME)
        }) {
            return;
        }
    }
    for o in plan.ops.iter().filter(|o| o.k == "fault") {
        let mut t = script.clone();
        let says: Vec<usize> = (0..t.len()).filter(|&i| t[i] != Said::Ask).collect();
        if says.is_empty() {
            return;
        }
        let mut r = Prng::new(o.arg(2));
        let i = says[o.usize(0) % says.len()];
        let how = match o.arg(1) {
            0 => {
                match &mut t[i] {
                    Said::Msg(b) => {
                        let k = r.below(b.len() as u64) as usize;
                        b[k] ^= 1 << r.below(8);
                    },
                    Said::Scalar(x) | Said::Point(x) => *x ^= 1 << r.below(62),
                    Said::Ask => {},
                }
                "message altered"
            },
            1 => {
                t.remove(i);
                "message lost"
            },
            _ => {
                let j = *r.pick(&says);
                // within a round, between messages of different kinds, the order need not be visible
                if std::mem::discriminant(&t[i]) != std::mem::discriminant(&t[j]) || matches!(t[i], Said::Msg(_)) {
                    continue;
                }
                t.swap(i, j);
                "messages exchanged"
            },
        };
        if t == script {
            continue;
        }
        ctx.fault(how);
        let Some(Ok(now)) = ctx.must("exchange", || S::exchange(&play::<S>(&t))) else { return };
        // the first challenge after the first difference, and all that follow
        let at = (0..t.len().min(script.len())).find(|&k| t[k] != script[k]).unwrap_or(t.len());
        let from = script[..at].iter().filter(|x| **x == Said::Ask).count();
        for k in from..honest.len().min(now.len()) {
            if !ctx.check(now[k] != honest[k], &format!("exchange:{how}"), || {
                format!("{}: challenge {k} of {} the same, {how} before challenge {from}", S::NAME, honest.len())
            }) {
                return;
            }
        }
    }
}

/// A step of a bare exchange.
pub enum Step<S: Sys> {
    Msg(Vec<u8>),
    Scalar(S::F),
    Point(Com<S>),
    Ask,
}
fn play<S: Sys>(s: &[Said]) -> Vec<Step<S>> {
    s.iter()
        .map(|x| match x {
            Said::Msg(b) => Step::Msg(b.clone()),
            Said::Scalar(x) => Step::Scalar(S::F::from(*x)),
            Said::Point(x) => Step::Point(Commitment((G1::<S>::generator() * S::F::from(x + 1)).into_affine())),
            Said::Ask => Step::Ask,
        })
        .collect()
}
