//! Z03: batches of proofs, and proofs of batches.
use crate::{adversary::*, circ::*, on_sys, relation::range_bits, rng::SimRng, sys::*};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, One, Zero};
use ark_serialize::CanonicalDeserialize;
use jf_plonk::proof_system::batch_arg::Instance;
use jf_relation::MergeableCircuitType::{TypeA, TypeB};
use sim::{disk::damage, *};

pub struct Z03;

impl World for Z03 {
    fn property(&self) -> &'static str {
        "Z03"
    }
    fn budget(&self, tier: Tier) -> (u64, u64) {
        match tier {
            Tier::Quick => (10_000, 45),
            Tier::Thorough => (2_000_000, 500),
        }
    }
    fn step_cap(&self) -> u64 {
        40_000_000_000
    }
    fn huge_alloc_is_upstream(&self) -> bool {
        true
    }
    fn prepare(&self) {
        prepare()
    }
    /// cfg: [system, range bits or 0, 0 separate proofs / 1 one proof / 2 merged
    /// circuits, seed]; ops: the first program, "circuit" [seed of its
    /// difference], "member" [circuit, rng seed, attack kind, attack seed],
    /// "batch" [how, seed]
    fn gen(&self, r: &mut Prng, _: Tier) -> Plan {
        let mode = *r.pick(&[0u64, 0, 0, 1, 1, 2]);
        let ultra = if mode == 2 && !r.chance(1, 20) { 0 } else { draw_ultra(r) };
        let sys = r.below(8);
        let mut ops = program(r, ultra, 0, 8);
        if mode == 2 {
            ops.retain(|o| !["pub", "pubbool", "setpub"].contains(&o.k.as_str()));
        }
        for _ in 0..if mode == 2 { r.range(1, 3) } else { r.below(4) } {
            ops.insert(0, Op::new("pub", &[r.next(), 0, r.next(), r.next(), r.next(), r.next()]));
        }
        for _ in 0..r.range(if mode == 2 { 1 } else { 0 }, 2) {
            ops.push(Op::new("circuit", &[r.next() >> 1]));
        }
        for _ in 0..r.range(1, if sys >= 6 { 3 } else { 5 }) {
            let kind = if mode == 0 && r.chance(1, 3) { r.below(KINDS) } else { KINDS };
            ops.push(Op::new("member", &[r.below(3), r.next() >> 1, kind, r.next() >> 1]));
        }
        for _ in 0..if sys >= 6 { r.range(1, 5) } else { r.range(3, 14) } {
            ops.push(Op::new("batch", &[r.below(12), r.next() >> 1]));
        }
        Plan { cfg: vec![sys, ultra, mode, r.next() >> 1], ops, sched: Schedule::quiet() }
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) {
        match plan.c(2) {
            0 => on_sys!(plan.c(0), separate(plan, ctx)),
            1 => on_sys!(plan.c(0), joint(plan, ctx)),
            _ => on_sys!(plan.c(0), merged(plan, ctx)),
        }
    }
    fn rule(&self) -> &'static str {
        "proofs of a few circuits, some altered by the adversary, are put into batches of every order, repetition and \
         mismatch, including pairs whose errors cancel in a careless combination; the batch must be accepted exactly \
         when each member verifies alone. Aggregated proofs over several or merged circuits are accepted as made and \
         rejected with any other input, key, order or part"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
}

const OWN: &[&str] = &["circuit", "member", "batch"];
fn parts(plan: &Plan) -> (Vec<Op>, Vec<&Op>, Vec<&Op>, Vec<&Op>) {
    let of = |k: &str| plan.ops.iter().filter(|o| o.k == k).collect::<Vec<_>>();
    (
        plan.ops.iter().filter(|o| !OWN.contains(&o.k.as_str())).cloned().collect(),
        of("circuit"),
        of("member"),
        of("batch"),
    )
}
/// The program and its variations.
fn programs(prog: &[Op], circuits: &[&Op]) -> Vec<Vec<Op>> {
    let mut v = vec![prog.to_vec()];
    for c in circuits {
        v.push(twisted(prog, c.arg(0)));
    }
    v
}
fn statements<S: Sys>(ctx: &mut Ctx, progs: &[Vec<Op>], ultra: u64, other_srs: u64) -> Option<Vec<Stmt<S>>> {
    let mut v = vec![];
    for (i, p) in progs.iter().enumerate() {
        let s = statement::<S>(ctx, p, range_bits(ultra), S::srs((i as u64 == other_srs) as u64))?;
        if !s.holds {
            ctx.discard("variation is not satisfied");
        }
        v.push(s);
    }
    Some(v)
}

/// Many proofs, one verification.
fn separate<S: Sys>(plan: &Plan, ctx: &mut Ctx) {
    alone();
    let (prog, circuits, members, batches) = parts(plan);
    let mut r = Prng::new(plan.c(3));
    let other = if r.chance(1, 6) { 1 + r.below(2) } else { 9 };
    let Some(st) = statements::<S>(ctx, &programs(&prog, &circuits), plan.c(1), other) else { return };
    let mut honest: Vec<Shown<S>> = vec![];
    for m in &members {
        let s = &st[m.usize(0) % st.len()];
        let x = extra(m.arg(1));
        let Some(p) = ctx.must("prove", || S::prove(&mut SimRng::new(m.arg(1)), &s.b.c, &s.pk, x.clone())) else { return };
        let Ok(p) = p else {
            ctx.discard("not proved, another property's concern");
        };
        honest.push(Shown { vk: s.vk.clone(), pubs: s.pubs.clone(), p, x });
    }
    if honest.is_empty() {
        return;
    }
    let mut pool: Vec<Shown<S>> = vec![];
    for (i, m) in members.iter().enumerate() {
        let mut w = honest[i].clone();
        if m.arg(2) < KINDS {
            let mut seen = honest.clone();
            seen.swap(0, i);
            let Some(d) = attack::<S>(ctx, m.arg(2), m.arg(3), &mut w, &seen) else { return };
            if !d.is_empty() {
                ctx.fault(&d);
            }
        }
        pool.push(w);
    }
    for b in batches {
        let mut r = Prng::new(b.arg(1));
        let n = pool.len() as u64;
        let mut list: Vec<Shown<S>> = match b.arg(0) {
            // as they came, only the good, or any choice with repetition
            0..=2 => pool.clone(),
            3 | 4 => honest.clone(),
            _ => (0..r.range(1, 5)).map(|_| if r.chance(2, 3) { &honest } else { &pool }[r.below(n) as usize].clone()).collect(),
        };
        if b.arg(0) < 5 && r.chance(1, 2) {
            r.shuffle(&mut list);
        }
        match b.arg(0) {
            8 => {
                // two wrong openings that cancel for a known combiner
                let g = S::guesses();
                let (i, gap) = (r.below(n) as usize, 1 + r.below(2));
                let mut at = list;
                let d = (G1::<S>::generator() * elem::<S::F>(&mut r)).into_affine();
                let w = *r.pick(&g);
                let pos = r.below(at.len() as u64 + 1) as usize;
                let mut a = honest[i].clone();
                let mut c = honest[i].clone();
                let Some(f) = w.pow([gap]).inverse() else { continue };
                a.p.opening_proof.0 = (a.p.opening_proof.0 + d).into_affine();
                c.p.opening_proof.0 = (c.p.opening_proof.0.into_group() - d * f).into_affine();
                at.insert(pos, a);
                for _ in 1..gap {
                    at.insert(pos + 1, honest[r.below(n) as usize].clone());
                }
                at.insert((pos + gap as usize).min(at.len()), c);
                ctx.fault("cancelling pair");
                list = at;
            },
            9 if list.len() > 1 => {
                // parts of two members exchanged
                let m = list.len() as u64;
                let (i, j) = (r.below(m) as usize, r.below(m) as usize);
                let (a, c) = (list[i].clone(), list[j].clone());
                match r.below(4) {
                    0 => {
                        list[i].pubs = c.pubs;
                        list[j].pubs = a.pubs;
                    },
                    1 => {
                        list[i].vk = c.vk;
                        list[j].vk = a.vk;
                    },
                    2 => {
                        list[i].x = c.x;
                        list[j].x = a.x;
                    },
                    _ => {
                        list[i].p.opening_proof = c.p.opening_proof;
                        list[j].p.opening_proof = a.p.opening_proof;
                    },
                }
                ctx.fault("parts exchanged between members");
            },
            _ => {},
        }
        let vks: Vec<&Vk<S>> = list.iter().map(|w| &w.vk).collect();
        let pubs: Vec<&[S::F]> = list.iter().map(|w| &w.pubs[..]).collect();
        let ps: Vec<&Pf<S>> = list.iter().map(|w| &w.p).collect();
        let xs: Vec<Extra> = list.iter().map(|w| w.x.clone()).collect();
        if b.arg(0) >= 10 {
            // lists of different lengths
            let (mut vks, mut pubs, mut ps, mut xs) = (vks, pubs, ps, xs);
            match r.below(9) {
                0 => drop(vks.pop()),
                1 => drop(pubs.pop()),
                2 => drop(ps.pop()),
                3 => drop(xs.pop()),
                4 => vks.push(vks[0]),
                5 => pubs.push(pubs[0]),
                6 => ps.push(ps[0]),
                7 => xs.push(None),
                _ => {
                    // nothing to verify is not a success
                    vks.clear();
                    pubs.clear();
                    ps.clear();
                    xs.clear();
                },
            }
            ctx.fault("lists of different lengths");
            let Some(got) = ctx.must("batch verify", || S::batch_verify(&vks, &pubs, &ps, &xs)) else { return };
            if !ctx.check(got.is_err(), "mismatched lists accepted", || S::NAME.into()) {
                return;
            }
            continue;
        }
        let mut bad = vec![];
        for (i, w) in list.iter().enumerate() {
            let Some(v) = ctx.must("verify", || S::verify(&w.vk, &w.pubs, &w.p, w.x.clone())) else { return };
            if v.is_err() {
                bad.push(i);
            }
        }
        let Some(got) = ctx.must("batch verify", || S::batch_verify(&vks, &pubs, &ps, &xs)) else { return };
        ctx.event("batch", &[got.is_ok() as u8]);
        ctx.state(mix(&list.iter().map(|w| hash_bytes(8, &by(&w.p))).collect::<Vec<_>>()));
        // one pairing check needs one set of parameters
        let key = |vk: &Vk<S>| by(&(vk.open_key.g, vk.open_key.h, vk.open_key.beta_h));
        let one_setup = list.iter().all(|w| key(&w.vk) == key(&list[0].vk));
        ctx.mark(match (bad.len(), one_setup) {
            (_, false) => "batches across parameters",
            (0, _) => "good batches",
            (1, _) => "batches with one bad member",
            _ => "batches with several bad members",
        });
        if !bad.is_empty() {
            if !ctx.check(got.is_err(), "bad batch accepted", || {
                format!("{}: accepted although members {bad:?} of {} do not verify", S::NAME, list.len())
            }) {
                return;
            }
        } else if one_setup {
            let k = list.len();
            if !ctx.check(got.is_ok(), "good batch rejected", || format!("{}: {k} good proofs: {got:?}", S::NAME)) {
                return;
            }
        }
    }
}

/// Changes an aggregated proof; the name of the change, or None if it is refused when read.
fn change<S: Sys>(ctx: &mut Ctx, r: &mut Prng, p: &Bp<S>, other: Option<&Bp<S>>) -> Option<(String, Bp<S>)> {
    let read = |b: &[u8]| Bp::<S>::deserialize_uncompressed_unchecked(b).ok();
    let q = mirror::<_, Parts<G1<S>>>(p);
    let (Some(mut q), false) = (q, r.chance(1, 5)) else {
        let mut b = by(p);
        let how = damage(&mut b, r.next(), r.next());
        let p = ctx.must("decode", || Bp::<S>::deserialize_uncompressed(&b[..]).ok())??;
        return Some((format!("bytes: {how}"), p));
    };
    let name = match r.below(5) {
        0 | 1 => {
            let all: Vec<G1<S>> = q.points().iter().map(|x| *x.1).collect();
            let mut ps = q.points();
            let i = r.below(ps.len() as u64) as usize;
            let (y, how) = point(r, *ps[i].1, &all);
            *ps[i].1 = y;
            format!("{} {how}", ps[i].0)
        },
        2 => {
            let mut xs = q.scalars();
            let i = r.below(xs.len() as u64) as usize;
            *xs[i].1 += S::F::one();
            format!("{} changed", xs[i].0)
        },
        3 => {
            let k = r.below(5);
            match k {
                0 => q.wires.rotate_left(1),
                1 => q.perm.rotate_left(1),
                2 => q.evals.rotate_left(1),
                3 => q.lookup.rotate_left(1),
                _ => q.quot.rotate_left(1),
            }
            "lists of the proof rotated".to_string()
        },
        _ => {
            match r.below(7) {
                0 => drop(q.wires.pop()),
                1 => drop(q.perm.pop()),
                2 => drop(q.evals.pop()),
                3 => drop(q.lookup.pop()),
                4 => q.wires.push(q.wires[0].clone()),
                5 => q.lookup.push(None),
                _ => {
                    if let Some(o) = other.and_then(mirror::<_, Parts<G1<S>>>) {
                        q.open = o.open;
                        q.shifted = o.shifted;
                    }
                },
            }
            "lists of the proof changed".to_string()
        },
    };
    Some((name, read(&by(&q))?))
}

/// One proof of many circuits.
fn joint<S: Sys>(plan: &Plan, ctx: &mut Ctx) {
    alone();
    let (prog, circuits, members, batches) = parts(plan);
    let mut r = Prng::new(plan.c(3));
    let Some(st) = statements::<S>(ctx, &programs(&prog, &circuits), plan.c(1), 9) else { return };
    let who: Vec<&Stmt<S>> = members.iter().map(|m| &st[m.usize(0) % st.len()]).collect();
    if who.is_empty() {
        return;
    }
    let cs: Vec<_> = who.iter().map(|s| &s.b.c).collect();
    let pks: Vec<_> = who.iter().map(|s| &s.pk).collect();
    let vks: Vec<&Vk<S>> = who.iter().map(|s| &s.vk).collect();
    let pubs: Vec<&[S::F]> = who.iter().map(|s| &s.pubs[..]).collect();
    let fits = who.iter().all(|s| s.vk.domain_size == who[0].vk.domain_size);
    let mut rng = SimRng::new(r.next());
    let Some(p) = ctx.must("batch prove", || S::batch_prove(&mut rng, &cs, &pks)) else { return };
    if !ctx.check(p.is_ok() == fits, "aggregation", || {
        format!("{}: circuits of equal size: {fits}, answer {:?}", S::NAME, p.as_ref().err())
    }) {
        return;
    }
    let Ok(p) = p else {
        ctx.mark("circuits of different sizes");
        return;
    };
    ctx.event("proof", &by(&p));
    ctx.mark(&format!("aggregated {} circuits", who.len()));
    let Some(v) = ctx.must("verify", || S::verify_batch_proof(&vks, &pubs, &p)) else { return };
    if !ctx.check(v.is_ok(), "good aggregate rejected", || format!("{}: {v:?}", S::NAME)) {
        return;
    }
    let mut second = None;
    for b in batches {
        let mut r = Prng::new(b.arg(1));
        let (mut vks, mut own) = (vks.clone(), pubs.iter().map(|p| p.to_vec()).collect::<Vec<_>>());
        let mut q = p.clone();
        let n = own.len() as u64;
        let i = r.below(n) as usize;
        let vk2;
        let how = match b.arg(0) {
            0 | 1 => {
                if own[i].is_empty() {
                    continue;
                }
                let j = r.below(own[i].len() as u64) as usize;
                own[i][j] += S::F::one();
                "public input changed".to_string()
            },
            2 => {
                own.rotate_left(1);
                "public inputs of other members".into()
            },
            3 => {
                vks.rotate_left(1);
                "keys of other members".into()
            },
            4 => {
                vks.rotate_left(1);
                own.rotate_left(1);
                "order changed".into()
            },
            5 => {
                match r.below(4) {
                    0 => drop(vks.pop()),
                    1 => drop(own.pop()),
                    2 => vks.push(vks[i]),
                    _ => {
                        vks.pop();
                        own.pop();
                    },
                }
                "member dropped".into()
            },
            6 => {
                vks[i] = &st[r.below(st.len() as u64) as usize].vk;
                "key of another circuit".into()
            },
            7 if n > 1 => {
                let mut k = vks[i].clone();
                let t = S::srs(1);
                k.open_key.h = t.h;
                k.open_key.beta_h = t.beta_h;
                k.open_key.powers_of_h = t.powers_of_h.clone();
                vk2 = k;
                vks[i] = &vk2;
                "opening key of other parameters".into()
            },
            _ => {
                if second.is_none() {
                    second = S::batch_prove(&mut rng, &cs, &pks).ok();
                }
                let Some((how, c)) = change::<S>(ctx, &mut r, &p, second.as_ref()) else { continue };
                q = c;
                how
            },
        };
        let same_keys = vks.len() == who.len() && vks.iter().zip(&who).all(|(a, s)| by(*a) == by(&s.vk));
        let same_pubs = own.len() == who.len() && own.iter().zip(&who).all(|(a, s)| *a == s.pubs);
        if same_keys && same_pubs && by(&q) == by(&p) {
            ctx.mark("attacks without effect");
            continue;
        }
        ctx.fault(&how);
        let own: Vec<&[S::F]> = own.iter().map(|p| &p[..]).collect();
        let Some(v) = ctx.must("verify", || S::verify_batch_proof(&vks, &own, &q)) else { return };
        ctx.event("verdict", &[v.is_ok() as u8]);
        ctx.state(mix(&[hash_bytes(8, &by(&q)), b.arg(1)]));
        if !ctx.check(v.is_err(), &format!("bad aggregate accepted:{how}"), || format!("{}: {how}", S::NAME)) {
            return;
        }
    }
}

/// Circuits merged in pairs that share their public inputs.
fn merged<S: Sys>(plan: &Plan, ctx: &mut Ctx) {
    alone();
    let (prog, circuits, members, batches) = parts(plan);
    let mut r = Prng::new(plan.c(3));
    let split = prog.iter().position(|o| o.k != "pub").unwrap_or(prog.len());
    let (head, body) = prog.split_at(split);
    let mut progs = programs(body, &circuits);
    for p in &mut progs {
        p.retain(|o| !["pub", "pubbool", "setpub"].contains(&o.k.as_str()));
        p.splice(0..0, head.iter().cloned());
    }
    let ultra = range_bits(plan.c(1));
    // in some runs one circuit has another shared input
    let odd = if r.chance(1, 8) && !head.is_empty() { Some(r.below(2 * members.len().max(1) as u64)) } else { None };
    let (mut a, mut b): (Vec<Instance<S::E>>, Vec<Instance<S::E>>) = (vec![], vec![]);
    let mut claims: Vec<Vec<S::F>> = vec![];
    for (i, m) in members.iter().take(3).enumerate() {
        for (side, list) in [&mut a, &mut b].into_iter().enumerate() {
            let mut prog = progs[(m.usize(0) + side * m.usize(1)) % progs.len()].clone();
            if odd == Some(2 * i as u64 + side as u64) && i + side > 0 {
                prog[0] = Op::new("pub", &[99, 0, r.next(), r.next(), r.next(), r.next()]);
            }
            let Some(built) = ctx.must("build", || Built::<S::F>::build(&prog, ultra)) else { return };
            if built.wrong.is_some() || built.truth(&Default::default()) != Some(true) {
                ctx.discard("builder disagrees with the model, the circuit property's concern");
            }
            claims.push(built.pub_values());
            let t = if side == 0 { TypeA } else { TypeB };
            let c = built.c;
            let Some(x) = ctx.must("set up", || S::instance(S::srs(0), c, t)) else { return };
            match x {
                Ok(x) => {
                    ctx.check(ultra.is_none(), "lookup circuit merged", || S::NAME.into());
                    list.push(x)
                },
                Err(e) => {
                    ctx.mark("instance refused");
                    ctx.note(e);
                    return;
                },
            }
        }
    }
    let Some(shared) = claims.first().cloned() else { return };
    let size = |x: &Instance<S::E>| x.verify_key_ref().domain_size;
    let all = || a.iter().chain(&b);
    let fits = all().all(|x| size(x) == size(&a[0]))
        && !shared.is_empty()
        && claims.iter().all(|c| c.len() == shared.len());
    let mut rng = SimRng::new(r.next());
    let Some(p) = ctx.must("batch prove", || S::merged_prove(&mut rng, &a, &b)) else { return };
    if !ctx.check(p.is_ok() == fits, "merging", || {
        format!("{}: mergeable: {fits}, answer {:?}", S::NAME, p.as_ref().err())
    }) {
        return;
    }
    let Ok(p) = p else {
        ctx.mark("circuits that cannot be merged");
        return;
    };
    ctx.event("proof", &by(&p));
    let va: Vec<&Vk<S>> = a.iter().map(|x| x.verify_key_ref()).collect();
    let vb: Vec<&Vk<S>> = b.iter().map(|x| x.verify_key_ref()).collect();
    let blind = |r: &mut Prng| elem::<S::F>(r);
    let agree = |v: &Res<bool>| *v == Ok(true);
    let honest = claims.iter().all(|c| *c == shared);
    let Some(v) = ctx.must("verify", || S::merged_verify(S::srs(0), &va, &vb, &shared, &p, blind(&mut r))) else { return };
    if honest {
        ctx.mark(&format!("merged {} pairs", a.len()));
        if !ctx.check(agree(&v), "good merged proof rejected", || format!("{}: {v:?}", S::NAME)) {
            return;
        }
    } else {
        ctx.fault("circuits with different shared inputs");
        ctx.check(!agree(&v), "different shared inputs accepted", || S::NAME.into());
        return;
    }
    for t in batches {
        let mut r = Prng::new(t.arg(1));
        let (mut va2, mut vb2, mut s2, mut q) = (va.clone(), vb.clone(), shared.clone(), p.clone());
        let how = match t.arg(0) {
            0..=2 => {
                let i = r.below(s2.len() as u64) as usize;
                s2[i] += S::F::one();
                "shared input changed".to_string()
            },
            3 => {
                if r.chance(1, 2) {
                    s2.push(S::F::zero());
                } else {
                    s2.pop();
                }
                "shared input added or dropped".into()
            },
            5 => {
                va2.rotate_left(1);
                if r.chance(1, 2) {
                    vb2.rotate_left(1);
                }
                "order changed".into()
            },
            6 => {
                let i = r.below(va.len() as u64) as usize;
                match r.below(6) {
                    0 => drop(va2.pop()),
                    1 => drop(vb2.pop()),
                    2 => {
                        va2.pop();
                        vb2.pop();
                    },
                    3 => va2.push(va[i]),
                    4 => vb2.push(vb[i]),
                    _ => {
                        va2.push(va[i]);
                        vb2.push(vb[i]);
                    },
                }
                "member dropped or added".into()
            },
            4 | 7 => String::new(),
            _ => {
                let Some((how, c)) = change::<S>(ctx, &mut r, &p, None) else { continue };
                q = c;
                how
            },
        };
        let same = |x: &[&Vk<S>], y: &[&Vk<S>]| x.len() == y.len() && x.iter().zip(y).all(|(a, b)| by(*a) == by(*b));
        let unchanged = same(&va2, &va) && same(&vb2, &vb) && s2 == shared && by(&q) == by(&p);
        let Some(v) = ctx.must("verify", || S::merged_verify(S::srs(0), &va2, &vb2, &s2, &q, blind(&mut r))) else { return };
        ctx.event("verdict", &[agree(&v) as u8]);
        ctx.state(mix(&[hash_bytes(9, &by(&q)), t.arg(1)]));
        if unchanged {
            ctx.mark("blinding factors tried");
            if !ctx.check(agree(&v), "good merged proof rejected", || format!("{}: other blinding: {v:?}", S::NAME)) {
                return;
            }
            continue;
        }
        ctx.fault(&how);
        if !ctx.check(!agree(&v), &format!("bad merged proof accepted:{how}"), || format!("{}: {how}", S::NAME)) {
            return;
        }
    }
}
