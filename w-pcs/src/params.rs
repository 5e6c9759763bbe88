//! K04: trimming, degree bounds and storage of parameters and proofs.
use crate::{on_curve, util::*};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};
use jf_pcs::{prelude::*, UnivariatePCS};
use sim::{
    disk::{damage, IoFaults, SimFile, SimReader, SimWriter},
    *,
};

pub struct K04;

impl World for K04 {
    fn property(&self) -> &'static str {
        "K04"
    }
    fn budget(&self, tier: Tier) -> (u64, u64) {
        match tier {
            Tier::Quick => (10_000, 25),
            Tier::Thorough => (3_000_000, 500),
        }
    }
    fn step_cap(&self) -> u64 {
        8_000_000_000
    }
    fn prepare(&self) {
        prepare()
    }
    fn huge_alloc_is_upstream(&self) -> bool {
        true
    }
    /// cfg: [curve]; ops independent
    fn gen(&self, r: &mut Prng, _: Tier) -> Plan {
        let n = r.range(1, 4);
        let ops = (0..n)
            .map(|_| match r.below(10) {
                0 | 1 => {
                    let (a, b) = (r.size(40), r.next());
                    let d = DEG as u64;
                    let d = *r.pick(&[0, 1, a, d - 1, d, d + 1, b]);
                    Op::new("trim", &[r.next(), d, r.size(VDEG as u64 + 2)])
                },
                2..=4 => Op::new("beyond", &[r.next(), r.size(20), r.below(6), r.below(6)]),
                5 => Op::new("ml_trim", &[r.next(), r.below(NV as u64 + 3), r.range(1, NV as u64)]),
                6 => Op::new("ml_beyond", &[r.next(), r.range(1, 4), r.range(1, 5), r.below(5)]),
                _ => Op::new("store", &[r.next(), r.below(6), r.below(16), r.next(), r.below(9)]),
            })
            .collect();
        Plan { cfg: vec![r.below(8)], ops, sched: Schedule::quiet() }
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) {
        alone();
        on_curve!(plan.c(0), exec(plan, ctx))
    }
    fn rule(&self) -> &'static str {
        "keys trimmed to a degree are compared with untrimmed ones; polynomials around the bound must be \
         refused or answered as by larger keys; parameters, keys, commitments and proofs are saved and \
         reloaded with I/O faults, crashes and damage"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
}

fn exec<E: Cv>(plan: &Plan, ctx: &mut Ctx) {
    for o in &plan.ops {
        match o.k.as_str() {
            "trim" => trim::<E>(o, ctx),
            "beyond" => beyond::<E>(o, ctx),
            "ml_trim" => ml_trim::<E>(o, ctx),
            "ml_beyond" => ml_beyond::<E>(o, ctx),
            _ => store::<E>(o, ctx),
        }
    }
}

fn trim<E: Cv>(o: &Op, ctx: &mut Ctx) {
    let srs = E::uni(o.arg(0));
    let (d, v) = (o.usize(1), o.usize(2));
    let Some(x) = ctx.must("trim", || e2s(srs.trim_with_verifier_degree(d, v))) else { return };
    let fits = d <= DEG && (1..=VDEG).contains(&v);
    ctx.check(x.is_ok() == fits, "trim:bound", || {
        format!("{}: trimming {DEG}/{VDEG} to {d}/{v} gave {:?}", E::NAME, x.as_ref().err())
    });
    let m = srs.max_degree();
    let Some(t) = ctx.must("trim", || e2s(Uni::<E>::trim(srs, m, None))) else { return };
    ctx.check(t.is_ok(), "max-degree", || {
        format!("{}: keys for the reported maximal degree {m} are refused: {:?}", E::NAME, t.err())
    });
    let Some(t) = ctx.must("trim", || e2s(Uni::<E>::trim(srs, m.saturating_add(1), None))) else { return };
    ctx.check(t.is_err(), "max-degree", || format!("{}: keys beyond the maximal degree {m}", E::NAME));
    let Ok((ck, vk)) = x else { return };
    let mut r = Prng::new(o.arg(0));
    let d = d.min(60);
    let p = poly(&mut r, d);
    let z = point(&mut r);
    let (big, bigv) = srs.trim_with_verifier_degree(DEG, VDEG).unwrap();
    let Some(a) = ctx.must("commit", || (rb(Uni::<E>::commit(&ck, &p)), rb(Uni::<E>::open(&ck, &p, &z)))) else {
        return;
    };
    let b = (rb(Uni::<E>::commit(&big, &p)), rb(Uni::<E>::open(&big, &p, &z)));
    ctx.check(a == b, "trim:differs", || format!("{}: keys for degree {d} and for {DEG} differ in use", E::NAME));
    let (Ok(c), Ok((pr, val))) = (Uni::<E>::commit(&ck, &p), Uni::<E>::open(&ck, &p, &z)) else { return };
    for k in [&vk, &bigv] {
        let Some(ok) = ctx.must("verify", || e2s(Uni::<E>::verify(k, &c, &z, &val, &pr))) else { return };
        ctx.check(ok == Ok(true), "trim:rejected", || format!("{}: trimmed to {d}/{v}", E::NAME));
    }
    // one proof for several points: needs as many verifier powers
    let zs: Vec<E::ScalarField> = (0..v as u64 + 2).map(|i| E::ScalarField::from(i * i + 3)).collect();
    for n in [v, v + 1] {
        let Ok((pr, vs)) = Uni::<E>::multi_point_open(&ck, &p, &zs[..n]) else { continue };
        let Some(x) = ctx.must("multi_point_verify", || {
            e2s(Uni::<E>::multi_point_verify(&vk, &c, &zs[..n], &vs, &pr))
        }) else {
            return;
        };
        if n <= v {
            ctx.check(x == Ok(true), "points:rejected", || format!("{}: {n} points, verifier degree {v}: {x:?}", E::NAME));
        } else {
            ctx.check(x.is_err(), "points:beyond", || {
                format!("{}: {n} points with verifier degree {v} answered {x:?}", E::NAME)
            });
        }
    }
    ctx.state(mix(&[1, d as u64, v as u64]));
}

fn beyond<E: Cv>(o: &Op, ctx: &mut Ctx) {
    let mut r = Prng::new(o.arg(0));
    let srs = E::uni(o.arg(0));
    let sup = o.usize(1);
    let d = (sup + o.usize(2)).min(DEG);
    let (ck, vk) = Uni::<E>::trim(srs, sup, None).unwrap();
    let (big, _) = Uni::<E>::trim(srs, DEG, None).unwrap();
    let p = poly(&mut r, d);
    let n = 1 + r.below(4) as usize;
    let zs: Vec<E::ScalarField> = (0..n).map(|_| point(&mut r)).collect();
    type Res = Result<Vec<u8>, String>;
    let dom = Uni::<E>::multi_open_rou_eval_domain(d, n).unwrap();
    let run = |k: &UnivariateProverParam<E>| -> Res {
        fn w<T: CanonicalSerialize>(x: Result<T, PCSError>) -> Res {
            e2s(x).map(|x| by(&x))
        }
        match o.arg(3) {
            0 => w(Uni::<E>::commit(k, &p)),
            1 => w(Uni::<E>::open(k, &p, &zs[0])),
            2 => w(Uni::<E>::multi_open(k, &p, &zs)),
            3 => w(Uni::<E>::multi_open_rou(k, &p, n, &dom)),
            4 => w(Uni::<E>::multi_point_open(k, &p, &zs)),
            _ => w(Uni::<E>::batch_commit(k, &[p.clone(), p.clone()])),
        }
    };
    let what = ["commit", "open", "multi_open", "multi_open_rou", "multi_point_open", "batch_commit"][o.usize(3) % 6];
    let Some(a) = ctx.must(what, || run(&ck)) else { return };
    let b = run(&big);
    ctx.event(what, &[a.is_ok() as u8]);
    ctx.state(mix(&[2, o.arg(3), o.arg(2), a.is_ok() as u64]));
    if d > sup {
        ctx.fault("degree_beyond_bound");
    }
    match &a {
        Ok(_) => {
            ctx.check(a == b, &format!("wrong-answer:{what}"), || {
                format!("{}: {what} of a degree-{d} polynomial with keys for degree {sup} answers wrongly", E::NAME)
            });
        },
        // the fast multi-opening needs keys padded to a power of two
        Err(e) => {
            let need = if what == "multi_open" { jf_pcs::checked_fft_size(d).unwrap() } else { d };
            ctx.check(need > sup, &format!("refused:{what}"), || {
                format!("{}: {what} of degree {d} with keys for degree {sup} refused: {e}", E::NAME)
            });
        },
    }
    let _ = vk;
}

fn ml_trim<E: Cv>(o: &Op, ctx: &mut Ctx) {
    let srs = E::ml(o.arg(0));
    let sup = o.usize(1);
    let Some(x) = ctx.must("ml_trim", || e2s(Ml::<E>::trim(srs, 1, Some(sup)))) else { return };
    ctx.check(x.is_ok() == (sup <= NV), "ml_trim:bound", || {
        format!("{}: trimming {NV} variables to {sup}: {:?}", E::NAME, x.as_ref().err())
    });
    let Ok((ck, vk)) = x else { return };
    let (big, bigv) = Ml::<E>::trim(srs, 1, Some(NV)).unwrap();
    let mut r = Prng::new(o.arg(0));
    let nv = o.usize(2);
    let p = mle(&mut r, nv);
    let z = ml_point(&mut r, nv);
    let Some(a) = ctx.must("ml_commit", || (e2s(Ml::<E>::commit(&ck, &p)), e2s(Ml::<E>::open(&ck, &p, &z)))) else {
        return;
    };
    ctx.state(mix(&[3, sup as u64, nv as u64]));
    if nv > sup {
        ctx.fault("variables_beyond_bound");
        ctx.check(a.0.is_err() && a.1.is_err(), "ml:beyond", || {
            format!("{}: {nv} variables with keys for {sup} were answered", E::NAME)
        });
        return;
    }
    let b = (e2s(Ml::<E>::commit(&big, &p)), e2s(Ml::<E>::open(&big, &p, &z)));
    ctx.check(a == b, "ml_trim:differs", || format!("{}: keys for {sup} and {NV} variables differ in use", E::NAME));
    let (Ok(c), Ok((pr, v))) = a else { return };
    for k in [&vk, &bigv] {
        let Some(ok) = ctx.must("ml_verify", || e2s(Ml::<E>::verify(k, &c, &z, &v, &pr))) else { return };
        ctx.check(ok == Ok(true), "ml_trim:rejected", || format!("{}: {nv} of {sup} variables", E::NAME));
    }
}

fn ml_beyond<E: Cv>(o: &Op, ctx: &mut Ctx) {
    let mut r = Prng::new(o.arg(0));
    let srs = E::ml(o.arg(0));
    let (nv, k) = (o.usize(1), o.usize(2));
    let m = get_batched_nv(nv, k);
    let sup = (m + o.usize(3)).saturating_sub(2).clamp(1, NV);
    let (ck, _) = Ml::<E>::trim(srs, MLDEG, Some(sup)).unwrap();
    let (exact, _) = Ml::<E>::trim(srs, MLDEG, Some(m)).unwrap();
    let ps: Vec<_> = (0..k).map(|_| mle(&mut r, nv)).collect();
    let zs: Vec<_> = (0..k).map(|_| ml_point(&mut r, nv)).collect();
    let Some(a) = ctx.must("ml_batch_commit", || e2s(Ml::<E>::batch_commit(&ck, &ps))) else { return };
    let b = e2s(Ml::<E>::batch_commit(&exact, &ps));
    if m > sup {
        ctx.fault("variables_beyond_bound");
    }
    ctx.state(mix(&[4, sup as u64, m as u64, a.is_ok() as u64]));
    match &a {
        Ok(_) => {
            ctx.check(a == b, "wrong-answer:ml_batch_commit", || {
                format!("{}: {k} polynomials of {nv} variables with keys for {sup} variables: wrong commitment", E::NAME)
            });
        },
        Err(e) => {
            ctx.check(m > sup, "refused:ml_batch_commit", || format!("{}: {e}", E::NAME));
        },
    }
    let Ok(c) = b else { return };
    let Some(x) = ctx.must("ml_batch_open", || e2s(Ml::<E>::batch_open(&ck, &c, &ps, &zs))) else { return };
    if m > sup {
        ctx.check(x.is_err(), "wrong-answer:ml_batch_open", || {
            format!("{}: {m} merged variables with keys for {sup} were opened", E::NAME)
        });
    }
    // points of another length are refused
    let mut bad = zs.clone();
    if r.chance(1, 2) {
        bad[0].push(E::ScalarField::from(1u64));
    } else {
        bad[0].pop();
    }
    let Some(x) = ctx.must("ml_open", || e2s(Ml::<E>::open(&ck, &ps[0], &bad[0]))) else { return };
    ctx.check(x.is_err(), "wrong-answer:ml_open", || "a point of the wrong length was opened".into());
    let Some(x) = ctx.must("ml_batch_open", || e2s(Ml::<E>::batch_open(&ck, &c, &ps, &bad))) else { return };
    ctx.check(x.is_err(), "wrong-answer:ml_batch_open", || "a point of the wrong length was opened".into());
}

/// What the stored parameters are good for, as bytes.
fn store<E: Cv>(o: &Op, ctx: &mut Ctx) {
    let mut r = Prng::new(o.arg(0));
    let d = r.size(12) as usize;
    let i = o.arg(0);
    match o.arg(1) {
        0 => {
            let mut s = E::uni(i).clone();
            s.powers_of_g.truncate(d + 1);
            s.powers_of_h.truncate(3);
            keep(o, ctx, "parameters", &s, |s| {
                let (ck, _) = Uni::<E>::trim(s, d, None).ok()?;
                Some(rb(Uni::<E>::commit(&ck, &poly(&mut Prng::new(i), d))))
            })
        },
        1 => keep(o, ctx, "prover_key", &E::uni(i).trim(d).unwrap().0, |k| {
            let p = poly(&mut Prng::new(i), d);
            Some(rb(Uni::<E>::open(k, &p, &E::ScalarField::from(5u64))))
        }),
        2 => {
            let (ck, vk) = E::uni(i).trim_with_verifier_degree(d, 3).unwrap();
            let p = poly(&mut Prng::new(i), d);
            let z = E::ScalarField::from(7u64);
            let c = Uni::<E>::commit(&ck, &p).unwrap();
            let (pr, v) = Uni::<E>::open(&ck, &p, &z).unwrap();
            keep(o, ctx, "verifier_key", &vk, |k| {
                let a = e2s(Uni::<E>::verify(k, &c, &z, &v, &pr));
                let b = e2s(Uni::<E>::verify(k, &c, &(z + z), &(v + z), &pr));
                Some(format!("{a:?} {b:?}").into_bytes())
            })
        },
        3 => {
            // commitments and proofs
            let (ck, vk) = E::uni(i).trim(d).unwrap();
            let ps: Vec<_> = (0..3).map(|_| poly(&mut r, d)).collect();
            let zs: Vec<_> = (0..3).map(|_| point(&mut r)).collect();
            let cs = Uni::<E>::batch_commit(&ck, &ps).unwrap();
            let (prs, vs) = Uni::<E>::batch_open(&ck, &cs, &ps, &zs).unwrap();
            keep(o, ctx, "openings", &(cs, prs), |(cs, prs)| {
                let mut g = crate::rng::SimRng::new(3);
                let a = e2s(Uni::<E>::batch_verify(&vk, cs, &zs, &vs, prs, &mut g));
                Some(format!("{a:?}").into_bytes())
            })
        },
        4 => {
            let nv = 1 + d % 3;
            let (ck, vk) = E::ml(i).0.trim(nv).unwrap();
            let u = E::ml(i).1.trim(1).unwrap();
            let p = mle(&mut r, nv);
            let z = ml_point(&mut r, nv);
            let want = Ml::<E>::open((ck.clone(), u.0.clone()), &p, &z).unwrap();
            // keys have no equality: compare encodings and use
            keep_bytes(o, ctx, "ml_keys", &(ck, vk), |(ck, vk)| {
                let c = Ml::<E>::commit((ck.clone(), u.0.clone()), &p).ok()?;
                let x = Ml::<E>::open((ck.clone(), u.0.clone()), &p, &z).ok()?;
                let a = e2s(Ml::<E>::verify(&(vk.clone(), u.1.clone()), &c, &z, &x.1, &x.0));
                Some(format!("{a:?} {}", x == want).into_bytes())
            });
        },
        _ => {
            let (nv, k) = (1 + d % 2, 1 + d % 3);
            let (ck, vk) = Ml::<E>::trim(E::ml(i), MLDEG, Some(get_batched_nv(nv, k))).unwrap();
            let ps: Vec<_> = (0..k).map(|_| mle(&mut r, nv)).collect();
            let zs: Vec<_> = (0..k).map(|_| ml_point(&mut r, nv)).collect();
            let c = Ml::<E>::batch_commit(&ck, &ps).unwrap();
            let Ok((pr, vs)) = Ml::<E>::batch_open(&ck, &c, &ps, &zs) else { return };
            keep(o, ctx, "ml_openings", &(c, pr), |(c, pr)| {
                let mut g = crate::rng::SimRng::new(3);
                let a = e2s(Ml::<E>::batch_verify(&vk, c, &zs, &vs, pr, &mut g));
                Some(format!("{a:?}").into_bytes())
            })
        },
    }
}

fn keep<T: CanonicalSerialize + CanonicalDeserialize + PartialEq>(
    o: &Op,
    ctx: &mut Ctx,
    what: &str,
    x: &T,
    used: impl Fn(&T) -> Option<Vec<u8>>,
) {
    if let Some(y) = keep_bytes(o, ctx, what, x, used) {
        ctx.check(&y == x, &format!("reload:{what}"), || format!("{what} differ after reload"));
    }
}
/// Saves, crashes, reloads; `Some` when an undamaged copy was read back.
fn keep_bytes<T: CanonicalSerialize + CanonicalDeserialize>(
    o: &Op,
    ctx: &mut Ctx,
    what: &str,
    x: &T,
    used: impl Fn(&T) -> Option<Vec<u8>>,
) -> Option<T> {
    let m = o.arg(2);
    let compress = if m & 1 == 1 { Compress::Yes } else { Compress::No };
    let seed = o.arg(3);
    let f = |fail: bool, size: u64| IoFaults {
        seed,
        short: m & 2 == 2,
        interrupt: m & 4 == 4,
        fail_at: fail.then(|| mix(&[seed, 1]) % size.max(1)),
        fail_kind: seed % 3,
    };
    let size = x.serialized_size(compress) as u64;
    let write_fails = o.arg(4) == 1;
    let mut w = SimWriter::new(f(write_fails, size));
    let ok = ctx.must("encode", || x.serialize_with_mode(&mut w, compress).map_err(|e| e.to_string()))?;
    ctx.io(&w.count);
    ctx.event(what, &w.data);
    if write_fails {
        ctx.check(ok.is_err(), "lost-write-error", || format!("writing {what} reported success on a failed disk"));
        return None;
    }
    ctx.check(ok.is_ok(), &format!("encode:{what}"), || format!("writing {what} failed: {ok:?}"));
    ctx.check(w.data.len() as u64 == size, &format!("size:{what}"), || {
        format!("{what}: {} bytes written, {size} announced", w.data.len())
    });
    let mut file = SimFile::default();
    file.write_all(&w.data);
    let mut whole = true;
    match o.arg(4) {
        2 => ctx.fault(damage(&mut file.volatile, seed % 9, seed)),
        3 => {
            let k = file.crash(seed % 4, seed);
            ctx.fault(k);
        },
        _ => {
            file.sync();
            let k = file.crash(0, seed);
            ctx.fault(k);
        },
    }
    whole &= file.volatile == w.data;
    let mut rd = SimReader::new(file.volatile.clone(), f(o.arg(4) == 4, size));
    let y = ctx.must("decode", || T::deserialize_with_mode(&mut rd, compress, Validate::Yes).map_err(|e| e.to_string()))?;
    ctx.io(&rd.count);
    if o.arg(4) == 4 && whole {
        ctx.check(y.is_err(), "lost-read-error", || format!("{what} read from a failing disk"));
        return None;
    }
    if !whole {
        if let Ok(y) = &y {
            // damaged but decodable proofs must not make the verifier panic; keys are trusted
            if what.ends_with("openings") {
                ctx.must("use", || used(y))?;
            }
        }
        return None;
    }
    let y = match y {
        Ok(y) => y,
        Err(e) => {
            ctx.violate(&format!("reload:{what}"), format!("{what} cannot be reloaded: {e}"));
            return None;
        },
    };
    ctx.check(by(&y) == by(x), &format!("reload:{what}"), || format!("{what} differ after reload"));
    let a = ctx.must("use", || used(&y))?;
    let b = used(x);
    ctx.check(a == b, &format!("use:{what}"), || format!("reloaded {what} behave differently"));
    ctx.state(mix(&[5, hash_bytes(0, what.as_bytes()), m]));
    Some(y)
}
