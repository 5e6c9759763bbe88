//! M05: failed operations.  M06: storage.  M07: versions shared by threads.
use crate::{kinds::*, on_append, on_keyed, util::*};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use sim::{
    disk::{IoFaults, SimFile, SimReader, SimWriter},
    *,
};
use std::{
    panic::{catch_unwind, AssertUnwindSafe},
    sync::Arc,
};

pub struct M05;

impl World for M05 {
    fn property(&self) -> &'static str {
        "M05"
    }
    fn budget(&self, tier: Tier) -> (u64, u64) {
        match tier {
            Tier::Quick => (16_000, 25),
            Tier::Thorough => (3_000_000, 500),
        }
    }
    /// cfg: [keyed, kind, height, seed]
    fn gen(&self, r: &mut Prng, tier: Tier) -> Plan {
        let keyed = r.chance(1, 2) as u64;
        let kind = gen_kind(r);
        let h = gen_height(r, keyed == 1, kind);
        let costly = kind >= 7;
        let pool_size = r.range(1, 10);
        let pool = positions(r, pool_size);
        let mut ops = vec![];
        for _ in 0..r.range(1, if costly { 6 } else if tier == Tier::Thorough { 60 } else { 24 }) {
            let p = *r.pick(&pool);
            ops.push(match r.below(16) {
                0..=3 => Op::new("put", &[p, r.below(99)]),
                4 => Op::new("del", &[p]),
                5 => Op::new("forget", &[p]),
                6 | 7 => Op::new("digest-fails", &[p, r.below(8), r.below(5), r.below(99)]),
                8 | 9 => Op::new("panics", &[p, r.below(4), r.below(6)]),
                10 | 11 => Op::new("wrong-proof", &[p, r.below(6), r.next()]),
                12 => Op::new("full", &[r.range(1, 4), r.below(3)]),
                13 => Op::new("forgotten", &[p, r.below(4)]),
                14 if keyed == 1 => Op::new("cut-proof", &[p, r.range(1, 4)]),
                _ => Op::new("ext", &[r.size(9), r.below(99)]),
            });
        }
        Plan { cfg: vec![keyed, kind, h, r.next()], ops, sched: Schedule::quiet() }
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) {
        if plan.c(0) == 1 {
            on_keyed!(plan.c(1), m05_keyed(plan, ctx))
        } else {
            on_append!(plan.c(1), m05_append(plan, ctx))
        }
    }
    fn rule(&self) -> &'static str {
        "operations are made to fail (digest errors at a chosen call, panicking update functions and \
         element sources, wrong proofs, full trees, forgotten entries); everything observable must be as \
         before, and the next operations must behave as on a copy that never saw the failure"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
}
fn m05_keyed<K: Kind>(plan: &Plan, ctx: &mut Ctx) {
    m05::<K>(plan, ctx)
}
fn m05_append<K: Kind, L: Kind<N = K::N>>(plan: &Plan, ctx: &mut Ctx) {
    if plan.c(3) % 3 == 0 && L::LIGHT {
        m05::<L>(plan, ctx)
    } else {
        m05::<K>(plan, ctx)
    }
}

fn m05<K: Kind>(plan: &Plan, ctx: &mut Ctx) {
    let h = plan.c(2) as usize;
    let cap = cap::<K>(h as u64);
    let mut t = K::new(h);
    let mut r = Prng::new(plan.c(3));
    for o in &plan.ops {
        let n = K::len(&t);
        let p = if K::KEYED { o.arg(0) % cap } else { o.arg(0) % n.max(1) };
        let probes = [p, n, n.saturating_sub(1), 0, p ^ 1].map(|x| x.min(cap.saturating_sub(1)));
        let pristine = t.clone();
        let before = snapshot::<K>(&t, &probes);
        let tt = &mut t;
        // Some(true): failed, Some(false): went through, None: nothing was tried
        let failed: Option<bool> = match o.k.as_str() {
            "put" | "ext" => {
                let _ = ctx.must("update", || {
                    if K::KEYED {
                        K::update(tt, p, o.arg(1)).map(|_| ())
                    } else if o.k == "ext" {
                        K::extend(tt, &mut (0..o.arg(0).min(cap - n)).map(|i| i + o.arg(1)))
                    } else {
                        K::push(tt, o.arg(1))
                    }
                });
                None
            },
            "del" if K::KEYED => {
                let _ = ctx.must("update", || K::remove(tt, p));
                None
            },
            "forget" => {
                let _ = ctx.must("forget", || K::forget(tt, p));
                None
            },
            "digest-fails" => {
                FAIL_IN.with(|f| f.set(o.arg(1)));
                let x = ctx.must("update", || match (K::KEYED, o.arg(2)) {
                    (true, 0) => K::remove(tt, p).map(|_| ()),
                    (true, 1) => K::fork_update(tt, p, o.arg(3)).map(|x| *tt = x),
                    (true, 2) => K::update_with(tt, p, &mut |x| x).map(|_| ()),
                    (true, _) => K::update(tt, p, o.arg(3)).map(|_| ()),
                    (false, 0..=2) => K::push(tt, o.arg(3)),
                    (false, _) => K::extend(tt, &mut (0..3u64).map(|i| i + o.arg(3))),
                });
                FAIL_IN.with(|f| f.set(u64::MAX));
                let Some(x) = x else { return };
                let inj = matches!(&x, Err(e) if e.contains("injected"));
                if inj {
                    ctx.fault("digest_error");
                }
                // an append beyond the capacity fills the tree by contract
                if x.is_err() && !inj && !K::KEYED && n < cap && o.arg(2) > 2 {
                    None
                } else {
                    Some(x.is_err())
                }
            },
            "panics" => {
                ctx.fault("caller_panic");
                let at = o.arg(2);
                let x = catch_unwind(AssertUnwindSafe(|| {
                    if K::KEYED {
                        let mut f = |_: Option<u64>| -> Option<u64> { panic!("injected") };
                        if o.arg(1) % 2 == 0 {
                            K::update_with(tt, p, &mut f).map(|_| ())
                        } else {
                            K::fork_with(tt, p, &mut f).map(|x| *tt = x)
                        }
                    } else {
                        let mut it = (0..at + 1).map(|i| if i == at { panic!("injected") } else { i });
                        K::extend(tt, &mut it)
                    }
                }));
                match x {
                    // appends taken before the source panicked may stay, as a prefix
                    Err(_) if !K::KEYED && K::len(tt) > n => {
                        let taken = K::len(tt) - n;
                        let mut q = pristine.clone();
                        let y = K::extend(&mut q, &mut (0..taken));
                        ctx.check(taken <= at && y.is_ok() && K::commitment(&q) == K::commitment(tt), "failed-operation-left-traces", || {
                            format!("{} height {h}: a source that panicked after {at} entries left {taken} entries", K::NAME)
                        });
                        None
                    },
                    Err(_) => Some(true),
                    Ok(Err(_)) if K::KEYED || n == cap => Some(true),
                    Ok(Err(e)) => Some(e.contains("Forgotten")),
                    Ok(Ok(())) => Some(false),
                }
            },
            "wrong-proof" => {
                let look = K::lookup(&pristine, p);
                let (v, mut pr) = match &look {
                    Look::Hit(v, pr) => (*v, pr.0.clone()),
                    Look::Miss(Some(pr)) => (7, pr.0.clone()),
                    _ => (7, vec![vec![K::N::default(); K::ARITY as usize - 1]; h]),
                };
                let mut vv = v;
                match o.arg(1) {
                    0 => vv = v ^ 1,
                    1 => {
                        pr.pop();
                    },
                    2 => {
                        if !crate::replica::alter(&mut r, &mut pr) {
                            vv ^= 1;
                        }
                    },
                    3 => pr.clear(),
                    4 => pr.push(vec![]),
                    _ => {
                        if let Some(l) = pr.last_mut() {
                            l.push(K::N::default());
                        }
                        vv ^= 2;
                    },
                }
                let pr = jf_merkle_tree::prelude::MerkleTreeProof(pr);
                let absent = K::KEYED && o.arg(2) % 2 == 0;
                let x = ctx.must(if absent { "remember_absent" } else { "remember" }, || {
                    if absent {
                        K::remember_absent(tt, p, &pr)
                    } else {
                        K::remember(tt, p, vv, &pr)
                    }
                });
                let Some(x) = x else { return };
                ctx.fault("wrong_proof");
                Some(x.is_err())
            },
            "cut-proof" if K::KEYED => {
                // a replica that knows the commitment only is offered the top of an
                // honest absence proof, which verifies for some other position
                if let Look::Miss(Some(pr)) = K::lookup(tt, p) {
                    let cut = o.usize(1).min(h);
                    let pr = jf_merkle_tree::prelude::MerkleTreeProof(pr.0[cut..].to_vec());
                    let q = p / K::ARITY.pow(cut as u32);
                    let mut l = K::from_commitment(&K::commitment(tt), h, n);
                    let ll = &mut l;
                    ctx.fault("proof_cut_bottom");
                    let Some(x) = ctx.must("remember_absent", || K::remember_absent(ll, q, &pr)) else { return };
                    ctx.check(cut == 0 || x.is_err(), "cut-proof-remembered", || {
                        format!("{} height {h}: a proof without its {cut} lowest levels was remembered", K::NAME)
                    });
                    ctx.check(K::commitment(&l) == K::commitment(tt), "failed-operation-left-traces", || {
                        format!("{} height {h}: remembering from a cut proof changed the commitment", K::NAME)
                    });
                }
                None
            },
            "full" if !K::KEYED && n == cap => {
                let x = ctx.must("push", || match o.arg(1) {
                    0 => K::push(tt, 1),
                    _ => K::extend(tt, &mut (0..o.arg(0))),
                });
                let Some(x) = x else { return };
                ctx.fault("tree_full");
                ctx.check(x.is_err(), "full-tree-appended", || {
                    format!("{} height {h}: appending to a full tree of {n} entries succeeded", K::NAME)
                });
                Some(x.is_err())
            },
            "full" if !K::KEYED && cap - n < 50 => {
                // an over-long batch fills the tree and reports the error
                let room = cap - n;
                let x = ctx.must("extend", || K::extend(tt, &mut (0..room + o.arg(0))));
                let Some(x) = x else { return };
                if x.as_ref().is_err_and(|e| e.contains("Exceed")) {
                    ctx.fault("tree_full");
                    let mut q = pristine.clone();
                    let y = K::extend(&mut q, &mut (0..room));
                    ctx.check(y.is_ok() && K::commitment(&q) == K::commitment(tt) && K::len(tt) == cap, "over-long-batch", || {
                        format!("{} height {h}: an over-long batch did not fill the tree with its first {room} entries", K::NAME)
                    });
                    None
                } else {
                    ctx.check(x.is_err(), "full-tree-appended", || {
                        format!("{} height {h}: appending {} to a tree with room for {room} succeeded", K::NAME, room + o.arg(0))
                    });
                    Some(true)
                }
            },
            "forgotten" => {
                if !matches!(K::lookup(tt, p), Look::Gone) {
                    let _ = K::forget(tt, p);
                }
                let gone = matches!(K::lookup(tt, p), Look::Gone);
                let b2 = snapshot::<K>(tt, &probes);
                if K::KEYED && gone {
                    let Some(x) = ctx.must("update", || match o.arg(1) {
                        0 => K::remove(tt, p).map(|_| ()),
                        1 => K::fork_update(tt, p, 3).map(|x| *tt = x),
                        2 => K::update_with(tt, p, &mut |x| x).map(|_| ()),
                        _ => K::update(tt, p, 3).map(|_| ()),
                    }) else {
                        return;
                    };
                    ctx.fault("entry_forgotten");
                    let a2 = snapshot::<K>(tt, &probes);
                    ctx.check(x.is_err(), "forgotten-entry-updated", || {
                        format!("{} height {h}: an update of the forgotten entry {p} was accepted", K::NAME)
                    });
                    ctx.check(a2 == b2, "failed-operation-left-traces", || {
                        format!("{} height {h}: a refused update of the forgotten entry {p} changed the tree", K::NAME)
                    });
                }
                None
            },
            _ => None,
        };
        ctx.event(&o.k, &nb(&K::commitment(&t)));
        if failed == Some(true) {
            ctx.mark("failed_operations");
            let Some(after) = ctx.must("snapshot", || snapshot::<K>(&t, &probes)) else { return };
            ctx.check(after == before, "failed-operation-left-traces", || {
                format!("{} height {h}: {} at {p} failed but the tree changed", K::NAME, o.k)
            });
            // the same next operation on the survivor and on the copy
            let (mut a, mut b) = (t.clone(), pristine.clone());
            let q = r.below(12) % cap;
            let (x, y) = if K::KEYED {
                (K::update(&mut a, q, 77).map(|_| ()), K::update(&mut b, q, 77).map(|_| ()))
            } else {
                (K::push(&mut a, 77), K::push(&mut b, 77))
            };
            ctx.check(
                x == y && snapshot::<K>(&a, &probes) == snapshot::<K>(&b, &probes),
                "failed-operation-left-traces",
                || format!("{} height {h}: after a failed {} the next operation behaves differently", K::NAME, o.k),
            );
        }
        state::<K>(ctx, &t);
    }
}

// ---------------------------------------------------------------------------

pub struct M06;

impl World for M06 {
    fn property(&self) -> &'static str {
        "M06"
    }
    fn budget(&self, tier: Tier) -> (u64, u64) {
        match tier {
            Tier::Quick => (16_000, 25),
            Tier::Thorough => (3_000_000, 500),
        }
    }
    /// cfg: [keyed, kind, height, seed]
    fn gen(&self, r: &mut Prng, tier: Tier) -> Plan {
        let keyed = r.chance(1, 2) as u64;
        let kind = gen_kind(r);
        let h = gen_height(r, keyed == 1, kind);
        let costly = kind >= 7;
        let pool_size = r.range(1, 10);
        let pool = positions(r, pool_size);
        let mut ops = vec![];
        for _ in 0..r.range(1, if costly { 6 } else if tier == Tier::Thorough { 40 } else { 20 }) {
            let p = *r.pick(&pool);
            ops.push(match r.below(12) {
                0..=4 => Op::new("put", &[p, r.log(63)]),
                5 => Op::new("del", &[p]),
                6 => Op::new("forget", &[p]),
                7 | 8 => Op::new("save", &[r.below(2), r.below(4), r.next(), r.chance(1, 3) as u64]),
                9 => Op::new("crash", &[r.next(), r.next(), r.below(2)]),
                10 => Op::new("proof", &[p, r.below(4), r.next()]),
                _ => Op::new("cut", &[r.below(2), r.next()]),
            });
        }
        Plan { cfg: vec![keyed, kind, h, r.next()], ops, sched: Schedule::quiet() }
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) {
        if plan.c(0) == 1 {
            on_keyed!(plan.c(1), m06_keyed(plan, ctx))
        } else {
            on_append!(plan.c(1), m06_append(plan, ctx))
        }
    }
    fn rule(&self) -> &'static str {
        "trees, commitments and proofs are written through storage that makes short, interrupted, failing \
         and torn transfers and loses unsynced data in crashes; what loads must equal what was saved and \
         behave like a tree that was never stored, and a cut-off save must not load"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
}
fn m06_keyed<K: Kind>(plan: &Plan, ctx: &mut Ctx) {
    m06::<K>(plan, ctx)
}
fn m06_append<K: Kind, L: Kind<N = K::N>>(plan: &Plan, ctx: &mut Ctx) {
    if plan.c(3) % 3 == 0 && L::LIGHT {
        m06::<L>(plan, ctx)
    } else {
        m06::<K>(plan, ctx)
    }
}

fn faults(kind: u64, seed: u64, len_hint: u64, hard: bool) -> IoFaults {
    let mut r = Prng::new(seed);
    IoFaults {
        seed,
        short: kind & 1 == 1,
        interrupt: kind & 2 == 2,
        fail_at: if hard { Some(r.below(len_hint + 1)) } else { None },
        fail_kind: r.below(3),
    }
}
fn save<K: Kind>(ctx: &mut Ctx, t: &K::T, json: bool, f: IoFaults) -> Option<Vec<u8>> {
    let mut w = SimWriter::new(f);
    let ok = ctx.must("save", || {
        if json {
            serde_json::to_writer(&mut w, t).is_ok()
        } else {
            bincode::serialize_into(&mut w, t).is_ok()
        }
    });
    ctx.io(&w.count);
    (ok == Some(true)).then_some(w.data)
}
fn load<K: Kind>(ctx: &mut Ctx, b: &[u8], json: bool, f: IoFaults) -> Option<Result<K::T, String>> {
    let mut rd = SimReader::new(b.to_vec(), f);
    let x = ctx.must("load", || {
        if json {
            serde_json::from_reader(&mut rd).map_err(|e| e.to_string())
        } else {
            bincode::deserialize_from(&mut rd).map_err(|e| e.to_string())
        }
    });
    ctx.io(&rd.count);
    x
}

fn m06<K: Kind>(plan: &Plan, ctx: &mut Ctx) {
    let h = plan.c(2) as usize;
    let cap = cap::<K>(h as u64);
    let mut live = K::new(h); // goes through storage
    let mut twin = K::new(h); // never stored
    let mut twin_saved = twin.clone();
    let mut file = SimFile::default();
    let mut saves: Vec<(Vec<u8>, bool, K::T)> = vec![];
    for o in &plan.ops {
        let p = if K::KEYED { o.arg(0) % cap } else { o.arg(0) % cap.min(12) };
        match o.k.as_str() {
            "put" => {
                let lt = &mut live;
                let x = ctx.must("update", || if K::KEYED { K::update(lt, p, o.arg(1)).map(|x| format!("{x:?}")) } else { K::push(lt, o.arg(1)).map(|_| String::new()) });
                let y = if K::KEYED { K::update(&mut twin, p, o.arg(1)).map(|x| format!("{x:?}")) } else { K::push(&mut twin, o.arg(1)).map(|_| String::new()) };
                ctx.check(x == Some(y.clone()), "reloaded-tree-differs", || {
                    format!("{} height {h}: a write answers {x:?} on the reloaded tree, {y:?} on the original", K::NAME)
                });
            },
            "del" if K::KEYED => {
                let lt = &mut live;
                let x = ctx.must("update", || K::remove(lt, p));
                let y = K::remove(&mut twin, p);
                ctx.check(x == Some(y.clone()), "reloaded-tree-differs", || {
                    format!("{} height {h}: a removal answers {x:?} on the reloaded tree, {y:?} on the original", K::NAME)
                });
            },
            "forget" => {
                let lt = &mut live;
                let x = ctx.must("forget", || K::forget(lt, p));
                let y = K::forget(&mut twin, p);
                ctx.check(x == Some(y.clone()), "reloaded-tree-differs", || {
                    format!("{} height {h}: forget answers {x:?} on the reloaded tree, {y:?} on the original", K::NAME)
                });
            },
            "save" => {
                let json = o.arg(0) == 1 && h <= 30;
                let clean = save::<K>(ctx, &live, json, IoFaults::default());
                let Some(clean) = clean else {
                    return ctx.violate("save-refused", format!("{}: saving failed", K::NAME));
                };
                let f = faults(o.arg(1), o.arg(2), clean.len() as u64, o.arg(3) == 1);
                let hard = f.fail_at.is_some_and(|x| x < clean.len() as u64);
                let got = save::<K>(ctx, &live, json, f);
                if hard {
                    ctx.check(got.is_none(), "failed-save-reported-success", || {
                        format!("{}: a save that hit a disk error reported success", K::NAME)
                    });
                    continue;
                }
                ctx.check(got.as_ref() == Some(&clean), "save-depends-on-transfers", || {
                    format!("{}: bytes saved through short transfers differ", K::NAME)
                });
                file.write_all(&clean);
                file.sync();
                twin_saved = twin.clone();
                saves.push((clean.clone(), json, live.clone()));
                let back = load::<K>(ctx, &clean, json, faults(o.arg(1), o.arg(2) ^ 5, 0, false));
                match back {
                    Some(Ok(b)) => {
                        ctx.check(b == live, "reload-differs", || {
                            format!("{} height {h}: a tree saved and reloaded (json {json}) is not equal", K::NAME)
                        });
                        live = b;
                    },
                    Some(Err(e)) => ctx.violate("reload-refused", format!("{} height {h}: {e}", K::NAME)),
                    None => return,
                }
            },
            "crash" => {
                let json = o.arg(2) == 1 && h <= 30;
                let Some(b) = save::<K>(ctx, &live, json, IoFaults::default()) else { return };
                saves.push((b.clone(), json, live.clone()));
                file.write_all(&b);
                let twin_now = twin.clone();
                let fault = file.crash(o.arg(0), o.arg(1));
                ctx.fault(fault);
                if fault == "crash_zeroed_tail" {
                    // not a cut-off: other contents altogether, outside the property
                    file.durable = vec![];
                    file.volatile = vec![];
                }
                let mut recovered = None;
                for js in [false, true] {
                    if let Some(Ok(t)) = load::<K>(ctx, &file.durable, js, IoFaults::default()) {
                        let known = saves.iter().any(|s| s.2 == t);
                        ctx.check(known, "cut-save-loaded-as-other-tree", || {
                            format!("{} height {h}: after {fault} a tree loads that was never saved", K::NAME)
                        });
                        recovered = Some(t);
                    }
                }
                match recovered {
                    Some(t) => {
                        // either the new or the last synced version
                        if t == live {
                            twin = twin_now;
                            twin_saved = twin.clone();
                        } else {
                            twin = twin_saved.clone();
                        }
                        live = t;
                    },
                    None => {
                        live = K::new(h);
                        twin = K::new(h);
                        twin_saved = twin.clone();
                        file = SimFile::default();
                    },
                }
            },
            "cut" => {
                let json = o.arg(0) == 1 && h <= 30;
                let Some(b) = save::<K>(ctx, &live, json, IoFaults::default()) else { return };
                let k = (o.arg(1) % b.len() as u64) as usize;
                ctx.fault("truncate");
                if let Some(x) = load::<K>(ctx, &b[..k], json, IoFaults::default()) {
                    ctx.check(x.is_err() || x.as_ref().is_ok_and(|t| *t == live), "cut-save-loaded-as-other-tree", || {
                        format!("{} height {h}: {k} of {} bytes load as another tree", K::NAME, b.len())
                    });
                }
            },
            "proof" => {
                let (v, pr) = match K::lookup(&live, p) {
                    Look::Hit(v, pr) => (Some(v), pr),
                    Look::Miss(Some(pr)) => (None, pr),
                    _ => continue,
                };
                let c = K::commitment(&live);
                let f = faults(o.arg(1), o.arg(2), 0, false);
                let mut w = SimWriter::new(f.clone());
                let comp = o.arg(2) % 2 == 0;
                let ok = ctx.must("save", || {
                    let a = if comp { pr.serialize_compressed(&mut w) } else { pr.serialize_uncompressed(&mut w) };
                    let b = if comp { c.serialize_compressed(&mut w) } else { c.serialize_uncompressed(&mut w) };
                    a.is_ok() && b.is_ok()
                });
                ctx.io(&w.count);
                let size = if comp { pr.compressed_size() + c.compressed_size() } else { pr.uncompressed_size() + c.uncompressed_size() };
                ctx.check(ok == Some(true) && w.data.len() == size, "advertised-size", || {
                    format!("{}: a proof and commitment take {} bytes, advertised {size}", K::NAME, w.data.len())
                });
                let mut rd = SimReader::new(w.data, f);
                let back = ctx.must("load", || {
                    let a = if comp { Proof::<K::N>::deserialize_compressed(&mut rd) } else { Proof::<K::N>::deserialize_uncompressed(&mut rd) };
                    let b = if comp { K::N::deserialize_compressed(&mut rd) } else { K::N::deserialize_uncompressed(&mut rd) };
                    (a.ok(), b.ok())
                });
                ctx.io(&rd.count);
                ctx.check(back == Some((Some(pr.clone()), Some(c))), "proof-reload-differs", || {
                    format!("{}: a reloaded proof or commitment is not equal", K::NAME)
                });
                let j = ctx.must("save", || serde_json::to_string(&pr).unwrap()).unwrap_or_default();
                let b = ctx.must("load", || serde_json::from_str::<Proof<K::N>>(&j).ok());
                ctx.check(b == Some(Some(pr.clone())), "proof-reload-differs", || {
                    format!("{}: a proof reloaded from its text form is not equal", K::NAME)
                });
                let bb = ctx.must("save", || bincode::serialize(&pr).unwrap()).unwrap_or_default();
                let b = ctx.must("load", || bincode::deserialize::<Proof<K::N>>(&bb).ok());
                ctx.check(b == Some(Some(pr.clone())), "proof-reload-differs", || {
                    format!("{}: a proof reloaded from its binary form is not equal", K::NAME)
                });
                if let Some(v) = v {
                    let x = K::verify(&c, p, v, &pr);
                    ctx.check(x == Ok(true), "proof-reload-differs", || format!("{}: reloaded proof fails", K::NAME));
                }
            },
            _ => {},
        }
        ctx.event(&o.k, &nb(&K::commitment(&live)));
        let probes = [p, 0, p ^ 1].map(|x| x % cap);
        let Some(a) = ctx.must("snapshot", || snapshot::<K>(&live, &probes)) else { return };
        ctx.check(a == snapshot::<K>(&twin, &probes), "reloaded-tree-differs", || {
            format!("{} height {h}: after {} the stored tree differs from one that was never stored", K::NAME, o.k)
        });
        state::<K>(ctx, &live);
    }
}

// ---------------------------------------------------------------------------

pub struct M07;

impl World for M07 {
    fn property(&self) -> &'static str {
        "M07"
    }
    fn budget(&self, tier: Tier) -> (u64, u64) {
        match tier {
            Tier::Quick => (8_000, 25),
            Tier::Thorough => (2_000_000, 500),
        }
    }
    /// cfg: [keyed, kind, height, threads, seed]
    fn gen(&self, r: &mut Prng, tier: Tier) -> Plan {
        let keyed = r.chance(3, 4) as u64;
        let kind = gen_kind(r).min(6);
        let h = gen_height(r, keyed == 1, kind);
        let pool_size = r.range(1, 10);
        let pool = positions(r, pool_size);
        let threads = r.range(1, 4);
        let mut ops = vec![];
        for _ in 0..r.range(0, 8) {
            ops.push(Op::new("w", &[*r.pick(&pool), r.below(9)]));
        }
        for _ in 0..r.range(1, if tier == Tier::Thorough { 50 } else { 24 }) {
            let p = *r.pick(&pool);
            ops.push(Op::new("t", &[r.below(threads), r.next(), p, r.below(9), r.below(8)]));
        }
        Plan {
            cfg: vec![keyed, kind, h, threads, r.next()],
            ops,
            sched: gen_schedule(r, 14),
        }
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) {
        if plan.c(0) == 1 {
            on_keyed!(plan.c(1), m07_keyed(plan, ctx))
        } else {
            on_append!(plan.c(1), m07_append(plan, ctx))
        }
    }
    fn rule(&self) -> &'static str {
        "threads derive new versions from shared ones, change private copies in place, forget, read and \
         drop, under a seeded preemptive scheduler; every version must stay what it was when made"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
}
fn m07_keyed<K: Kind>(plan: &Plan, ctx: &mut Ctx) {
    m07::<K>(plan, ctx)
}
fn m07_append<K: Kind, L: Kind<N = K::N>>(plan: &Plan, ctx: &mut Ctx) {
    if plan.c(4) % 3 == 0 && L::LIGHT {
        m07::<L>(plan, ctx)
    } else {
        m07::<K>(plan, ctx)
    }
}

struct Ver<K: Kind> {
    t: Arc<K::T>,
    m: Model,
    snap: Vec<u8>,
}
impl<K: Kind> Clone for Ver<K> {
    fn clone(&self) -> Self {
        Ver { t: self.t.clone(), m: self.m.clone(), snap: self.snap.clone() }
    }
}

fn m07<K: Kind>(plan: &Plan, ctx: &mut Ctx) {
    let h = plan.c(2) as usize;
    let cap = cap::<K>(h as u64);
    let mut t = K::new(h);
    let mut m = Model::new();
    for o in plan.ops.iter().filter(|o| o.k == "w") {
        if K::KEYED {
            let _ = K::update(&mut t, o.arg(0) % cap, o.arg(1));
            m.insert(o.arg(0) % cap, o.arg(1));
        } else if (m.len() as u64) < cap {
            let _ = K::push(&mut t, o.arg(1));
            m.insert(m.len() as u64, o.arg(1));
        }
    }
    let probes: Vec<u64> = {
        let mut v: Vec<u64> = plan.ops.iter().filter(|o| o.k == "t").map(|o| o.arg(2) % cap).collect();
        v.extend([0, 1 % cap]);
        v.sort();
        v.dedup();
        v.truncate(8);
        v
    };
    let base: Ver<K> = Ver { snap: snapshot::<K>(&t, &probes), t: Arc::new(t), m };
    let nt = plan.c(3).max(1);
    let mut hs = vec![];
    for th in 0..nt {
        let ops: Vec<Op> = plan.ops.iter().filter(|o| o.k == "t" && o.arg(0) % nt == th).cloned().collect();
        let (base, probes) = (base.clone(), probes.clone());
        hs.push(std::thread::spawn(move || -> Result<(Vec<Ver<K>>, u64), (String, String)> {
            let mut vs = vec![base];
            let mut n = 0;
            for o in &ops {
                let src = vs[o.usize(1) % vs.len()].clone();
                let p = if K::KEYED { o.arg(2) % cap } else { o.arg(2) % cap.min(8) };
                let mut m = src.m.clone();
                let mut t: K::T = (*src.t).clone();
                let r: Result<(), Err> = catch_unwind(AssertUnwindSafe(|| match (K::KEYED, o.arg(4)) {
                    (true, 0 | 1) => K::fork_update(&src.t, p, o.arg(3)).map(|x| {
                        t = x;
                        m.insert(p, o.arg(3));
                    }),
                    (true, 2) => K::fork_remove(&src.t, p).map(|x| {
                        t = x;
                        m.remove(&p);
                    }),
                    (true, 3) => K::fork_with(&src.t, p, &mut |o| o.map(|x| x + 1)).map(|x| {
                        t = x;
                        if let Some(v) = m.get_mut(&p) {
                            *v += 1;
                        }
                    }),
                    (true, 4) => K::update(&mut t, p, o.arg(3)).map(|_| {
                        m.insert(p, o.arg(3));
                    }),
                    (true, 5) => K::remove(&mut t, p).map(|_| {
                        m.remove(&p);
                    }),
                    (false, 0..=5) if (m.len() as u64) < cap => K::push(&mut t, o.arg(3)).map(|_| {
                        m.insert(m.len() as u64, o.arg(3));
                    }),
                    _ => {
                        // forgetting in a private copy
                        let mut c = t.clone();
                        K::forget(&mut c, p);
                        drop(c);
                        Ok(())
                    },
                }))
                .unwrap_or_else(|_| Err("panic".into()));
                r.map_err(|e| ("version-update-failed".into(), format!("{} height {h}: {e} at {p}", K::NAME)))?;
                // the source and the new version, while other threads run
                let again = snapshot::<K>(&src.t, &probes);
                if again != src.snap {
                    return Err(("old-version-changed".into(), format!("{} height {h}: deriving a version at {p} changed its source", K::NAME)));
                }
                n += 1;
                vs.push(Ver { snap: snapshot::<K>(&t, &probes), t: Arc::new(t), m });
            }
            Ok((vs, n))
        }));
    }
    let mut all = vec![];
    for x in hs {
        match x.join() {
            Ok(Ok((v, n))) => {
                all.extend(v);
                ctx.out.evals += n;
            },
            Ok(Err((c, d))) => return ctx.violate(&c, d),
            Err(_) => return ctx.violate("panic:thread", "a worker thread panicked".into()),
        }
    }
    for v in &all {
        let s = snapshot::<K>(&v.t, &probes);
        ctx.check(s == v.snap, "old-version-changed", || {
            format!("{} height {h}: a version changed after it was made", K::NAME)
        });
        full_ok::<K>(ctx, &v.t, &v.m, "version");
        let kv: Vec<_> = v.m.iter().map(|(a, b)| (*a, *b)).collect();
        if let Ok(b) = K::batch(Some(h), &kv) {
            ctx.check(K::commitment(&b) == K::commitment(&v.t), "version-not-alone", || {
                format!("{} height {h}: a version's commitment is not that of its contents {kv:?}", K::NAME)
            });
        }
        ctx.event("version", &nb(&K::commitment(&v.t)));
        state::<K>(ctx, &v.t);
    }
}
