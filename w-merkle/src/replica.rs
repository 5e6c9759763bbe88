//! M01: replicas that receive the same writes in different orders.
//! M02: replicas that hold only part of a tree.
use crate::{kinds::*, on_append, on_keyed, util::*};
use sim::{disk::SimFile, *};
use std::collections::{BTreeMap, BTreeSet};

pub struct M01;

impl World for M01 {
    fn property(&self) -> &'static str {
        "M01"
    }
    fn budget(&self, tier: Tier) -> (u64, u64) {
        match tier {
            Tier::Quick => (16_000, 25),
            Tier::Thorough => (3_000_000, 500),
        }
    }
    /// cfg: [keyed, kind, height, replicas, probe seed]
    fn gen(&self, r: &mut Prng, tier: Tier) -> Plan {
        let keyed = r.chance(2, 3) as u64;
        let kind = gen_kind(r);
        let h = gen_height(r, keyed == 1, kind);
        let costly = kind >= 7;
        let reps = r.range(2, 3);
        let big = if tier == Tier::Thorough && !costly { 80 } else { 30 };
        let n = r.range(0, if costly { 8 } else { big });
        let mut ops = vec![];
        // the writes themselves: w(version implied by order, pos, value or removal)
        let pool_size = r.range(1, 12);
        let pool = positions(r, pool_size);
        for _ in 0..n {
            let del = keyed == 1 && r.chance(2, 5);
            ops.push(Op::new("w", &[*r.pick(&pool), r.below(6), del as u64]));
        }
        // the network: every write reaches every replica, late, twice or not at all
        let mut net = vec![];
        for rep in 0..reps {
            for i in 0..n {
                if r.chance(1, 8) {
                    continue; // lost; repaired at the end
                }
                for _ in 0..=(r.chance(1, 6) as u64) {
                    net.push((r.below(2 * n + 2) + if r.chance(1, 3) { 0 } else { i }, rep, i));
                }
            }
        }
        net.sort();
        for (_, rep, i) in net {
            ops.push(Op::new("d", &[rep, i]));
            match r.below(16) {
                0 => ops.push(Op::new("clone", &[r.below(reps)])),
                1 => ops.push(Op::new("save", &[r.below(reps)])),
                2 => ops.push(Op::new("crash", &[r.below(reps)])),
                3 => ops.push(Op::new("churn", &[r.below(reps), *r.pick(&pool), r.below(100)])),
                4 => ops.push(Op::new("err", &[r.below(reps), r.below(8)])),
                _ => {},
            }
        }
        Plan { cfg: vec![keyed, kind, h, reps, r.next()], ops, sched: Schedule::quiet() }
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) {
        if plan.c(0) == 1 {
            on_keyed!(plan.c(1), m01_keyed(plan, ctx))
        } else {
            on_append!(plan.c(1), m01_append(plan, ctx))
        }
    }
    fn rule(&self) -> &'static str {
        "replicas receive one set of writes through a network that delays, repeats, loses and reorders, \
         with snapshots and crashes; at the end equal contents must give equal commitments, equal to a \
         batch build, and contents that differ in one entry must give different commitments"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
}

struct Rep<K: Kind> {
    t: K::T,
    seen: BTreeMap<u64, usize>,
    got: BTreeSet<usize>,
    saved: Option<(Vec<u8>, BTreeMap<u64, usize>, BTreeSet<usize>)>,
}

fn m01_keyed<K: Kind>(plan: &Plan, ctx: &mut Ctx) {
    let h = plan.c(2) as usize;
    let cap = cap::<K>(h as u64);
    let reps = (plan.c(3).max(1)) as usize;
    let writes: Vec<(u64, Option<u64>)> = plan
        .ops
        .iter()
        .filter(|o| o.k == "w")
        .map(|o| (o.arg(0) % cap, if o.arg(2) == 1 { None } else { Some(o.arg(1)) }))
        .collect();
    let mut rs: Vec<Rep<K>> = (0..reps)
        .map(|_| Rep { t: K::new(h), seen: BTreeMap::new(), got: BTreeSet::new(), saved: None })
        .collect();
    fn apply<K: Kind>(ctx: &mut Ctx, r: &mut Rep<K>, i: usize, w: (u64, Option<u64>), style: usize) {
        r.got.insert(i);
        if r.seen.get(&w.0).is_some_and(|s| *s >= i) {
            return; // older than what is there
        }
        r.seen.insert(w.0, i);
        let t = &mut r.t;
        let res = ctx.must("update", || match (style % 3, w.1) {
            (0, Some(v)) => K::update(t, w.0, v).map(|_| ()),
            (0, None) => K::remove(t, w.0).map(|_| ()),
            (1, v) => K::update_with(t, w.0, &mut |_| v).map(|_| ()),
            (_, Some(v)) => K::fork_update(t, w.0, v).map(|n| *t = n),
            (_, None) => K::fork_remove(t, w.0).map(|n| *t = n),
        });
        if let Some(res) = res {
            ctx.check(res.is_ok(), "update-refused", || {
                format!("{}: a valid update at {} was refused: {res:?}", K::NAME, w.0)
            });
        }
    }
    let mut step = 0usize;
    for o in &plan.ops {
        step += 1;
        let ri = o.usize(0) % reps;
        match o.k.as_str() {
            "d" if !writes.is_empty() => {
                let i = o.usize(1) % writes.len();
                if rs[ri].got.contains(&i) {
                    ctx.fault("net_duplicate");
                } else if rs[ri].got.iter().next_back().is_some_and(|m| *m > i) {
                    ctx.fault("net_reorder");
                }
                apply::<K>(ctx, &mut rs[ri], i, writes[i], step + ri);
            },
            "clone" => {
                let c = rs[ri].t.clone();
                rs[ri].t = c;
            },
            "save" => {
                let b = bincode::serialize(&rs[ri].t).unwrap();
                rs[ri].saved = Some((b, rs[ri].seen.clone(), rs[ri].got.clone()));
            },
            "crash" => {
                ctx.fault("crash_restart");
                match rs[ri].saved.clone() {
                    Some((b, s, g)) => {
                        rs[ri].t = bincode::deserialize(&b).unwrap();
                        rs[ri].seen = s;
                        rs[ri].got = g;
                    },
                    None => {
                        rs[ri].t = K::new(h);
                        rs[ri].seen.clear();
                        rs[ri].got.clear();
                    },
                }
            },
            "churn" => {
                // insert something that is removed again at once
                let p = o.arg(1) % cap;
                let t = &mut rs[ri].t;
                if let Look::Miss(_) = K::lookup(t, p) {
                    let a = ctx.must("update", || K::update(t, p, o.arg(2)));
                    let b = ctx.must("update", || K::remove(t, p));
                    ctx.check(a == Some(Ok(Old::None)) && b == Some(Ok(Old::Some(o.arg(2)))), "churn", || {
                        format!("{}: insert then remove at {p} answered {a:?}, {b:?}", K::NAME)
                    });
                }
            },
            "err" => {
                ctx.fault("digest_error");
                // a removal of something absent while digests fail
                FAIL_IN.with(|f| f.set(o.arg(1)));
                let t = &mut rs[ri].t;
                let mut x = |o: Option<u64>| o;
                let _ = ctx.must("update", || K::update_with(t, o.arg(1), &mut x));
                FAIL_IN.with(|f| f.set(u64::MAX));
            },
            _ => {},
        }
        state::<K>(ctx, &rs[ri].t);
    }
    for ri in 0..reps {
        for i in 0..writes.len() {
            if !rs[ri].got.contains(&i) {
                ctx.fault("net_loss_repaired");
                apply::<K>(ctx, &mut rs[ri], i, writes[i], i);
            }
        }
    }
    let mut m = Model::new();
    for (p, v) in &writes {
        match v {
            Some(v) => m.insert(*p, *v),
            None => m.remove(p),
        };
    }
    let mut kv: Vec<_> = m.iter().map(|(a, b)| (*a, *b)).collect();
    let mut r = Prng::new(plan.c(4));
    r.shuffle(&mut kv);
    let Some(Ok(b)) = ctx.must("build", || K::batch(Some(h), &kv)) else {
        return ctx.violate("build-refused", format!("{}: building {kv:?} was refused", K::NAME));
    };
    let c = K::commitment(&b);
    for (i, rep) in rs.iter().enumerate() {
        ctx.check(K::commitment(&rep.t) == c, "commitment-depends-on-history", || {
            format!("{} height {h}: replica {i} commits differently from a batch build of {kv:?}", K::NAME)
        });
        ctx.check(K::len(&rep.t) == m.len() as u64, "size-depends-on-history", || {
            format!("{} height {h}: replica {i} reports {} entries of {}", K::NAME, K::len(&rep.t), m.len())
        });
        ctx.check(rep.t == b || nb(&K::commitment(&rep.t)) == nb(&c), "unequal", String::new);
    }
    ctx.event("commitment", &nb(&c));
    // contents that differ in one entry
    let mut t = b.clone();
    let p = match (r.below(2), kv.first()) {
        (0, Some(x)) => x.0,
        _ => r.next() % cap,
    };
    let what = match m.get(&p) {
        Some(_) if r.chance(1, 2) => K::remove(&mut t, p).map(|_| "removing"),
        Some(v) => K::update(&mut t, p, v.wrapping_add(1 + r.below(3))).map(|_| "changing"),
        None => K::update(&mut t, p, r.below(3)).map(|_| "adding"),
    };
    ctx.check(K::commitment(&t) != c, "different-contents-same-commitment", || {
        format!("{} height {h}: {what:?} entry {p} did not change the commitment of {kv:?}", K::NAME)
    });
    // two entries exchanged
    if kv.len() >= 2 && kv[0].1 != kv[1].1 {
        let mut k2 = kv.clone();
        let v = k2[0].1;
        k2[0].1 = k2[1].1;
        k2[1].1 = v;
        if let Ok(x) = K::batch(Some(h), &k2) {
            ctx.check(K::commitment(&x) != c, "different-contents-same-commitment", || {
                format!("{} height {h}: exchanging two values did not change the commitment", K::NAME)
            });
        }
    }
}

fn m01_append<K: Kind, L: Kind<N = K::N>>(plan: &Plan, ctx: &mut Ctx) {
    let h = plan.c(2) as usize;
    let cap = cap::<K>(h as u64);
    let mut vals: Vec<u64> = plan.ops.iter().filter(|o| o.k == "w").map(|o| o.arg(1)).collect();
    vals.truncate(cap.min(1 << 20) as usize);
    let kv: Vec<(u64, u64)> = vals.iter().enumerate().map(|(i, v)| (i as u64, *v)).collect();
    let mut r = Prng::new(plan.c(4));
    let Some(Ok(b)) = ctx.must("build", || K::batch(Some(h), &kv)) else {
        return ctx.violate("build-refused", format!("{}: building {} entries was refused", K::NAME, kv.len()));
    };
    let c = K::commitment(&b);
    ctx.event("commitment", &nb(&c));
    /// Grows a tree to `vals` in the replica's own rhythm, with crashes.
    fn grow<K: Kind>(ctx: &mut Ctx, r: &mut Prng, h: usize, vals: &[u64]) -> K::T {
        let first = r.below(vals.len() as u64 + 1) as usize;
        let kv: Vec<(u64, u64)> = vals[..first].iter().map(|v| (0, *v)).collect();
        let mut t = if r.chance(1, 2) {
            K::batch(Some(h), &kv).unwrap_or_else(|_| K::new(h))
        } else {
            K::new(h)
        };
        let mut saved = t.clone();
        while (K::len(&t) as usize) < vals.len() {
            let at = K::len(&t) as usize;
            match r.below(12) {
                0 => saved = bincode::deserialize(&bincode::serialize(&t).unwrap()).unwrap(),
                1 => {
                    ctx.fault("crash_restart");
                    t = saved.clone();
                },
                2 => t = t.clone(),
                3..=6 => {
                    let v = vals[at];
                    let x = ctx.must("push", || K::push(&mut t, v));
                    ctx.check(x == Some(Ok(())), "append-refused", || {
                        format!("{} height {h}: push number {at} of {} refused: {x:?}", K::NAME, vals.len())
                    });
                },
                7 => {
                    // an append that fails while hashing must not leave anything behind
                    ctx.fault("digest_error");
                    FAIL_IN.with(|f| f.set(r.below(4)));
                    let v = vals[at];
                    let _ = ctx.must("push", || K::push(&mut t, v));
                    FAIL_IN.with(|f| f.set(u64::MAX));
                },
                _ => {
                    let n = r.size((vals.len() - at) as u64).min((vals.len() - at) as u64) as usize;
                    let x = ctx.must("extend", || K::extend(&mut t, &mut vals[at..at + n].iter().copied()));
                    ctx.check(x == Some(Ok(())), "append-refused", || {
                        format!("{} height {h}: extend by {n} at {at} refused: {x:?}", K::NAME)
                    });
                },
            }
            state::<K>(ctx, &t);
        }
        t
    }
    for i in 0..plan.c(3).max(1) {
        let t = grow::<K>(ctx, &mut r, h, &vals);
        ctx.check(K::commitment(&t) == c && K::len(&t) == kv.len() as u64, "commitment-depends-on-history", || {
            format!("{} height {h}: replica {i} with {} entries commits differently from a batch build", K::NAME, kv.len())
        });
        ctx.check(t == b || K::LIGHT, "tree-depends-on-history", || {
            format!("{} height {h}: replica {i} with {} entries is not equal to a batch build", K::NAME, kv.len())
        });
        let t = grow::<L>(ctx, &mut r, h, &vals);
        ctx.check(L::commitment(&t) == c && L::len(&t) == kv.len() as u64, "commitment-depends-on-history", || {
            format!("{} height {h}: with {} entries the commitment differs from {}", L::NAME, kv.len(), K::NAME)
        });
    }
    if !kv.is_empty() && h > 0 {
        // the smallest tree that fits
        if let Some(Ok(s)) = ctx.must("build", || K::batch(None, &kv)) {
            let hs = K::height(&s) as u64;
            let fits = crate::util::cap::<K>(hs) >= kv.len() as u64
                && (hs == 0 || crate::util::cap::<K>(hs - 1) < kv.len() as u64);
            ctx.check(fits, "default-height", || {
                format!("{}: default height {hs} for {} entries", K::NAME, kv.len())
            });
            if hs == h as u64 {
                ctx.check(K::commitment(&s) == c, "commitment-depends-on-history", || {
                    format!("{} height {h}: default height build differs", K::NAME)
                });
            }
        }
        let mut v2 = kv.clone();
        let i = r.below(kv.len() as u64) as usize;
        v2[i].1 = v2[i].1.wrapping_add(1);
        if let Ok(x) = K::batch(Some(h), &v2) {
            ctx.check(K::commitment(&x) != c, "different-contents-same-commitment", || {
                format!("{} height {h}: changing entry {i} did not change the commitment", K::NAME)
            });
        }
        if let Ok(x) = K::batch(Some(h), &kv[..kv.len() - 1]) {
            ctx.check(K::commitment(&x) != c, "different-contents-same-commitment", || {
                format!("{} height {h}: leaving out the last entry did not change the commitment", K::NAME)
            });
        }
    }
}

// ---------------------------------------------------------------------------

pub struct M02;

impl World for M02 {
    fn property(&self) -> &'static str {
        "M02"
    }
    fn budget(&self, tier: Tier) -> (u64, u64) {
        match tier {
            Tier::Quick => (20_000, 25),
            Tier::Thorough => (3_000_000, 500),
        }
    }
    /// cfg: [keyed, kind, height, start style, seed]
    fn gen(&self, r: &mut Prng, tier: Tier) -> Plan {
        let keyed = r.chance(2, 3) as u64;
        let kind = gen_kind(r);
        let h = gen_height(r, keyed == 1, kind);
        let costly = kind >= 7;
        let mut ops = vec![];
        let pool_size = r.range(1, 10);
        let pool = positions(r, pool_size);
        let n0 = r.range(0, if costly { 5 } else { 14 });
        for _ in 0..n0 {
            ops.push(Op::new("w", &[*r.pick(&pool), r.below(50)]));
        }
        let m = r.range(1, if costly { 8 } else if tier == Tier::Thorough { 60 } else { 25 });
        for _ in 0..m {
            let p = if r.chance(4, 5) { *r.pick(&pool) } else { r.below(16) };
            ops.push(match r.below(20) {
                0..=4 => Op::new("forget", &[p]),
                5..=8 => Op::new("deliver", &[p]),
                9..=11 => Op::new("deliver-old", &[p, r.next()]),
                12 | 13 => Op::new("write", &[p, r.below(50), r.chance(1, 3) as u64]),
                14 => Op::new("save", &[]),
                15 => Op::new("crash", &[r.next(), r.next()]),
                16 => Op::new("from-commitment", &[]),
                17 => Op::new("altered", &[p, r.next()]),
                18 => Op::new("forget-all", &[]),
                _ => Op::new("wrong", &[p, r.next()]),
            });
        }
        Plan { cfg: vec![keyed, kind, h, r.below(3), r.next()], ops, sched: Schedule::quiet() }
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) {
        if plan.c(0) == 1 {
            on_keyed!(plan.c(1), m02_keyed(plan, ctx))
        } else {
            on_append!(plan.c(1), m02(plan, ctx))
        }
    }
    fn rule(&self) -> &'static str {
        "a full replica serves proofs over a network that loses, repeats, reorders, delays and alters; a \
         partial replica forgets, remembers, crashes, restarts from storage or from the commitment alone; \
         after every step commitment, height and size match and every answered lookup agrees; at the end \
         everything is delivered and both agree on every entry"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
}

fn m02_keyed<K: Kind>(plan: &Plan, ctx: &mut Ctx) {
    m02::<K, K>(plan, ctx)
}

/// Full replica of kind `K`, partial replica of kind `L`.
fn m02<K: Kind, L: Kind<N = K::N>>(plan: &Plan, ctx: &mut Ctx) {
    let h = plan.c(2) as usize;
    let cap = cap::<K>(h as u64);
    let mut m = Model::new();
    let mut full = K::new(h);
    for o in plan.ops.iter().filter(|o| o.k == "w") {
        if K::KEYED {
            let p = o.arg(0) % cap;
            let _ = K::update(&mut full, p, o.arg(1));
            m.insert(p, o.arg(1));
        } else if (m.len() as u64) < cap {
            let _ = K::push(&mut full, o.arg(1));
            m.insert(m.len() as u64, o.arg(1));
        }
    }
    if K::LIGHT {
        // the proof server needs everything in memory: a light tree cannot serve
        return;
    }
    // In-memory entries the partial replica must be able to answer.
    let mut mem: BTreeSet<u64> = BTreeSet::new();
    let start = |full: &K::T, m: &Model, mem: &mut BTreeSet<u64>, style: u64| -> L::T {
        mem.clear();
        match style {
            0 => L::from_commitment(&K::commitment(full), h, m.len() as u64),
            _ => {
                let kv: Vec<_> = m.iter().map(|(a, b)| (*a, *b)).collect();
                if !L::LIGHT {
                    mem.extend(m.keys());
                } else if let Some(l) = m.keys().next_back() {
                    mem.insert(*l);
                }
                L::batch(Some(h), &kv).unwrap_or_else(|_| L::new(h))
            },
        }
    };
    let mut light = start(&full, &m, &mut mem, plan.c(3));
    let mut file = SimFile::default();
    let mut files: Vec<(Vec<u8>, Model, BTreeSet<u64>)> = vec![];
    // Messages in flight: answers of the full replica, possibly from older versions.
    let mut old: Vec<(u64, Look<K::N>, Vec<u8>)> = vec![];
    let mut touched: BTreeSet<u64> = BTreeSet::new();

    for o in plan.ops.iter().filter(|o| o.k != "w") {
        let p = if K::KEYED { o.arg(0) % cap } else { o.arg(0) % cap.min(16) };
        let com = nb(&K::commitment(&full));
        touched.insert(p);
        match o.k.as_str() {
            "forget" => {
                let before = L::lookup(&light, p);
                let lt = &mut light;
                let Some(got) = ctx.must("forget", || if L::KEYED && o.arg(0) % 2 == 0 { L::forget_any(lt, p) } else { L::forget(lt, p) }) else {
                    return;
                };
                let same = match (&got, &before) {
                    (Look::Miss(None), Look::Miss(_)) => true,
                    (a, b) => a == b,
                };
                ctx.check(same, "forget-answer", || {
                    format!("{} height {h}: forget({p}) answered {got:?}, a lookup just before {before:?}", L::NAME)
                });
                mem.remove(&p);
                old.push((p, K::lookup(&full, p), com.clone()));
            },
            "forget-all" => {
                for p in mem.clone() {
                    let lt = &mut light;
                    ctx.must("forget", || L::forget(lt, p));
                    mem.remove(&p);
                }
            },
            "deliver" | "deliver-old" => {
                let (p, ans, c) = if o.k == "deliver" || old.is_empty() {
                    (p, K::lookup(&full, p), com.clone())
                } else {
                    ctx.fault("net_delay_or_repeat");
                    old[o.usize(1) % old.len()].clone()
                };
                touched.insert(p);
                let fresh = c == com;
                let lt = &mut light;
                match &ans {
                    Look::Hit(v, pr) => {
                        let Some(x) = ctx.must("remember", || L::remember(lt, p, *v, pr)) else { return };
                        if fresh {
                            ctx.check(x == Ok(()), "remember-refused", || {
                                format!("{} height {h}: remember({p}) of a valid entry refused: {x:?}", L::NAME)
                            });
                            mem.insert(p);
                        }
                        // An answer from an older version may still be valid by content;
                        // whether it is taken is checked by the lookups below.
                        if x.is_ok() && m.get(&p) == Some(v) {
                            mem.insert(p);
                        }
                    },
                    Look::Miss(Some(pr)) if L::KEYED => {
                        let Some(x) = ctx.must("remember_absent", || L::remember_absent(lt, p, pr)) else { return };
                        if fresh {
                            ctx.check(x == Ok(()), "remember-refused", || {
                                format!("{} height {h}: remembering that {p} is empty refused: {x:?}", L::NAME)
                            });
                        }
                    },
                    _ => {},
                }
                old.push((p, ans, c));
            },
            "write" => {
                // A new version.  The partial replica either applies the same write, if it
                // has what that takes in memory, or starts again from the commitment.
                old.push((p, K::lookup(&full, p), com.clone()));
                let v = o.arg(1);
                let lt = &mut light;
                let ok;
                if K::KEYED {
                    let del = o.arg(2) == 1;
                    let known = !matches!(L::lookup(lt, p), Look::Gone);
                    let Some(x) = ctx.must("update", || if del { L::remove(lt, p) } else { L::update(lt, p, v) }) else { return };
                    ok = x.is_ok();
                    ctx.check(ok || !known, "update-refused", || {
                        format!("{} height {h}: a write at {p}, which is in memory, was refused: {x:?}", L::NAME)
                    });
                    if del {
                        let _ = K::remove(&mut full, p);
                        m.remove(&p);
                        mem.remove(&p);
                    } else {
                        let _ = K::update(&mut full, p, v);
                        m.insert(p, v);
                        if ok {
                            mem.insert(p);
                        }
                    }
                } else if (m.len() as u64) < cap {
                    let at = m.len() as u64;
                    // The last entry in memory is all an append needs.
                    let can = at == 0 && matches!(L::lookup(lt, 0), Look::Miss(_)) || at > 0 && mem.contains(&(at - 1));
                    let Some(x) = ctx.must("push", || L::push(lt, v)) else { return };
                    ok = x.is_ok();
                    ctx.check(ok || !can, "append-refused", || {
                        format!("{} height {h}: push number {at} refused although the last entry is in memory: {x:?}", L::NAME)
                    });
                    if ok && L::LIGHT {
                        mem.clear();
                    }
                    if ok {
                        mem.insert(at);
                    }
                    let _ = K::push(&mut full, v);
                    m.insert(at, v);
                } else {
                    ok = true;
                }
                if !ok {
                    ctx.mark("restart_from_commitment");
                    light = start(&full, &m, &mut mem, 0);
                }
            },
            "save" => {
                let b = bincode::serialize(&light).unwrap();
                file.write_all(&b);
                file.sync();
                files.push((b, m.clone(), mem.clone()));
            },
            "crash" => {
                let b = bincode::serialize(&light).unwrap();
                file.write_all(&b);
                files.push((b, m.clone(), mem.clone()));
                ctx.fault(file.crash(o.arg(0), o.arg(1)));
                match files.iter().rev().find(|x| x.0 == file.durable) {
                    Some((b, fm, fmem)) if *fm == m => {
                        light = bincode::deserialize(b).unwrap();
                        mem = fmem.clone();
                    },
                    _ => light = start(&full, &m, &mut mem, 0),
                }
            },
            "from-commitment" => light = start(&full, &m, &mut mem, 0),
            "altered" | "wrong" => {
                // An answer that is not what the tree holds must change nothing.
                let mut r = Prng::new(o.arg(1));
                let before = snapshot::<L>(&light, &[p]);
                let lt = &mut light;
                match K::lookup(&full, p) {
                    Look::Hit(v, mut pr) => {
                        let mut v2 = v;
                        if o.k == "wrong" {
                            v2 = v.wrapping_add(1);
                        } else if !alter(&mut r, &mut pr.0) {
                            continue;
                        }
                        ctx.fault("net_altered_answer");
                        let Some(x) = ctx.must("remember", || L::remember(lt, p, v2, &pr)) else { return };
                        ctx.check(x.is_err(), "altered-answer-taken", || {
                            format!("{} height {h}: remember({p}) took an altered answer", L::NAME)
                        });
                    },
                    Look::Miss(Some(mut pr)) if L::KEYED => {
                        if !alter(&mut r, &mut pr.0) {
                            continue;
                        }
                        ctx.fault("net_altered_answer");
                        ctx.must("remember_absent", || L::remember_absent(lt, p, &pr));
                        // An altered proof of absence may still be a valid one.
                        if L::commitment(lt) == K::commitment(&full) {
                            continue;
                        }
                    },
                    _ => continue,
                }
                let after = snapshot::<L>(&light, &[p]);
                ctx.check(before == after, "altered-answer-taken", || {
                    format!("{} height {h}: an altered answer for {p} changed the tree", L::NAME)
                });
            },
            _ => {},
        }
        ctx.event(&o.k, &nb(&L::commitment(&light)));
        agree::<K, L>(ctx, &full, &light, &m, &mem, &touched, h);
        state::<L>(ctx, &light);
    }
    // Everything arrives in the end.
    let mut all: BTreeSet<u64> = touched.clone();
    all.extend(m.keys());
    let mut order: Vec<u64> = all.into_iter().filter(|p| *p < cap).collect();
    Prng::new(plan.c(4)).shuffle(&mut order);
    for p in &order {
        let lt = &mut light;
        match K::lookup(&full, *p) {
            Look::Hit(v, pr) => {
                let x = ctx.must("remember", || L::remember(lt, *p, v, &pr));
                ctx.check(x == Some(Ok(())), "remember-refused", || {
                    format!("{} height {h}: remember({p}) of a valid entry refused: {x:?}", L::NAME)
                });
                mem.insert(*p);
            },
            Look::Miss(Some(pr)) if L::KEYED => {
                let x = ctx.must("remember_absent", || L::remember_absent(lt, *p, &pr));
                ctx.check(x == Some(Ok(())), "remember-refused", || {
                    format!("{} height {h}: remembering that {p} is empty refused: {x:?}", L::NAME)
                });
            },
            _ => {},
        }
    }
    agree::<K, L>(ctx, &full, &light, &m, &mem, &touched, h);
    for p in &order {
        let (a, b) = (K::lookup(&full, *p), L::lookup(&light, *p));
        if K::KEYED || m.contains_key(p) {
            ctx.check(a == b, "replicas-disagree", || {
                format!("{} height {h}: after full delivery lookup({p}) gives {b:?}, the full replica {a:?}", L::NAME)
            });
        }
    }
    // The partial replica can now take part again.
    let p = order.first().copied().unwrap_or(0);
    let (mut f2, mut l2) = (full.clone(), light.clone());
    if K::KEYED {
        for p in &order {
            let (a, b) = (K::remove(&mut f2, *p), ctx.must("update", || L::remove(&mut l2, *p)));
            ctx.check(b == Some(a.clone()), "replicas-disagree", || {
                format!("{} height {h}: remove({p}) answers {b:?}, the full replica {a:?}", L::NAME)
            });
            ctx.check(K::commitment(&f2) == L::commitment(&l2), "commitment-changed", || {
                format!("{} height {h}: after remove({p}) the commitments differ", L::NAME)
            });
        }
        let (a, b) = (K::update(&mut f2, p, 5), ctx.must("update", || L::update(&mut l2, p, 5)));
        ctx.check(b == Some(a), "replicas-disagree", || format!("{} height {h}: update({p}) differs", L::NAME));
    } else if !m.is_empty() && (m.len() as u64) < cap {
        let (a, b) = (K::push(&mut f2, 5), ctx.must("push", || L::push(&mut l2, 5)));
        ctx.check(b == Some(a), "replicas-disagree", || {
            format!("{} height {h}: push after full delivery differs: {b:?}", L::NAME)
        });
    }
    ctx.check(K::commitment(&f2) == L::commitment(&l2), "commitment-changed", || {
        format!("{} height {h}: after the same write the commitments differ", L::NAME)
    });
}

fn agree<K: Kind, L: Kind<N = K::N>>(
    ctx: &mut Ctx,
    full: &K::T,
    light: &L::T,
    m: &Model,
    mem: &BTreeSet<u64>,
    touched: &BTreeSet<u64>,
    h: usize,
) {
    ctx.check(K::commitment(full) == L::commitment(light), "commitment-changed", || {
        format!("{} height {h}: the partial replica's commitment differs from the full replica's", L::NAME)
    });
    ctx.check(
        L::len(light) == m.len() as u64 && L::height(light) == h && L::capacity(light) == K::capacity(full),
        "shape-changed",
        || format!("{} height {h}: size {} height {} of {} entries", L::NAME, L::len(light), L::height(light), m.len()),
    );
    for p in touched.iter().chain(mem) {
        look_ok::<L>(ctx, light, m, *p, !mem.contains(p), "partial-lookup");
    }
    let Some(it) = ctx.must("iterate", || L::iter(light)) else { return };
    ctx.check(it.iter().all(|(p, v)| m.get(p) == Some(v)), "partial-iterate", || {
        format!("{} height {h}: iteration gives {it:?}, stored {m:?}", L::NAME)
    });
    ctx.check(mem.iter().all(|p| it.iter().any(|x| x.0 == *p)), "partial-iterate", || {
        format!("{} height {h}: iteration {it:?} leaves out a remembered entry of {mem:?}", L::NAME)
    });
}

/// Changes one node value so that the proof really differs.
pub fn alter<N: jf_merkle_tree::NodeValue>(r: &mut Prng, p: &mut [Vec<N>]) -> bool {
    let full: Vec<usize> = (0..p.len()).filter(|i| !p[*i].is_empty()).collect();
    if full.is_empty() {
        return false;
    }
    let i = *r.pick(&full);
    let j = r.below(p[i].len() as u64) as usize;
    let (i2, j2) = {
        let i2 = *r.pick(&full);
        (i2, r.below(p[i2].len() as u64) as usize)
    };
    let new = if r.chance(1, 3) { N::default() } else { p[i2][j2] };
    if new == p[i][j] {
        return false;
    }
    p[i][j] = new;
    true
}
