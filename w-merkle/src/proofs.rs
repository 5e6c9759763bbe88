//! M03: an adversary on the wire.  M04: lookups and proofs after any history.
use crate::{kinds::*, on_append, on_keyed, util::*};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use sim::{disk::damage, *};

pub struct M03;

impl World for M03 {
    fn property(&self) -> &'static str {
        "M03"
    }
    fn budget(&self, tier: Tier) -> (u64, u64) {
        match tier {
            Tier::Quick => (16_000, 25),
            Tier::Thorough => (3_000_000, 500),
        }
    }
    fn huge_alloc_is_upstream(&self) -> bool {
        true
    }
    /// cfg: [keyed, kind, height]
    fn gen(&self, r: &mut Prng, tier: Tier) -> Plan {
        let keyed = r.chance(2, 3) as u64;
        let kind = gen_kind(r);
        let h = gen_height(r, keyed == 1, kind);
        let costly = kind >= 7;
        let mut ops = vec![];
        let pool_size = r.range(1, 10);
        let pool = positions(r, pool_size);
        for _ in 0..r.range(1, if costly { 4 } else { 16 }) {
            let p = *r.pick(&pool);
            ops.push(Op::new("w", &[p, r.below(6), (r.chance(1, 4)) as u64]));
        }
        let n = if costly { 10 } else if tier == Tier::Thorough { 120 } else { 60 };
        for _ in 0..r.range(1, n) {
            // one forged statement: proof source (version, position), mutations, claim
            let mut a = vec![r.next(), *r.pick(&pool), r.next(), r.below(4)];
            a.extend([r.below(16), r.below(16), if r.chance(1, 2) { 99 } else { r.below(16) }]);
            a.extend([r.below(6), *r.pick(&pool), r.below(6), r.next()]);
            ops.push(Op::new("f", &a));
        }
        Plan { cfg: vec![keyed, kind, h], ops, sched: Schedule::quiet() }
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) {
        if plan.c(0) == 1 {
            on_keyed!(plan.c(1), m03_keyed(plan, ctx))
        } else {
            on_append!(plan.c(1), m03(plan, ctx))
        }
    }
    fn rule(&self) -> &'static str {
        "an adversary alters, cuts, extends, splices, replays and relocates the proofs of every version \
         of a tree; a verifier may accept a statement only if the version with that commitment makes it true"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
}

fn m03_keyed<K: Kind>(plan: &Plan, ctx: &mut Ctx) {
    m03::<K, K>(plan, ctx)
}

fn mutate<N: jf_merkle_tree::NodeValue>(
    r: &mut Prng,
    kind: u64,
    p: &mut Vec<Vec<N>>,
    other: &[Vec<N>],
    com: &[N],
) -> &'static str {
    let n = p.len() as u64;
    let lvl = r.below(n.max(1)) as usize;
    let width = p.iter().map(|v| v.len()).max().unwrap_or(0);
    let any = |r: &mut Prng, p: &[Vec<N>]| -> N {
        let all: Vec<N> = p.iter().chain(other).flatten().copied().chain(com.iter().copied()).collect();
        if r.chance(1, 3) || all.is_empty() {
            N::default()
        } else {
            *r.pick(&all)
        }
    };
    match kind {
        0 if n > 0 && !p[lvl].is_empty() => {
            let i = r.below(p[lvl].len() as u64) as usize;
            p[lvl][i] = any(r, p);
            "proof_value_replaced"
        },
        1 if n > 0 => {
            p.remove(lvl);
            "proof_level_removed"
        },
        2 => {
            p.truncate(lvl);
            "proof_cut_top"
        },
        3 if n > 0 => {
            p.drain(..lvl);
            "proof_cut_bottom"
        },
        4 if n > 0 => {
            p[lvl].clear();
            "proof_level_emptied"
        },
        5 if n > 0 => {
            let x = p[lvl].clone();
            p.insert(r.below(n + 1) as usize, x);
            "proof_level_repeated"
        },
        6 => {
            let w = if width == 0 { 2 } else { width };
            let v: Vec<N> = (0..w).map(|_| any(r, p)).collect();
            p.insert(r.below(n + 1) as usize, v);
            "proof_level_added"
        },
        7 => {
            p.insert(0, vec![]);
            "proof_level_added"
        },
        8 if n > 0 && p[lvl].len() > 1 => {
            let k = p[lvl].len() as u64;
            let (a, b) = (r.below(k) as usize, r.below(k) as usize);
            p[lvl].swap(a, b);
            "proof_siblings_swapped"
        },
        9 if n > 1 => {
            let b = r.below(n) as usize;
            p.swap(lvl, b);
            "proof_levels_swapped"
        },
        10 if n > 0 && !other.is_empty() => {
            let k = lvl.min(other.len());
            let mut q = p[..lvl].to_vec();
            q.extend_from_slice(&other[k..]);
            *p = q;
            "proof_spliced"
        },
        11 if n > 0 && lvl < other.len() => {
            p[lvl] = other[lvl].clone();
            "proof_spliced"
        },
        12 if n > 0 && !p[lvl].is_empty() => {
            p[lvl].pop();
            "proof_sibling_removed"
        },
        13 if n > 0 => {
            let v = any(r, p);
            p[lvl].push(v);
            "proof_sibling_added"
        },
        14 => {
            for v in p.iter_mut().take(lvl + 1) {
                v.clear();
            }
            "proof_level_emptied"
        },
        _ => "proof_replayed",
    }
}

fn m03<K: Kind, L: Kind<N = K::N>>(plan: &Plan, ctx: &mut Ctx) {
    let h = plan.c(2) as usize;
    let cap = cap::<K>(h as u64);
    // Every version of the tree, with its contents.
    let mut vs: Vec<(K::T, Model)> = vec![(K::new(h), Model::new())];
    for o in plan.ops.iter().filter(|o| o.k == "w") {
        let (mut t, mut m) = vs.last().unwrap().clone();
        if K::KEYED {
            let p = o.arg(0) % cap;
            if o.arg(2) == 1 {
                let _ = K::remove(&mut t, p);
                m.remove(&p);
            } else {
                let _ = K::update(&mut t, p, o.arg(1));
                m.insert(p, o.arg(1));
            }
        } else if (m.len() as u64) < cap {
            let _ = K::push(&mut t, o.arg(1));
            m.insert(m.len() as u64, o.arg(1));
        }
        vs.push((t, m));
    }
    let coms: Vec<K::N> = vs.iter().map(|v| K::commitment(&v.0)).collect();
    let proof = |t: &K::T, p: u64| match K::lookup(t, p) {
        Look::Hit(v, pr) => (Some(v), pr.0),
        Look::Miss(Some(pr)) => (None, pr.0),
        _ => (None, vec![vec![]; h]),
    };
    for o in plan.ops.iter().filter(|o| o.k == "f") {
        let mut r = Prng::new(o.arg(10));
        let si = o.usize(0) % vs.len();
        let pos = |x: u64| if K::KEYED { x % cap } else { x % cap.min(12) };
        let sp = pos(o.arg(1));
        let (hv, mut pr) = proof(&vs[si].0, sp);
        let other = proof(&vs[o.usize(2) % vs.len()].0, pos(o.arg(8))).1;
        let mut name = "proof_replayed";
        for i in 4..7 {
            if o.arg(i) < 16 {
                name = mutate(&mut r, o.arg(i), &mut pr, &other, &coms);
            }
        }
        ctx.fault(name);
        // the claim
        let ci = if o.arg(3) == 0 { o.usize(2) % vs.len() } else { si };
        let mut p = sp;
        let mut member = hv.is_some();
        let mut v = hv.unwrap_or(o.arg(9));
        match o.arg(7) {
            0 => p = pos(o.arg(8)),
            1 => v = o.arg(9),
            2 => member = !member,
            3 => {
                p = pos(o.arg(8));
                v = o.arg(9);
            },
            4 if cap < K::MAX_POS => {
                // a position outside the tree
                let k = r.range(1, 4);
                p = sp.saturating_add(cap.saturating_mul(k)).min(K::MAX_POS);
            },
            _ => {},
        }
        let c = &coms[ci];
        let m = &vs[ci].1;
        let mp = MerkleProofOf::<K>(pr.clone());
        // through the wire encoding now and then
        let mut mp = mp;
        if r.chance(1, 6) {
            let mut b = vec![];
            mp.serialize_compressed(&mut b).unwrap();
            if r.chance(1, 2) {
                ctx.fault(damage(&mut b, r.next(), r.next()));
            }
            match ctx.must("decode", || Proof::<K::N>::deserialize_compressed(&b[..])) {
                Some(Ok(x)) => mp = x,
                _ => continue,
            }
        }
        let short = mp.0.len() != h;
        let outside = p >= cap && cap < K::MAX_POS;
        if member {
            let Some(x) = ctx.must("verify", || K::verify(c, p, v, &mp)) else { return };
            let truth = m.get(&p) == Some(&v);
            ctx.event("member", &[x == Ok(true)] .map(|b| b as u8));
            if x == Ok(true) && !truth {
                let class = if short {
                    "false-membership:other-height"
                } else if outside && !K::BINDS {
                    "false-membership:position-outside-tree"
                } else {
                    "false-membership"
                };
                ctx.violate(class, format!("{} height {h}: proof accepted for value {v} at {p}; stored {:?} ({name}, proof length {})", K::NAME, m.get(&p), mp.0.len()));
            }
            if L::LIGHT {
                let y = ctx.must("verify", || L::verify(c, p, v, &mp));
                ctx.check(y == Some(x.clone()), "verifiers-disagree", || {
                    format!("{} and {} disagree on a proof: {x:?} {y:?}", K::NAME, L::NAME)
                });
            }
        } else if K::KEYED {
            let Some(x) = ctx.must("verify_absent", || K::absent(c, p, &mp)) else { return };
            ctx.event("absent", &[x == Ok(true)].map(|b| b as u8));
            if x == Ok(true) && m.contains_key(&p) {
                let class = if short { "false-absence:other-height" } else { "false-absence" };
                ctx.violate(class, format!("{} height {h}: proof of absence (length {}) accepted for {p}, which holds {:?} ({name})", K::NAME, mp.0.len(), m.get(&p)));
            }
        }
        // range statements
        if !K::KEYED && !K::LIGHT && r.chance(1, 3) && !m.is_empty() {
            let n = vs[si].1.len() as u64;
            if n == 0 {
                continue;
            }
            let a = r.below(n);
            let b = r.range(a, n - 1);
            let Some(Range::Hit(mut ix, mut el, mut lb, mut rb)) = ctx.must("range", || K::range(&vs[si].0, a, b)) else {
                continue;
            };
            match r.below(10) {
                0 => {
                    let i = r.below(el.len() as u64) as usize;
                    el[i] = el[i].wrapping_add(1);
                },
                1 => {
                    let d = r.range(1, 3);
                    ix.iter_mut().for_each(|x| *x += d);
                },
                2 => {
                    ix.pop();
                    el.pop();
                },
                3 => {
                    el.push(v);
                    ix.push(ix.last().unwrap() + 1);
                },
                4 => {
                    el.reverse();
                },
                5 => {
                    mutate(&mut r, o.arg(4), &mut lb, &rb, &coms);
                },
                6 => {
                    mutate(&mut r, o.arg(4), &mut rb, &lb, &coms);
                },
                7 => {
                    el.remove(0);
                    ix.remove(0);
                },
                8 => {
                    ix.pop();
                },
                _ => {},
            }
            ctx.fault("range_altered");
            let Some(x) = ctx.must("verify_range", || K::range_verify(c, &ix, &el, &lb, &rb)) else { return };
            let truth = ix.len() == el.len() && ix.iter().zip(&el).all(|(i, e)| m.get(i) == Some(e));
            ctx.event("range", &[x == Ok(true)].map(|b| b as u8));
            if x == Ok(true) && !truth {
                let out = cap < K::MAX_POS && ix.iter().any(|i| *i >= cap);
                let class = if lb.len() != h || rb.len() != h {
                    "false-range:other-height"
                } else if out && !K::BINDS {
                    "false-range:position-outside-tree"
                } else {
                    "false-range"
                };
                ctx.violate(class, format!("{} height {h}: range proof accepted for {ix:?} = {el:?}; stored {m:?}", K::NAME));
            }
        }
    }
}
#[allow(non_snake_case)]
fn MerkleProofOf<K: Kind>(v: Vec<Vec<K::N>>) -> Proof<K::N> {
    jf_merkle_tree::prelude::MerkleTreeProof(v)
}

// ---------------------------------------------------------------------------

pub struct M04;

impl World for M04 {
    fn property(&self) -> &'static str {
        "M04"
    }
    fn budget(&self, tier: Tier) -> (u64, u64) {
        match tier {
            Tier::Quick => (16_000, 25),
            Tier::Thorough => (3_000_000, 500),
        }
    }
    /// cfg: [keyed, kind, height, batch size, seed]
    fn gen(&self, r: &mut Prng, tier: Tier) -> Plan {
        let keyed = r.chance(1, 2) as u64;
        let kind = gen_kind(r);
        let h = gen_height(r, keyed == 1, kind);
        let costly = kind >= 7;
        let pool_size = r.range(1, 14);
        let pool = positions(r, pool_size);
        let mut ops = vec![];
        for _ in 0..r.range(1, if costly { 6 } else if tier == Tier::Thorough { 80 } else { 30 }) {
            let p = *r.pick(&pool);
            let v = r.log(63);
            ops.push(match r.below(16) {
                0..=4 => Op::new("put", &[p, v]),
                5 | 6 => Op::new("del", &[p]),
                7 | 8 => Op::new("with", &[p, r.below(4), v]),
                9 => Op::new("fork", &[p, r.below(3), v]),
                10 => Op::new("restart", &[]),
                11 => Op::new("fail", &[p, r.below(6), v]),
                12 | 13 => Op::new("range", &[r.next(), r.next()]),
                14 => Op::new("ext", &[r.size(12), v]),
                _ => Op::new("look", &[r.next()]),
            });
        }
        Plan {
            cfg: vec![keyed, kind, h, if r.chance(1, 3) { r.size(30) } else { 0 }, r.next()],
            ops,
            sched: Schedule::quiet(),
        }
    }
    fn exec(&self, plan: &Plan, ctx: &mut Ctx) {
        if plan.c(0) == 1 {
            on_keyed!(plan.c(1), m04_keyed(plan, ctx))
        } else {
            on_append!(plan.c(1), m04_append(plan, ctx))
        }
    }
    fn rule(&self) -> &'static str {
        "random histories of updates, removals, forks, restarts and failing digests against a plain map; \
         after every step the answer, the size and lookups with proofs must match the map"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
}

fn m04_keyed<K: Kind>(plan: &Plan, ctx: &mut Ctx) {
    let h = plan.c(2) as usize;
    let cap = cap::<K>(h as u64);
    let mut r = Prng::new(plan.c(4));
    let mut m = Model::new();
    let mut kv = vec![];
    for _ in 0..plan.c(3) {
        let (p, v) = (r.below(20) % cap, r.below(9));
        kv.push((p, v));
        m.insert(p, v);
    }
    let Some(Ok(mut t)) = ctx.must("build", || K::batch(Some(h), &kv)) else {
        return ctx.violate("build-refused", format!("{}: {kv:?}", K::NAME));
    };
    for o in &plan.ops {
        let p = o.arg(0) % cap;
        let was = m.get(&p).copied();
        let want_old = was.map(Old::Some).unwrap_or(Old::None);
        let tt = &mut t;
        let res = match o.k.as_str() {
            "put" => {
                m.insert(p, o.arg(1));
                ctx.must("update", || K::update(tt, p, o.arg(1)))
            },
            "del" => {
                m.remove(&p);
                ctx.must("update", || K::remove(tt, p))
            },
            "with" => {
                let mut seen = vec![];
                let f = |x: Option<u64>| match o.arg(1) {
                    0 => Some(x.unwrap_or(0).wrapping_add(o.arg(2))),
                    1 => None,
                    2 => x,
                    _ => x.map_or(Some(o.arg(2)), |_| None),
                };
                let res = ctx.must("update", || {
                    K::update_with(tt, p, &mut |x| {
                        seen.push(x);
                        f(x)
                    })
                });
                ctx.check(seen == vec![was], "update-function", || {
                    format!("{}: the update function at {p} was called with {seen:?}, stored {was:?}", K::NAME)
                });
                match f(was) {
                    Some(v) => m.insert(p, v),
                    None => m.remove(&p),
                };
                res
            },
            "fork" => {
                let n = ctx.must("update", || match o.arg(1) {
                    0 => K::fork_update(tt, p, o.arg(2)),
                    1 => K::fork_remove(tt, p),
                    _ => K::fork_with(tt, p, &mut |x| x.or(Some(o.arg(2)))),
                });
                match o.arg(1) {
                    0 => m.insert(p, o.arg(2)),
                    1 => m.remove(&p),
                    _ => m.insert(p, was.unwrap_or(o.arg(2))),
                };
                match n {
                    Some(Ok(n)) => {
                        t = n;
                        Some(Ok(want_old.clone()))
                    },
                    Some(Err(e)) => Some(Err(e)),
                    None => None,
                }
            },
            "restart" => {
                ctx.fault("crash_restart");
                t = bincode::deserialize(&bincode::serialize(&t).unwrap()).unwrap();
                Some(Ok(want_old.clone()))
            },
            "fail" => {
                ctx.fault("digest_error");
                FAIL_IN.with(|f| f.set(o.arg(1)));
                let x = ctx.must("update", || K::update(tt, p, o.arg(2)));
                FAIL_IN.with(|f| f.set(u64::MAX));
                if let Some(Ok(_)) = x {
                    m.insert(p, o.arg(2));
                    x
                } else {
                    Some(Ok(want_old.clone()))
                }
            },
            _ => Some(Ok(want_old.clone())),
        };
        let Some(res) = res else { return };
        ctx.check(res == Ok(want_old.clone()), "update-answer", || {
            format!("{} height {h}: {} at {p} answered {res:?}, stored before {want_old:?}", K::NAME, o.k)
        });
        ctx.check(K::len(&t) == m.len() as u64, "size", || {
            format!("{} height {h}: size {} after {} at {p}, {} stored", K::NAME, K::len(&t), o.k, m.len())
        });
        look_ok::<K>(ctx, &t, &m, p, false, "lookup");
        let q = r.next() % cap;
        look_ok::<K>(ctx, &t, &m, q, false, "lookup");
        state::<K>(ctx, &t);
    }
    full_ok::<K>(ctx, &t, &m, "lookup");
    for p in m.keys() {
        look_ok::<K>(ctx, &t, &m, *p, false, "lookup");
        look_ok::<K>(ctx, &t, &m, (p ^ 1) % cap, false, "lookup");
    }
    outside::<K>(ctx, &t, &m, cap, &mut r);
    ctx.event("commitment", &nb(&K::commitment(&t)));
}

/// A position outside the tree holds nothing.
fn outside<K: Kind>(ctx: &mut Ctx, t: &K::T, m: &Model, cap: u64, r: &mut Prng) {
    if cap >= K::MAX_POS {
        return;
    }
    let at = m.keys().next().copied().unwrap_or(0);
    let p = at.saturating_add(cap.saturating_mul(r.range(1, 3))).min(K::MAX_POS);
    if let Some(x) = ctx.must("lookup", || K::plain_lookup(t, p)) {
        ctx.check(!matches!(x, Look::Hit(..)), "lookup-outside-tree", || {
            format!("{}: lookup({p}) in a tree of {cap} positions found an entry", K::NAME)
        });
    }
}

fn m04_append<K: Kind, L: Kind<N = K::N>>(plan: &Plan, ctx: &mut Ctx) {
    if plan.c(4) % 3 == 0 && L::LIGHT {
        m04_append1::<L>(plan, ctx)
    } else {
        m04_append1::<K>(plan, ctx)
    }
}

fn m04_append1<K: Kind>(plan: &Plan, ctx: &mut Ctx) {
    let h = plan.c(2) as usize;
    let cap = cap::<K>(h as u64);
    let mut r = Prng::new(plan.c(4));
    let mut vals: Vec<u64> = (0..plan.c(3).min(cap)).map(|_| r.below(9)).collect();
    let kv: Vec<_> = vals.iter().map(|v| (0, *v)).collect();
    let Some(Ok(mut t)) = ctx.must("build", || K::batch(Some(h), &kv)) else {
        return ctx.violate("build-refused", format!("{} height {h}: {} entries", K::NAME, kv.len()));
    };
    let model = |v: &[u64]| -> Model { v.iter().enumerate().map(|(i, v)| (i as u64, *v)).collect() };
    for o in &plan.ops {
        let tt = &mut t;
        let n = vals.len() as u64;
        match o.k.as_str() {
            "put" | "with" | "fork" => {
                let v = *o.a.last().unwrap();
                let Some(x) = ctx.must("push", || K::push(tt, v)) else { return };
                ctx.check(x.is_ok() == (n < cap), "append-answer", || {
                    format!("{} height {h}: push number {n} answered {x:?}, capacity {cap}", K::NAME)
                });
                if x.is_ok() {
                    vals.push(v);
                }
            },
            "ext" => {
                let new: Vec<u64> = (0..o.arg(0)).map(|i| o.arg(1).wrapping_add(i)).collect();
                let Some(x) = ctx.must("extend", || K::extend(tt, &mut new.iter().copied())) else { return };
                ctx.check(x.is_ok() == (n + new.len() as u64 <= cap), "append-answer", || {
                    format!("{} height {h}: extending {n} by {} answered {x:?}, capacity {cap}", K::NAME, new.len())
                });
                // documented: fills the tree, then reports the error
                let room = (cap - n).min(new.len() as u64) as usize;
                vals.extend(&new[..room]);
            },
            "restart" => {
                ctx.fault("crash_restart");
                t = bincode::deserialize(&bincode::serialize(&t).unwrap()).unwrap();
            },
            "fail" => {
                ctx.fault("digest_error");
                FAIL_IN.with(|f| f.set(o.arg(1)));
                let x = ctx.must("push", || K::push(tt, o.arg(2)));
                FAIL_IN.with(|f| f.set(u64::MAX));
                if let Some(Ok(_)) = x {
                    vals.push(o.arg(2));
                }
            },
            "range" if n > 0 => {
                let a = o.arg(0) % n;
                let b = (a + o.arg(1) % (n + 2)).min(cap - 1);
                let Some(x) = ctx.must("range", || K::range(tt, a, b)) else { return };
                let c = K::commitment(tt);
                match x {
                    Range::Hit(ix, el, l, rr) => {
                        let want_i: Vec<u64> = (a..=b).collect();
                        ctx.check(b < n && ix == want_i && el[..] == vals[a as usize..=(b as usize).min(vals.len() - 1)], "range-answer", || {
                            format!("{} height {h}: range {a}..={b} of {n} entries gave {ix:?} {el:?}", K::NAME)
                        });
                        let ok = ctx.must("verify_range", || K::range_verify(&c, &ix, &el, &l, &rr));
                        ctx.check(ok == Some(Ok(true)), "range-proof", || {
                            format!("{} height {h}: the range proof for {a}..={b} of {n} does not verify: {ok:?}", K::NAME)
                        });
                    },
                    Range::Miss => {
                        ctx.check(b >= n, "range-answer", || {
                            format!("{} height {h}: range {a}..={b} of {n} entries not found", K::NAME)
                        });
                    },
                    Range::Gone => {
                        ctx.check(K::LIGHT, "range-answer", || {
                            format!("{} height {h}: range {a}..={b} said to be forgotten", K::NAME)
                        });
                    },
                }
            },
            _ => {},
        }
        let m = model(&vals);
        let n = vals.len() as u64;
        ctx.check(K::len(&t) == n, "size", || {
            format!("{} height {h}: size {} after {}, {n} stored", K::NAME, K::len(&t), o.k)
        });
        for q in [n.saturating_sub(1), n, r.below(n + 2)] {
            if q < cap {
                look_ok::<K>(ctx, &t, &m, q, K::LIGHT && q + 1 != n, "lookup");
            }
        }
        state::<K>(ctx, &t);
    }
    let m = model(&vals);
    full_ok::<K>(ctx, &t, &m, "lookup");
    for p in m.keys() {
        look_ok::<K>(ctx, &t, &m, *p, K::LIGHT && p + 1 != m.len() as u64, "lookup");
    }
    outside::<K>(ctx, &t, &m, cap, &mut r);
    ctx.event("commitment", &nb(&K::commitment(&t)));
}
