//! Shared oracles.
use crate::kinds::*;
use ark_serialize::CanonicalSerialize;
use sim::*;
use std::collections::BTreeMap;

pub type Model = BTreeMap<u64, u64>;

/// Number of positions, saturated.
pub fn cap<K: Kind>(h: u64) -> u64 {
    let mut c = 1u64;
    for _ in 0..h {
        c = match c.checked_mul(K::ARITY) {
            Some(c) => c,
            None => return K::MAX_POS,
        };
    }
    c.min(K::MAX_POS.saturating_add(1).max(K::MAX_POS))
}

pub fn nb<N: CanonicalSerialize>(n: &N) -> Vec<u8> {
    let mut b = vec![];
    n.serialize_uncompressed(&mut b).unwrap();
    b
}
pub fn state<K: Kind>(ctx: &mut Ctx, t: &K::T) {
    let b = nb(&K::commitment(t));
    ctx.state(hash_bytes(3, &b));
}

/// What a lookup must say, given the contents.  `may_be_gone`: the entry may
/// have been dropped from memory.
pub fn look_ok<K: Kind>(
    ctx: &mut Ctx,
    t: &K::T,
    m: &Model,
    p: u64,
    may_be_gone: bool,
    class: &str,
) -> Option<Look<K::N>> {
    let c = K::commitment(t);
    let r = ctx.must("lookup", || K::lookup(t, p))?;
    let plain = ctx.must("lookup", || K::plain_lookup(t, p))?;
    match &r {
        Look::Hit(v, pr) => {
            ctx.check(m.get(&p) == Some(v), &format!("{class}:value"), || {
                format!("{}: lookup({p}) returned {v}, stored is {:?}", K::NAME, m.get(&p))
            });
            ctx.check(pr.0.len() == K::height(t), &format!("{class}:proof-height"), || {
                format!("{}: proof of length {} in a tree of height {}", K::NAME, pr.0.len(), K::height(t))
            });
            let ok = ctx.must("verify", || K::verify(&c, p, *v, pr))?;
            ctx.check(ok == Ok(true), &format!("{class}:proof"), || {
                format!("{}: the proof from lookup({p}) does not verify: {ok:?}", K::NAME)
            });
            ctx.check(plain == Look::Hit(*v, pr.clone()), &format!("{class}:two-lookups"), || {
                format!("{}: the two lookup functions differ at {p}", K::NAME)
            });
        },
        Look::Miss(pr) => {
            ctx.check(!m.contains_key(&p), &format!("{class}:lost"), || {
                format!("{}: lookup({p}) found nothing, stored is {:?}", K::NAME, m.get(&p))
            });
            if let Some(pr) = pr {
                ctx.check(pr.0.len() == K::height(t), &format!("{class}:proof-height"), || {
                    format!("{}: proof of length {} in a tree of height {}", K::NAME, pr.0.len(), K::height(t))
                });
                let ok = ctx.must("verify", || K::absent(&c, p, pr))?;
                ctx.check(ok == Ok(true), &format!("{class}:absence-proof"), || {
                    format!("{}: the proof of absence from lookup({p}) does not verify: {ok:?}", K::NAME)
                });
            }
            ctx.check(plain == Look::Miss(None), &format!("{class}:two-lookups"), || {
                format!("{}: the two lookup functions differ at {p}", K::NAME)
            });
        },
        Look::Gone => {
            ctx.check(may_be_gone, &format!("{class}:gone"), || {
                format!("{}: lookup({p}) says the entry is not in memory, it was never forgotten", K::NAME)
            });
            ctx.check(plain == Look::Gone, &format!("{class}:two-lookups"), || {
                format!("{}: the two lookup functions differ at {p}", K::NAME)
            });
        },
    }
    Some(r)
}

/// Iteration, size and proofs of everything, for a tree with nothing forgotten
/// (light trees keep at least the last entry).
pub fn full_ok<K: Kind>(ctx: &mut Ctx, t: &K::T, m: &Model, class: &str) {
    let want: Vec<(u64, u64)> = m.iter().map(|(a, b)| (*a, *b)).collect();
    let n = K::len(t);
    ctx.check(n == want.len() as u64, &format!("{class}:size"), || {
        format!("{}: reported size {n}, {} entries stored", K::NAME, want.len())
    });
    let Some(got) = ctx.must("iterate", || K::iter(t)) else { return };
    // Keyed trees yield entries in tree order, which is not numeric order.
    let mut sorted = got.clone();
    sorted.sort();
    if K::LIGHT {
        ctx.check(sorted.iter().all(|x| m.get(&x.0) == Some(&x.1)), &format!("{class}:iterate"), || {
            format!("{}: iteration gives {sorted:?}, stored {want:?}", K::NAME)
        });
        if let Some(l) = want.last() {
            ctx.check(sorted.contains(l), &format!("{class}:frontier"), || {
                format!("{}: the last entry {l:?} is not in memory", K::NAME)
            });
        }
    } else {
        ctx.check(sorted == want, &format!("{class}:iterate"), || {
            format!("{}: iteration gives {sorted:?}, stored {want:?}", K::NAME)
        });
        if !K::KEYED {
            ctx.check(got == sorted, &format!("{class}:iterate"), || {
                format!("{}: iteration out of order: {got:?}", K::NAME)
            });
        }
    }
    let owned = t.clone();
    let Some(own) = ctx.must("iterate", || K::into_iter(owned)) else { return };
    ctx.check(own == got, &format!("{class}:iterate"), || {
        format!("{}: owned iteration {own:?} differs from {got:?}", K::NAME)
    });
    let Some(lv) = ctx.must("collect_leaves", || K::leaves(t)) else { return };
    let kv: Vec<_> = lv.iter().map(|x| (x.0, x.1)).collect();
    ctx.check(kv == got, &format!("{class}:collect"), || {
        format!("{}: collected leaves {kv:?} differ from iteration {got:?}", K::NAME)
    });
    let c = K::commitment(t);
    for (p, v, pr) in &lv {
        let Some(ok) = ctx.must("verify", || K::verify(&c, *p, *v, pr)) else { return };
        ctx.check(ok == Ok(true), &format!("{class}:collect"), || {
            format!("{}: collected proof for {p} does not verify: {ok:?}", K::NAME)
        });
    }
}

/// Everything observable about a tree, for before/after comparisons.
pub fn snapshot<K: Kind>(t: &K::T, probes: &[u64]) -> Vec<u8> {
    let mut b = nb(&K::commitment(t));
    b.extend((K::height(t) as u64).to_le_bytes());
    b.extend(K::len(t).to_le_bytes());
    for (p, v, pr) in K::leaves(t) {
        b.extend(p.to_le_bytes());
        b.extend(v.to_le_bytes());
        b.extend(nb(&pr));
    }
    for p in probes {
        match K::lookup(t, *p) {
            Look::Hit(v, pr) => {
                b.push(1);
                b.extend(v.to_le_bytes());
                b.extend(nb(&pr));
            },
            Look::Miss(pr) => {
                b.push(2);
                if let Some(pr) = pr {
                    b.extend(nb(&pr));
                }
            },
            Look::Gone => b.push(3),
        }
    }
    b
}

/// A family of positions that share subtrees at several levels.
pub fn positions(r: &mut Prng, n: u64) -> Vec<u64> {
    let mut v = vec![];
    let base = r.next();
    for _ in 0..n {
        v.push(match r.below(4) {
            0 => r.below(12),
            1 => base.wrapping_add(r.below(10)),
            2 => base ^ (1 << r.below(64)),
            _ => r.log(63),
        });
    }
    v
}

/// Height for kind number `kind`; kept low for costly hashes.
pub fn gen_height(r: &mut Prng, keyed: bool, kind: u64) -> u64 {
    let costly = kind % 9 >= 7;
    match r.below(10) {
        0 => 0,
        1 | 2 => 1,
        3..=5 => 2,
        6 | 7 => 3,
        8 => r.range(3, if costly { 4 } else { 8 }),
        _ if costly => 5,
        _ if keyed => r.range(8, 64),
        _ => r.range(8, 20),
    }
}
/// Kind number: cheap digests most of the time.
pub fn gen_kind(r: &mut Prng) -> u64 {
    match r.below(20) {
        0 => 7,
        1 => 8,
        2 | 3 => 5,
        4 | 5 => 6,
        6 => 3,
        7 => 4,
        _ => r.below(5),
    }
}
pub const REAL: &[&str] = &[
    "jf-merkle-tree: append-only, light-weight and universal trees, proofs, range proofs, serde forms",
    "jf-rescue, jf-poseidon2 digests (some runs), sha2 (some runs)",
];
pub const STUBS: &[&str] = &[
    "sha3: own Keccak-256/SHA3-256 implementation, bit-compatible",
    "spongefish: own duplex sponge with the same interface",
    "itertools: the few adaptors used",
    "a fast non-cryptographic 128-bit digest in most runs (user-supplied digest seam)",
];
