//! Circuits of membership and absence in Rescue trees.
use crate::kit::{elem, fresh, int, Alt, Made};
use ark_ff::PrimeField;
use hashbrown::HashMap;
use jf_merkle_tree::{
    gadgets::{MerkleTreeGadget, UniversalMerkleTreeGadget},
    prelude::{RescueMerkleTree, RescueSparseMerkleTree},
    LookupResult, MerkleProof, MerkleTreeScheme, UniversalMerkleTreeScheme,
};
use jf_relation::{Circuit, CircuitError, Variable};
use jf_rescue::RescueParameter;
use num_bigint::BigUint;
use sim::Prng;
use std::collections::BTreeMap;

pub const KINDS: &[&str] =
    &["member", "is_member", "sparse_member", "is_sparse_member", "non_member", "is_non_member"];

type Sparse<F> = RescueSparseMerkleTree<BigUint, F>;
/// Contents of every tree the session knows, by commitment.
type Book<F> = Vec<(F, BTreeMap<u64, F>)>;

fn contents<F: PrimeField>(r: &mut Prng, h: usize, dense: bool, least: u64) -> BTreeMap<u64, F> {
    let cap = 3u64.pow(h as u32);
    let mut m = BTreeMap::new();
    if dense {
        for i in 0..r.range(1, cap) {
            m.insert(i, elem(r));
        }
    } else {
        for _ in 0..r.range(least, cap.min(12)) {
            m.insert(r.below(cap), elem(r));
        }
    }
    m
}

/// Whether a proof has an empty subtree left of its path.
fn empty_left<F: PrimeField>(pos: u64, siblings: &[Vec<F>]) -> bool {
    let mut p = pos;
    siblings.iter().any(|s| {
        let branch = p % 3;
        p /= 3;
        branch > 0 && s.first().map_or(true, |x| x.is_zero())
    })
}

pub fn make<F: RescueParameter>(k: &str, shape: u64, vals: u64) -> Result<Made<F>, CircuitError> {
    let (sh, v) = (&mut Prng::new(shape), &mut Prng::new(vals));
    let mut c = fresh::<F>(if sh.chance(1, 6) { sh.range(2, 6) } else { 0 });
    let h = *sh.pick(&[1usize, 1, 2, 2, 3, 4]);
    let cap = 3u64.pow(h as u32);
    let dense = k.ends_with("member") && !k.contains("sparse") && !k.contains("non");
    let maps: Vec<BTreeMap<u64, F>> = (0..3).map(|_| contents(sh, h, dense, u64::from(!k.contains("non")))).collect();
    let public = sh.chance(1, 4);
    let answers = k.starts_with("is_");
    let absent = k.contains("non");
    let t = v.below(3) as usize;
    let mut pos = v.below(cap);
    if !absent && !maps[t].is_empty() {
        let keys: Vec<u64> = maps[t].keys().copied().collect();
        pos = *v.pick(&keys);
    }
    let mut book: Book<F> = vec![];
    // what the prover claims, and what the native verifier thinks of it
    let (claim_pos, claim_elem, claim_root, native);
    let mut note = "";
    let mut alt: Option<Alt<F>> = None;
    let flag: Option<Variable>;
    let (pv, ev, rv);
    macro_rules! create {
        ($x:expr) => {
            if public {
                c.create_public_variable($x)?
            } else {
                c.create_variable($x)?
            }
        };
    }
    macro_rules! twist {
        ($roots:expr) => {{
            let mut p = pos;
            let mut e = maps[t].get(&pos).copied().unwrap_or_default();
            let mut root = $roots[t];
            match v.below(7) {
                0 => p = v.below(cap),
                1 => e = elem(v),
                2 => root = $roots[v.below(3) as usize],
                3 => root = elem(v),
                _ => {},
            }
            (p, e, root)
        }};
    }
    if dense {
        let trees: Vec<RescueMerkleTree<F>> =
            maps.iter().map(|m| RescueMerkleTree::<F>::from_elems(Some(h), m.values()).unwrap()).collect();
        let roots: Vec<F> = trees.iter().map(|t| t.commitment()).collect();
        book.extend(roots.iter().copied().zip(maps.iter().cloned()));
        let (_, proof) = trees[t].lookup(pos).expect_ok().unwrap();
        let (p, e, root) = twist!(roots);
        native = matches!(RescueMerkleTree::<F>::verify(root, p, e, &proof), Ok(Ok(())));
        (claim_pos, claim_elem, claim_root) = (p, e, root);
        if empty_left(claim_pos, proof.path_values()) {
            note = "empty subtree to the left";
        }
        pv = create!(F::from(claim_pos));
        ev = create!(claim_elem);
        let w = MerkleTreeGadget::<RescueMerkleTree<F>>::create_membership_proof_variable(&mut c, &claim_pos, &proof)?;
        rv = MerkleTreeGadget::<RescueMerkleTree<F>>::create_commitment_variable(&mut c, &claim_root)?;
        flag = if answers {
            Some(MerkleTreeGadget::<RescueMerkleTree<F>>::is_member(&mut c, pv, ev, &w, rv)?.into())
        } else {
            MerkleTreeGadget::<RescueMerkleTree<F>>::enforce_membership_proof(&mut c, pv, ev, &w, rv)?;
            None
        };
    } else {
        let trees: Vec<Sparse<F>> = maps
            .iter()
            .map(|m| {
                let kv: HashMap<BigUint, F> = m.iter().map(|(k, v)| (BigUint::from(*k), *v)).collect();
                Sparse::<F>::from_kv_set(h, &kv).unwrap()
            })
            .collect();
        let roots: Vec<F> = trees.iter().map(|t| t.commitment()).collect();
        book.extend(roots.iter().copied().zip(maps.iter().cloned()));
        // the commitment of the empty tree
        book.push((F::zero(), BTreeMap::new()));
        let at = BigUint::from(pos);
        let proof = match trees[t].universal_lookup(&at) {
            LookupResult::Ok(_, p) => p,
            LookupResult::NotFound(p) => p,
            LookupResult::NotInMemory => unreachable!(),
        };
        let (mut p, e, mut root) = twist!(roots);
        // an element between two empty places, whose absence a prover tries to show
        let held = |k: u64| maps[t].contains_key(&k);
        let lone: Vec<u64> =
            maps[t].keys().copied().filter(|k| k % 3 == 1 && !held(k - 1) && !held(k + 1)).collect();
        let lone = if absent && !lone.is_empty() && v.chance(1, 2) { Some(*v.pick(&lone)) } else { None };
        let mut proof = proof;
        if let Some(k) = lone {
            (p, root) = (k, roots[t]);
            if let LookupResult::Ok(_, q) = trees[t].universal_lookup(&BigUint::from(k)) {
                proof = q;
            }
        }
        if absent && (root.is_zero() || (0..3).any(|i| roots[i] == root && !maps[i].contains_key(&p))) {
            // a true claim is made with its own proof
            (p, root) = (pos, roots[t]);
        }
        (claim_pos, claim_elem, claim_root) = (p, e, root);
        let at = BigUint::from(p);
        let full = proof.path_values().iter().all(|s| s.len() == 2);
        pv = create!(F::from(claim_pos));
        ev = create!(claim_elem);
        rv = MerkleTreeGadget::<Sparse<F>>::create_commitment_variable(&mut c, &claim_root)?;
        if absent {
            native = matches!(Sparse::<F>::non_membership_verify(root, &at, &proof), Ok(Ok(())));
            let from = c.num_vars();
            let w = c.create_non_membership_proof_variable(&at, &proof)?;
            let to = c.num_vars();
            if let Some(LookupResult::NotFound(q)) = lone.map(|k| trees[t].universal_lookup(&BigUint::from(k - 1))) {
                // the node is said to be on both sides, its value a sibling's
                let leaf = q.path_values()[0].first().copied().unwrap_or_default();
                alt = Some(Box::new(move |r, base| {
                    let some = |r: &mut Prng| from + r.below((to - from) as u64) as usize;
                    let (mut s, mut i, mut j) = (some(r), some(r), some(r));
                    if r.chance(2, 3) && to - from > 3 {
                        s = if r.chance(1, 2) { from } else { from + r.below((to - from - 3) as u64) as usize };
                        (i, j) = (s + 2, s + 3);
                    }
                    let bit = |x: &F| x.is_zero() || x.is_one();
                    (bit(&base[i]) && bit(&base[j])).then(|| {
                        ("node on both sides", vec![(pv, base[pv]), (rv, base[rv]), (i, F::one()), (j, F::one()), (s, leaf)])
                    })
                }));
            }
            flag = if answers {
                Some(c.is_non_member(pv, &w, rv)?.into())
            } else {
                c.enforce_non_membership_proof(pv, &w, rv)?;
                None
            };
        } else {
            if !full {
                // an empty tree has no membership proof to show
                return Err(CircuitError::NotSupported("no proof".into()));
            }
            native = matches!(Sparse::<F>::verify(root, &at, e, &proof), Ok(Ok(())));
            if empty_left(claim_pos, proof.path_values()) {
                note = "empty subtree to the left";
            }
            let w = MerkleTreeGadget::<Sparse<F>>::create_membership_proof_variable(&mut c, &at, &proof)?;
            flag = if answers {
                Some(MerkleTreeGadget::<Sparse<F>>::is_member(&mut c, pv, ev, &w, rv)?.into())
            } else {
                MerkleTreeGadget::<Sparse<F>>::enforce_membership_proof(&mut c, pv, ev, &w, rv)?;
                None
            };
        }
    }
    let mut seen = vec![pv, ev, rv];
    seen.extend(flag);
    let gives = flag.map(|f| (f, F::from(native as u64))).into_iter().collect();
    Ok(Made {
        c,
        seen,
        truth: Box::new(move |x| {
            let (_, m) = book.iter().find(|(r, _)| *r == x[2])?;
            let p = int(&x[0]).to_u64_digits();
            let inside = p.len() < 2 && p.first().map_or(true, |p| *p < cap);
            let held = inside.then(|| m.get(p.first().unwrap_or(&0))).flatten();
            let verdict = if absent { inside && held.is_none() } else { held == Some(&x[1]) };
            // a wrong path may be shown for a true claim, so "no" proves nothing
            match (answers, verdict) {
                (true, true) => (x[3].is_zero() || x[3].is_one()).then_some(true).or(Some(false)),
                (true, false) => Some(x[3].is_zero()),
                (false, _) => Some(verdict),
            }
        }),
        gives,
        want: answers || native,
        note,
        alt,
    })
}
