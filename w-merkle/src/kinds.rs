//! The tree types under test behind one interface.  Positions and values are
//! `u64` in plans; every kind maps them to its own index and element types.
use ark_bls12_381::Fr as Fr381;
use ark_bn254::Fr as Fr254;
use ark_ff::PrimeField;
use ark_serialize::CanonicalSerialize;
use jf_merkle_tree::{
    hasher::{HasherDigestAlgorithm, HasherNode},
    light_weight::LightWeightMerkleTree,
    prelude::*,
    MerkleTreeError, PersistentUniversalMerkleTreeScheme, RangeProofMerkleTreeScheme,
};
use jf_poseidon2::{
    crhf::FixedLenPoseidon2Hash, sponge::bls12_381::Poseidon2PermutationBlsN3R2,
};
use num_bigint::BigUint;
use serde::{de::DeserializeOwned, Serialize};
use sha2::Sha256;
use sim::mix;
use std::{cell::Cell, marker::PhantomData};

pub type Err = String;
pub type Proof<N> = MerkleTreeProof<N>;

#[derive(Clone, Debug, PartialEq)]
pub enum Look<N: NodeValue> {
    Hit(u64, Proof<N>),
    /// Nothing stored; the proof of absence for kinds that give one.
    Miss(Option<Proof<N>>),
    Gone,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Range<N: NodeValue> {
    Hit(Vec<u64>, Vec<u64>, Vec<Vec<N>>, Vec<Vec<N>>),
    Miss,
    Gone,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Old {
    Some(u64),
    None,
    Gone,
}

pub trait Kind: 'static {
    type T: Clone + PartialEq + Serialize + DeserializeOwned + Send + Sync + 'static;
    type N: NodeValue + Send + Sync + 'static;
    const NAME: &'static str;
    const ARITY: u64;
    /// Keyed tree (update, remove, proofs of absence) or append-only.
    const KEYED: bool;
    /// Append-only tree that keeps its frontier only.
    const LIGHT: bool;
    /// The leaf digest covers the position.
    const BINDS: bool;
    /// Largest usable position.
    const MAX_POS: u64 = u64::MAX;
    /// Relative cost of one hash.
    const COST: u64 = 1;

    fn new(h: usize) -> Self::T;
    fn batch(h: Option<usize>, kv: &[(u64, u64)]) -> Result<Self::T, Err>;
    fn from_commitment(c: &Self::N, h: usize, n: u64) -> Self::T;
    fn commitment(t: &Self::T) -> Self::N;
    fn height(t: &Self::T) -> usize;
    fn capacity(t: &Self::T) -> BigUint;
    fn len(t: &Self::T) -> u64;
    fn lookup(t: &Self::T, p: u64) -> Look<Self::N>;
    /// The variant that never returns a proof of absence.
    fn plain_lookup(t: &Self::T, p: u64) -> Look<Self::N>;
    fn verify(c: &Self::N, p: u64, v: u64, pr: &Proof<Self::N>) -> Result<bool, Err>;
    fn iter(t: &Self::T) -> Vec<(u64, u64)>;
    fn into_iter(t: Self::T) -> Vec<(u64, u64)>;
    fn leaves(t: &Self::T) -> Vec<(u64, u64, Proof<Self::N>)>;
    fn forget(t: &mut Self::T, p: u64) -> Look<Self::N>;
    fn remember(t: &mut Self::T, p: u64, v: u64, pr: &Proof<Self::N>) -> Result<(), Err>;

    fn push(_: &mut Self::T, _: u64) -> Result<(), Err> {
        unreachable!()
    }
    fn extend(_: &mut Self::T, _: &mut dyn Iterator<Item = u64>) -> Result<(), Err> {
        unreachable!()
    }
    fn range(_: &Self::T, _: u64, _: u64) -> Range<Self::N> {
        unreachable!()
    }
    fn range_verify(
        _: &Self::N,
        _: &[u64],
        _: &[u64],
        _: &[Vec<Self::N>],
        _: &[Vec<Self::N>],
    ) -> Result<bool, Err> {
        unreachable!()
    }

    fn update(_: &mut Self::T, _: u64, _: u64) -> Result<Old, Err> {
        unreachable!()
    }
    fn remove(_: &mut Self::T, _: u64) -> Result<Old, Err> {
        unreachable!()
    }
    fn update_with(
        _: &mut Self::T,
        _: u64,
        _: &mut dyn FnMut(Option<u64>) -> Option<u64>,
    ) -> Result<Old, Err> {
        unreachable!()
    }
    fn absent(_: &Self::N, _: u64, _: &Proof<Self::N>) -> Result<bool, Err> {
        unreachable!()
    }
    fn forget_any(_: &mut Self::T, _: u64) -> Look<Self::N> {
        unreachable!()
    }
    fn remember_absent(_: &mut Self::T, _: u64, _: &Proof<Self::N>) -> Result<(), Err> {
        unreachable!()
    }
    fn fork_update(_: &Self::T, _: u64, _: u64) -> Result<Self::T, Err> {
        unreachable!()
    }
    fn fork_remove(_: &Self::T, _: u64) -> Result<Self::T, Err> {
        unreachable!()
    }
    fn fork_with(
        _: &Self::T,
        _: u64,
        _: &mut dyn FnMut(Option<u64>) -> Option<u64>,
    ) -> Result<Self::T, Err> {
        unreachable!()
    }
}

// ---- a fast digest with a fault seam ---------------------------------------

thread_local! {
    /// Digest calls left before one fails; `u64::MAX` means never.
    pub static FAIL_IN: Cell<u64> = const { Cell::new(u64::MAX) };
    pub static DIGESTS: Cell<u64> = const { Cell::new(0) };
}
fn tick() -> Result<(), MerkleTreeError> {
    DIGESTS.with(|d| d.set(d.get() + 1));
    FAIL_IN.with(|f| match f.get() {
        u64::MAX => Ok(()),
        0 => Err(MerkleTreeError::DigestError("injected".into())),
        n => {
            f.set(n - 1);
            Ok(())
        },
    })
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Fast;
impl<E, I> DigestAlgorithm<E, I, [u64; 2]> for Fast
where
    E: Element + CanonicalSerialize,
    I: Index + CanonicalSerialize,
{
    fn digest(d: &[[u64; 2]]) -> Result<[u64; 2], MerkleTreeError> {
        tick()?;
        let mut h = [11u64, 22];
        for x in d {
            h = [mix(&[h[0], x[0], x[1]]), mix(&[h[1], x[1], x[0], 5])];
        }
        Ok(h)
    }
    fn digest_leaf(p: &I, e: &E) -> Result<[u64; 2], MerkleTreeError> {
        tick()?;
        let mut b = vec![];
        p.serialize_uncompressed(&mut b).unwrap();
        b.push(7);
        e.serialize_uncompressed(&mut b).unwrap();
        Ok([sim::hash_bytes(33, &b), sim::hash_bytes(44, &b)])
    }
}

/// Adds `Clone`, `PartialEq` and the fault seam to any digest.
pub struct Wrap<D>(PhantomData<D>);
impl<D> Clone for Wrap<D> {
    fn clone(&self) -> Self {
        Wrap(PhantomData)
    }
}
impl<D> PartialEq for Wrap<D> {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
impl<E: Element, I: Index, N: NodeValue, D: DigestAlgorithm<E, I, N>> DigestAlgorithm<E, I, N>
    for Wrap<D>
{
    fn digest(d: &[N]) -> Result<N, MerkleTreeError> {
        tick()?;
        D::digest(d)
    }
    fn digest_leaf(p: &I, e: &E) -> Result<N, MerkleTreeError> {
        tick()?;
        D::digest_leaf(p, e)
    }
}

fn e2s(e: MerkleTreeError) -> Err {
    format!("{e:?}")
}
fn f_u<F: PrimeField>(f: &F) -> u64 {
    f.into_bigint().as_ref()[0]
}

macro_rules! common {
    ($tree:ty, $n:ty, $a:expr, $pi:expr, $ip:expr, $pe:expr, $ep:expr) => {
        type T = $tree;
        type N = $n;
        const ARITY: u64 = $a;
        fn new(h: usize) -> Self::T {
            <$tree>::new(h)
        }
        fn from_commitment(c: &Self::N, h: usize, n: u64) -> Self::T {
            <$tree as ForgetableMerkleTreeScheme>::from_commitment(c, h, n)
        }
        fn commitment(t: &Self::T) -> Self::N {
            t.commitment()
        }
        fn height(t: &Self::T) -> usize {
            t.height()
        }
        fn capacity(t: &Self::T) -> BigUint {
            t.capacity()
        }
        fn len(t: &Self::T) -> u64 {
            t.num_leaves()
        }
        fn plain_lookup(t: &Self::T, p: u64) -> Look<Self::N> {
            match t.lookup(&$pi(p)) {
                LookupResult::Ok(e, pr) => Look::Hit($ep(e), pr),
                LookupResult::NotFound(()) => Look::Miss(None),
                LookupResult::NotInMemory => Look::Gone,
            }
        }
        fn verify(c: &Self::N, p: u64, v: u64, pr: &Proof<Self::N>) -> Result<bool, Err> {
            <$tree as MerkleTreeScheme>::verify(c, &$pi(p), &$pe(v), pr)
                .map(|r| r.is_ok())
                .map_err(e2s)
        }
        fn iter(t: &Self::T) -> Vec<(u64, u64)> {
            let a: Vec<(u64, u64)> = t.iter().map(|(i, e)| ($ip(i), $ep(e))).collect();
            let b: Vec<(u64, u64)> = (&*t).into_iter().map(|(i, e)| ($ip(i), $ep(e))).collect();
            assert_eq!(a, b, "two ways of iterating differ");
            a
        }
        fn into_iter(t: Self::T) -> Vec<(u64, u64)> {
            t.into_iter().map(|(i, e)| ($ip(&i), $ep(&e))).collect()
        }
        fn leaves(t: &Self::T) -> Vec<(u64, u64, Proof<Self::N>)> {
            t.collect_leaves_with_proofs().into_iter().map(|(i, e, p)| ($ip(i), $ep(e), p)).collect()
        }
        fn forget(t: &mut Self::T, p: u64) -> Look<Self::N> {
            match t.forget(&$pi(p)) {
                LookupResult::Ok(e, pr) => Look::Hit($ep(&e), pr),
                LookupResult::NotFound(()) => Look::Miss(None),
                LookupResult::NotInMemory => Look::Gone,
            }
        }
        fn remember(t: &mut Self::T, p: u64, v: u64, pr: &Proof<Self::N>) -> Result<(), Err> {
            t.remember(&$pi(p), &$pe(v), pr).map_err(e2s)
        }
    };
}

macro_rules! append {
    ($name:ident, $s:expr, $tree:ty, $n:ty, $a:expr, $light:expr, $binds:expr, $cost:expr, $pe:expr, $ep:expr) => {
        pub struct $name;
        impl Kind for $name {
            common!($tree, $n, $a, |p: u64| p, |p: &u64| *p, $pe, $ep);
            const NAME: &'static str = $s;
            const KEYED: bool = false;
            const LIGHT: bool = $light;
            const BINDS: bool = $binds;
            const COST: u64 = $cost;
            fn batch(h: Option<usize>, kv: &[(u64, u64)]) -> Result<Self::T, Err> {
                <$tree>::from_elems(h, kv.iter().map(|x| $pe(x.1))).map_err(e2s)
            }
            fn lookup(t: &Self::T, p: u64) -> Look<Self::N> {
                Self::plain_lookup(t, p)
            }
            fn push(t: &mut Self::T, v: u64) -> Result<(), Err> {
                t.push($pe(v)).map_err(e2s)
            }
            fn extend(t: &mut Self::T, it: &mut dyn Iterator<Item = u64>) -> Result<(), Err> {
                t.extend(it.map(|v| $pe(v))).map_err(e2s)
            }
            fn range(t: &Self::T, a: u64, b: u64) -> Range<Self::N> {
                match t.range_lookup(a, b) {
                    LookupResult::Ok((i, e), p) => {
                        Range::Hit(i, e.iter().map(|x| $ep(x)).collect(), p.lbound, p.rbound)
                    },
                    LookupResult::NotFound(()) => Range::Miss,
                    LookupResult::NotInMemory => Range::Gone,
                }
            }
            fn range_verify(
                c: &Self::N,
                i: &[u64],
                e: &[u64],
                l: &[Vec<Self::N>],
                r: &[Vec<Self::N>],
            ) -> Result<bool, Err> {
                let e: Vec<_> = e.iter().map(|v| $pe(*v)).collect();
                let mut p = <$tree as RangeProofMerkleTreeScheme>::RangeMembershipProof::default();
                p.lbound = l.to_vec();
                p.rbound = r.to_vec();
                <$tree>::verify_range_proof(c, i, &e, &p).map(|r| r.is_ok()).map_err(e2s)
            }
        }
    };
}

macro_rules! keyed {
    ($name:ident, $s:expr, $tree:ty, $n:ty, $a:expr, $binds:expr, $cost:expr, $max:expr, $pi:expr, $ip:expr, $pe:expr, $ep:expr) => {
        pub struct $name;
        impl Kind for $name {
            common!($tree, $n, $a, $pi, $ip, $pe, $ep);
            const NAME: &'static str = $s;
            const KEYED: bool = true;
            const LIGHT: bool = false;
            const BINDS: bool = $binds;
            const COST: u64 = $cost;
            const MAX_POS: u64 = $max;
            fn batch(h: Option<usize>, kv: &[(u64, u64)]) -> Result<Self::T, Err> {
                <$tree>::from_kv_set(h.unwrap(), kv.iter().map(|x| ($pi(x.0), $pe(x.1)))).map_err(e2s)
            }
            fn lookup(t: &Self::T, p: u64) -> Look<Self::N> {
                match t.universal_lookup(&$pi(p)) {
                    LookupResult::Ok(e, pr) => Look::Hit($ep(e), pr),
                    LookupResult::NotFound(pr) => Look::Miss(Some(pr)),
                    LookupResult::NotInMemory => Look::Gone,
                }
            }
            fn update(t: &mut Self::T, p: u64, v: u64) -> Result<Old, Err> {
                t.update(&$pi(p), &$pe(v)).map(|r| old(r, $ep)).map_err(e2s)
            }
            fn remove(t: &mut Self::T, p: u64) -> Result<Old, Err> {
                t.remove(&$pi(p)).map(|r| old(r, $ep)).map_err(e2s)
            }
            fn update_with(
                t: &mut Self::T,
                p: u64,
                f: &mut dyn FnMut(Option<u64>) -> Option<u64>,
            ) -> Result<Old, Err> {
                t.update_with(&$pi(p), |o| f(o.map($ep)).map($pe)).map(|r| old(r, $ep)).map_err(e2s)
            }
            fn absent(c: &Self::N, p: u64, pr: &Proof<Self::N>) -> Result<bool, Err> {
                <$tree>::non_membership_verify(c, &$pi(p), pr).map(|r| r.is_ok()).map_err(e2s)
            }
            fn forget_any(t: &mut Self::T, p: u64) -> Look<Self::N> {
                match t.universal_forget($pi(p)) {
                    LookupResult::Ok(e, pr) => Look::Hit($ep(&e), pr),
                    LookupResult::NotFound(pr) => Look::Miss(Some(pr)),
                    LookupResult::NotInMemory => Look::Gone,
                }
            }
            fn remember_absent(t: &mut Self::T, p: u64, pr: &Proof<Self::N>) -> Result<(), Err> {
                t.non_membership_remember($pi(p), pr).map_err(e2s)
            }
            fn fork_update(t: &Self::T, p: u64, v: u64) -> Result<Self::T, Err> {
                t.persistent_update(&$pi(p), &$pe(v)).map_err(e2s)
            }
            fn fork_remove(t: &Self::T, p: u64) -> Result<Self::T, Err> {
                t.persistent_remove($pi(p)).map_err(e2s)
            }
            fn fork_with(
                t: &Self::T,
                p: u64,
                f: &mut dyn FnMut(Option<u64>) -> Option<u64>,
            ) -> Result<Self::T, Err> {
                t.persistent_update_with(&$pi(p), |o| f(o.map($ep)).map($pe)).map_err(e2s)
            }
        }
    };
}
fn old<E>(r: LookupResult<E, (), ()>, ep: impl Fn(&E) -> u64) -> Old {
    match r {
        LookupResult::Ok(e, ()) => Old::Some(ep(&e)),
        LookupResult::NotFound(()) => Old::None,
        LookupResult::NotInMemory => Old::Gone,
    }
}

fn id(v: u64) -> u64 {
    v
}
fn di(v: &u64) -> u64 {
    *v
}
fn f254(v: u64) -> Fr254 {
    Fr254::from(v)
}
fn f381(v: u64) -> Fr381 {
    Fr381::from(v)
}
fn big(p: u64) -> BigUint {
    p.into()
}
fn unbig(p: &BigUint) -> u64 {
    p.iter_u64_digits().next().unwrap_or(0)
}

type Pos2 = Wrap<FixedLenPoseidon2Hash<Fr381, Poseidon2PermutationBlsN3R2, 3, 1>>;
type Sha = Wrap<HasherDigestAlgorithm>;

append!(A2, "append-2-fast", MerkleTree<u64, Fast, u64, 2, [u64; 2]>, [u64; 2], 2, false, true, 1, id, di);
append!(A3, "append-3-fast", MerkleTree<u64, Fast, u64, 3, [u64; 2]>, [u64; 2], 3, false, true, 1, id, di);
append!(A5, "append-5-fast", MerkleTree<u64, Fast, u64, 5, [u64; 2]>, [u64; 2], 5, false, true, 1, id, di);
append!(AH, "append-3-sha256", MerkleTree<u64, Sha, u64, 3, HasherNode<Sha256>>, HasherNode<Sha256>, 3, false, true, 4, id, di);
append!(AH2, "append-2-sha256", MerkleTree<u64, Sha, u64, 2, HasherNode<Sha256>>, HasherNode<Sha256>, 2, false, true, 4, id, di);
append!(AS, "append-3-sha3", SHA3MerkleTree<u64>, Sha3Node, 3, false, false, 4, id, di);
append!(AR, "append-3-rescue-bn254", RescueMerkleTree<Fr254>, Fr254, 3, false, true, 60, f254, f_u);
append!(AP, "append-2-poseidon2-bls381", MerkleTree<Fr381, Pos2, u64, 2, Fr381>, Fr381, 2, false, true, 20, f381, f_u);
append!(L2, "light-2-fast", LightWeightMerkleTree<u64, Fast, u64, 2, [u64; 2]>, [u64; 2], 2, true, true, 1, id, di);
append!(L3, "light-3-fast", LightWeightMerkleTree<u64, Fast, u64, 3, [u64; 2]>, [u64; 2], 3, true, true, 1, id, di);
append!(L5, "light-5-fast", LightWeightMerkleTree<u64, Fast, u64, 5, [u64; 2]>, [u64; 2], 5, true, true, 1, id, di);
append!(LS, "light-3-sha3", LightWeightSHA3MerkleTree<u64>, Sha3Node, 3, true, false, 4, id, di);
append!(LK, "light-3-keccak", LightWeightKeccak256MerkleTree<u64>, Keccak256Node, 3, true, false, 4, id, di);
append!(LR, "light-3-rescue-bn254", RescueLightWeightMerkleTree<Fr254>, Fr254, 3, true, true, 60, f254, f_u);
keyed!(K2, "keyed-2-fast-u64", UniversalMerkleTree<u64, Fast, u64, 2, [u64; 2]>, [u64; 2], 2, true, 1, u64::MAX, id, di, id, di);
keyed!(K3, "keyed-3-fast-biguint", UniversalMerkleTree<u64, Fast, BigUint, 3, [u64; 2]>, [u64; 2], 3, true, 1, u64::MAX, big, unbig, id, di);
keyed!(K4, "keyed-4-fast-u32", UniversalMerkleTree<u64, Fast, u32, 4, [u64; 2]>, [u64; 2], 4, true, 1, u32::MAX as u64, |p: u64| p as u32, |p: &u32| *p as u64, id, di);
keyed!(K16, "keyed-16-fast-u16", UniversalMerkleTree<u64, Fast, u16, 16, [u64; 2]>, [u64; 2], 16, true, 1, u16::MAX as u64, |p: u64| p as u16, |p: &u16| *p as u64, id, di);
keyed!(KF, "keyed-3-fast-field", UniversalMerkleTree<u64, Fast, Fr254, 3, [u64; 2]>, [u64; 2], 3, true, 1, u64::MAX, f254, f_u, id, di);
keyed!(KH, "keyed-2-sha256", UniversalMerkleTree<u64, Sha, u64, 2, HasherNode<Sha256>>, HasherNode<Sha256>, 2, true, 4, u64::MAX, id, di, id, di);
keyed!(KS, "keyed-3-sha3", UniversalMerkleTree<u64, Sha3Digest, u64, 3, Sha3Node>, Sha3Node, 3, false, 4, u64::MAX, id, di, id, di);
keyed!(KR, "keyed-3-rescue-bn254", RescueSparseMerkleTree<Fr254, Fr254>, Fr254, 3, true, 60, u64::MAX, f254, f_u, f254, f_u);
keyed!(KB, "keyed-3-rescue-biguint", RescueSparseMerkleTree<BigUint, Fr381>, Fr381, 3, true, 60, u64::MAX, big, unbig, f381, f_u);

/// Calls `$f::<Kind>(args)` for append kind number `$i`.
#[macro_export]
macro_rules! on_append {
    ($i:expr, $f:ident ( $($a:expr),* )) => {
        match $i % 9 {
            0 => $f::<$crate::kinds::A2, $crate::kinds::L2>($($a),*),
            1 => $f::<$crate::kinds::A3, $crate::kinds::L3>($($a),*),
            2 => $f::<$crate::kinds::A5, $crate::kinds::L5>($($a),*),
            3 => $f::<$crate::kinds::AH, $crate::kinds::AH>($($a),*),
            4 => $f::<$crate::kinds::AH2, $crate::kinds::AH2>($($a),*),
            5 => $f::<$crate::kinds::AS, $crate::kinds::LS>($($a),*),
            6 => $f::<$crate::kinds::LK, $crate::kinds::LK>($($a),*),
            7 => $f::<$crate::kinds::AR, $crate::kinds::LR>($($a),*),
            _ => $f::<$crate::kinds::AP, $crate::kinds::AP>($($a),*),
        }
    };
}
#[macro_export]
macro_rules! on_keyed {
    ($i:expr, $f:ident ( $($a:expr),* )) => {
        match $i % 9 {
            0 => $f::<$crate::kinds::K2>($($a),*),
            1 => $f::<$crate::kinds::K3>($($a),*),
            2 => $f::<$crate::kinds::K4>($($a),*),
            3 => $f::<$crate::kinds::K16>($($a),*),
            4 => $f::<$crate::kinds::KF>($($a),*),
            5 => $f::<$crate::kinds::KH>($($a),*),
            6 => $f::<$crate::kinds::KS>($($a),*),
            7 => $f::<$crate::kinds::KR>($($a),*),
            _ => $f::<$crate::kinds::KB>($($a),*),
        }
    };
}
