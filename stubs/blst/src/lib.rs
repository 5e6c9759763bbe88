//! The part of `blst::min_sig` that jellyfish wraps, on arkworks' BLS12-381.
//! Hash-to-curve is try-and-increment instead of SSWU, so signatures are not
//! interoperable with blst; algebra, encodings' sizes and validation rules match.
#[allow(non_camel_case_types)]
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum BLST_ERROR {
    BLST_SUCCESS = 0,
    BLST_BAD_ENCODING = 1,
    BLST_POINT_NOT_ON_CURVE = 2,
    BLST_POINT_NOT_IN_GROUP = 3,
    BLST_AGGR_TYPE_MISMATCH = 4,
    BLST_VERIFY_FAIL = 5,
    BLST_PK_IS_INFINITY = 6,
    BLST_BAD_SCALAR = 7,
}

pub mod min_sig {
    use super::BLST_ERROR::{self, *};
    use ark_bls12_381::{Bls12_381, Fq, Fr, G1Affine, G1Projective, G2Affine};
    use ark_ec::{pairing::Pairing, AffineRepr, CurveGroup};
    use ark_ff::{BigInteger, PrimeField, Zero};
    use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
    use sha2::{Digest, Sha512};
    use zeroize::Zeroize;

    fn hash_g1(msg: &[u8], dst: &[u8], aug: &[u8]) -> G1Projective {
        let mut ctr = 0u32;
        loop {
            let mut h = Sha512::new();
            h.update((dst.len() as u64).to_le_bytes());
            h.update(dst);
            h.update(ctr.to_le_bytes());
            h.update(aug);
            h.update(msg);
            let x = Fq::from_le_bytes_mod_order(&h.finalize());
            if let Some(p) = G1Affine::get_point_from_x_unchecked(x, false) {
                let q = p.mul_by_cofactor_to_group();
                if !q.is_zero() {
                    return q;
                }
            }
            ctr += 1;
        }
    }

    #[derive(Clone, Debug, Default)]
    pub struct SecretKey(Fr);
    impl Zeroize for SecretKey {
        fn zeroize(&mut self) {
            self.0.zeroize()
        }
    }
    impl SecretKey {
        fn derive(parts: &[&[u8]]) -> Self {
            let mut h = Sha512::new();
            for p in parts {
                h.update((p.len() as u64).to_le_bytes());
                h.update(p);
            }
            let s = Fr::from_le_bytes_mod_order(&h.finalize());
            Self(if s.is_zero() { Fr::from(1u64) } else { s })
        }
        pub fn key_gen(ikm: &[u8], info: &[u8]) -> Result<Self, BLST_ERROR> {
            if ikm.len() < 32 {
                return Err(BLST_BAD_ENCODING);
            }
            Ok(Self::derive(&[b"v3", ikm, info]))
        }
        pub fn key_gen_v5(ikm: &[u8], salt: &[u8], info: &[u8]) -> Result<Self, BLST_ERROR> {
            if ikm.len() < 32 {
                return Err(BLST_BAD_ENCODING);
            }
            Ok(Self::derive(&[b"v5", ikm, salt, info]))
        }
        pub fn sk_to_pk(&self) -> PublicKey {
            PublicKey((G2Affine::generator() * self.0).into_affine())
        }
        pub fn sign(&self, msg: &[u8], dst: &[u8], aug: &[u8]) -> Signature {
            Signature((hash_g1(msg, dst, aug) * self.0).into_affine())
        }
        pub fn to_bytes(&self) -> [u8; 32] {
            self.0.into_bigint().to_bytes_be().try_into().unwrap()
        }
        pub fn serialize(&self) -> [u8; 32] {
            self.to_bytes()
        }
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> {
            if b.len() != 32 {
                return Err(BLST_BAD_ENCODING);
            }
            let s = Fr::from_be_bytes_mod_order(b);
            if s.is_zero() || s.into_bigint().to_bytes_be() != b {
                return Err(BLST_BAD_ENCODING);
            }
            Ok(Self(s))
        }
    }

    macro_rules! point {
        ($name:ident, $aff:ty, $comp:expr, $full:expr) => {
            #[derive(Clone, Copy, Debug, PartialEq, Eq)]
            pub struct $name($aff);
            impl $name {
                pub fn compress(&self) -> [u8; $comp] {
                    let mut v = Vec::new();
                    self.0.serialize_compressed(&mut v).unwrap();
                    v.try_into().unwrap()
                }
                pub fn serialize(&self) -> [u8; $full] {
                    let mut v = Vec::new();
                    self.0.serialize_uncompressed(&mut v).unwrap();
                    v.try_into().unwrap()
                }
                pub fn to_bytes(&self) -> [u8; $comp] {
                    self.compress()
                }
                pub fn uncompress(b: &[u8]) -> Result<Self, BLST_ERROR> {
                    if b.len() != $comp {
                        return Err(BLST_BAD_ENCODING);
                    }
                    <$aff>::deserialize_compressed_unchecked(b)
                        .map(Self)
                        .map_err(|_| BLST_BAD_ENCODING)
                }
                pub fn deserialize(b: &[u8]) -> Result<Self, BLST_ERROR> {
                    if b.len() != $full {
                        return Err(BLST_BAD_ENCODING);
                    }
                    let p = <$aff>::deserialize_uncompressed_unchecked(b)
                        .map_err(|_| BLST_BAD_ENCODING)?;
                    if !p.is_on_curve() {
                        return Err(BLST_POINT_NOT_ON_CURVE);
                    }
                    Ok(Self(p))
                }
            }
        };
    }
    point!(PublicKey, G2Affine, 96, 192);
    point!(Signature, G1Affine, 48, 96);
    impl Default for PublicKey {
        fn default() -> Self {
            PublicKey(G2Affine::zero())
        }
    }
    impl PublicKey {
        pub fn validate(&self) -> Result<(), BLST_ERROR> {
            if self.0.is_zero() {
                return Err(BLST_PK_IS_INFINITY);
            }
            if !self.0.is_on_curve() || !self.0.is_in_correct_subgroup_assuming_on_curve() {
                return Err(BLST_POINT_NOT_IN_GROUP);
            }
            Ok(())
        }
    }
    impl Signature {
        pub fn validate(&self, sig_infcheck: bool) -> Result<(), BLST_ERROR> {
            if sig_infcheck && self.0.is_zero() {
                return Err(BLST_PK_IS_INFINITY);
            }
            if !self.0.is_on_curve() || !self.0.is_in_correct_subgroup_assuming_on_curve() {
                return Err(BLST_POINT_NOT_IN_GROUP);
            }
            Ok(())
        }
        pub fn verify(
            &self,
            sig_groupcheck: bool,
            msg: &[u8],
            dst: &[u8],
            aug: &[u8],
            pk: &PublicKey,
            pk_validate: bool,
        ) -> BLST_ERROR {
            if pk_validate {
                if let Err(e) = pk.validate() {
                    return e;
                }
            }
            if sig_groupcheck {
                if let Err(e) = self.validate(false) {
                    return e;
                }
            }
            let h = hash_g1(msg, dst, aug).into_affine();
            if Bls12_381::pairing(self.0, G2Affine::generator()) == Bls12_381::pairing(h, pk.0) {
                BLST_SUCCESS
            } else {
                BLST_VERIFY_FAIL
            }
        }
    }
}
