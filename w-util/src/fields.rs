// Prime fields of unusual sizes, so that "every field" means more than the curves.
use ark_ff::{Fp128, Fp256, Fp64, MontBackend, MontConfig};

#[derive(MontConfig)]
#[modulus = "18446744069414584321"]
#[generator = "7"]
pub struct GoldilocksConfig;
pub type Goldilocks = Fp64<MontBackend<GoldilocksConfig, 1>>;

#[derive(MontConfig)]
#[modulus = "162259276829213363391578010288127"]
#[generator = "3"]
pub struct M107Config;
pub type M107 = Fp128<MontBackend<M107Config, 2>>;

#[derive(MontConfig)]
#[modulus = "170141183460469231731687303715884105727"]
#[generator = "3"]
pub struct M127Config;
pub type M127 = Fp128<MontBackend<M127Config, 2>>;

// Bits that fill whole bytes, and one bit more than a machine word.
#[derive(MontConfig)]
#[modulus = "115792089237316195423570985008687907853269984665640564039457584007908834671663"]
#[generator = "3"]
pub struct K256Config;
pub type K256 = Fp256<MontBackend<K256Config, 4>>;

#[derive(MontConfig)]
#[modulus = "18446744073709551629"]
#[generator = "2"]
pub struct P65Config;
pub type P65 = Fp128<MontBackend<P65Config, 2>>;

use ark_ff::Field;
use sim::Prng;

/// A field element, biased to the edges of the field.
pub fn elem<F: Field>(r: &mut Prng, pattern: u64) -> F {
    let d = F::extension_degree() as usize;
    let v: Vec<F::BasePrimeField> = (0..d)
        .map(|_| match if pattern == 9 { r.below(6) } else { pattern } {
            0 => F::BasePrimeField::from(0u64),
            1 => F::BasePrimeField::from(1u64),
            2 => -F::BasePrimeField::from(1u64 + r.below(3)),
            3 => F::BasePrimeField::from(r.next()),
            _ => {
                let b = r.bytes(96);
                <F::BasePrimeField as ark_ff::PrimeField>::from_le_bytes_mod_order(&b)
            },
        })
        .collect();
    F::from_base_prime_field_elems(v).unwrap()
}
pub fn bytes_of<T: ark_serialize::CanonicalSerialize>(x: &T) -> Vec<u8> {
    let mut v = vec![];
    x.serialize_compressed(&mut v).unwrap();
    v
}
