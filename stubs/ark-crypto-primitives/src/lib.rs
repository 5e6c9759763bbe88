//! Stand-in for the sponge traits of `ark-crypto-primitives` used by jellyfish.
pub mod sponge {
    use ark_ff::{Fp, FpConfig, PrimeField};

    #[derive(Clone, Copy, Eq, PartialEq, Debug)]
    pub enum FieldElementSize {
        Full,
        Truncated(usize),
    }

    pub fn field_cast<F1: PrimeField, F2: PrimeField>(x: F1) -> Option<F2> {
        if F1::characteristic() != F2::characteristic() {
            None
        } else {
            let mut bytes = ark_std::vec::Vec::new();
            ark_serialize::CanonicalSerialize::serialize_compressed(&x, &mut bytes).ok()?;
            Some(F2::from_le_bytes_mod_order(&bytes))
        }
    }

    pub trait Absorb {
        fn to_sponge_bytes(&self, dest: &mut Vec<u8>);
        fn to_sponge_bytes_as_vec(&self) -> Vec<u8> {
            let mut r = Vec::new();
            self.to_sponge_bytes(&mut r);
            r
        }
        fn to_sponge_field_elements<F: PrimeField>(&self, dest: &mut Vec<F>);
        fn to_sponge_field_elements_as_vec<F: PrimeField>(&self) -> Vec<F> {
            let mut r = Vec::new();
            self.to_sponge_field_elements(&mut r);
            r
        }
        fn batch_to_sponge_bytes(batch: &[Self], dest: &mut Vec<u8>)
        where
            Self: Sized,
        {
            for e in batch {
                e.to_sponge_bytes(dest)
            }
        }
        fn batch_to_sponge_field_elements<F: PrimeField>(batch: &[Self], dest: &mut Vec<F>)
        where
            Self: Sized,
        {
            for e in batch {
                e.to_sponge_field_elements(dest)
            }
        }
    }
    impl Absorb for u8 {
        fn to_sponge_bytes(&self, dest: &mut Vec<u8>) {
            dest.push(*self)
        }
        fn to_sponge_field_elements<F: PrimeField>(&self, dest: &mut Vec<F>) {
            dest.push(F::from(*self))
        }
        fn batch_to_sponge_bytes(batch: &[Self], dest: &mut Vec<u8>) {
            dest.extend_from_slice(batch)
        }
        fn batch_to_sponge_field_elements<F: PrimeField>(batch: &[Self], dest: &mut Vec<F>) {
            let mut bytes = (batch.len() as u64).to_le_bytes().to_vec();
            bytes.extend_from_slice(batch);
            let n = ((F::MODULUS_BIT_SIZE - 1) / 8) as usize;
            for c in bytes.chunks(n) {
                dest.push(F::from_le_bytes_mod_order(c))
            }
        }
    }
    impl Absorb for usize {
        fn to_sponge_bytes(&self, dest: &mut Vec<u8>) {
            dest.extend_from_slice(&(*self as u64).to_le_bytes())
        }
        fn to_sponge_field_elements<F: PrimeField>(&self, dest: &mut Vec<F>) {
            dest.push(F::from(*self as u64))
        }
    }
    impl<P: FpConfig<N>, const N: usize> Absorb for Fp<P, N> {
        fn to_sponge_bytes(&self, dest: &mut Vec<u8>) {
            ark_serialize::CanonicalSerialize::serialize_compressed(self, dest).unwrap()
        }
        fn to_sponge_field_elements<F: PrimeField>(&self, dest: &mut Vec<F>) {
            dest.push(field_cast(*self).unwrap())
        }
    }
    impl<A: Absorb> Absorb for [A] {
        fn to_sponge_bytes(&self, dest: &mut Vec<u8>) {
            A::batch_to_sponge_bytes(self, dest)
        }
        fn to_sponge_field_elements<F: PrimeField>(&self, dest: &mut Vec<F>) {
            A::batch_to_sponge_field_elements(self, dest)
        }
    }
    impl<A: Absorb> Absorb for Vec<A> {
        fn to_sponge_bytes(&self, dest: &mut Vec<u8>) {
            self.as_slice().to_sponge_bytes(dest)
        }
        fn to_sponge_field_elements<F: PrimeField>(&self, dest: &mut Vec<F>) {
            self.as_slice().to_sponge_field_elements(dest)
        }
    }
    impl<A: Absorb + ?Sized> Absorb for &A {
        fn to_sponge_bytes(&self, dest: &mut Vec<u8>) {
            (*self).to_sponge_bytes(dest)
        }
        fn to_sponge_field_elements<F: PrimeField>(&self, dest: &mut Vec<F>) {
            (*self).to_sponge_field_elements(dest)
        }
    }

    pub trait CryptographicSponge: Clone {
        type Config;
        fn new(params: &Self::Config) -> Self;
        fn absorb(&mut self, input: &impl Absorb);
        fn squeeze_bytes(&mut self, num_bytes: usize) -> Vec<u8>;
        fn squeeze_bits(&mut self, num_bits: usize) -> Vec<bool>;
        fn squeeze_field_elements_with_sizes<F: PrimeField>(
            &mut self,
            sizes: &[FieldElementSize],
        ) -> Vec<F>;
        fn squeeze_field_elements<F: PrimeField>(&mut self, num_elements: usize) -> Vec<F>;
        fn fork(&self, domain: &[u8]) -> Self;
    }
    pub trait FieldBasedCryptographicSponge<CF: PrimeField>: CryptographicSponge {
        fn squeeze_native_field_elements(&mut self, num_elements: usize) -> Vec<CF>;
        fn squeeze_native_field_elements_with_sizes(
            &mut self,
            sizes: &[FieldElementSize],
        ) -> Vec<CF>;
    }
    pub trait SpongeExt: CryptographicSponge {
        type State: Clone;
        fn from_state(state: Self::State, params: &Self::Config) -> Self;
        fn into_state(self) -> Self::State;
    }
}
