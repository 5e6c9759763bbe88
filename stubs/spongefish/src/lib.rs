//! Stand-in for the parts of `spongefish` that jellyfish uses: the overwrite-mode
//! duplex sponge over a generic permutation.
use ark_ff::{Fp, FpConfig};
use zeroize::Zeroize;

/// Basic unit over which a sponge operates.
pub trait Unit: Clone + Sized + Zeroize {}
impl Unit for u8 {}
impl<C: FpConfig<N>, const N: usize> Unit for Fp<C, N> {}

pub trait DuplexSpongeInterface<U: Unit = u8>: Default + Clone + Zeroize {
    fn new(iv: [u8; 32]) -> Self;
    fn absorb_unchecked(&mut self, input: &[U]) -> &mut Self;
    fn squeeze_unchecked(&mut self, output: &mut [U]) -> &mut Self;
    fn ratchet_unchecked(&mut self) -> &mut Self;
}

pub mod duplex_sponge {
    pub use super::DuplexSpongeInterface;
    use super::Unit;
    use zeroize::Zeroize;

    pub trait Permutation: Zeroize + Default + Clone + AsRef<[Self::U]> + AsMut<[Self::U]> {
        type U: Unit;
        const N: usize;
        const R: usize;
        fn new(iv: [u8; 32]) -> Self;
        fn permute(&mut self);
    }

    #[derive(Clone, PartialEq, Eq, Default, Debug)]
    pub struct DuplexSponge<C: Permutation> {
        permutation: C,
        absorb_pos: usize,
        squeeze_pos: usize,
    }
    impl<C: Permutation> Zeroize for DuplexSponge<C> {
        fn zeroize(&mut self) {
            self.absorb_pos = 0;
            self.squeeze_pos = 0;
            self.permutation.zeroize();
        }
    }
    impl<U: Unit, C: Permutation<U = U>> DuplexSpongeInterface<U> for DuplexSponge<C> {
        fn new(iv: [u8; 32]) -> Self {
            Self { permutation: C::new(iv), absorb_pos: 0, squeeze_pos: C::R }
        }
        fn absorb_unchecked(&mut self, mut input: &[U]) -> &mut Self {
            while !input.is_empty() {
                if self.absorb_pos == C::R {
                    self.permutation.permute();
                    self.absorb_pos = 0;
                } else {
                    let n = usize::min(input.len(), C::R - self.absorb_pos);
                    let (chunk, rest) = input.split_at(n);
                    let p = self.absorb_pos;
                    self.permutation.as_mut()[p..p + n].clone_from_slice(chunk);
                    self.absorb_pos += n;
                    input = rest;
                }
            }
            self.squeeze_pos = C::R;
            self
        }
        fn squeeze_unchecked(&mut self, output: &mut [U]) -> &mut Self {
            let mut done = 0;
            while done < output.len() {
                if self.squeeze_pos == C::R {
                    self.squeeze_pos = 0;
                    self.absorb_pos = 0;
                    self.permutation.permute();
                }
                let n = usize::min(output.len() - done, C::R - self.squeeze_pos);
                let p = self.squeeze_pos;
                output[done..done + n].clone_from_slice(&self.permutation.as_ref()[p..p + n]);
                self.squeeze_pos += n;
                done += n;
            }
            self
        }
        fn ratchet_unchecked(&mut self) -> &mut Self {
            self.permutation.permute();
            self.permutation.as_mut()[0..C::R].iter_mut().for_each(|x| x.zeroize());
            self.squeeze_pos = C::R;
            self
        }
    }
}
