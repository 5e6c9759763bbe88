//! Keccak-256 and SHA3-256 (FIPS 202), enough of `sha3` for jellyfish.
pub use digest::{self, Digest};
use digest::{
    core_api::BlockSizeUser,
    generic_array::typenum::{U136, U32},
    FixedOutput, FixedOutputReset, HashMarker, Output, OutputSizeUser, Reset, Update,
};

const RC: [u64; 24] = [
    0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000,
    0x000000000000808b, 0x0000000080000001, 0x8000000080008081, 0x8000000000008009,
    0x000000000000008a, 0x0000000000000088, 0x0000000080008009, 0x000000008000000a,
    0x000000008000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003,
    0x8000000000008002, 0x8000000000000080, 0x000000000000800a, 0x800000008000000a,
    0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
];
const ROT: [u32; 24] =
    [1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44];
const PIL: [usize; 24] =
    [10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1];

/// Keccak-f[1600].
pub fn keccak_f(s: &mut [u64; 25]) {
    for rc in RC {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = s[x] ^ s[x + 5] ^ s[x + 10] ^ s[x + 15] ^ s[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                s[x + 5 * y] ^= d;
            }
        }
        let mut t = s[1];
        for i in 0..24 {
            let j = PIL[i];
            let u = s[j];
            s[j] = t.rotate_left(ROT[i]);
            t = u;
        }
        for y in 0..5 {
            let row = [s[5 * y], s[5 * y + 1], s[5 * y + 2], s[5 * y + 3], s[5 * y + 4]];
            for x in 0..5 {
                s[5 * y + x] = row[x] ^ (!row[(x + 1) % 5] & row[(x + 2) % 5]);
            }
        }
        s[0] ^= rc;
    }
}

const RATE: usize = 136;

macro_rules! hasher {
    ($name:ident, $pad:expr) => {
        #[derive(Clone, Debug)]
        pub struct $name {
            st: [u64; 25],
            pos: usize,
        }
        impl Default for $name {
            fn default() -> Self {
                Self { st: [0; 25], pos: 0 }
            }
        }
        impl $name {
            fn xor(&mut self, i: usize, b: u8) {
                self.st[i / 8] ^= (b as u64) << (8 * (i % 8));
            }
        }
        impl HashMarker for $name {}
        impl OutputSizeUser for $name {
            type OutputSize = U32;
        }
        impl BlockSizeUser for $name {
            type BlockSize = U136;
        }
        impl Update for $name {
            fn update(&mut self, data: &[u8]) {
                for &b in data {
                    let p = self.pos;
                    self.xor(p, b);
                    self.pos += 1;
                    if self.pos == RATE {
                        keccak_f(&mut self.st);
                        self.pos = 0;
                    }
                }
            }
        }
        impl Reset for $name {
            fn reset(&mut self) {
                *self = Self::default();
            }
        }
        impl FixedOutput for $name {
            fn finalize_into(mut self, out: &mut Output<Self>) {
                let p = self.pos;
                self.xor(p, $pad);
                self.xor(RATE - 1, 0x80);
                keccak_f(&mut self.st);
                for i in 0..32 {
                    out[i] = (self.st[i / 8] >> (8 * (i % 8))) as u8;
                }
            }
        }
        impl FixedOutputReset for $name {
            fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
                FixedOutput::finalize_into(self.clone(), out);
                Reset::reset(self);
            }
        }
    };
}
hasher!(Keccak256, 0x01);
hasher!(Sha3_256, 0x06);

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn vectors() {
        let h = |v: &[u8]| v.iter().map(|b| format!("{b:02x}")).collect::<String>();
        assert_eq!(
            h(&Keccak256::digest(b"")),
            "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470"
        );
        assert_eq!(
            h(&Sha3_256::digest(b"")),
            "a7ffc6f8bf1ed76651c14756a061d662f580ff4de43b49fa82d80a4b80f8434a"
        );
    }
}
