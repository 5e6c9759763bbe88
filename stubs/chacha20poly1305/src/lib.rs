//! XChaCha20-Poly1305 with the RustCrypto 0.10 interface used by jellyfish.
use generic_array::{
    typenum::{U24, U32},
    GenericArray,
};

pub type XNonce = GenericArray<u8, U24>;
pub type Key = GenericArray<u8, U32>;

pub mod aead {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Error;
    pub struct Payload<'msg, 'aad> {
        pub msg: &'msg [u8],
        pub aad: &'aad [u8],
    }
    impl<'m> From<&'m [u8]> for Payload<'m, '_> {
        fn from(msg: &'m [u8]) -> Self {
            Payload { msg, aad: b"" }
        }
    }
    pub trait AeadCore {
        type NonceSize: generic_array::ArrayLength<u8>;
        fn generate_nonce(
            mut rng: impl rand_core::CryptoRng + rand_core::RngCore,
        ) -> generic_array::GenericArray<u8, Self::NonceSize> {
            let mut n = generic_array::GenericArray::<u8, Self::NonceSize>::default();
            rng.fill_bytes(&mut n);
            n
        }
    }
    pub trait Aead: AeadCore {
        fn encrypt<'m, 'a>(
            &self,
            nonce: &generic_array::GenericArray<u8, Self::NonceSize>,
            p: impl Into<Payload<'m, 'a>>,
        ) -> Result<Vec<u8>, Error>;
        fn decrypt<'m, 'a>(
            &self,
            nonce: &generic_array::GenericArray<u8, Self::NonceSize>,
            p: impl Into<Payload<'m, 'a>>,
        ) -> Result<Vec<u8>, Error>;
    }
}
pub trait KeyInit: Sized {
    fn new(key: &Key) -> Self;
}

pub struct XChaCha20Poly1305 {
    key: [u8; 32],
}
impl KeyInit for XChaCha20Poly1305 {
    fn new(key: &Key) -> Self {
        let mut k = [0u8; 32];
        k.copy_from_slice(key);
        Self { key: k }
    }
}

fn le32(b: &[u8]) -> u32 {
    u32::from_le_bytes([b[0], b[1], b[2], b[3]])
}
fn qr(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(16);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(12);
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(8);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(7);
}
fn rounds(s: &mut [u32; 16]) {
    for _ in 0..10 {
        qr(s, 0, 4, 8, 12);
        qr(s, 1, 5, 9, 13);
        qr(s, 2, 6, 10, 14);
        qr(s, 3, 7, 11, 15);
        qr(s, 0, 5, 10, 15);
        qr(s, 1, 6, 11, 12);
        qr(s, 2, 7, 8, 13);
        qr(s, 3, 4, 9, 14);
    }
}
fn init(key: &[u8; 32], tail: [u32; 4]) -> [u32; 16] {
    let mut s = [0u32; 16];
    s[..4].copy_from_slice(&[0x61707865, 0x3320646e, 0x79622d32, 0x6b206574]);
    for i in 0..8 {
        s[4 + i] = le32(&key[4 * i..]);
    }
    s[12..].copy_from_slice(&tail);
    s
}
fn hchacha(key: &[u8; 32], n: &[u8]) -> [u8; 32] {
    let mut s = init(key, [le32(n), le32(&n[4..]), le32(&n[8..]), le32(&n[12..])]);
    rounds(&mut s);
    let mut out = [0u8; 32];
    for i in 0..4 {
        out[4 * i..4 * i + 4].copy_from_slice(&s[i].to_le_bytes());
        out[16 + 4 * i..20 + 4 * i].copy_from_slice(&s[12 + i].to_le_bytes());
    }
    out
}
fn block(key: &[u8; 32], ctr: u32, n: &[u8; 12]) -> [u8; 64] {
    let i = init(key, [ctr, le32(n), le32(&n[4..]), le32(&n[8..])]);
    let mut s = i;
    rounds(&mut s);
    let mut out = [0u8; 64];
    for k in 0..16 {
        out[4 * k..4 * k + 4].copy_from_slice(&s[k].wrapping_add(i[k]).to_le_bytes());
    }
    out
}
fn xor(key: &[u8; 32], n: &[u8; 12], data: &mut [u8]) {
    for (i, c) in data.chunks_mut(64).enumerate() {
        let b = block(key, 1 + i as u32, n);
        for (x, y) in c.iter_mut().zip(b.iter()) {
            *x ^= y;
        }
    }
}
/// Poly1305 over 16-byte little-endian blocks, schoolbook arithmetic on 26-bit limbs.
fn poly1305(key: &[u8; 32], msg: &[u8]) -> [u8; 16] {
    let r0 = (le32(&key[0..])) & 0x3ffffff;
    let r1 = (le32(&key[3..]) >> 2) & 0x3ffff03;
    let r2 = (le32(&key[6..]) >> 4) & 0x3ffc0ff;
    let r3 = (le32(&key[9..]) >> 6) & 0x3f03fff;
    let r4 = (le32(&key[12..]) >> 8) & 0x00fffff;
    let r = [r0 as u64, r1 as u64, r2 as u64, r3 as u64, r4 as u64];
    let mut h = [0u64; 5];
    for c in msg.chunks(16) {
        let mut b = [0u8; 17];
        b[..c.len()].copy_from_slice(c);
        b[c.len()] = 1;
        h[0] += (le32(&b[0..]) & 0x3ffffff) as u64;
        h[1] += ((le32(&b[3..]) >> 2) & 0x3ffffff) as u64;
        h[2] += ((le32(&b[6..]) >> 4) & 0x3ffffff) as u64;
        h[3] += ((le32(&b[9..]) >> 6) & 0x3ffffff) as u64;
        h[4] += (le32(&b[12..]) >> 8) as u64 | ((b[16] as u64) << 24);
        let mut d = [0u64; 5];
        for i in 0..5 {
            for j in 0..5 {
                let m = if i + j < 5 { r[j] } else { r[j] * 5 };
                d[(i + j) % 5] += h[i] * m;
            }
        }
        let mut c = 0;
        for i in 0..5 {
            d[i] += c;
            c = d[i] >> 26;
            h[i] = d[i] & 0x3ffffff;
        }
        h[0] += c * 5;
        let c = h[0] >> 26;
        h[0] &= 0x3ffffff;
        h[1] += c;
    }
    let mut c = h[1] >> 26;
    h[1] &= 0x3ffffff;
    for i in 2..5 {
        h[i] += c;
        c = h[i] >> 26;
        h[i] &= 0x3ffffff;
    }
    h[0] += c * 5;
    c = h[0] >> 26;
    h[0] &= 0x3ffffff;
    h[1] += c;
    let mut g = [0u64; 5];
    c = 5;
    for i in 0..5 {
        g[i] = h[i] + c;
        c = g[i] >> 26;
        g[i] &= 0x3ffffff;
    }
    let f = if c > 0 { g } else { h };
    let v: u128 = f[0] as u128
        | (f[1] as u128) << 26
        | (f[2] as u128) << 52
        | (f[3] as u128) << 78
        | (f[4] as u128) << 104;
    let mut s = [0u8; 16];
    s.copy_from_slice(&key[16..]);
    v.wrapping_add(u128::from_le_bytes(s)).to_le_bytes()
}
impl XChaCha20Poly1305 {
    fn setup(&self, nonce: &XNonce) -> ([u8; 32], [u8; 12]) {
        let sub = hchacha(&self.key, &nonce[..16]);
        let mut n = [0u8; 12];
        n[4..].copy_from_slice(&nonce[16..]);
        (sub, n)
    }
    fn tag(sub: &[u8; 32], n: &[u8; 12], aad: &[u8], ct: &[u8]) -> [u8; 16] {
        let b = block(sub, 0, n);
        let mut k = [0u8; 32];
        k.copy_from_slice(&b[..32]);
        let mut m = Vec::new();
        m.extend_from_slice(aad);
        m.resize(m.len().div_ceil(16) * 16, 0);
        m.extend_from_slice(ct);
        m.resize(m.len().div_ceil(16) * 16, 0);
        m.extend_from_slice(&(aad.len() as u64).to_le_bytes());
        m.extend_from_slice(&(ct.len() as u64).to_le_bytes());
        poly1305(&k, &m)
    }
}
impl aead::AeadCore for XChaCha20Poly1305 {
    type NonceSize = U24;
}
impl aead::Aead for XChaCha20Poly1305 {
    fn encrypt<'m, 'a>(
        &self,
        nonce: &XNonce,
        p: impl Into<aead::Payload<'m, 'a>>,
    ) -> Result<Vec<u8>, aead::Error> {
        let p = p.into();
        let (sub, n) = self.setup(nonce);
        let mut out = p.msg.to_vec();
        xor(&sub, &n, &mut out);
        let t = Self::tag(&sub, &n, p.aad, &out);
        out.extend_from_slice(&t);
        Ok(out)
    }
    fn decrypt<'m, 'a>(
        &self,
        nonce: &XNonce,
        p: impl Into<aead::Payload<'m, 'a>>,
    ) -> Result<Vec<u8>, aead::Error> {
        let p = p.into();
        if p.msg.len() < 16 {
            return Err(aead::Error);
        }
        let (ct, tag) = p.msg.split_at(p.msg.len() - 16);
        let (sub, n) = self.setup(nonce);
        if Self::tag(&sub, &n, p.aad, ct) != tag {
            return Err(aead::Error);
        }
        let mut out = ct.to_vec();
        xor(&sub, &n, &mut out);
        Ok(out)
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn poly1305_rfc8439() {
        let k: Vec<u8> = (0..32)
            .map(|i| {
                u8::from_str_radix(
                    &"85d6be7857556d337f4452fe42d506a80103808afb0db2fd4abff6af4149f51b"
                        [2 * i..2 * i + 2],
                    16,
                )
                .unwrap()
            })
            .collect();
        let t = poly1305(k[..].try_into().unwrap(), b"Cryptographic Forum Research Group");
        assert_eq!(t, [0xa8, 0x06, 0x1d, 0xc1, 0x30, 0x51, 0x36, 0xc6, 0xc2, 0x2b, 0x8b, 0xaf, 0x0c, 0x01, 0x27, 0xa9]);
    }
    #[test]
    fn chacha_block_rfc8439() {
        let k: [u8; 32] = core::array::from_fn(|i| i as u8);
        let b = block(&k, 1, &[0, 0, 0, 9, 0, 0, 0, 0x4a, 0, 0, 0, 0]);
        assert_eq!(b[..8], [0x10, 0xf1, 0xe7, 0xe4, 0xd1, 0x3b, 0x59, 0x15]);
    }
}
