//! X25519 key exchange with the `crypto_kx` 0.2 interface; the session keys are
//! derived with SHA-512 instead of BLAKE2b.
use curve25519_dalek::{constants::X25519_BASEPOINT, montgomery::MontgomeryPoint};
use rand_core::{CryptoRng, RngCore};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use sha2::{Digest, Sha512};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct PublicKey([u8; 32]);
#[derive(Clone)]
pub struct SecretKey([u8; 32]);
pub struct SessionKey([u8; 32]);
pub struct SessionKeys {
    pub rx: SessionKey,
    pub tx: SessionKey,
}
#[derive(Clone)]
pub struct Keypair {
    public: PublicKey,
    secret: SecretKey,
}
impl PublicKey {
    pub const BYTES: usize = 32;
}
impl From<[u8; 32]> for PublicKey {
    fn from(b: [u8; 32]) -> Self {
        Self(b)
    }
}
impl AsRef<[u8; 32]> for PublicKey {
    fn as_ref(&self) -> &[u8; 32] {
        &self.0
    }
}
impl AsRef<[u8; 32]> for SessionKey {
    fn as_ref(&self) -> &[u8; 32] {
        &self.0
    }
}
impl SecretKey {
    pub const BYTES: usize = 32;
    pub fn generate(rng: &mut (impl CryptoRng + RngCore)) -> Self {
        let mut b = [0; 32];
        rng.fill_bytes(&mut b);
        Self(b)
    }
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
    pub fn public_key(&self) -> PublicKey {
        PublicKey(X25519_BASEPOINT.mul_clamped(self.0).to_bytes())
    }
}
impl From<[u8; 32]> for SecretKey {
    fn from(b: [u8; 32]) -> Self {
        Self(b)
    }
}
macro_rules! serde_bytes {
    ($t:ident) => {
        impl Serialize for $t {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                self.0.serialize(s)
            }
        }
        impl<'de> Deserialize<'de> for $t {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                <[u8; 32]>::deserialize(d).map($t)
            }
        }
    };
}
serde_bytes!(PublicKey);
serde_bytes!(SecretKey);
impl From<SecretKey> for Keypair {
    fn from(secret: SecretKey) -> Self {
        Keypair { public: secret.public_key(), secret }
    }
}
impl Keypair {
    pub fn generate(rng: &mut (impl CryptoRng + RngCore)) -> Self {
        SecretKey::generate(rng).into()
    }
    pub fn public(&self) -> &PublicKey {
        &self.public
    }
    pub fn secret(&self) -> &SecretKey {
        &self.secret
    }
    pub fn split(self) -> (PublicKey, SecretKey) {
        (self.public, self.secret)
    }
    fn derive(&self, peer: &PublicKey, client: &PublicKey, server: &PublicKey) -> ([u8; 32], [u8; 32]) {
        let q = MontgomeryPoint(peer.0).mul_clamped(self.secret.0);
        let mut h = Sha512::new();
        h.update(q.0);
        h.update(client.0);
        h.update(server.0);
        let o = h.finalize();
        (o[..32].try_into().unwrap(), o[32..].try_into().unwrap())
    }
    pub fn session_keys_to(&self, server: &PublicKey) -> SessionKeys {
        let (a, b) = self.derive(server, &self.public, server);
        SessionKeys { rx: SessionKey(a), tx: SessionKey(b) }
    }
    pub fn session_keys_from(&self, client: &PublicKey) -> SessionKeys {
        let (a, b) = self.derive(client, client, &self.public);
        SessionKeys { rx: SessionKey(b), tx: SessionKey(a) }
    }
}
