//! Stand-in for `merlin::Transcript`: same interface, a Keccak-256 hash chain
//! instead of STROBE.  Every message and challenge is bound to its label and length.
use sha3::{Digest, Keccak256};

#[derive(Clone)]
pub struct Transcript {
    st: [u8; 32],
}
impl Transcript {
    pub fn new(label: &'static [u8]) -> Self {
        let mut t = Self { st: [0; 32] };
        t.append_message(b"dom-sep", label);
        t
    }
    fn mix(&mut self, kind: u8, label: &[u8], msg: &[u8]) {
        let mut h = Keccak256::new();
        h.update(self.st);
        h.update([kind]);
        h.update((label.len() as u64).to_le_bytes());
        h.update(label);
        h.update((msg.len() as u64).to_le_bytes());
        h.update(msg);
        self.st.copy_from_slice(&h.finalize());
    }
    pub fn append_message(&mut self, label: &'static [u8], message: &[u8]) {
        self.mix(0, label, message)
    }
    pub fn append_u64(&mut self, label: &'static [u8], x: u64) {
        self.append_message(label, &x.to_le_bytes())
    }
    pub fn challenge_bytes(&mut self, label: &'static [u8], dest: &mut [u8]) {
        self.mix(1, label, &(dest.len() as u64).to_le_bytes());
        for (i, chunk) in dest.chunks_mut(32).enumerate() {
            let mut h = Keccak256::new();
            h.update(self.st);
            h.update([2]);
            h.update((i as u64).to_le_bytes());
            let o = h.finalize();
            let n = chunk.len();
            chunk.copy_from_slice(&o[..n]);
        }
        self.mix(3, label, &[]);
    }
}
