// The random source handed to the library: a seam the plan controls.
use ark_std::rand::{CryptoRng, Error, RngCore};
use sim::Prng;

#[derive(Clone)]
pub struct SimRng {
    r: Prng,
    pub drawn: u64,
    /// Panic once this many words were drawn (a failing entropy device).
    pub fail_at: u64,
    /// Constant output instead of a stream.
    pub stuck: Option<u64>,
    /// One word of the stream, changed by a mask.
    pub flip: Option<(u64, u64)>,
}

#[allow(dead_code)]
impl SimRng {
    pub fn new(seed: u64) -> Self {
        Self { r: Prng::new(sim::mix(&[seed, 0x726e67])), drawn: 0, fail_at: u64::MAX, stuck: None, flip: None }
    }
    pub fn failing(seed: u64, at: u64) -> Self {
        Self { fail_at: at, ..Self::new(seed) }
    }
    pub fn stuck(v: u64) -> Self {
        Self { stuck: Some(v), ..Self::new(0) }
    }
    /// How many bytes of the stream matter to what is made from it.
    pub fn bytes_used<T: PartialEq>(&self, r: &mut Prng, make: impl Fn(&mut Self) -> T) -> usize {
        let mut s = self.clone();
        let want = make(&mut s);
        // the last words, as earlier ones may have been drawn and rejected
        let words = (s.drawn - self.drawn).min(12);
        let at = (0..words * 8).filter(|i| {
            let mut t = self.clone();
            t.flip = Some((s.drawn - words + i / 8, 1 << (i % 8 * 8 + r.below(8))));
            make(&mut t) != want
        });
        at.count()
    }
}

impl RngCore for SimRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        if self.drawn >= self.fail_at {
            panic!("simulated entropy failure");
        }
        let w = match self.stuck {
            Some(v) => v,
            None => self.r.next(),
        };
        let mask = self.flip.filter(|f| f.0 == self.drawn).map_or(0, |f| f.1);
        self.drawn += 1;
        w ^ mask
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let w = self.next_u64().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for SimRng {}
