//! Contract stub: block i of the output is an unknown function of (seed, i).
pub use rand_core;
use rand_core::{CryptoRng, Error, RngCore, SeedableRng};
macro_rules! imp { ($t:ident, $name:expr) => {
#[derive(Clone, Debug)]
pub struct $t { seed: [u8; 32], pos: u64, block: [u8; 64] }
impl SeedableRng for $t { type Seed = [u8; 32]; fn from_seed(seed: [u8; 32]) -> Self { $t { seed, pos: 0, block: [0; 64] } } }
impl RngCore for $t {
    fn next_u32(&mut self) -> u32 { let mut b = [0u8; 4]; self.fill_bytes(&mut b); u32::from_le_bytes(b) }
    fn next_u64(&mut self) -> u64 { let mut b = [0u8; 8]; self.fill_bytes(&mut b); u64::from_le_bytes(b) }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d.iter_mut() {
            if self.pos % 64 == 0 {
                let mut i = [0u8; 40];
                i[..32].copy_from_slice(&self.seed);
                i[32..].copy_from_slice(&(self.pos / 64).to_le_bytes());
                vfsys::uf($name, &i, &mut self.block);
            }
            *x = self.block[(self.pos % 64) as usize];
            self.pos += 1;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> { self.fill_bytes(d); Ok(()) }
}
impl CryptoRng for $t {}
} }
imp!(ChaCha8Rng, "rng-chacha8");
imp!(ChaCha12Rng, "rng-chacha12");
imp!(ChaCha20Rng, "rng-chacha20");
pub type ChaChaRng = ChaCha20Rng;
