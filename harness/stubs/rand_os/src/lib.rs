//! Contract of the system randomness source: any bytes.  Kani only.
pub mod rand_core {
    #[derive(Debug)] pub struct Error;
    pub trait RngCore { fn next_u32(&mut self) -> u32; fn next_u64(&mut self) -> u64; fn fill_bytes(&mut self, d: &mut [u8]); fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error>; }
    pub trait CryptoRng {}
}
pub struct OsRng;
impl OsRng { pub fn new() -> Result<OsRng, rand_core::Error> { Ok(OsRng) } }
impl rand_core::CryptoRng for OsRng {}
#[cfg(kani)] fn fill(d: &mut [u8]) {
    // 32-byte draws are the only ones the crate makes
    let b: [u8; 32] = kani::any();
    assert!(d.len() <= 32, "randomness draw size");
    let n = d.len();
    d.copy_from_slice(&b[..n]);
}
#[cfg(not(kani))] fn fill(_d: &mut [u8]) { unimplemented!() }
impl rand_core::RngCore for OsRng {
    fn next_u32(&mut self) -> u32 { let mut b = [0; 4]; fill(&mut b); u32::from_le_bytes(b) }
    fn next_u64(&mut self) -> u64 { let mut b = [0; 8]; fill(&mut b); u64::from_le_bytes(b) }
    fn fill_bytes(&mut self, d: &mut [u8]) { fill(d) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { fill(d); Ok(()) }
}
