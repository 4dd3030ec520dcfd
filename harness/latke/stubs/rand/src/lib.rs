//! Contract stub: thread_rng yields arbitrary bytes.
pub use rand_core::{self, CryptoRng, RngCore, SeedableRng};
use rand_core::Error;
#[derive(Clone, Debug, Default)]
pub struct ThreadRng(());
impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 { u32::from_le_bytes(vfsys::arr("thread-rng")) }
    fn next_u64(&mut self) -> u64 { u64::from_le_bytes(vfsys::arr("thread-rng")) }
    fn fill_bytes(&mut self, d: &mut [u8]) { vfsys::any(d, "thread-rng") }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> { vfsys::any(d, "thread-rng"); Ok(()) }
}
impl CryptoRng for ThreadRng {}
pub fn thread_rng() -> ThreadRng { ThreadRng(()) }
pub trait Fill { fn fill_from<R: RngCore + ?Sized>(&mut self, r: &mut R); }
impl<const N: usize> Fill for [u8; N] { fn fill_from<R: RngCore + ?Sized>(&mut self, r: &mut R) { r.fill_bytes(self) } }
impl Fill for [u8] { fn fill_from<R: RngCore + ?Sized>(&mut self, r: &mut R) { r.fill_bytes(self) } }
pub trait Standard0: Sized { fn sample0<R: RngCore + ?Sized>(r: &mut R) -> Self; }
macro_rules! ints { ($($t:ty),*) => { $(impl Standard0 for $t { fn sample0<R: RngCore + ?Sized>(r: &mut R) -> Self { let mut b = [0u8; core::mem::size_of::<$t>()]; r.fill_bytes(&mut b); <$t>::from_le_bytes(b) } })* } }
ints!(u8, u16, u32, u64, u128, i8, i16, i32, i64, usize);
impl<const N: usize> Standard0 for [u8; N] { fn sample0<R: RngCore + ?Sized>(r: &mut R) -> Self { let mut b = [0u8; N]; r.fill_bytes(&mut b); b } }
pub trait Rng: RngCore {
    fn gen<T: Standard0>(&mut self) -> T { T::sample0(self) }
    fn fill<T: Fill + ?Sized>(&mut self, d: &mut T) { d.fill_from(self) }
}
impl<R: RngCore + ?Sized> Rng for R {}
pub mod rngs { pub use super::ThreadRng; pub use rand_core::OsRng; }
pub mod prelude { pub use super::{thread_rng, CryptoRng, Rng, RngCore, SeedableRng, ThreadRng}; }
