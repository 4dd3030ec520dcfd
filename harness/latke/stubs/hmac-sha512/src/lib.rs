//! Contract stub: SHA-512 is an unknown function of the message.
extern crate alloc;
pub const BLOCKBYTES: usize = 128;
pub const BYTES: usize = 64;
#[derive(Clone, Default)]
pub struct Hash(alloc::vec::Vec<u8>);
impl Hash {
    pub fn new() -> Self { Hash(alloc::vec::Vec::new()) }
    pub fn update<T: AsRef<[u8]>>(&mut self, x: T) { self.0.extend_from_slice(x.as_ref()) }
    pub fn finalize(self) -> [u8; 64] { let mut o = [0u8; 64]; vfsys::uf("sha512", &self.0, &mut o); o }
    pub fn hash<T: AsRef<[u8]>>(x: T) -> [u8; 64] { let mut h = Hash::new(); h.update(x); h.finalize() }
}
