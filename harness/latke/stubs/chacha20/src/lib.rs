//! Contract stub: block i of the keystream is an unknown function of (key, nonce, i).
pub use cipher;
use cipher::{consts::{U12, U32, U24}, inout::InOutBuf, IvSizeUser, KeyIvInit, KeySizeUser, StreamCipher, StreamCipherError, Iv};
pub type Key = cipher::generic_array::GenericArray<u8, U32>;
pub type Nonce = cipher::generic_array::GenericArray<u8, U12>;
pub type XNonce = cipher::generic_array::GenericArray<u8, U24>;
macro_rules! imp { ($t:ident, $name:expr, $nl:ty, $n:expr) => {
pub struct $t { key: [u8; 32], nonce: [u8; $n], pos: u64, block: [u8; 64] }
impl KeySizeUser for $t { type KeySize = U32; }
impl IvSizeUser for $t { type IvSize = $nl; }
impl KeyIvInit for $t {
    fn new(key: &cipher::Key<Self>, iv: &Iv<Self>) -> Self {
        let mut s = $t { key: [0; 32], nonce: [0; $n], pos: 0, block: [0; 64] };
        s.key.copy_from_slice(key); s.nonce.copy_from_slice(iv); s
    }
}
impl $t { fn byte(&mut self) -> u8 {
    if self.pos % 64 == 0 {
        let mut i = [0u8; 32 + $n + 8];
        i[..32].copy_from_slice(&self.key);
        i[32..32 + $n].copy_from_slice(&self.nonce);
        i[32 + $n..].copy_from_slice(&(self.pos / 64).to_le_bytes());
        vfsys::uf($name, &i, &mut self.block);
    }
    let b = self.block[(self.pos % 64) as usize];
    self.pos += 1;
    b
} }
impl StreamCipher for $t {
    fn try_apply_keystream_inout(&mut self, buf: InOutBuf<'_, '_, u8>) -> Result<(), StreamCipherError> {
        for mut x in buf { let v = *x.get_in() ^ self.byte(); *x.get_out() = v; }
        Ok(())
    }
}
} }
imp!(ChaCha20, "chacha20", U12, 12);
imp!(ChaCha12, "chacha12", U12, 12);
imp!(ChaCha8, "chacha8", U12, 12);
imp!(XChaCha20, "xchacha20", U24, 24);
