//! Contract stub: DH(a, pk(b)) = DH(b, pk(a)), otherwise unknown functions.
use rand_core::{CryptoRng, RngCore};
#[derive(Copy, Clone, Debug, Eq, PartialEq, Hash)]
pub struct PublicKey([u8; 32]);
impl From<[u8; 32]> for PublicKey { fn from(b: [u8; 32]) -> Self { PublicKey(b) } }
impl PublicKey { pub fn to_bytes(&self) -> [u8; 32] { self.0 } pub fn as_bytes(&self) -> &[u8; 32] { &self.0 } }
impl AsRef<[u8]> for PublicKey { fn as_ref(&self) -> &[u8] { &self.0 } }
macro_rules! secret { ($t:ident $(, $c:ident)*) => {
#[derive($($c),*)]
pub struct $t([u8; 32]);
impl $t {
    pub fn random_from_rng<T: RngCore + CryptoRng>(mut r: T) -> Self { let mut b = [0u8; 32]; r.fill_bytes(&mut b); $t(b) }
    pub fn new<T: RngCore + CryptoRng>(r: T) -> Self { Self::random_from_rng(r) }
}
impl<'a> From<&'a $t> for PublicKey { fn from(s: &'a $t) -> PublicKey { let mut o = [0u8; 32]; vfsys::uf("x25519-pk", &s.0, &mut o); PublicKey(o) } }
} }
secret!(EphemeralSecret);
secret!(ReusableSecret, Clone);
secret!(StaticSecret, Clone);
impl EphemeralSecret { pub fn diffie_hellman(self, p: &PublicKey) -> SharedSecret { SharedSecret(vfsys::dh(&self.0, &p.0)) } }
impl ReusableSecret { pub fn diffie_hellman(&self, p: &PublicKey) -> SharedSecret { SharedSecret(vfsys::dh(&self.0, &p.0)) } }
impl StaticSecret { pub fn diffie_hellman(&self, p: &PublicKey) -> SharedSecret { SharedSecret(vfsys::dh(&self.0, &p.0)) } pub fn to_bytes(&self) -> [u8; 32] { self.0 } pub fn as_bytes(&self) -> &[u8; 32] { &self.0 } }
impl From<[u8; 32]> for StaticSecret { fn from(b: [u8; 32]) -> Self { StaticSecret(b) } }
pub struct SharedSecret([u8; 32]);
impl SharedSecret { pub fn to_bytes(&self) -> [u8; 32] { self.0 } pub fn as_bytes(&self) -> &[u8; 32] { &self.0 } pub fn was_contributory(&self) -> bool { vfsys::pred("x25519-contributory", &self.0) } }
impl AsRef<[u8]> for SharedSecret { fn as_ref(&self) -> &[u8] { &self.0 } }
