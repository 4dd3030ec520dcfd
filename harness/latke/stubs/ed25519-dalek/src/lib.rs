//! Contract stub: key derivation and signing are unknown functions; verification
//! is an unknown predicate that holds for honestly made signatures.
pub use ed25519;
pub use ed25519::signature::{Signer, Verifier};
pub use ed25519::Signature;
pub type SignatureError = ed25519::signature::Error;
pub const PUBLIC_KEY_LENGTH: usize = 32;
pub const SECRET_KEY_LENGTH: usize = 32;
pub const KEYPAIR_LENGTH: usize = 64;
pub const SIGNATURE_LENGTH: usize = Signature::BYTE_SIZE;
pub type SecretKey = [u8; 32];
#[derive(Copy, Clone, Eq)]
pub struct VerifyingKey([u8; 32]);
impl core::fmt::Debug for VerifyingKey { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("VerifyingKey") } }
impl AsRef<[u8]> for VerifyingKey { fn as_ref(&self) -> &[u8] { &self.0 } }
impl core::hash::Hash for VerifyingKey { fn hash<H: core::hash::Hasher>(&self, s: &mut H) { self.0.hash(s) } }
impl PartialEq for VerifyingKey { fn eq(&self, o: &VerifyingKey) -> bool { vfsys::same(&self.0, &o.0) } }
impl From<&SigningKey> for VerifyingKey { fn from(s: &SigningKey) -> Self { s.pk } }
impl VerifyingKey {
    pub fn to_bytes(&self) -> [u8; 32] { self.0 }
    pub fn as_bytes(&self) -> &[u8; 32] { &self.0 }
    pub fn from_bytes(b: &[u8; 32]) -> Result<VerifyingKey, SignatureError> { if vfsys::pred("edpk-valid", b) { Ok(VerifyingKey(*b)) } else { Err(SignatureError::new()) } }
    pub fn is_weak(&self) -> bool { vfsys::pred("edpk-weak", &self.0) }
    pub fn verify_strict(&self, m: &[u8], s: &Signature) -> Result<(), SignatureError> { self.verify(m, s) }
}
impl Verifier<Signature> for VerifyingKey {
    fn verify(&self, m: &[u8], s: &Signature) -> Result<(), SignatureError> { if vfsys::sigver("ed25519", &self.0, m, &s.to_bytes()) { Ok(()) } else { Err(SignatureError::new()) } }
}
impl TryFrom<&[u8]> for VerifyingKey { type Error = SignatureError; fn try_from(b: &[u8]) -> Result<Self, SignatureError> { let b: [u8; 32] = b.try_into().map_err(|_| SignatureError::new())?; Self::from_bytes(&b) } }
#[derive(Clone)]
pub struct SigningKey { sk: [u8; 32], pk: VerifyingKey }
impl SigningKey {
    pub fn from_bytes(sk: &SecretKey) -> Self { let mut p = [0u8; 32]; vfsys::uf("ed25519-pk", sk, &mut p); SigningKey { sk: *sk, pk: VerifyingKey(p) } }
    pub fn to_bytes(&self) -> SecretKey { self.sk }
    pub fn as_bytes(&self) -> &SecretKey { &self.sk }
    pub fn verifying_key(&self) -> VerifyingKey { self.pk }
    #[cfg(feature = "rand_core")]
    pub fn generate<R: rand_core::CryptoRngCore + ?Sized>(r: &mut R) -> SigningKey { let mut s = [0u8; 32]; r.fill_bytes(&mut s); Self::from_bytes(&s) }
    pub fn verify(&self, m: &[u8], s: &Signature) -> Result<(), SignatureError> { self.pk.verify(m, s) }
}
impl AsRef<VerifyingKey> for SigningKey { fn as_ref(&self) -> &VerifyingKey { &self.pk } }
impl Signer<Signature> for SigningKey {
    fn try_sign(&self, m: &[u8]) -> Result<Signature, SignatureError> {
        let mut i = Vec::with_capacity(32 + m.len());
        i.extend_from_slice(&self.sk);
        i.extend_from_slice(m);
        let mut o = [0u8; 64];
        vfsys::uf("ed25519-sig", &i, &mut o);
        Ok(Signature::from_bytes(&o))
    }
}
