//! Contract stub of the IND-CPA KEM of /repo/saber-rust (byte-array newtypes are
//! the repository's own newtype.rs): the public key is a function of the secret,
//! encapsulation is a function of (public key, coins), decapsulation of an honest
//! ciphertext returns the encapsulated secret, of any other string is unknown.
#[macro_use]
mod newtype;
#[derive(Clone, Debug)]
pub enum Error {
    BadLength { name: &'static str, actual: usize, expected: usize },
    #[doc(hidden)]
    __Nonexhaustive,
}
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter) -> Result<(), std::fmt::Error> { f.write_str("saber error") } }
impl std::error::Error for Error {}
macro_rules! params { ($m:ident, $l:expr, $ct:expr) => {
pub mod $m {
    pub const K: usize = $l;
    pub const INDCPA_PUBLICKEYBYTES: usize = $l * 320 + 32;
    pub const BYTES_CCA_DEC: usize = $ct;
    pub const KEYBYTES: usize = 32;
    __byte_array_newtype!(pub INDCPAPublicKeyBytes, INDCPA_PUBLICKEYBYTES, [u8; INDCPA_PUBLICKEYBYTES]);
    __byte_array_newtype!(pub Ciphertext, BYTES_CCA_DEC, [u8; BYTES_CCA_DEC]);
    __byte_array_newtype!(pub SharedSecret, KEYBYTES, [u8; KEYBYTES]);
    #[derive(Clone)]
    pub struct INDCPAPublicKey([u8; INDCPA_PUBLICKEYBYTES]);
    #[derive(Clone)]
    pub struct INDCPASecretKey([u8; 32]);
    impl INDCPAPublicKey {
        pub fn to_bytes(&self) -> INDCPAPublicKeyBytes { self.0.into() }
        pub fn from_bytes(b: &[u8]) -> INDCPAPublicKey { assert!(b.len() == INDCPA_PUBLICKEYBYTES); let mut r = [0u8; INDCPA_PUBLICKEYBYTES]; r.copy_from_slice(b); INDCPAPublicKey(r) }
    }
    impl From<&INDCPAPublicKeyBytes> for INDCPAPublicKey { fn from(b: &INDCPAPublicKeyBytes) -> Self { INDCPAPublicKey::from_bytes(b.as_ref()) } }
    pub fn keygen_ind_cpa() -> (INDCPAPublicKey, INDCPASecretKey) {
        let s: [u8; 32] = vfsys::arr("kem-keygen");
        let mut p = [0u8; INDCPA_PUBLICKEYBYTES];
        vfsys::uf("kem-pk", &s, &mut p);
        (INDCPAPublicKey(p), INDCPASecretKey(s))
    }
    pub fn encapsulate_ind_cpa(pk: &INDCPAPublicKey) -> (SharedSecret, Ciphertext) {
        let r: [u8; 32] = vfsys::arr("kem-coins");
        let mut i = [0u8; INDCPA_PUBLICKEYBYTES + 32];
        i[..32].copy_from_slice(&r);
        i[32..].copy_from_slice(&pk.0);
        let mut ct = [0u8; BYTES_CCA_DEC];
        let mut ss = [0u8; 32];
        vfsys::uf("kem-ct", &i, &mut ct);
        vfsys::uf("kem-ss", &i, &mut ss);
        (ss.into(), ct.into())
    }
    pub fn decapsulate_ind_cpa(ct: &Ciphertext, sk: &INDCPASecretKey) -> SharedSecret {
        let mut ss = [0u8; 32];
        vfsys::kemdec(ct.as_ref(), &sk.0, &mut ss);
        ss.into()
    }
}
} }
params!(lightsaber, 2, 736);
params!(saber, 3, 1088);
params!(firesaber, 4, 1472);
