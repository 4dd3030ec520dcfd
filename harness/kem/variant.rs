// Child module of lightsaber.rs / saber.rs / firesaber.rs.
#![allow(dead_code, unused_imports, static_mut_refs)]
use super::*;
use crate::generic::{self, SaberImpl};
use sha3::{eq, ghost};
type I = super::VfImpl;
const PKB: usize = I::PUBLIC_KEY_BYTES;
const CTB: usize = I::BYTES_CCA_DEC;
const MAXENC: usize = 4;

// ---- contract of the IND-CPA layer: encryption is an unknown deterministic
// function of (message, coins, public key); decryption of a ciphertext that
// encryption produced gives back the message, anything else gives any message.
#[derive(Clone, Copy)]
struct Enc { m: [u8; 32], r: [u8; 32], seed: [u8; 32], c0: u16, ct: [u8; CTB] }
static mut ENC: [Enc; MAXENC] = [Enc { m: [0; 32], r: [0; 32], seed: [0; 32], c0: 0, ct: [0; CTB] }; MAXENC];
static mut NENC: usize = 0;
static mut DEC_CT: [u8; CTB] = [0; CTB];
static mut DEC_OUT: [u8; 32] = [0; 32];
static mut NDEC: usize = 0;
fn pkid(pk: &INDCPAPublicKey) -> ([u8; 32], u16) {
    (*generic::INDCPAPublicKey::<I>::seed(pk), generic::Vector::<I>::polys(generic::INDCPAPublicKey::<I>::vec(pk))[0].coeffs[0].declassify())
}
fn enc_fn(m: &[u8], r: &[u8], pk: &INDCPAPublicKey) -> [u8; CTB] {
    assert!(m.len() == 32 && r.len() == 32, "IND-CPA encryption: message and coins are 32 bytes");
    let (seed, c0) = pkid(pk);
    unsafe {
        let n = NENC;
        assert!(n < MAXENC, "ghost table capacity");
        let mut e = Enc { m: [0; 32], r: [0; 32], seed, c0, ct: kani::any() };
        e.m.copy_from_slice(m);
        e.r.copy_from_slice(r);
        let mut k = 0;
        while k < n {
            let o = &ENC[k];
            if eq(&o.m, &e.m) && eq(&o.r, &e.r) && eq(&o.seed, &e.seed) && o.c0 == e.c0 { e.ct = o.ct; }
            k += 1;
        }
        ENC[n] = e;
        NENC = n + 1;
        e.ct
    }
}
pub(crate) fn enc_stub<J: SaberImpl>(m: &[u8], r: &[u8], pk: &J::INDCPAPublicKey) -> J::Ciphertext {
    let pk: &INDCPAPublicKey = unsafe { &*(pk as *const J::INDCPAPublicKey as *const INDCPAPublicKey) };
    let mut c = J::Ciphertext::default();
    c.as_mut().copy_from_slice(&enc_fn(m, r, pk));
    c
}
pub(crate) fn dec_stub<J: SaberImpl>(_sk: &J::INDCPASecretKey, ct: &J::Ciphertext) -> [u8; 32] {
    unsafe {
        let mut out: [u8; 32] = kani::any();
        let mut k = 0;
        while k < NENC { if eq(&ENC[k].ct, ct.as_ref()) { out = ENC[k].m; } k += 1; }
        DEC_CT.copy_from_slice(ct.as_ref());
        DEC_OUT = out;
        NDEC += 1;
        out
    }
}
fn any_pk() -> INDCPAPublicKey {
    let mut v = Vector::default();
    for p in generic::Vector::<I>::polys_mut(&mut v).iter_mut() { p.coeffs[0] = U16::from(kani::any::<u16>()); p.coeffs[255] = U16::from(kani::any::<u16>()); }
    generic::INDCPAPublicKey::<I>::new(v, kani::any())
}
pub(crate) fn keypair_stub<J: SaberImpl>() -> (J::INDCPAPublicKey, J::INDCPASecretKey) {
    let p = any_pk();
    let s = <INDCPASecretKey as generic::INDCPASecretKey<I>>::new(Vector::default());
    unsafe {
        let r = (core::ptr::read(&p as *const INDCPAPublicKey as *const J::INDCPAPublicKey), core::ptr::read(&s as *const INDCPASecretKey as *const J::INDCPASecretKey));
        core::mem::forget((p, s));
        r
    }
}
// ---- contract of bytes_eq_mask, proved by eq_mask below
pub(crate) fn eq_mask_stub(a: &[u8], b: &[u8]) -> U8 {
    assert!(a.len() == b.len(), "byte strings of one length are compared");
    U8::from(if eq(a, b) { 0xffu8 } else { 0 })
}
macro_rules! kem { ($(#[$m:meta])* fn $name:ident() $body:block) => {
    $(#[$m])*
    #[kani::proof]
    #[kani::unwind(1600)]
    #[kani::stub(std::ptr::NonNull::add, crate::vf::nn_add)]
    #[kani::stub(<*mut u8>::add, crate::vf::mp_add)]
    #[kani::stub(<*const u8>::add, crate::vf::cp_add)]
    #[kani::stub(crate::generic::indcpa_kem_enc, enc_stub)]
    #[kani::stub(crate::generic::indcpa_kem_dec, dec_stub)]
    #[kani::stub(crate::generic::indcpa_kem_keypair, keypair_stub)]
    #[kani::stub(crate::poly::Poly::read_bytes_10bit, crate::vf::abs10_read)]
    fn $name() $body
} }
fn cat2(a: &[u8], b: &[u8]) -> [u8; 64] { let mut o = [0; 64]; o[..32].copy_from_slice(a); o[32..].copy_from_slice(b); o }

// key pair, encapsulation and decapsulation agree
kem! { #[kani::stub(crate::generic::bytes_eq_mask, eq_mask_stub)] fn agree() {
    let sk = keygen();
    let (ss, ct) = encapsulate(sk.public_key());
    let ss2 = decapsulate(&ct, &sk);
    assert!(ss.as_slice() == ss2.as_slice(), "decapsulation returns the encapsulated secret");
    kani::cover!(ss.as_slice()[0] != 0);
} }
// a generated key stores the hash of its own public key bytes (with encaps_spec
// and decaps_spec this gives agreement)
kem! { fn keygen_spec() {
    let sk = keygen();
    let h = ghost(1, sk.public_key().to_bytes().as_slice());
    assert!(eq(generic::SecretKey::<I>::hash_pk(&sk), &h[..32]), "the secret key stores SHA3-256 of its public key");
    kani::cover!(h[0] != 0);
} }
// encapsulation is the documented function of the drawn message
kem! { fn encaps_spec() {
    let pk = <PublicKey as generic::PublicKey<I>>::new(any_pk());
    let (ss, ct) = encapsulate(&pk);
    assert!(unsafe { NENC } == 1, "one IND-CPA encryption");
    let e = unsafe { ENC[0] };
    let h = ghost(1, pk.to_bytes().as_slice());
    let kr = ghost(2, &cat2(&h[..32], &e.m));
    assert!(e.r[..] == kr[..32], "coins are the first half of SHA3-512(SHA3-256(pk), m)");
    assert!((e.seed, e.c0) == pkid(&pk.pk_cpa), "encrypted under the given key");
    assert!(eq(ct.as_slice(), &e.ct), "the ciphertext is the IND-CPA ciphertext");
    let hc = ghost(1, &e.ct);
    let want = ghost(1, &cat2(&hc[..32], &kr[32..]));
    assert!(ss.as_slice() == &want[..32], "secret is SHA3-256(SHA3-256(ct), second half)");
    kani::cover!(ss.as_slice()[0] != 0);
} }
// for every pair of byte strings of the ciphertext length
#[kani::proof]
#[kani::unwind(1600)]
#[kani::stub(std::ptr::NonNull::add, crate::vf::nn_add)]
#[kani::stub(<*const u8>::add, crate::vf::cp_add)]
#[kani::stub(<*mut u8>::add, crate::vf::mp_add)]
fn eq_mask() {
    let a: [u8; CTB] = kani::any();
    let b: [u8; CTB] = kani::any();
    let m = crate::generic::vf::bytes_eq_mask(&a, &b);
    assert!(m == if eq(&a, &b) { 0xff } else { 0 }, "mask is 0xff iff the byte strings are equal, else 0");
    kani::cover!(m == 0xff);
    kani::cover!(m == 0);
}
// for every ciphertext byte string and every key
kem! { #[kani::stub(crate::generic::bytes_eq_mask, eq_mask_stub)] fn decaps_spec() {
    let (z, hpk): ([u8; 32], [u8; 32]) = kani::any();
    let pk = <PublicKey as generic::PublicKey<I>>::new(any_pk());
    let id = pkid(&pk.pk_cpa);
    let sk = <SecretKey as generic::SecretKey<I>>::new(z, hpk, pk, <INDCPASecretKey as generic::INDCPASecretKey<I>>::new(Vector::default()));
    let b: [u8; CTB] = kani::any();
    let ct: Ciphertext = b.into();
    let ss = decapsulate(&ct, &sk);
    let m = unsafe { DEC_OUT };
    assert!(unsafe { NDEC == 1 && NENC == 1 && eq(&DEC_CT, &b) }, "one decryption of the given ciphertext, one re-encryption");
    let e = unsafe { ENC[0] };
    let kr = ghost(2, &cat2(&hpk, &m));
    assert!(e.m == m && e.r[..] == kr[..32] && (e.seed, e.c0) == id, "re-encryption with the derived coins under the own key");
    let equal = eq(&e.ct, &b);
    let hc = ghost(1, &e.ct);
    let mut fb = [0u8; 32];
    if equal { fb.copy_from_slice(&hc[..32]) } else { fb = z }
    let want = ghost(1, &cat2(&fb, &kr[32..]));
    assert!(ss.as_slice() == &want[..32], "honest secret iff the ciphertext is the re-encryption, else the hash of z and the session value");
    kani::cover!(equal);
    kani::cover!(!equal);
    } }
