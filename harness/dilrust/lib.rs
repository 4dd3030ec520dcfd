//! C23/C24, Rust layer: the wrappers of pqcrypto-dilithium over the C functions,
//! which are contracts (unknown functions of exactly the bytes they are given).
#![allow(dead_code, non_snake_case)]
use pqcrypto_traits::sign::{DetachedSignature as _, PublicKey as _, SecretKey as _, SignedMessage as _, VerificationError};
use vfsys::{any, check, choice, reach, same};

fn vec_any(n: usize, tag: &str) -> Vec<u8> { let mut v = vec![0u8; n]; any(&mut v, tag); v }
/// an arbitrary length up to `max`
fn any_len(max: usize) -> usize {
    let mut b = [0u8; 8];
    any(&mut b, "len");
    let n = u64::from_le_bytes(b) as usize;
    if cfg!(vf_native) { return [n % (max + 1), max / 2, max / 2 + 1, max / 2 - 1, 0][n % 5]; }
    vfsys::assume(n <= max);
    n
}
macro_rules! entry { ($n:ident, [$($l:literal),*], $b:expr) => {
    #[cfg(not(vf_native))]
    #[no_mangle]
    pub extern "C" fn $n() { $b }
    #[cfg(vf_native)]
    pub fn $n() { $b }
} }
macro_rules! set {
    ($m:ident, $PK:literal, $SK:literal, $SIG:literal, $ff:ident, $fver:ident, $fdet:ident) => {
        mod $m {
            use super::*;
            use pqcrypto_dilithium::$m::*;
            extern "C" {
                fn $ff(sig: *mut u8, siglen: *mut usize, m: *const u8, mlen: usize, sk: *const u8) -> i32;
                fn $fver(sig: *const u8, siglen: usize, m: *const u8, mlen: usize, pk: *const u8) -> i32;
                fn $fdet(coins: *const u8, pk: *mut u8, sk: *mut u8) -> i32;
            }
            fn keys() -> (PublicKey, SecretKey) {
                if cfg!(vf_native) { return keypair(); }
                (PublicKey::from_bytes(&vec_any($PK, "pk")).ok().unwrap(), SecretKey::from_bytes(&vec_any($SK, "sk")).ok().unwrap())
            }
            fn signature(msg: &[u8], sk: &SecretKey) -> Vec<u8> {
                let mut s = vec![0u8; $SIG];
                let mut l = 0usize;
                unsafe { $ff(s.as_mut_ptr(), &mut l, msg.as_ptr(), msg.len(), sk.as_bytes().as_ptr()); }
                s
            }
            fn verdict(sig: &[u8], msg: &[u8], pk: &PublicKey) -> i32 { unsafe { $fver(sig.as_ptr(), sig.len(), msg.as_ptr(), msg.len(), pk.as_bytes().as_ptr()) } }
            pub fn sizes() {
                check(public_key_bytes() == $PK && secret_key_bytes() == $SK && signature_bytes() == $SIG, "the sizes reported are the documented ones");
                reach("sizes");
            }
            pub fn pk_bytes() {
                let b = vec_any(2 * $PK, "bytes");
                let n = any_len(2 * $PK);
                match PublicKey::from_bytes(&b[..n]) {
                    Ok(k) => { check(n == $PK, "a public key is decoded only from the documented number of bytes"); check(same(k.as_bytes(), &b[..$PK]), "a decoded public key keeps its bytes"); check(same(k.clone().as_bytes(), &b[..$PK]), "a copied public key keeps its bytes"); reach("decoded"); }
                    Err(_) => { check(n != $PK, "every byte string of public key size is decoded"); reach("refused"); }
                }
            }
            pub fn sk_bytes() {
                let b = vec_any(2 * $SK, "bytes");
                let n = any_len(2 * $SK);
                match SecretKey::from_bytes(&b[..n]) {
                    Ok(k) => { check(n == $SK, "a secret key is decoded only from the documented number of bytes"); check(same(k.as_bytes(), &b[..$SK]), "a decoded secret key keeps its bytes"); reach("decoded"); }
                    Err(_) => { check(n != $SK, "every byte string of secret key size is decoded"); reach("refused"); }
                }
            }
            pub fn sig_bytes() {
                let b = vec_any(2 * $SIG, "bytes");
                let n = if choice(2) == 0 { let n = any_len(2 * $SIG); vfsys::assume(n > $SIG); n } else { [0, 1, 2, 31, 32, 100, $SIG / 2, $SIG - 1, $SIG][choice(9)] };
                match DetachedSignature::from_bytes(&b[..n]) {
                    Ok(s) => { check(n <= $SIG, "a detached signature is at most the documented size"); check(same(s.as_bytes(), &b[..n]), "a decoded signature keeps its bytes"); reach("decoded"); }
                    Err(_) => { check(n > $SIG, "every byte string of at most signature size is decoded"); reach("refused"); }
                }
            }
            pub fn sm_bytes() {
                let n = [0, 1, 31, $SIG - 1, $SIG, $SIG + 1, $SIG + 200][choice(7)];
                let b = vec_any(n, "bytes");
                let s = SignedMessage::from_bytes(&b).ok().unwrap();
                check(s.len() == n && same(s.as_bytes(), &b), "a decoded signed message keeps its bytes");
                reach("decoded");
            }
            fn message() -> Vec<u8> { vec_any([0, 1, 33, 300][choice(4)], "msg") }
            pub fn det_sign() {
                let (_, sk) = keys();
                let msg = message();
                let s = detached_sign(&msg, &sk);
                check(s.as_bytes().len() == $SIG, "a detached signature has the documented size");
                check(same(s.as_bytes(), &signature(&msg, &sk)), "detached signing signs exactly the given message with the given key");
                reach("signed");
            }
            pub fn det_verify() {
                let (pk, sk) = keys();
                let msg = message();
                let n = [0, 1, 32, $SIG - 1, $SIG][choice(5)];
                let mut b = vec_any(n, "sig");
                if cfg!(vf_native) && n == $SIG && choice(2) == 0 { b = signature(&msg, &sk); }
                let s = DetachedSignature::from_bytes(&b).ok().unwrap();
                let v = verdict(&b, &msg, &pk);
                match verify_detached_signature(&s, &msg, &pk) {
                    Ok(()) => { check(v == 0, "verification succeeds only when the verifier accepts the given bytes"); reach("accepted"); }
                    Err(e) => { check(v != 0, "verification succeeds whenever the verifier accepts the given bytes"); check(v != -1 || matches!(e, VerificationError::InvalidSignature), "a refused signature is reported as invalid"); reach("refused"); }
                }
            }
            pub fn signing() {
                let (_, sk) = keys();
                let msg = message();
                let sm = sign(&msg, &sk);
                let b = sm.as_bytes();
                check(b.len() == $SIG + msg.len() && sm.len() == b.len(), "a signed message is as long as the signature and the message");
                check(same(&b[..$SIG], &signature(&msg, &sk)), "a signed message starts with the signature of the message");
                check(same(&b[$SIG..], &msg), "the message follows the signature");
                reach("signed");
            }
            pub fn opening() {
                let (pk, sk) = keys();
                let n = [0, 1, 32, $SIG - 1, $SIG, $SIG + 1, $SIG + 300][choice(7)];
                let mut b = vec_any(n, "sm");
                if cfg!(vf_native) && n >= $SIG && choice(2) == 0 { let m = b[$SIG..].to_vec(); b[..$SIG].copy_from_slice(&signature(&m, &sk)); }
                let sm = SignedMessage::from_bytes(&b).ok().unwrap();
                let v = if n < $SIG { -1 } else { verdict(&b[..$SIG], &b[$SIG..], &pk) };
                match open(&sm, &pk) {
                    Ok(m) => { check(v == 0, "opening succeeds only when the verifier accepts"); if v == 0 { check(same(&m, &b[$SIG..]), "opening returns the message that was signed"); } reach("opened"); }
                    Err(e) => { check(v != 0, "opening succeeds whenever the verifier accepts"); check(v != -1 || matches!(e, VerificationError::InvalidSignature), "a refused signature is reported as invalid"); reach("refused"); }
                }
            }
            pub fn key_det() {
                let mut coins = [0u8; 32];
                any(&mut coins, "coins");
                let (pk, sk) = keypair_det(coins);
                let (mut p, mut s) = (vec![0u8; $PK], vec![0u8; $SK]);
                unsafe { $fdet(coins.as_ptr(), p.as_mut_ptr(), s.as_mut_ptr()); }
                check(same(pk.as_bytes(), &p) && same(sk.as_bytes(), &s), "deterministic key generation passes the caller's seed unchanged and returns the whole key pair");
                let (pk2, sk2) = keypair_det(coins);
                check(same(pk.as_bytes(), pk2.as_bytes()) && same(sk.as_bytes(), sk2.as_bytes()), "the same seed gives the same key pair");
                reach("generated");
            }
            pub fn key_rand() {
                let (pk, sk) = keypair();
                check(vfsys::dep(pk.as_bytes(), "dil-coins") && vfsys::dep(sk.as_bytes(), "dil-coins"), "ordinary key generation returns the whole key pair the generator wrote");
                if cfg!(vf_native) { check(verify_detached_signature(&detached_sign(b"m", &sk), b"m", &pk).is_ok(), "the two halves of a key pair match"); }
                reach("generated");
            }
        }
    };
}
set!(dilithium2, 1312, 2560, 2420, PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_signature, PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify, PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair_det);
set!(dilithium3, 1952, 4032, 3309, PQCLEAN_DILITHIUM3_CLEAN_crypto_sign_signature, PQCLEAN_DILITHIUM3_CLEAN_crypto_sign_verify, PQCLEAN_DILITHIUM3_CLEAN_crypto_sign_keypair_det);
set!(dilithium5, 2592, 4896, 4627, PQCLEAN_DILITHIUM5_CLEAN_crypto_sign_signature, PQCLEAN_DILITHIUM5_CLEAN_crypto_sign_verify, PQCLEAN_DILITHIUM5_CLEAN_crypto_sign_keypair_det);
macro_rules! all { ($($n2:ident $n3:ident $n5:ident $f:ident [$($l:literal),*]);* ;) => { $(
    entry!($n2, [$($l),*], dilithium2::$f());
    entry!($n3, [$($l),*], dilithium3::$f());
    entry!($n5, [$($l),*], dilithium5::$f());
)* } }
all! {
    vf_w2_sizes vf_w3_sizes vf_w5_sizes sizes ["sizes"];
    vf_w2_pk vf_w3_pk vf_w5_pk pk_bytes ["decoded", "refused"];
    vf_w2_sk vf_w3_sk vf_w5_sk sk_bytes ["decoded", "refused"];
    vf_w2_sig vf_w3_sig vf_w5_sig sig_bytes ["decoded", "refused"];
    vf_w2_sm vf_w3_sm vf_w5_sm sm_bytes ["decoded"];
    vf_w2_dsign vf_w3_dsign vf_w5_dsign det_sign ["signed"];
    vf_w2_dverify vf_w3_dverify vf_w5_dverify det_verify ["accepted", "refused"];
    vf_w2_sign vf_w3_sign vf_w5_sign signing ["signed"];
    vf_w2_open vf_w3_open vf_w5_open opening ["opened", "refused"];
    vf_k2_det vf_k3_det vf_k5_det key_det ["generated"];
    vf_k2_rand vf_k3_rand vf_k5_rand key_rand ["generated"];
}
extern "C" { fn PQCRYPTO_RUST_randombytes(b: *mut u8, n: usize) -> i32; }
entry!(vf_k_random, ["random"], {
    let n = [1, 32, 64, 100][choice(4)];
    let mut b = vec![0u8; n + 8];
    let r = unsafe { PQCRYPTO_RUST_randombytes(b.as_mut_ptr(), n) };
    check(r == 0, "drawing system randomness succeeds");
    check(vfsys::dep(&b[..n], "os-random"), "every byte asked for comes from the system generator");
    check(same(&b[n..], &[0u8; 8]), "nothing beyond the bytes asked for is written");
    reach("random");
});
#[cfg(not(vf_native))]
#[used]
static KEEP: unsafe extern "C" fn(*mut u8, libc::size_t) -> libc::c_int = pqcrypto_internals::PQCRYPTO_RUST_randombytes;
