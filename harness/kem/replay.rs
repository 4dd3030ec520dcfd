// Native search for a failing input of C06 on the real crate (run only after
// an obligation failed): compares with the specified function.
#![allow(dead_code, unused_imports)]
use super::*;
use crate::generic::{self, SaberImpl};
use sha3::{Digest, Sha3_256, Sha3_512};
type I = super::VfImpl;
fn expected(b: &[u8], sk: &SecretKey) -> Vec<u8> {
    let (z, hpk, pk, skc) = generic::SecretKey::<I>::unpack(sk);
    let ct = Ciphertext::from_bytes(b).ok().unwrap();
    let m = generic::indcpa_kem_dec::<I>(skc, &ct);
    let mut h = Sha3_512::default();
    sha3::digest::Input::input(&mut h, hpk); sha3::digest::Input::input(&mut h, m);
    let kr = h.result();
    let c2 = generic::indcpa_kem_enc::<I>(&m, &kr[..32], generic::PublicKey::<I>::pk_cpa(pk));
    let mut h = Sha3_256::default();
    if c2.as_slice() == b { sha3::digest::Input::input(&mut h, Sha3_256::digest(b)); } else { sha3::digest::Input::input(&mut h, z); }
    sha3::digest::Input::input(&mut h, &kr[32..]);
    h.result().to_vec()
}
#[test] fn vfreplay_kem() {
    for _ in 0..3 {
        let sk = keygen();
        let pkb = sk.public_key().to_bytes();
        assert!(generic::SecretKey::<I>::hash_pk(&sk)[..] == Sha3_256::digest(pkb.as_slice())[..], "stored public key hash");
        let (ss, ct) = encapsulate(sk.public_key());
        let b = ct.as_slice().to_vec();
        assert!(ss.as_slice() == &expected(&b, &sk)[..], "encapsulated secret");
        assert!(decapsulate(&ct, &sk).as_slice() == ss.as_slice(), "decapsulation of an honest ciphertext");
        let n = b.len();
        let try1 = |i: usize, x: u8| {
            let mut c = b.clone(); c[i] ^= x;
            let d = decapsulate(&Ciphertext::from_bytes(&c).ok().unwrap(), &sk);
            assert!(d.as_slice() == &expected(&c, &sk)[..], "decapsulation of the honest ciphertext with byte {} xor {:#x}", i, x);
        };
        for i in [0, 1, n / 2, n - 2, n - 1].iter() { for x in 1..=255u8 { try1(*i, x); } }
        for i in 0..n { try1(i, 1 << (i % 8)); try1(i, 0xff); try1(i, 0x80); }
        for (i, j) in [(0, 1), (0, n - 1), (n / 2, n - 1)].iter() { for x in [1u8, 0x80, 0xff].iter() {
            let mut c = b.clone(); c[*i] ^= x; c[*j] ^= x;
            let d = decapsulate(&Ciphertext::from_bytes(&c).ok().unwrap(), &sk);
            assert!(d.as_slice() == &expected(&c, &sk)[..], "decapsulation with bytes {} and {} xor {:#x}", i, j, x);
        } }
    }
}
