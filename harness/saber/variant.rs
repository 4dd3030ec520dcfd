// Included as a child module of lightsaber.rs, saber.rs and firesaber.rs, so
// the same contracts are proved for the three parameter sets.
#![allow(dead_code, unused_imports)]
use super::*;
use crate::generic::{self, SaberImpl};
use crate::vf::{coeffs_of, poly_of, proof, proof_abs, proof_len};
type I = super::VfImpl;

// ---------------------------------------------------------------- C04
pub mod cbd {
    use super::*;
    const LEN: usize = 32 * I::MU;
    struct Tape { data: [u8; LEN], pos: usize }
    impl sha3::digest::XofReader for Tape {
        fn read(&mut self, buf: &mut [u8]) {
            let n = buf.len();
            assert!(self.pos + n <= LEN, "sampler consumes at most 256*mu/8 bytes per polynomial");
            buf.copy_from_slice(&self.data[self.pos..self.pos + n]);
            self.pos += n;
        }
    }
    fn ones(d: &[u8; LEN], from: usize, n: usize) -> u16 {
        let mut r = 0;
        let mut k = 0;
        while k < n { r += ((d[(from + k) / 8] >> ((from + k) % 8)) & 1) as u16; k += 1; }
        r
    }
    proof! { fn sampler() {
        let mut t = Tape { data: kani::any(), pos: 0 };
        let p = I::cbd(&mut t);
        assert!(t.pos == LEN, "sampler consumes exactly 256*mu/8 bytes per polynomial");
        let i: usize = kani::any();
        kani::assume(i < 256);
        let h = I::MU / 2;
        let want = ones(&t.data, I::MU * i, h).wrapping_sub(ones(&t.data, I::MU * i + h, h));
        let got = coeffs_of(&p)[i];
        kani::cover!(got != 0);
        assert!(got == want, "coefficient = popcount(first half) - popcount(second half)");
        assert!((got as i16) <= h as i16 && (got as i16) >= -(h as i16), "coefficient in [-mu/2, mu/2]");
    } }
}

// ---------------------------------------------------------------- C05
pub mod recon {
    use super::*;
    const R: usize = I::RECON_SIZE;
    // reconciliation data is exactly the top RECON_SIZE+1 bits of (v + m*p/2) mod p
    proof! { fn recon_data() {
        let v: [u16; 256] = kani::any();
        let mut rec = [0u8; I::RECONBYTES_KEM];
        generic::vf::recon_data_gen::<I>(&mut rec, &poly_of(v));
        let w = R + 1;
        let j: usize = kani::any();
        kani::assume(j < 32 * w);
        let mut want = 0u8;
        let mut k = 0;
        while k < 8 {
            let n = 8 * j + k;
            let top = (v[n / w] & 1023) >> (10 - w);
            want |= (((top >> (n % w)) & 1) as u8) << k;
            k += 1;
        }
        kani::cover!(want != 0);
        assert!(rec.len() == 32 * w && rec[j] == want, "reconciliation data = top bits of v mod p");
    } }
    // For all reconciliation bytes and all v', the decoded bit is 1 iff
    // (v' - rec*2^(9-R) + p/4 - p/2^(R+2)) mod p >= p/2.
    proof! { fn recon_decodes() {
        let rec: [u8; I::RECONBYTES_KEM] = kani::any();
        let v2: [u16; 256] = kani::any();
        let w = R + 1;
        let i: usize = kani::any();
        kani::assume(i < 256);
        let mut r = 0u16;
        let mut k = 0;
        while k < w { let n = i * w + k; r |= (((rec[n / 8] >> (n % 8)) & 1) as u16) << k; k += 1; }
        let out = coeffs_of(&generic::vf::recon::<I>(&rec, &poly_of(v2)));
        assert!(out[i] < 2, "a decoded coefficient is one bit");
        // contract in terms of distances: let c be the centre of the reconciliation cell
        // that rec selects; bit 0 if v' is nearer (mod p) to c, bit 1 if nearer to c + p/2
        let cell = 1u16 << (9 - R as u16);                 // cell width
        let c2 = 2 * (r * cell) + cell;                    // 2*centre (odd multiples keep integers)
        let d2 = (2 * (v2[i] & 1023) + 1).wrapping_sub(c2) & 2047; // 2*(v' + 1/2 - centre) mod 2p
        let near0 = d2 < 512 || d2 > 1536;
        let near1 = d2 > 512 && d2 < 1536;
        kani::cover!(near0);
        kani::cover!(near1);
        if near0 { assert!(out[i] == 0, "v' within p/4 of the cell centre decodes to 0"); }
        if near1 { assert!(out[i] == 1, "v' within p/4 of centre + p/2 decodes to 1"); }
    } }
    // Lemma over the two contracts above (and Poly addition, C03): whatever v,
    // the message bit m and v' with v' - v (+ p/2 if flipped) strictly inside
    // the bound, the reconciliation cell of v + m*p/2 puts v' on the right side.
    proof! { fn lemma_decode_within_bound() {
        let (m, flipped): (bool, bool) = kani::any();
        let (v, v2): (u16, u16) = kani::any();
        let w = R as u16 + 1;
        let e = v2.wrapping_sub(v) & 1023;                  // v' - v mod p
        let e = if flipped { e.wrapping_sub(512) & 1023 } else { e };
        let bound = 256 - (1u16 << (8 - R as u16));         // p/4 - p/2^(R+2)
        kani::assume(e < bound || e > 1024 - bound);
        let r = (v.wrapping_add((m as u16) << 9) & 1023) >> (10 - w);   // recon_data contract
        let cell = 1u16 << (9 - R as u16);
        let c2 = 2 * (r * cell) + cell;
        let d2 = (2 * (v2 & 1023) + 1).wrapping_sub(c2) & 2047;
        let near0 = d2 < 512 || d2 > 1536;
        let near1 = d2 > 512 && d2 < 1536;
        kani::cover!(m && !flipped);
        kani::cover!(!m && flipped);
        assert!(near0 || near1, "the contract decides every v' inside the bound");
        // recon_decodes contract: near0 -> 0, near1 -> 1
        assert!(near1 == (m ^ flipped), "message bit decodes within the noise bound");
    } }
}

// ---------------------------------------------------------------- C02
pub mod serde {
    use super::*;
    const PKB: usize = I::PUBLIC_KEY_BYTES;
    const SKB: usize = I::SECRET_KEY_BYTES;
    const CTB: usize = I::BYTES_CCA_DEC;
    fn sizes_documented() -> bool {
        PKB == I::K * 320 + 32 && I::INDCPA_PUBLICKEYBYTES == PKB && SKB == I::K * 416 + PKB + 64 && CTB == I::K * 320 + 32 * (I::RECON_SIZE + 1)
    }
    fn do_pk() {
        assert!(sizes_documented(), "documented sizes");
        let b: [u8; PKB] = kani::any();
        let pk = match PublicKey::from_bytes(&b) { Ok(p) => p, Err(_) => panic!("public key bytes of the right length decode") };
        let o = pk.to_bytes().into_bytes();
        let i: usize = kani::any();
        kani::assume(i < PKB);
        assert!(o[i] == b[i], "public key bytes survive decode/encode");
    }
    fn do_cpa_pk() {
        let b: [u8; PKB] = kani::any();
        let o = INDCPAPublicKey::from_bytes(&b).to_bytes().into_bytes();
        let i: usize = kani::any();
        kani::assume(i < PKB);
        assert!(o[i] == b[i], "IND-CPA public key bytes survive decode/encode");
    }
    fn do_sk() {
        let b: [u8; SKB] = kani::any();
        let sk = match SecretKey::from_bytes(&b) { Ok(p) => p, Err(_) => panic!("secret key bytes of the right length decode") };
        let o = sk.to_bytes().into_bytes();
        let i: usize = kani::any();
        kani::assume(i < SKB);
        assert!(o[i] == b[i], "secret key bytes survive decode/encode");
    }
    proof_abs! { fn pk_roundtrip() { do_pk() } }
    proof_abs! { fn cpa_pk_roundtrip() { do_cpa_pk() } }
    proof_abs! { fn sk_roundtrip() { do_sk() } }
    // the same three with the real codecs instead of their contract
    pub mod full {
        use super::*;
        proof! { fn pk_roundtrip_full() { do_pk() } }
        proof! { fn cpa_pk_roundtrip_full() { do_cpa_pk() } }
        proof! { fn sk_roundtrip_full() { do_sk() } }
    }
    fn check_len(e: Result<(), crate::Error>, n: usize, want: usize) {
        match e {
            Ok(()) => assert!(n == want, "only the exact length is accepted"),
            Err(crate::Error::BadLength { actual, expected, .. }) => {
                assert!(n != want, "the exact length is accepted");
                assert!(actual == n && expected == want, "the error carries the lengths");
            }
            Err(_) => panic!("only the bad-length error is returned"),
        }
    }
    // every other length is rejected
    proof_len! { fn lengths() {
        let n: usize = kani::any();
        kani::assume(n < 1 << 40);
        // a slice of any length, with any contents
        let mut v = Vec::<u8>::with_capacity(n);
        unsafe { v.set_len(n) };
        let s = &v[..];
        if n != PKB { check_len(PublicKey::from_bytes(s).map(|_| ()), n, PKB); }
        if n != SKB { check_len(SecretKey::from_bytes(s).map(|_| ()), n, SKB); }
        if n != I::INDCPA_SECRETKEYBYTES { check_len(<INDCPASecretKey as generic::INDCPASecretKey<I>>::from_bytes(s).map(|_| ()), n, I::INDCPA_SECRETKEYBYTES); }
        if n != CTB { check_len(Ciphertext::from_bytes(s).map(|_| ()), n, CTB); }
        if n != PKB { check_len(PublicKeyBytes::from_bytes(s).map(|_| ()), n, PKB); }
        if n != SKB { check_len(SecretKeyBytes::from_bytes(s).map(|_| ()), n, SKB); }
        if n != 32 { check_len(SharedSecret::from_bytes(s).map(|_| ()), n, 32); }
        kani::cover!(n == 0);
        kani::cover!(n == PKB - 1);
        kani::cover!(n == SKB + 1);
    } }
    proof! { fn newtypes_keep_bytes() {
        let b: [u8; CTB] = kani::any();
        let s: [u8; 32] = kani::any();
        let i: usize = kani::any();
        kani::assume(i < CTB);
        let c = match Ciphertext::from_bytes(&b) { Ok(c) => c, Err(_) => panic!("ciphertext of the right length decodes") };
        assert!(c.as_bytes()[i] == b[i] && c.as_slice()[i] == b[i] && c.clone().into_bytes()[i] == b[i] && c.as_slice().len() == CTB, "ciphertext bytes kept");
        let c2: Ciphertext = b.into();
        assert!(c2.as_ref() as &[u8] == c2.as_slice() && c2.as_slice()[i] == b[i], "ciphertext bytes kept");
        let x = match SharedSecret::from_bytes(&s) { Ok(c) => c, Err(_) => panic!("secret of the right length decodes") };
        let j = i % 32;
        assert!(x.as_bytes()[j] == s[j] && x.as_slice()[j] == s[j] && x.as_slice().len() == 32 && x.into_bytes()[j] == s[j], "shared secret bytes kept");
    } }
}

