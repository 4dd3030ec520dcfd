// C01: contracts of the coefficient codecs, full domain, all 256 coefficients.
//   unpack:  ensures forall i<256.  coeffs[i] == bits [w*i, w*i+w) of the little-endian bit string
//   pack:    ensures forall j<32w.  out[j]    == bits of the coefficients at [8j, 8j+8)
// The two postconditions are inverse bijections between byte strings and
// arrays of w-bit coefficients, so the round trips follow.
use super::*;
use crate::poly::Poly;

fn bit(bytes: &[u8], n: usize) -> u16 { ((bytes[n / 8] >> (n % 8)) & 1) as u16 }

fn spec_coeff(bytes: &[u8], w: usize, i: usize) -> u16 {
    let mut r = 0u16;
    let mut k = 0;
    while k < w { r |= bit(bytes, i * w + k) << k; k += 1; }
    r
}

fn spec_byte(cs: &[u16; 256], w: usize, j: usize) -> u8 {
    let mut r = 0u8;
    let mut k = 0;
    while k < 8 { let n = 8 * j + k; r |= (((cs[n / w] >> (n % w)) & 1) as u8) << k; k += 1; }
    r
}

macro_rules! codec {
    ($w:expr, $from:ident, $read:ident, $unpack:ident, $pack:ident) => {
        proof! { fn $unpack() {
            let b: [u8; 32 * $w] = kani::any();
            let p = Poly::$from(&b);
            let i: usize = kani::any();
            kani::assume(i < 256);
            kani::cover!(p.coeffs[i].declassify() != 0);
            assert!(p.coeffs[i].declassify() == spec_coeff(&b, $w, i), "unpack: coefficient is exactly its bit field");
        } }
        proof! { fn $pack() {
            let cs: [u16; 256] = kani::any();
            let p = poly_of(cs);
            let mut o: [u8; 32 * $w] = kani::any();
            p.$read(&mut o);
            let j: usize = kani::any();
            kani::assume(j < 32 * $w);
            kani::cover!(o[j] != 0);
            assert!(o[j] == spec_byte(&cs, $w, j), "pack: byte is exactly its coefficient bits");
        } }
    };
}
codec!(13, from_bytes_13bit, read_bytes_13bit, unpack13, pack13);
codec!(10, from_bytes_10bit, read_bytes_10bit, unpack10, pack10);
codec!(6, from_bytes_6bit, read_bytes_6bit, unpack6, pack6);
codec!(4, from_bytes_4bit, read_bytes_4bit, unpack4, pack4);
codec!(3, from_bytes_3bit, read_bytes_3bit, unpack3, pack3);

proof! { fn unpack_msg() {
    let b: [u8; 32] = kani::any();
    let p = Poly::from_msg(&b);
    let i: usize = kani::any();
    kani::assume(i < 256);
    kani::cover!(p.coeffs[i].declassify() != 0);
    // message bit i is placed at p/2 = 2^9
    assert!(p.coeffs[i].declassify() == bit(&b, i) << 9, "message bit i becomes coefficient i at weight p/2");
} }
proof! { fn pack_msg() {
    let cs: [u16; 256] = kani::any();
    let mut o: [u8; 32] = kani::any();
    // requires: decoded message coefficients are single bits
    let j: usize = kani::any();
    kani::assume(j < 32);
    let mut k = 0;
    while k < 8 { kani::assume(cs[8 * j + k] < 2); k += 1; }
    poly_of(cs).read_bytes_msg(&mut o);
    kani::cover!(o[j] != 0);
    assert!(o[j] == spec_byte(&cs, 1, j), "message byte j is made of decoded bits 8j..8j+8");
} }
