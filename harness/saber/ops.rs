// C03: the contract of the dependency secret_integers 0.1.3 that the ring
// obligations are generated with, proved on the real dependency for all values.
use super::*;
macro_rules! un { ($($n:ident: $got:expr, $want:expr;)*) => { $( #[kani::proof] fn $n() {
    let (a, b): (u16, u16) = kani::any();
    let s: u32 = kani::any();
    kani::assume(s < 16);
    assert!(($got)(U16::from(a), U16::from(b), s).declassify() == ($want)(a, b, s));
} )* } }
un! {
    add: |x: U16, y: U16, _s: u32| x + y, |a: u16, b: u16, _s: u32| a.wrapping_add(b);
    sub: |x: U16, y: U16, _s: u32| x - y, |a: u16, b: u16, _s: u32| a.wrapping_sub(b);
    mul: |x: U16, y: U16, _s: u32| x * y, |a: u16, b: u16, _s: u32| a.wrapping_mul(b);
    neg: |x: U16, _y: U16, _s: u32| -x, |a: u16, _b: u16, _s: u32| 0u16.wrapping_sub(a);
    not: |x: U16, _y: U16, _s: u32| !x, |a: u16, _b: u16, _s: u32| a ^ 0xffff;
    and: |x: U16, y: U16, _s: u32| x & y, |a: u16, b: u16, _s: u32| a & b;
    or: |x: U16, y: U16, _s: u32| x | y, |a: u16, b: u16, _s: u32| a | b;
    xor: |x: U16, y: U16, _s: u32| x ^ y, |a: u16, b: u16, _s: u32| a ^ b;
    shl: |x: U16, _y: U16, s: u32| x << s, |a: u16, _b: u16, s: u32| a << s;
    shr: |x: U16, _y: U16, s: u32| x >> s, |a: u16, _b: u16, s: u32| a >> s;
    rotl: |x: U16, _y: U16, s: u32| x.rotate_left(s), |a: u16, _b: u16, s: u32| if s == 0 { a } else { (a << s) | (a >> (16 - s)) };
    assign_add: |mut x: U16, y: U16, _s: u32| { x += y; x }, |a: u16, b: u16, _s: u32| a.wrapping_add(b);
    assign_sub: |mut x: U16, y: U16, _s: u32| { x -= y; x }, |a: u16, b: u16, _s: u32| a.wrapping_sub(b);
    assign_mul: |mut x: U16, y: U16, _s: u32| { x *= y; x }, |a: u16, b: u16, _s: u32| a.wrapping_mul(b);
    assign_and: |mut x: U16, y: U16, _s: u32| { x &= y; x }, |a: u16, b: u16, _s: u32| a & b;
    assign_or: |mut x: U16, y: U16, _s: u32| { x |= y; x }, |a: u16, b: u16, _s: u32| a | b;
    assign_xor: |mut x: U16, y: U16, _s: u32| { x ^= y; x }, |a: u16, b: u16, _s: u32| a ^ b;
    assign_shl: |mut x: U16, _y: U16, s: u32| { x <<= s; x }, |a: u16, _b: u16, s: u32| a << s;
    assign_shr: |mut x: U16, _y: U16, s: u32| { x >>= s; x }, |a: u16, _b: u16, s: u32| a >> s;
    from_u8: |x: U16, _y: U16, _s: u32| U16::from(U8::from(x)), |a: u16, _b: u16, _s: u32| a & 0xff;
}
