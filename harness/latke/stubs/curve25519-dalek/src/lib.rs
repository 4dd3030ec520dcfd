//! Contract stub: a prime-order group written additively by discrete
//! logarithms.  Scalars form a commutative ring, points are scalar multiples of
//! the base point, the encodings are injective.  Interpreted by vf/crypto.py.
#![allow(clippy::all)]
#[cfg(feature = "digest")]
pub use digest;
pub mod op {
    pub const SC_ADD: u32 = 0; pub const SC_SUB: u32 = 1; pub const SC_MUL: u32 = 2; pub const SC_NEG: u32 = 3;
    pub const SC_RED: u32 = 4; pub const SC_WIDE: u32 = 5; pub const SC_INV: u32 = 6; pub const SC_CANON: u32 = 7;
    pub const PT_ADD: u32 = 10; pub const PT_SUB: u32 = 11; pub const PT_MUL: u32 = 12; pub const PT_NEG: u32 = 13; pub const PT_BASE: u32 = 14;
    pub const R_ENC: u32 = 15; pub const E_ENC: u32 = 16; pub const M_ENC: u32 = 17; pub const R_DEC: u32 = 18; pub const E_DEC: u32 = 19;
    pub const R_MAP: u32 = 20; pub const PT_EQ: u32 = 21; pub const PT_ZERO: u32 = 22;
}
fn g(op: u32, a: &[u8], b: &[u8]) -> [u8; 32] { let mut o = [0u8; 32]; vfsys::grp(op, a, b, &mut o); o }
fn p(op: u32, a: &[u8], b: &[u8]) -> bool { let mut o = [0u8; 32]; vfsys::grp(op, a, b, &mut o) }
macro_rules! binop { ($tr:ident, $f:ident, $tra:ident, $fa:ident, $a:ty, $b:ty, $o:ty, $e:expr) => {
    impl<'a, 'b> core::ops::$tr<&'b $b> for &'a $a { type Output = $o; fn $f(self, r: &'b $b) -> $o { let e: fn(&$a, &$b) -> $o = $e; e(self, r) } }
    impl<'b> core::ops::$tr<&'b $b> for $a { type Output = $o; fn $f(self, r: &'b $b) -> $o { core::ops::$tr::$f(&self, r) } }
    impl<'a> core::ops::$tr<$b> for &'a $a { type Output = $o; fn $f(self, r: $b) -> $o { core::ops::$tr::$f(self, &r) } }
    impl core::ops::$tr<$b> for $a { type Output = $o; fn $f(self, r: $b) -> $o { core::ops::$tr::$f(&self, &r) } }
} }
macro_rules! asg { ($tr:ident, $f:ident, $base:ident, $bf:ident, $a:ty, $b:ty) => {
    impl<'b> core::ops::$tr<&'b $b> for $a { fn $f(&mut self, r: &'b $b) { *self = core::ops::$base::$bf(&*self, r); } }
    impl core::ops::$tr<$b> for $a { fn $f(&mut self, r: $b) { *self = core::ops::$base::$bf(&*self, &r); } }
} }
pub mod scalar {
    use super::*;
    use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
    #[derive(Copy, Clone, Hash)]
    pub struct Scalar { pub(crate) bytes: [u8; 32] }
    impl Scalar {
        pub const ZERO: Scalar = Scalar { bytes: [0; 32] };
        pub const ONE: Scalar = Scalar { bytes: [1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0] };
        pub fn from_bytes_mod_order(b: [u8; 32]) -> Scalar { Scalar { bytes: g(op::SC_RED, &b, &b) } }
        pub fn from_bytes_mod_order_wide(b: &[u8; 64]) -> Scalar { Scalar { bytes: g(op::SC_WIDE, b, b) } }
        pub fn from_canonical_bytes(b: [u8; 32]) -> CtOption<Scalar> { CtOption::new(Scalar { bytes: b }, Choice::from(p(op::SC_CANON, &b, &b) as u8)) }
        #[cfg(feature = "rand_core")]
        pub fn random<R: rand_core::CryptoRngCore + ?Sized>(rng: &mut R) -> Scalar { let mut b = [0u8; 64]; rng.fill_bytes(&mut b); Scalar::from_bytes_mod_order_wide(&b) }
        #[cfg(feature = "digest")]
        pub fn hash_from_bytes<D: digest::Digest<OutputSize = digest::consts::U64> + Default>(input: &[u8]) -> Scalar { let mut h = D::default(); h.update(input); Scalar::from_hash(h) }
        #[cfg(feature = "digest")]
        pub fn from_hash<D: digest::Digest<OutputSize = digest::consts::U64>>(hash: D) -> Scalar { let mut o = [0u8; 64]; o.copy_from_slice(hash.finalize().as_slice()); Scalar::from_bytes_mod_order_wide(&o) }
        pub const fn to_bytes(&self) -> [u8; 32] { self.bytes }
        pub const fn as_bytes(&self) -> &[u8; 32] { &self.bytes }
        pub fn invert(&self) -> Scalar { Scalar { bytes: g(op::SC_INV, &self.bytes, &self.bytes) } }
    }
    impl core::fmt::Debug for Scalar { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("Scalar") } }
    impl Eq for Scalar {}
    impl PartialEq for Scalar { fn eq(&self, o: &Self) -> bool { vfsys::same(&self.bytes, &o.bytes) } }
    impl ConstantTimeEq for Scalar { fn ct_eq(&self, o: &Self) -> Choice { Choice::from((self == o) as u8) } }
    impl ConditionallySelectable for Scalar { fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self { let mut r = [0u8; 32]; for i in 0..32 { r[i] = u8::conditional_select(&a.bytes[i], &b.bytes[i], c); } Scalar { bytes: r } } }
    impl Default for Scalar { fn default() -> Self { Scalar::ZERO } }
    impl core::ops::Index<usize> for Scalar { type Output = u8; fn index(&self, i: usize) -> &u8 { &self.bytes[i] } }
    macro_rules! from { ($($t:ty),*) => { $(impl From<$t> for Scalar { fn from(x: $t) -> Scalar { let mut b = [0u8; 32]; let s = x.to_le_bytes(); b[..s.len()].copy_from_slice(&s); Scalar { bytes: b } } })* } }
    from!(u8, u16, u32, u64, u128);
    binop!(Add, add, AddAssign, add_assign, Scalar, Scalar, Scalar, |a, b| Scalar { bytes: g(op::SC_ADD, &a.bytes, &b.bytes) });
    binop!(Sub, sub, SubAssign, sub_assign, Scalar, Scalar, Scalar, |a, b| Scalar { bytes: g(op::SC_SUB, &a.bytes, &b.bytes) });
    binop!(Mul, mul, MulAssign, mul_assign, Scalar, Scalar, Scalar, |a, b| Scalar { bytes: g(op::SC_MUL, &a.bytes, &b.bytes) });
    asg!(AddAssign, add_assign, Add, add, Scalar, Scalar);
    asg!(SubAssign, sub_assign, Sub, sub, Scalar, Scalar);
    asg!(MulAssign, mul_assign, Mul, mul, Scalar, Scalar);
    impl<'a> core::ops::Neg for &'a Scalar { type Output = Scalar; fn neg(self) -> Scalar { Scalar { bytes: g(op::SC_NEG, &self.bytes, &self.bytes) } } }
    impl core::ops::Neg for Scalar { type Output = Scalar; fn neg(self) -> Scalar { -&self } }
    impl<T: core::borrow::Borrow<Scalar>> core::iter::Sum<T> for Scalar { fn sum<I: Iterator<Item = T>>(i: I) -> Self { i.fold(Scalar::ZERO, |a, x| a + x.borrow()) } }
    impl<T: core::borrow::Borrow<Scalar>> core::iter::Product<T> for Scalar { fn product<I: Iterator<Item = T>>(i: I) -> Self { i.fold(Scalar::ONE, |a, x| a * x.borrow()) } }
    #[cfg(feature = "zeroize")]
    impl zeroize::Zeroize for Scalar { fn zeroize(&mut self) { self.bytes.zeroize() } }
}
macro_rules! point { ($P:ident, $C:ident, $enc:expr, $dec:expr) => {
    use super::*;
    use super::scalar::Scalar;
    use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};
    #[derive(Copy, Clone)]
    pub struct $P { pub(crate) h: [u8; 32] }
    #[derive(Copy, Clone, Eq, PartialEq, Hash)]
    pub struct $C(pub [u8; 32]);
    impl $C {
        pub const fn as_bytes(&self) -> &[u8; 32] { &self.0 }
        pub const fn to_bytes(&self) -> [u8; 32] { self.0 }
        pub fn from_slice(b: &[u8]) -> Result<$C, core::array::TryFromSliceError> { b.try_into().map($C) }
        pub fn decompress(&self) -> Option<$P> { let mut o = [0u8; 32]; if vfsys::grp($dec, &self.0, &self.0, &mut o) { Some($P { h: o }) } else { None } }
    }
    impl TryFrom<&[u8]> for $C { type Error = core::array::TryFromSliceError; fn try_from(b: &[u8]) -> Result<$C, Self::Error> { Self::from_slice(b) } }
    impl core::fmt::Debug for $C { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str(stringify!($C)) } }
    impl ConstantTimeEq for $C { fn ct_eq(&self, o: &Self) -> Choice { Choice::from(vfsys::same(&self.0, &o.0) as u8) } }
    impl $P {
        pub fn compress(&self) -> $C { $C(g($enc, &self.h, &self.h)) }
        pub fn mul_base(s: &Scalar) -> $P { let b = g(op::PT_BASE, &[0; 32], &[0; 32]); $P { h: g(op::PT_MUL, &b, s.as_bytes()) } }
        pub fn vartime_double_scalar_mul_basepoint(a: &Scalar, x: &$P, b: &Scalar) -> $P { x * a + $P::mul_base(b) }
        #[cfg(feature = "rand_core")]
        pub fn random<R: rand_core::CryptoRngCore + ?Sized>(rng: &mut R) -> $P { $P::mul_base(&Scalar::random(rng)) }
        pub const fn handle(h: [u8; 32]) -> $P { $P { h } }
    }
    impl core::fmt::Debug for $P { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str(stringify!($P)) } }
    impl Eq for $P {}
    impl PartialEq for $P { fn eq(&self, o: &Self) -> bool { p(op::PT_EQ, &self.h, &o.h) } }
    impl ConstantTimeEq for $P { fn ct_eq(&self, o: &Self) -> Choice { Choice::from((self == o) as u8) } }
    impl ConditionallySelectable for $P { fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self { let mut r = [0u8; 32]; for i in 0..32 { r[i] = u8::conditional_select(&a.h[i], &b.h[i], c); } $P { h: r } } }
    impl crate::traits::Identity for $P { fn identity() -> $P { $P { h: g(op::PT_ZERO, &[0; 32], &[0; 32]) } } }
    impl Default for $P { fn default() -> $P { <$P as crate::traits::Identity>::identity() } }
    impl crate::traits::Identity for $C { fn identity() -> $C { <$P as crate::traits::Identity>::identity().compress() } }
    impl Default for $C { fn default() -> $C { <$C as crate::traits::Identity>::identity() } }
    binop!(Add, add, AddAssign, add_assign, $P, $P, $P, |a, b| $P { h: g(op::PT_ADD, &a.h, &b.h) });
    binop!(Sub, sub, SubAssign, sub_assign, $P, $P, $P, |a, b| $P { h: g(op::PT_SUB, &a.h, &b.h) });
    binop!(Mul, mul, MulAssign, mul_assign, $P, Scalar, $P, |a, b| $P { h: g(op::PT_MUL, &a.h, b.as_bytes()) });
    binop!(Mul, mul, MulAssign, mul_assign, Scalar, $P, $P, |a, b| $P { h: g(op::PT_MUL, &b.h, a.as_bytes()) });
    asg!(AddAssign, add_assign, Add, add, $P, $P);
    asg!(SubAssign, sub_assign, Sub, sub, $P, $P);
    asg!(MulAssign, mul_assign, Mul, mul, $P, Scalar);
    impl<'a> core::ops::Neg for &'a $P { type Output = $P; fn neg(self) -> $P { $P { h: g(op::PT_NEG, &self.h, &self.h) } } }
    impl core::ops::Neg for $P { type Output = $P; fn neg(self) -> $P { -&self } }
    impl<T: core::borrow::Borrow<$P>> core::iter::Sum<T> for $P { fn sum<I: Iterator<Item = T>>(i: I) -> Self { i.fold($P::default(), |a, x| a + x.borrow()) } }
    #[cfg(feature = "zeroize")]
    impl zeroize::Zeroize for $P { fn zeroize(&mut self) { *self = $P::default() } }
    #[cfg(feature = "zeroize")]
    impl zeroize::Zeroize for $C { fn zeroize(&mut self) { self.0.zeroize() } }
} }
pub mod ristretto {
    point!(RistrettoPoint, CompressedRistretto, op::R_ENC, op::R_DEC);
    impl RistrettoPoint {
        pub fn from_uniform_bytes(b: &[u8; 64]) -> RistrettoPoint { RistrettoPoint { h: g(op::R_MAP, b, b) } }
        #[cfg(feature = "digest")]
        pub fn from_hash<D: digest::Digest<OutputSize = digest::consts::U64> + Default>(hash: D) -> RistrettoPoint { let mut o = [0u8; 64]; o.copy_from_slice(hash.finalize().as_slice()); Self::from_uniform_bytes(&o) }
        #[cfg(feature = "digest")]
        pub fn hash_from_bytes<D: digest::Digest<OutputSize = digest::consts::U64> + Default>(i: &[u8]) -> RistrettoPoint { let mut h = D::default(); h.update(i); Self::from_hash(h) }
    }
}
pub mod edwards {
    point!(EdwardsPoint, CompressedEdwardsY, op::E_ENC, op::E_DEC);
    /// the base point, resolved to a handle by the group interpreter
    pub struct BasePoint;
    impl EdwardsPoint { pub fn mul_by_cofactor(&self) -> EdwardsPoint { self * Scalar::from(8u64) } }
}
pub mod constants {
    /// handle of the base point: all bytes 0xff (interpreted by the verifier)
    pub const ED25519_BASEPOINT_POINT: crate::edwards::EdwardsPoint = crate::edwards::EdwardsPoint::handle([0xff; 32]);
    pub const RISTRETTO_BASEPOINT_POINT: crate::ristretto::RistrettoPoint = crate::ristretto::RistrettoPoint::handle([0xff; 32]);
    pub const RISTRETTO_BASEPOINT_TABLE: &crate::ristretto::RistrettoPoint = &crate::ristretto::RistrettoPoint::handle([0xff; 32]);
    pub const ED25519_BASEPOINT_TABLE: &crate::edwards::EdwardsPoint = &crate::edwards::EdwardsPoint::handle([0xff; 32]);
}
pub mod traits {
    pub trait Identity { fn identity() -> Self; }
    pub trait IsIdentity { fn is_identity(&self) -> bool; }
    impl<T> IsIdentity for T where T: subtle::ConstantTimeEq + Identity { fn is_identity(&self) -> bool { self.ct_eq(&T::identity()).into() } }
}
pub use edwards::EdwardsPoint;
pub use ristretto::RistrettoPoint;
pub use scalar::Scalar;
