// Appended (mechanically, on every run) to a copy of the real crate as `mod vf;`.
// Nothing of the crate is dropped or rewritten.
#![allow(dead_code, unused_imports, unused_macros)]
use crate::poly::Poly;
use secret_integers::*;
use std::ptr::NonNull;

// In-bounds pointer stepping inside core's iterators, expressed as the plain
// address computation.  Identical results for every in-bounds call; core's
// own unsafe code is trusted (assumption "std").
pub unsafe fn nn_add<T>(p: NonNull<T>, n: usize) -> NonNull<T> { NonNull::new_unchecked(p.as_ptr().wrapping_add(n)) }
pub unsafe fn mp_add<T>(p: *mut T, n: usize) -> *mut T { p.wrapping_add(n) }
pub unsafe fn cp_add<T>(p: *const T, n: usize) -> *const T { p.wrapping_add(n) }

macro_rules! proof {
    ($(#[$m:meta])* fn $name:ident() $body:block) => {
        #[kani::proof]
        #[kani::unwind(2000)]
        #[kani::stub(std::ptr::NonNull::add, crate::vf::nn_add)]
        #[kani::stub(<*mut u8>::add, crate::vf::mp_add)]
        #[kani::stub(<*const u8>::add, crate::vf::cp_add)]
        $(#[$m])*
        fn $name() $body
    };
}


// Same, with the 13- and 10-bit codecs replaced by their proved contract (C01):
// an inverse pair between byte strings of exactly 32*w bytes and polynomials.
macro_rules! proof_abs {
    ($(#[$m:meta])* fn $name:ident() $body:block) => {
        crate::vf::proof! {
        #[kani::stub(crate::poly::Poly::from_bytes_13bit, crate::vf::abs13_from)]
        #[kani::stub(crate::poly::Poly::read_bytes_13bit, crate::vf::abs13_read)]
        #[kani::stub(crate::poly::Poly::from_bytes_10bit, crate::vf::abs10_from)]
        #[kani::stub(crate::poly::Poly::read_bytes_10bit, crate::vf::abs10_read)]
        $(#[$m])*
        fn $name() $body }
    };
}
// Codecs replaced by "any polynomial / any bytes": used where only lengths matter.
macro_rules! proof_len {
    ($(#[$m:meta])* fn $name:ident() $body:block) => {
        #[kani::proof]
        #[kani::unwind(12)]
        #[kani::stub(std::ptr::NonNull::add, crate::vf::nn_add)]
        #[kani::stub(<*mut u8>::add, crate::vf::mp_add)]
        #[kani::stub(<*const u8>::add, crate::vf::cp_add)]
        #[kani::stub(crate::poly::Poly::from_bytes_13bit, crate::vf::len13)]
        #[kani::stub(crate::poly::Poly::from_bytes_10bit, crate::vf::len10)]
        #[kani::stub(<[u8]>::copy_from_slice, crate::vf::len_copy)]
        $(#[$m])*
        fn $name() $body
    };
}
pub(crate) fn len13(b: &[u8]) -> Poly { assert!(b.len() == 416, "codec precondition"); Poly::default() }
pub(crate) fn len10(b: &[u8]) -> Poly { assert!(b.len() == 320, "codec precondition"); Poly::default() }
pub(crate) fn len_copy<T>(d: &mut [T], s: &[T]) where T: Copy { assert!(d.len() == s.len(), "copy_from_slice: lengths differ"); }
fn raw_from(bytes: &[u8]) -> Poly {
    let mut raw = [0u8; 512];
    raw[..bytes.len()].copy_from_slice(bytes);
    Poly { coeffs: unsafe { core::mem::transmute::<[u8; 512], [U16; 256]>(raw) } }
}
fn raw_read(p: Poly, out: &mut [u8]) {
    let raw = unsafe { core::mem::transmute::<[U16; 256], [u8; 512]>(p.coeffs) };
    let n = out.len();
    out.copy_from_slice(&raw[..n]);
}
pub(crate) fn abs13_from(b: &[u8]) -> Poly { assert!(b.len() == 416, "codec precondition"); raw_from(b) }
pub(crate) fn abs10_from(b: &[u8]) -> Poly { assert!(b.len() == 320, "codec precondition"); raw_from(b) }
pub(crate) fn abs13_read(p: Poly, o: &mut [u8]) { assert!(o.len() == 416, "codec precondition"); raw_read(p, o) }
pub(crate) fn abs10_read(p: Poly, o: &mut [u8]) { assert!(o.len() == 320, "codec precondition"); raw_read(p, o) }
pub(crate) use {proof, proof_abs, proof_len};
pub(crate) fn poly_of(cs: [u16; 256]) -> Poly {
    Poly { coeffs: unsafe { core::mem::transmute::<[u16; 256], [U16; 256]>(cs) } }
}
pub(crate) fn coeffs_of(p: &Poly) -> [u16; 256] {
    unsafe { core::mem::transmute::<[U16; 256], [u16; 256]>(p.coeffs) }
}
mod codec;
mod ops;
