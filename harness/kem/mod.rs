// C06.  Appended to a copy of the real crate whose sha3 and rand_os
// dependencies are replaced by their contracts (an unknown function; any bytes).
#![allow(dead_code, unused_imports, unused_macros, static_mut_refs)]
use crate::poly::Poly;
use std::ptr::NonNull;
pub unsafe fn nn_add<T>(p: NonNull<T>, n: usize) -> NonNull<T> { NonNull::new_unchecked(p.as_ptr().wrapping_add(n)) }
pub unsafe fn mp_add<T>(p: *mut T, n: usize) -> *mut T { p.wrapping_add(n) }
pub unsafe fn cp_add<T>(p: *const T, n: usize) -> *const T { p.wrapping_add(n) }
// contract of the 10-bit codec towards the KEM layer: the bytes are a function
// of the polynomial; the KEM only hashes them
pub(crate) fn abs10_read(p: Poly, o: &mut [u8]) {
    assert!(o.len() == 320, "codec precondition");
    let raw = unsafe { core::mem::transmute::<[secret_integers::U16; 256], [u8; 512]>(p.coeffs) };
    o.copy_from_slice(&raw[..320]);
}
