// Child module of generic.rs: thin access to its private functions.
#![allow(dead_code, unused_imports)]
use super::*;
pub(crate) fn recon<I: SaberImpl>(rec: &[u8], p: &Poly) -> Poly { super::recon::<I>(rec, p) }
pub(crate) fn recon_data_gen<I: SaberImpl>(dest: &mut [u8], p: &Poly) { super::recon_data_gen::<I>(dest, p) }
pub(crate) fn bytes_eq_mask(a: &[u8], b: &[u8]) -> u8 { super::bytes_eq_mask(a, b).declassify() }
