//! Ghost operations interpreted by the verifier (vf/irsym.py, vf/crypto.py).
//! They are the contracts of the external cryptography: unknown functions, a
//! generic prime-order group, EUF-style signature predicates.
#![no_std]
mod raw {
    extern "C" {
        pub fn vf_any(p: *mut u8, n: usize, tag: *const u8, tl: usize);
        pub fn vf_assume(b: bool);
        pub fn vf_assert(b: bool, m: *const u8, n: usize);
        pub fn vf_reach(m: *const u8, n: usize);
        pub fn vf_panic_ok(b: bool);
        pub fn vf_eq(p: *const u8, q: *const u8, n: usize) -> bool;
        pub fn vf_choice(n: usize) -> usize;
        pub fn vf_uf(name: *const u8, nl: usize, i: *const u8, il: usize, o: *mut u8, ol: usize);
        pub fn vf_pred(name: *const u8, nl: usize, i: *const u8, il: usize) -> bool;
        pub fn vf_grp(op: u32, a: *const u8, b: *const u8, o: *mut u8) -> bool;
        pub fn vf_dh(sk: *const u8, pk: *const u8, o: *mut u8);
        pub fn vf_sigver(name: *const u8, nl: usize, pk: *const u8, pl: usize, m: *const u8, ml: usize, s: *const u8, sl: usize) -> bool;
        pub fn vf_kemdec(ct: *const u8, cl: usize, sk: *const u8, o: *mut u8);
        pub fn vf_dep(p: *const u8, n: usize, tag: *const u8, tl: usize) -> bool;
    }
}
pub fn any(out: &mut [u8], tag: &str) { unsafe { raw::vf_any(out.as_mut_ptr(), out.len(), tag.as_ptr(), tag.len()) } }
pub fn arr<const N: usize>(tag: &str) -> [u8; N] { let mut x = [0u8; N]; any(&mut x, tag); x }
pub fn assume(b: bool) { unsafe { raw::vf_assume(b) } }
pub fn check(b: bool, m: &str) { unsafe { raw::vf_assert(b, m.as_ptr(), m.len()) } }
pub fn reach(m: &str) { unsafe { raw::vf_reach(m.as_ptr(), m.len()) } }
pub fn panic_ok(b: bool) { unsafe { raw::vf_panic_ok(b) } }
pub fn choice(n: usize) -> usize { unsafe { raw::vf_choice(n) } }
/// equality of byte strings as one proposition
pub fn same(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && (a.is_empty() || unsafe { raw::vf_eq(a.as_ptr(), b.as_ptr(), a.len()) }) }
pub fn uf(name: &str, input: &[u8], out: &mut [u8]) { unsafe { raw::vf_uf(name.as_ptr(), name.len(), input.as_ptr(), input.len(), out.as_mut_ptr(), out.len()) } }
pub fn pred(name: &str, input: &[u8]) -> bool { unsafe { raw::vf_pred(name.as_ptr(), name.len(), input.as_ptr(), input.len()) } }
pub fn grp(op: u32, a: &[u8], b: &[u8], o: &mut [u8; 32]) -> bool { unsafe { raw::vf_grp(op, a.as_ptr(), b.as_ptr(), o.as_mut_ptr()) } }
pub fn dh(sk: &[u8; 32], pk: &[u8; 32]) -> [u8; 32] { let mut o = [0u8; 32]; unsafe { raw::vf_dh(sk.as_ptr(), pk.as_ptr(), o.as_mut_ptr()) }; o }
pub fn sigver(name: &str, pk: &[u8], m: &[u8], s: &[u8]) -> bool { unsafe { raw::vf_sigver(name.as_ptr(), name.len(), pk.as_ptr(), pk.len(), m.as_ptr(), m.len(), s.as_ptr(), s.len()) } }
pub fn kemdec(ct: &[u8], sk: &[u8; 32], o: &mut [u8; 32]) { unsafe { raw::vf_kemdec(ct.as_ptr(), ct.len(), sk.as_ptr(), o.as_mut_ptr()) } }
/// does every byte of `a` depend on a value drawn with this tag?  (false only if some byte does not)
pub fn dep(a: &[u8], tag: &str) -> bool { unsafe { raw::vf_dep(a.as_ptr(), a.len(), tag.as_ptr(), tag.len()) } }
