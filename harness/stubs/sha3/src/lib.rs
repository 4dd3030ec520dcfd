//! Contract of the hash dependency: every algorithm is an unknown function of
//! its input (functional consistency over a ghost table of calls); nothing
//! else is assumed about it.  Kani only.
#![allow(static_mut_refs, dead_code)]
use std::ops::{Deref, DerefMut};
// A call's input is kept as its short bytes plus tokens for long pieces (public
// keys, ciphertexts).  Two long pieces have the same token iff they are equal.
pub const SMALL: usize = 64;
pub const MAXCALLS: usize = 16;
pub const MAXLONG: usize = 8;
pub const LONGLEN: usize = 1536;
static mut LDATA: [[u8; LONGLEN]; MAXLONG] = [[0; LONGLEN]; MAXLONG];
static mut LLEN: [usize; MAXLONG] = [0; MAXLONG];
static mut LTOK: [u8; MAXLONG] = [0; MAXLONG];
static mut NLONG: usize = 0;
static mut ALG: [u8; MAXCALLS] = [0; MAXCALLS];
static mut SLEN: [usize; MAXCALLS] = [0; MAXCALLS];
static mut SDATA: [[u8; SMALL]; MAXCALLS] = [[0; SMALL]; MAXCALLS];
static mut TOK: [[u8; 2]; MAXCALLS] = [[0; 2]; MAXCALLS];
static mut POS: [[usize; 2]; MAXCALLS] = [[0; 2]; MAXCALLS];
static mut OUT: [[u8; 64]; MAXCALLS] = [[0; 64]; MAXCALLS];
static mut NCALLS: usize = 0;
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    let n = a.len();
    if n != b.len() { return false; }
    let (p, q) = (a.as_ptr(), b.as_ptr());
    let mut acc = 0u8;
    let mut i = 0;
    while i < n { acc |= unsafe { *p.wrapping_add(i) ^ *q.wrapping_add(i) }; i += 1; }
    acc == 0
}
fn token(d: &[u8]) -> u8 {
    unsafe {
        let n = NLONG;
        assert!(n < MAXLONG && d.len() <= LONGLEN, "VF-UNDECIDED ghost hash table capacity");
        let mut t = n as u8 + 1;
        let mut k = 0;
        while k < n { if LLEN[k] == d.len() { if eq(&LDATA[k][..LLEN[k]], d) { t = LTOK[k]; } } k += 1; }
        LLEN[n] = d.len(); LTOK[n] = t; LDATA[n][..d.len()].copy_from_slice(d);
        NLONG = n + 1;
        t
    }
}
#[derive(Clone, Copy)]
pub struct State { alg: u8, len: usize, small: [u8; SMALL], n: usize, tok: [u8; 2], pos: [usize; 2] }
impl State {
    fn new(alg: u8) -> State { State { alg, len: 0, small: [0; SMALL], n: 0, tok: [0; 2], pos: [0; 2] } }
    fn add(&mut self, d: &[u8]) {
        if d.len() > SMALL { assert!(self.n < 2, "VF-UNDECIDED ghost hash piece capacity"); self.tok[self.n] = token(d); self.pos[self.n] = 1 + self.len; self.n += 1; }
        else { assert!(self.len + d.len() <= SMALL, "VF-UNDECIDED ghost hash input capacity"); self.small[self.len..self.len + d.len()].copy_from_slice(d); self.len += d.len(); }
    }
    fn finish(&self) -> [u8; 64] {
        unsafe {
            let n = NCALLS;
            assert!(n < MAXCALLS, "VF-UNDECIDED ghost hash table capacity");
            let mut res: [u8; 64] = any64();
            let mut k = 0;
            while k < n {
                if ALG[k] == self.alg && SLEN[k] == self.len && POS[k][0] == self.pos[0] && POS[k][1] == self.pos[1] {
                    if TOK[k][0] == self.tok[0] && TOK[k][1] == self.tok[1] && eq(&SDATA[k], &self.small) { res = OUT[k]; }
                }
                k += 1;
            }
            ALG[n] = self.alg; SLEN[n] = self.len; POS[n] = self.pos; TOK[n] = self.tok; SDATA[n] = self.small; OUT[n] = res;
            NCALLS = n + 1;
            res
        }
    }
    fn out<const N: usize>(&self) -> Out<N> { let r = self.finish(); let mut o = [0u8; N]; o.copy_from_slice(&r[..N]); Out(o) }
}
/// the unknown function itself
pub fn ghost(alg: u8, data: &[u8]) -> [u8; 64] { let mut s = State::new(alg); s.add(data); s.finish() }
#[cfg(kani)] fn any64() -> [u8; 64] { kani::any() }
#[cfg(not(kani))] fn any64() -> [u8; 64] { unimplemented!() }
#[derive(Clone, Copy)]
pub struct Out<const N: usize>(pub [u8; N]);
impl<const N: usize> Out<N> { pub fn as_slice(&self) -> &[u8] { &self.0 } pub fn as_mut_slice(&mut self) -> &mut [u8] { &mut self.0 } }
impl<const N: usize> Deref for Out<N> { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
impl<const N: usize> DerefMut for Out<N> { fn deref_mut(&mut self) -> &mut [u8] { &mut self.0 } }
impl<const N: usize> AsRef<[u8]> for Out<N> { fn as_ref(&self) -> &[u8] { &self.0 } }
impl<const N: usize> From<Out<N>> for [u8; N] { fn from(o: Out<N>) -> [u8; N] { o.0 } }

pub mod digest {
    pub trait Input { fn input<B: AsRef<[u8]>>(&mut self, data: B); fn chain<B: AsRef<[u8]>>(mut self, data: B) -> Self where Self: Sized { self.input(data); self } }
    pub trait FixedOutput { type Output; fn fixed_result(self) -> Self::Output; }
    pub trait XofReader { fn read(&mut self, buffer: &mut [u8]); }
    pub trait ExtendableOutput { type Reader: XofReader; fn xof_result(self) -> Self::Reader; }
    pub trait Reset { fn reset(&mut self); }
    pub use super::Digest;
}
pub trait Digest: Sized {
    type Output;
    fn new() -> Self;
    fn input<B: AsRef<[u8]>>(&mut self, data: B);
    fn chain<B: AsRef<[u8]>>(self, data: B) -> Self;
    fn result(self) -> Self::Output;
    fn digest(data: &[u8]) -> Self::Output; fn output_size() -> usize { 0 }
}
macro_rules! hash { ($n:ident, $alg:expr, $len:expr) => {
    #[derive(Clone, Copy)] pub struct $n(State);
    impl Default for $n { fn default() -> Self { $n(State::new($alg)) } }
    impl digest::Input for $n { fn input<B: AsRef<[u8]>>(&mut self, d: B) { self.0.add(d.as_ref()) } }
    impl digest::FixedOutput for $n { type Output = Out<$len>; fn fixed_result(self) -> Out<$len> { self.0.out() } }
    impl digest::Reset for $n { fn reset(&mut self) { *self = Self::default() } }
    impl Digest for $n {
        type Output = Out<$len>;
        fn new() -> Self { Self::default() }
        fn input<B: AsRef<[u8]>>(&mut self, d: B) { self.0.add(d.as_ref()) }
        fn chain<B: AsRef<[u8]>>(mut self, d: B) -> Self { self.0.add(d.as_ref()); self }
        fn result(self) -> Out<$len> { self.0.out() }
        fn digest(d: &[u8]) -> Out<$len> { let r = ghost($alg, d); let mut o = [0u8; $len]; o.copy_from_slice(&r[..$len]); Out(o) }
    }
} }
hash!(Sha3_256, 1, 32);
hash!(Sha3_512, 2, 64);
hash!(Sha3_384, 3, 48);
macro_rules! xof { ($n:ident, $alg:expr) => {
    #[derive(Clone, Copy)] pub struct $n(State);
    impl Default for $n { fn default() -> Self { $n(State::new($alg)) } }
    impl digest::Input for $n { fn input<B: AsRef<[u8]>>(&mut self, d: B) { self.0.add(d.as_ref()) } }
    impl digest::ExtendableOutput for $n { type Reader = Reader; fn xof_result(self) -> Reader { Reader } }
} }
pub struct Reader;
impl digest::XofReader for Reader { fn read(&mut self, _b: &mut [u8]) { unimplemented!("extendable output is outside this contract") } }
xof!(Shake128, 4);
xof!(Shake256, 5);
