//! Contract stub: block i of the output of the deck function is an unknown
//! function of (key, the sequence of finished input strings, i).
extern crate alloc;
use alloc::vec::Vec;
use crypto_permutation::{CryptoReader, DeckFunction, Reader, WriteTooLargeError, Writer};
pub trait FarfalleConfig: Default + Clone { const NAME: &'static str; }
pub mod kravatte {
    #[derive(Copy, Clone, Default, Debug, PartialEq)]
    pub struct KravatteConfig;
    impl super::FarfalleConfig for KravatteConfig { const NAME: &'static str = "kravatte"; }
    pub type Kravatte = super::Farfalle<KravatteConfig>;
}
#[derive(Clone)]
pub struct Farfalle<C: FarfalleConfig> { key: Vec<u8>, input: Vec<u8>, config: C }
impl<C: FarfalleConfig> Farfalle<C> {
    pub fn init_custom(key: &[u8], config: C) -> Self { assert!(key.len() < 200); Farfalle { key: key.to_vec(), input: Vec::new(), config } }
    pub fn init_default(key: &[u8]) -> Self { Self::init_custom(key, C::default()) }
}
impl<C: FarfalleConfig> DeckFunction for Farfalle<C> {
    type InputWriter<'a> = InputWriter<'a, C> where Self: 'a;
    type OutputGenerator = FarfalleOutputGenerator<C>;
    fn init(key: &[u8; 32]) -> Self { Self::init_default(key.as_ref()) }
    fn input_writer<'a>(&'a mut self) -> InputWriter<'a, C> { InputWriter { buf: Vec::new(), f: self } }
    fn output_reader(&self) -> FarfalleOutputGenerator<C> {
        let mut seed = Vec::new();
        seed.extend_from_slice(&(self.key.len() as u64).to_le_bytes());
        seed.extend_from_slice(&self.key);
        seed.extend_from_slice(&self.input);
        seed.extend_from_slice(&[0u8; 8]);
        FarfalleOutputGenerator { seed, pos: 0, block: [0; 200], _c: self.config.clone() }
    }
}
pub struct InputWriter<'a, C: FarfalleConfig> { buf: Vec<u8>, f: &'a mut Farfalle<C> }
impl<'a, C: FarfalleConfig> Writer for InputWriter<'a, C> {
    type Return = ();
    fn capacity(&self) -> usize { usize::MAX }
    fn skip(&mut self, _n: usize) -> Result<(), WriteTooLargeError> { Ok(()) }
    fn write_bytes(&mut self, data: &[u8]) -> Result<(), WriteTooLargeError> { self.buf.extend_from_slice(data); Ok(()) }
    fn finish(self) {
        self.f.input.extend_from_slice(&(self.buf.len() as u64).to_le_bytes());
        self.f.input.extend_from_slice(&self.buf);
    }
}
pub struct FarfalleOutputGenerator<C: FarfalleConfig> { seed: Vec<u8>, pos: u64, block: [u8; 200], _c: C }
impl<C: FarfalleConfig> FarfalleOutputGenerator<C> {
    fn byte(&mut self) -> u8 {
        if self.pos % 200 == 0 {
            let n = self.seed.len();
            self.seed[n - 8..].copy_from_slice(&(self.pos / 200).to_le_bytes());
            vfsys::uf(C::NAME, &self.seed, &mut self.block);
        }
        let b = self.block[(self.pos % 200) as usize];
        self.pos += 1;
        b
    }
}
impl<C: FarfalleConfig> Reader for FarfalleOutputGenerator<C> {
    fn capacity(&self) -> usize { usize::MAX }
    fn skip(&mut self, n: usize) -> Result<(), WriteTooLargeError> { for _ in 0..n { self.byte(); } Ok(()) }
    fn write_to<W: Writer>(&mut self, w: &mut W, n: usize) -> Result<(), WriteTooLargeError> {
        let mut v = Vec::with_capacity(n);
        for _ in 0..n { v.push(self.byte()); }
        w.write_bytes(&v)
    }
}
impl<C: FarfalleConfig> CryptoReader for FarfalleOutputGenerator<C> {}
