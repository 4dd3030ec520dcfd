//! Contract stub: SHA-2 with output length n is an unknown function of (n, message).
pub use digest::{self, Digest};
extern crate alloc;
use alloc::vec::Vec;
use core::fmt;
use digest::{
    block_buffer::Eager,
    consts::{U128, U28, U32, U48, U64},
    core_api::{AlgorithmName, Block, BlockSizeUser, Buffer, BufferKindUser, CoreWrapper, CtVariableCoreWrapper, OutputSizeUser, TruncSide, UpdateCore, VariableOutputCore},
    HashMarker, InvalidOutputSize, Output,
};
macro_rules! imp { ($core:ident, $name:expr, $max:ty, $block:ty) => {
#[derive(Clone)]
pub struct $core { data: Vec<u8>, n: usize }
impl HashMarker for $core {}
impl BlockSizeUser for $core { type BlockSize = $block; }
impl BufferKindUser for $core { type BufferKind = Eager; }
impl UpdateCore for $core {
    fn update_blocks(&mut self, blocks: &[Block<Self>]) { for b in blocks { self.data.extend_from_slice(b); } }
}
impl OutputSizeUser for $core { type OutputSize = $max; }
impl VariableOutputCore for $core {
    const TRUNC_SIDE: TruncSide = TruncSide::Left;
    fn new(n: usize) -> Result<Self, InvalidOutputSize> { Ok(Self { data: Vec::new(), n }) }
    fn finalize_variable_core(&mut self, buffer: &mut Buffer<Self>, out: &mut Output<Self>) {
        self.data.extend_from_slice(buffer.get_data());
        let mut input = Vec::with_capacity(self.data.len() + 1);
        input.push(self.n as u8);
        input.extend_from_slice(&self.data);
        vfsys::uf($name, &input, out);
    }
}
impl AlgorithmName for $core { fn write_alg_name(f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str($name) } }
impl fmt::Debug for $core { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str($name) } }
} }
imp!(Sha256VarCore, "sha256", U32, U64);
imp!(Sha512VarCore, "sha512", U64, U128);
pub type Sha224 = CoreWrapper<CtVariableCoreWrapper<Sha256VarCore, U28>>;
pub type Sha256 = CoreWrapper<CtVariableCoreWrapper<Sha256VarCore, U32>>;
pub type Sha384 = CoreWrapper<CtVariableCoreWrapper<Sha512VarCore, U48>>;
pub type Sha512 = CoreWrapper<CtVariableCoreWrapper<Sha512VarCore, U64>>;
