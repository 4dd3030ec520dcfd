//! Contract stub: BLAKE2b with output length n is an unknown function of (n, message).
pub use digest::{self, Digest};
extern crate alloc;
use alloc::vec::Vec;
use core::fmt;
use digest::{
    block_buffer::Lazy,
    consts::{U128, U32, U64},
    core_api::{AlgorithmName, Block, BlockSizeUser, Buffer, BufferKindUser, CoreWrapper, CtVariableCoreWrapper, OutputSizeUser, RtVariableCoreWrapper, TruncSide, UpdateCore, VariableOutputCore},
    HashMarker, InvalidOutputSize, Output,
};
macro_rules! imp { ($core:ident, $name:expr, $max:ty, $block:ty) => {
#[derive(Clone)]
pub struct $core { data: Vec<u8>, n: usize }
impl HashMarker for $core {}
impl BlockSizeUser for $core { type BlockSize = $block; }
impl BufferKindUser for $core { type BufferKind = Lazy; }
impl UpdateCore for $core {
    fn update_blocks(&mut self, blocks: &[Block<Self>]) { for b in blocks { self.data.extend_from_slice(b); } }
}
impl OutputSizeUser for $core { type OutputSize = $max; }
impl VariableOutputCore for $core {
    const TRUNC_SIDE: TruncSide = TruncSide::Left;
    fn new(n: usize) -> Result<Self, InvalidOutputSize> { Ok(Self { data: Vec::new(), n }) }
    fn finalize_variable_core(&mut self, buffer: &mut Buffer<Self>, out: &mut Output<Self>) {
        self.data.extend_from_slice(buffer.get_data());
        let mut input = Vec::with_capacity(self.data.len() + 1);
        input.push(self.n as u8);
        input.extend_from_slice(&self.data);
        vfsys::uf($name, &input, out);
    }
}
impl AlgorithmName for $core { fn write_alg_name(f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str($name) } }
impl fmt::Debug for $core { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str($name) } }
} }
imp!(Blake2bVarCore, "blake2b", U64, U128);
imp!(Blake2sVarCore, "blake2s", U32, U64);
pub type Blake2bVar = RtVariableCoreWrapper<Blake2bVarCore>;
pub type Blake2bCore<O> = CtVariableCoreWrapper<Blake2bVarCore, O>;
pub type Blake2b<O> = CoreWrapper<Blake2bCore<O>>;
pub type Blake2b512 = Blake2b<U64>;
pub type Blake2b256 = Blake2b<U32>;
pub type Blake2sCore<O> = CtVariableCoreWrapper<Blake2sVarCore, O>;
pub type Blake2s<O> = CoreWrapper<Blake2sCore<O>>;
pub type Blake2s256 = Blake2s<U32>;
