//! Contract stub: arbitrary bytes.
#![no_std]
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Error(core::num::NonZeroU32);
impl Error { pub const CUSTOM_START: u32 = 1 << 31; pub const fn code(self) -> core::num::NonZeroU32 { self.0 } }
impl From<core::num::NonZeroU32> for Error { fn from(c: core::num::NonZeroU32) -> Self { Error(c) } }
impl core::fmt::Display for Error { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("getrandom") } }
pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> { vfsys::any(dest, "os-random"); Ok(()) }
