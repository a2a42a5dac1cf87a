//! Signature-only stand-in for ckb-std, so that the on-chain verifier can be type-checked offline.
//! Nothing here is ever executed.
pub mod ckb_constants {
    #[derive(Clone, Copy, Debug)]
    pub enum Source { Input, Output, CellDep, HeaderDep, GroupInput, GroupOutput }
}
pub mod error {
    #[derive(Debug)]
    pub enum SysError { IndexOutOfBound, ItemMissing, LengthNotEnough(usize), Encoding, Unknown(u64) }
}
pub mod syscalls {
    use crate::ckb_constants::Source;
    pub use crate::error::SysError;
    pub fn debug(_s: String) { unimplemented!() }
    pub fn load_witness(_buf: &mut [u8], _offset: usize, _index: usize, _source: Source) -> Result<usize, SysError> { unimplemented!() }
}
#[macro_export]
macro_rules! entry {
    ($path:path) => {
        extern crate alloc;
        #[allow(dead_code)]
        fn __entry() -> i8 { let f: fn() -> i8 = $path; f() }
    };
}
#[macro_export]
macro_rules! default_alloc {
    ($($t:tt)*) => {};
}
