pub use generic_array;
use generic_array::{ArrayLength, GenericArray};
pub type Block16 = GenericArray<u8, generic_array::typenum::U16>;
pub trait KeyIvInit: Sized {
    type K: ArrayLength<u8>;
    type I: ArrayLength<u8>;
    fn new(k: &GenericArray<u8, Self::K>, iv: &GenericArray<u8, Self::I>) -> Self;
}
pub trait KeyInit: Sized {
    type K: ArrayLength<u8>;
    fn new(k: &GenericArray<u8, Self::K>) -> Self;
}
pub trait BlockEncrypt { fn encrypt_block(&self, b: &mut Block16); }
#[derive(Debug, Clone, Copy)]
pub struct StreamCipherError;
impl std::fmt::Display for StreamCipherError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("stream cipher error") } }
impl std::error::Error for StreamCipherError {}
pub trait StreamCipher {
    fn apply_keystream(&mut self, b: &mut [u8]);
    fn try_apply_keystream(&mut self, b: &mut [u8]) -> Result<(), StreamCipherError> { self.apply_keystream(b); Ok(()) }
}
pub trait StreamCipherSeek {
    fn pos(&self) -> u64;
    fn set_pos(&mut self, p: u64);
    fn seek<T: TryInto<u64>>(&mut self, p: T) where T::Error: std::fmt::Debug { self.set_pos(p.try_into().expect("stream position")) }
    fn try_seek<T: TryInto<u64>>(&mut self, p: T) -> Result<(), StreamCipherError> { self.set_pos(p.try_into().map_err(|_| StreamCipherError)?); Ok(()) }
    fn current_pos<T: TryFrom<u64>>(&self) -> T where T::Error: std::fmt::Debug { self.pos().try_into().expect("stream position") }
}
