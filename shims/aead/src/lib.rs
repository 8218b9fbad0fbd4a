pub use generic_array;
use generic_array::{ArrayLength, GenericArray};
#[derive(Debug, Clone, Copy)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("aead::Error") }
}
impl std::error::Error for Error {}
pub struct Payload<'m, 'a> { pub msg: &'m [u8], pub aad: &'a [u8] }
impl<'m> From<&'m [u8]> for Payload<'m, '_> { fn from(msg: &'m [u8]) -> Self { Payload { msg, aad: b"" } } }
pub trait NewAead: Sized {
    fn new_from_slice(key: &[u8]) -> Result<Self, Error>;
    fn new(key: &GenericArray<u8, generic_array::typenum::U16>) -> Self { Self::new_from_slice(key).expect("key") }
}
pub type Tag = GenericArray<u8, generic_array::typenum::U16>;
pub trait AeadMutInPlace {
    type NonceLen: ArrayLength<u8>;
    fn encrypt_in_place_detached(&mut self, nonce: &GenericArray<u8, Self::NonceLen>, aad: &[u8], buf: &mut [u8]) -> Result<Tag, Error>;
    fn decrypt_in_place_detached(&mut self, nonce: &GenericArray<u8, Self::NonceLen>, aad: &[u8], buf: &mut [u8], tag: &Tag) -> Result<(), Error>;
}
pub trait Aead {
    type NonceSize: ArrayLength<u8>;
    fn encrypt<'m, 'a>(&self, nonce: &GenericArray<u8, Self::NonceSize>, p: impl Into<Payload<'m, 'a>>) -> Result<Vec<u8>, Error>;
    fn decrypt<'m, 'a>(&self, nonce: &GenericArray<u8, Self::NonceSize>, p: impl Into<Payload<'m, 'a>>) -> Result<Vec<u8>, Error>;
}
