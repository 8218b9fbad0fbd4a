//! AES-128-GCM over ring with the API surface of `aes-gcm` 0.9.
pub use aead::{self, Aead as AeadTrait, Error, NewAead};
use aead::{Aead, Payload};
use generic_array::{typenum::U12, GenericArray};
pub type Nonce = GenericArray<u8, U12>;
pub struct Aes128Gcm(ring::aead::LessSafeKey);
impl NewAead for Aes128Gcm {
    fn new_from_slice(k: &[u8]) -> Result<Self, Error> {
        Ok(Self(ring::aead::LessSafeKey::new(ring::aead::UnboundKey::new(&ring::aead::AES_128_GCM, k).map_err(|_| Error)?)))
    }
}
impl Aead for Aes128Gcm {
    type NonceSize = U12;
    fn encrypt<'m, 'a>(&self, n: &GenericArray<u8, U12>, p: impl Into<Payload<'m, 'a>>) -> Result<Vec<u8>, Error> {
        let p = p.into();
        let mut v = p.msg.to_vec();
        let n = ring::aead::Nonce::try_assume_unique_for_key(n).map_err(|_| Error)?;
        self.0.seal_in_place_append_tag(n, ring::aead::Aad::from(p.aad), &mut v).map_err(|_| Error)?;
        Ok(v)
    }
    fn decrypt<'m, 'a>(&self, n: &GenericArray<u8, U12>, p: impl Into<Payload<'m, 'a>>) -> Result<Vec<u8>, Error> {
        let p = p.into();
        let mut v = p.msg.to_vec();
        let n = ring::aead::Nonce::try_assume_unique_for_key(n).map_err(|_| Error)?;
        let l = self.0.open_in_place(n, ring::aead::Aad::from(p.aad), &mut v).map_err(|_| Error)?.len();
        v.truncate(l);
        Ok(v)
    }
}
impl aead::AeadMutInPlace for Aes128Gcm {
    type NonceLen = U12;
    fn encrypt_in_place_detached(&mut self, n: &GenericArray<u8, U12>, aad: &[u8], buf: &mut [u8]) -> Result<aead::Tag, Error> {
        let v = self.encrypt(n, Payload { msg: buf, aad })?;
        let l = buf.len();
        buf.copy_from_slice(&v[..l]);
        Ok(*aead::Tag::from_slice(&v[l..]))
    }
    fn decrypt_in_place_detached(&mut self, n: &GenericArray<u8, U12>, aad: &[u8], buf: &mut [u8], tag: &aead::Tag) -> Result<(), Error> {
        let msg = [&*buf, &tag[..]].concat();
        buf.copy_from_slice(&self.decrypt(n, Payload { msg: &msg, aad })?);
        Ok(())
    }
}
