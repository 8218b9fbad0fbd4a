pub use cipher;
use cipher::{generic_array::{typenum::U16, GenericArray}, Block16, BlockEncrypt, KeyInit};
#[derive(Clone)]
pub struct Aes128([u8; 16]);
impl KeyInit for Aes128 { type K = U16; fn new(k: &GenericArray<u8, U16>) -> Self { Self((*k).into()) } }
impl Aes128 {
    pub fn ecb(&self, data: &[u8]) -> Vec<u8> {
        use openssl::symm::*;
        let mut c = Crypter::new(Cipher::aes_128_ecb(), Mode::Encrypt, &self.0, None).unwrap();
        c.pad(false);
        let mut out = vec![0; data.len() + 16];
        let mut n = c.update(data, &mut out).unwrap();
        n += c.finalize(&mut out[n..]).unwrap();
        out.truncate(n);
        out
    }
}
impl BlockEncrypt for Aes128 {
    fn encrypt_block(&self, b: &mut Block16) { let o = self.ecb(b); b.copy_from_slice(&o) }
}
