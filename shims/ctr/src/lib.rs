pub use cipher;
use cipher::{generic_array::{typenum::U16, GenericArray}, KeyInit, KeyIvInit, StreamCipher, StreamCipherSeek};
/// Counter mode with a 32-bit big-endian counter in the last four bytes of the block.
pub struct Ctr32BE<C> { c: C, iv: [u8; 16], pos: u64 }
impl KeyIvInit for Ctr32BE<aes::Aes128> {
    type K = U16;
    type I = U16;
    fn new(k: &GenericArray<u8, U16>, iv: &GenericArray<u8, U16>) -> Self { Self { c: aes::Aes128::new(k), iv: (*iv).into(), pos: 0 } }
}
impl StreamCipher for Ctr32BE<aes::Aes128> {
    fn apply_keystream(&mut self, b: &mut [u8]) {
        if b.is_empty() { return }
        let (first, last) = (self.pos / 16, (self.pos + b.len() as u64 - 1) / 16);
        let mut blocks = vec![];
        for i in first..=last {
            let ctr = u32::from_be_bytes(self.iv[12..].try_into().unwrap()).wrapping_add(i as u32);
            blocks.extend_from_slice(&self.iv[..12]);
            blocks.extend_from_slice(&ctr.to_be_bytes());
        }
        let ks = self.c.ecb(&blocks);
        let off = (self.pos % 16) as usize;
        for (x, k) in b.iter_mut().zip(&ks[off..]) { *x ^= k }
        self.pos += b.len() as u64;
    }
}
impl<C> StreamCipherSeek for Ctr32BE<C> {
    fn pos(&self) -> u64 { self.pos }
    fn set_pos(&mut self, p: u64) { self.pos = p }
}
