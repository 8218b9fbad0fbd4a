pub mod universal_hash {
    use generic_array::{typenum::U16, GenericArray};
    pub use generic_array;
    pub type Key = GenericArray<u8, U16>;
    pub type Block = GenericArray<u8, U16>;
    pub trait KeyInit: Sized { fn new(k: &Key) -> Self; }
    pub trait UniversalHash: Sized {
        fn update_block(&mut self, b: &[u8; 16]);
        fn update_padded(&mut self, d: &[u8]) {
            for c in d.chunks(16) { let mut b = [0; 16]; b[..c.len()].copy_from_slice(c); self.update_block(&b) }
        }
        fn finalize(self) -> Block;
    }
}
use universal_hash::*;
/// GHASH (SP 800-38D), bit by bit.
#[derive(Clone)]
pub struct GHash { h: u128, y: u128 }
fn mul(x: u128, h: u128) -> u128 {
    let (mut z, mut v) = (0, h);
    for i in 0..128 {
        if x >> (127 - i) & 1 == 1 { z ^= v }
        v = v >> 1 ^ if v & 1 == 1 { 0xe1 << 120 } else { 0 };
    }
    z
}
impl KeyInit for GHash { fn new(k: &Key) -> Self { Self { h: u128::from_be_bytes((*k).into()), y: 0 } } }
impl UniversalHash for GHash {
    fn update_block(&mut self, b: &[u8; 16]) { self.y = mul(self.y ^ u128::from_be_bytes(*b), self.h) }
    fn finalize(self) -> Block { self.y.to_be_bytes().into() }
}
