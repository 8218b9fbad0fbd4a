use serde::{Deserialize, Serialize};
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Block([u8; 16]);
impl Block {
    pub const ZERO: Self = Self([0; 16]);
    pub const ONES: Self = Self([0xff; 16]);
    pub fn new(b: [u8; 16]) -> Self { Self(b) }
    pub fn random<R: rand::Rng + ?Sized>(rng: &mut R) -> Self { let mut b = [0; 16]; rng.fill_bytes(&mut b); Self(b) }
    pub fn to_bytes(self) -> [u8; 16] { self.0 }
    /// Reverses the bits of every byte (as the real type does).
    pub fn reverse_bits(self) -> Self { Self(self.0.map(u8::reverse_bits)) }
}
impl From<[u8; 16]> for Block { fn from(b: [u8; 16]) -> Self { Self(b) } }
impl From<Block> for [u8; 16] { fn from(b: Block) -> Self { b.0 } }
pub mod bitvec {
    #[derive(Clone, Debug, Default, PartialEq, Eq)]
    pub struct BitVec(pub Vec<bool>);
    impl BitVec {
        pub fn len(&self) -> usize { self.0.len() }
        pub fn from_bytes(b: &[u8]) -> Self { BitVec(b.iter().flat_map(|x| (0..8).map(move |i| x >> i & 1 == 1)).collect()) }
        pub fn to_bytes(&self) -> Vec<u8> { self.0.chunks(8).map(|c| c.iter().enumerate().fold(0, |a, (i, b)| a | (*b as u8) << i)).collect() }
    }
}
