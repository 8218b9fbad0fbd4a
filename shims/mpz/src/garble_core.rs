use crate::core::Block;
#[derive(Clone, Copy, Debug)]
pub struct Delta(Block);
impl Delta {
    pub fn new(b: Block) -> Self { Self(b) }
    pub fn random<R: rand::Rng + ?Sized>(r: &mut R) -> Self { Self(Block::random(r)) }
    pub fn into_inner(self) -> Block { self.0 }
}
