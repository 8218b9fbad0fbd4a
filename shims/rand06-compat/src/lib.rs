pub struct Compat<R>(R);
pub trait Rand0_6CompatExt: Sized {
    fn compat(self) -> Compat<Self> { Compat(self) }
    fn compat_by_ref(&mut self) -> Compat<&mut Self> { Compat(self) }
}
impl<R: rand_core::RngCore> Rand0_6CompatExt for R {}
impl<R: rand_core::RngCore> rand_core06::RngCore for Compat<R> {
    fn next_u32(&mut self) -> u32 { self.0.next_u32() }
    fn next_u64(&mut self) -> u64 { self.0.next_u64() }
    fn fill_bytes(&mut self, b: &mut [u8]) { self.0.fill_bytes(b) }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand_core06::Error> { self.0.fill_bytes(b); Ok(()) }
}
impl<R: rand_core::CryptoRng> rand_core06::CryptoRng for Compat<R> {}
