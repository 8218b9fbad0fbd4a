use crate::core::bitvec::BitVec;
use futures::channel::oneshot;
use std::{fmt::{self, Debug, Display}, future::Future, marker::PhantomData, ops::Range, pin::Pin, task::{Context, Poll}};
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Slice { start: usize, end: usize }
impl Slice {
    pub fn to_range(self) -> Range<usize> { self.start..self.end }
    pub fn from_range_unchecked(r: Range<usize>) -> Self { Self { start: r.start, end: r.end } }
    pub fn len(&self) -> usize { self.end - self.start }
    pub fn is_empty(&self) -> bool { self.end == self.start }
}
impl Display for Slice { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "[{}..{}]", self.start, self.end) } }
pub trait MemoryType { type Raw; }
pub trait ToRaw { fn to_raw(&self) -> Slice; }
impl ToRaw for Slice { fn to_raw(&self) -> Slice { *self } }
impl<T: ToRaw> ToRaw for &T { fn to_raw(&self) -> Slice { (**self).to_raw() } }
pub trait FromRaw<M> { fn from_raw(s: Slice) -> Self; }
pub trait StaticSize<M> { const SIZE: usize; }
/// A typed reference and the conversion of its clear value.
pub trait Repr<M>: ToRaw + FromRaw<M> { type Clear; fn encode(c: Self::Clear) -> BitVec; fn decode(b: BitVec) -> Self::Clear; }
pub trait Prim: Copy { const BITS: usize; type Clear: Copy + Default; fn bits(c: Self::Clear, out: &mut Vec<bool>); fn clear(b: &[bool]) -> Self::Clear; }
pub mod binary {
    use super::*;
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Binary;
    impl MemoryType for Binary { type Raw = BitVec; }
    macro_rules! prim { ($($n:ident $t:ty),*) => { $(
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub struct $n(pub(super) Slice);
        impl Prim for $n {
            const BITS: usize = <$t>::BITS as usize;
            type Clear = $t;
            fn bits(c: $t, out: &mut Vec<bool>) { out.extend((0..<$t>::BITS).map(|i| c >> i & 1 == 1)) }
            fn clear(b: &[bool]) -> $t { b.iter().enumerate().fold(0, |a, (i, b)| a | (*b as $t) << i) }
        }
        impl ToRaw for $n { fn to_raw(&self) -> Slice { self.0 } }
        impl FromRaw<Binary> for $n { fn from_raw(s: Slice) -> Self { assert_eq!(s.len(), Self::BITS); Self(s) } }
        impl StaticSize<Binary> for $n { const SIZE: usize = <$t>::BITS as usize; }
        impl Repr<Binary> for $n {
            type Clear = $t;
            fn encode(c: $t) -> BitVec { let mut v = vec![]; Self::bits(c, &mut v); BitVec(v) }
            fn decode(b: BitVec) -> $t { Self::clear(&b.0) }
        }
    )* } }
    prim!(U8 u8, U16 u16, U32 u32, U64 u64);
}
use binary::Binary;
pub struct Array<T, const N: usize>(Slice, PhantomData<T>);
impl<T, const N: usize> Clone for Array<T, N> { fn clone(&self) -> Self { *self } }
impl<T, const N: usize> Copy for Array<T, N> {}
impl<T, const N: usize> Debug for Array<T, N> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Array{}", self.0) } }
impl<T, const N: usize> PartialEq for Array<T, N> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<T, const N: usize> ToRaw for Array<T, N> { fn to_raw(&self) -> Slice { self.0 } }
impl<T: Prim, const N: usize> FromRaw<Binary> for Array<T, N> { fn from_raw(s: Slice) -> Self { assert_eq!(s.len(), T::BITS * N, "array reference has the wrong size"); Self(s, PhantomData) } }
impl<T: Prim, const N: usize> StaticSize<Binary> for Array<T, N> { const SIZE: usize = T::BITS * N; }
impl<T: Prim, const N: usize> Repr<Binary> for Array<T, N> {
    type Clear = [T::Clear; N];
    fn encode(c: Self::Clear) -> BitVec { let mut v = vec![]; c.iter().for_each(|c| T::bits(*c, &mut v)); BitVec(v) }
    fn decode(b: BitVec) -> Self::Clear { std::array::from_fn(|i| T::clear(&b.0[i * T::BITS..(i + 1) * T::BITS])) }
}
pub struct Vector<T>(Slice, PhantomData<T>);
impl<T> Clone for Vector<T> { fn clone(&self) -> Self { *self } }
impl<T> Copy for Vector<T> {}
impl<T> Debug for Vector<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Vector{}", self.0) } }
impl<T> PartialEq for Vector<T> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<T> ToRaw for Vector<T> { fn to_raw(&self) -> Slice { self.0 } }
impl<T: Prim> FromRaw<Binary> for Vector<T> { fn from_raw(s: Slice) -> Self { assert_eq!(s.len() % T::BITS, 0); Self(s, PhantomData) } }
impl<T: Prim> Repr<Binary> for Vector<T> {
    type Clear = Vec<T::Clear>;
    fn encode(c: Self::Clear) -> BitVec { let mut v = vec![]; c.iter().for_each(|c| T::bits(*c, &mut v)); BitVec(v) }
    fn decode(b: BitVec) -> Self::Clear { b.0.chunks(T::BITS).map(T::clear).collect() }
}
impl<T: Prim> Vector<T> {
    pub fn len(&self) -> usize { self.0.len() / T::BITS }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    fn sub(&self, r: Range<usize>) -> Self { Self(Slice { start: self.0.start + r.start * T::BITS, end: self.0.start + r.end * T::BITS }, PhantomData) }
    pub fn get(&self, r: Range<usize>) -> Option<Self> { (r.start <= r.end && r.end <= self.len()).then(|| self.sub(r)) }
    pub fn truncate(&mut self, n: usize) { if n < self.len() { *self = self.sub(0..n); } }
    pub fn split_off(&mut self, at: usize) -> Self {
        assert!(at <= self.len());
        let tail = self.sub(at..self.len());
        *self = self.sub(0..at);
        tail
    }
}
impl<T, const N: usize> From<Array<T, N>> for Vector<T> { fn from(a: Array<T, N>) -> Self { Self(a.0, PhantomData) } }
#[derive(Debug, thiserror::Error)]
#[error("vector length {0} does not match the array length {1}")]
pub struct LengthError(usize, usize);
impl<T: Prim, const N: usize> TryFrom<Vector<T>> for Array<T, N> {
    type Error = LengthError;
    fn try_from(v: Vector<T>) -> Result<Self, LengthError> { if v.len() == N { Ok(Self(v.0, PhantomData)) } else { Err(LengthError(v.len(), N)) } }
}
#[derive(Debug, thiserror::Error)]
#[error("value will never be decoded")]
pub struct DecodeError;
#[derive(Debug)]
pub struct DecodeFuture<R>(pub(crate) oneshot::Receiver<R>);
impl<R> DecodeFuture<R> { pub fn try_recv(&mut self) -> Result<Option<R>, DecodeError> { self.0.try_recv().map_err(|_| DecodeError) } }
impl<R> Future for DecodeFuture<R> {
    type Output = Result<R, DecodeError>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> { Pin::new(&mut self.0).poll(cx).map_err(|_| DecodeError) }
}
pub struct DecodeFutureTyped<R, T> { fut: DecodeFuture<R>, conv: fn(R) -> T }
impl<R, T> Debug for DecodeFutureTyped<R, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("DecodeFutureTyped") } }
impl<R, T> DecodeFutureTyped<R, T> { pub fn try_recv(&mut self) -> Result<Option<T>, DecodeError> { Ok(self.fut.try_recv()?.map(self.conv)) } }
impl<R, T> Future for DecodeFutureTyped<R, T> {
    type Output = Result<T, DecodeError>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> { let conv = self.conv; Pin::new(&mut self.fut).poll(cx).map_ok(conv) }
}
pub trait Memory<M: MemoryType> {
    type Error;
    fn is_alloc_raw(&self, s: Slice) -> bool;
    fn alloc_raw(&mut self, size: usize) -> Result<Slice, Self::Error>;
    fn is_assigned_raw(&self, s: Slice) -> bool;
    fn assign_raw(&mut self, s: Slice, data: M::Raw) -> Result<(), Self::Error>;
    fn is_committed_raw(&self, s: Slice) -> bool;
    fn commit_raw(&mut self, s: Slice) -> Result<(), Self::Error>;
    fn get_raw(&self, s: Slice) -> Result<Option<M::Raw>, Self::Error>;
    fn decode_raw(&mut self, s: Slice) -> Result<DecodeFuture<M::Raw>, Self::Error>;
}
pub trait View<M: MemoryType> {
    type Error;
    fn mark_public_raw(&mut self, s: Slice) -> Result<(), Self::Error>;
    fn mark_private_raw(&mut self, s: Slice) -> Result<(), Self::Error>;
    fn mark_blind_raw(&mut self, s: Slice) -> Result<(), Self::Error>;
}
pub trait MemoryExt: Memory<Binary> {
    fn alloc<R: Repr<Binary> + StaticSize<Binary>>(&mut self) -> Result<R, Self::Error> { self.alloc_raw(R::SIZE).map(R::from_raw) }
    fn alloc_vec<T: Prim>(&mut self, n: usize) -> Result<Vector<T>, Self::Error> { self.alloc_raw(T::BITS * n).map(Vector::from_raw) }
    fn is_assigned<R: Repr<Binary>>(&self, r: R) -> bool { self.is_assigned_raw(r.to_raw()) }
    fn assign<R: Repr<Binary>>(&mut self, r: R, c: R::Clear) -> Result<(), Self::Error> { self.assign_raw(r.to_raw(), R::encode(c)) }
    fn is_committed<R: Repr<Binary>>(&self, r: R) -> bool { self.is_committed_raw(r.to_raw()) }
    fn commit<R: Repr<Binary>>(&mut self, r: R) -> Result<(), Self::Error> { self.commit_raw(r.to_raw()) }
    fn get<R: Repr<Binary>>(&self, r: R) -> Result<Option<R::Clear>, Self::Error> { Ok(self.get_raw(r.to_raw())?.map(R::decode)) }
    fn decode<R: Repr<Binary>>(&mut self, r: R) -> Result<DecodeFutureTyped<BitVec, R::Clear>, Self::Error> { Ok(DecodeFutureTyped { fut: self.decode_raw(r.to_raw())?, conv: R::decode }) }
}
impl<T: Memory<Binary> + ?Sized> MemoryExt for T {}
pub trait ViewExt: View<Binary> {
    fn mark_public<R: Repr<Binary>>(&mut self, r: R) -> Result<(), Self::Error> { self.mark_public_raw(r.to_raw()) }
    fn mark_private<R: Repr<Binary>>(&mut self, r: R) -> Result<(), Self::Error> { self.mark_private_raw(r.to_raw()) }
    fn mark_blind<R: Repr<Binary>>(&mut self, r: R) -> Result<(), Self::Error> { self.mark_blind_raw(r.to_raw()) }
}
impl<T: View<Binary> + ?Sized> ViewExt for T {}
