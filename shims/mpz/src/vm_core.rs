use crate::{circuits::Circuit, common::Context, memory_core::{self as mc, binary::Binary, *}};
use std::sync::Arc;
type BoxErr = Box<dyn std::error::Error + Send + Sync>;
#[derive(Debug, thiserror::Error)]
pub enum VmError {
    #[error("memory error: {0}")]
    Memory(#[source] BoxErr),
    #[error("execution error: {0}")]
    Execute(#[source] BoxErr),
    #[error("call error: {0}")]
    Call(#[source] BoxErr),
}
impl VmError {
    pub fn memory<E: Into<BoxErr>>(e: E) -> Self { Self::Memory(e.into()) }
    pub fn execute<E: Into<BoxErr>>(e: E) -> Self { Self::Execute(e.into()) }
    pub fn call<E: Into<BoxErr>>(e: E) -> Self { Self::Call(e.into()) }
}
#[derive(Debug, thiserror::Error)]
#[error("call error: {0}")]
pub struct CallError(String);
#[derive(Debug, Clone)]
pub struct Call { circ: Arc<Circuit>, inputs: Vec<Slice> }
impl Call {
    pub fn builder(circ: Arc<Circuit>) -> CallBuilder { CallBuilder::new(circ) }
    pub fn into_parts(self) -> (Arc<Circuit>, Vec<Slice>) { (self.circ, self.inputs) }
    pub fn circ(&self) -> &Circuit { &self.circ }
}
#[derive(Debug)]
pub struct CallBuilder(Call);
impl CallBuilder {
    pub fn new(circ: Arc<Circuit>) -> Self { Self(Call { circ, inputs: vec![] }) }
    pub fn arg(mut self, v: impl ToRaw) -> Self { self.0.inputs.push(v.to_raw()); self }
    pub fn build(self) -> Result<Call, CallError> {
        let n: usize = self.0.inputs.iter().map(|i| i.len()).sum();
        if n != self.0.circ.input_len() { return Err(CallError(format!("{n} bits given, {} expected", self.0.circ.input_len()))); }
        Ok(self.0)
    }
}
pub trait Callable<M> { fn call_raw(&mut self, call: Call) -> Result<Slice, VmError>; }
pub trait CallReturn { fn from_output(s: Slice) -> Self; }
macro_rules! ret { ($($t:ty [$($g:tt)*]),*) => { $( impl<$($g)*> CallReturn for $t { fn from_output(s: Slice) -> Self { <Self as FromRaw<Binary>>::from_raw(s) } } )* } }
ret!(Array<T, N> [T: Prim, const N: usize], Vector<T> [T: Prim]);
macro_rules! tup { ($($g:ident),*) => {
    impl<$($g: CallReturn + StaticSize<Binary>),*> CallReturn for ($($g,)*) {
        fn from_output(s: Slice) -> Self {
            let mut at = s.to_range().start;
            let out = ($({ let r = at..at + $g::SIZE; at = r.end; $g::from_output(Slice::from_range_unchecked(r)) },)*);
            assert_eq!(at, s.to_range().end);
            out
        }
    }
} }
tup!(A, B);
tup!(A, B, C);
pub trait CallableExt: Callable<Binary> {
    fn call<R: CallReturn>(&mut self, call: Call) -> Result<R, VmError> { self.call_raw(call).map(R::from_output) }
}
impl<T: Callable<Binary> + ?Sized> CallableExt for T {}
#[async_trait::async_trait]
pub trait Execute {
    fn wants_flush(&self) -> bool;
    async fn flush(&mut self, ctx: &mut Context) -> Result<(), VmError>;
    fn wants_preprocess(&self) -> bool;
    async fn preprocess(&mut self, ctx: &mut Context) -> Result<(), VmError>;
    fn wants_execute(&self) -> bool;
    async fn execute(&mut self, ctx: &mut Context) -> Result<(), VmError>;
    async fn execute_all(&mut self, ctx: &mut Context) -> Result<(), VmError> {
        while self.wants_flush() || self.wants_preprocess() || self.wants_execute() {
            if self.wants_flush() { self.flush(ctx).await?; }
            if self.wants_preprocess() { self.preprocess(ctx).await?; }
            if self.wants_execute() { self.execute(ctx).await?; }
        }
        Ok(())
    }
}
pub trait Vm<M: MemoryType>: Memory<M, Error = VmError> + View<M, Error = VmError> + Callable<M> + Execute + Send + Sync {}
impl<M: MemoryType, T: ?Sized + Memory<M, Error = VmError> + View<M, Error = VmError> + Callable<M> + Execute + Send + Sync> Vm<M> for T {}
/// One-time-pad masking.
pub trait MaskExt: Memory<Binary, Error = VmError> + View<Binary, Error = VmError> + Callable<Binary> {
    fn mask_private<R: Repr<Binary> + CallReturn>(&mut self, value: R, otp: R::Clear) -> Result<R, VmError> {
        let s = value.to_raw();
        let o = self.alloc_raw(s.len())?;
        self.mark_private_raw(o)?;
        self.assign_raw(o, R::encode(otp))?;
        self.commit_raw(o)?;
        self.call_raw(CallBuilder::new(Arc::new(crate::circuits::circuits::xor(s.len()))).arg(s).arg(o).build().map_err(VmError::call)?).map(R::from_output)
    }
    fn mask_blind<R: Repr<Binary> + CallReturn>(&mut self, value: R) -> Result<R, VmError> {
        let s = value.to_raw();
        let o = self.alloc_raw(s.len())?;
        self.mark_blind_raw(o)?;
        self.commit_raw(o)?;
        self.call_raw(CallBuilder::new(Arc::new(crate::circuits::circuits::xor(s.len()))).arg(s).arg(o).build().map_err(VmError::call)?).map(R::from_output)
    }
}
impl<T: ?Sized + Memory<Binary, Error = VmError> + View<Binary, Error = VmError> + Callable<Binary>> MaskExt for T {}
pub mod memory { pub use super::mc::*; }
pub mod prelude {
    pub use super::{Callable, CallableExt, Execute, MaskExt, Vm};
    pub use crate::memory_core::{Array, FromRaw, Memory, MemoryExt, Repr, Slice, StaticSize, ToRaw, Vector, View, ViewExt};
}
