//! The garbled-circuit and zero-knowledge VMs, all of them the ideal VM underneath.
use crate::{common::Context, core::{bitvec::BitVec, Block}, garble_core::Delta, ideal_vm::IdealVm, memory_core::{binary::Binary, *}, vm_core::{Call, Callable, Execute, VmError}};
#[derive(Debug, Default, Clone, Copy)]
pub struct Config;
macro_rules! vm { ($($n:ident),*) => { $(
    pub struct $n<T>(IdealVm, std::marker::PhantomData<fn() -> T>);
    impl<T> std::fmt::Debug for $n<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, concat!(stringify!($n), "({:?})"), self.0) } }
    impl<T> $n<T> { fn make() -> Self { Self(IdealVm::new(), std::marker::PhantomData) } }
    impl<T> Memory<Binary> for $n<T> {
        type Error = VmError;
        fn is_alloc_raw(&self, s: Slice) -> bool { self.0.is_alloc_raw(s) }
        fn alloc_raw(&mut self, n: usize) -> Result<Slice, VmError> { self.0.alloc_raw(n) }
        fn is_assigned_raw(&self, s: Slice) -> bool { self.0.is_assigned_raw(s) }
        fn assign_raw(&mut self, s: Slice, d: BitVec) -> Result<(), VmError> { self.0.assign_raw(s, d) }
        fn is_committed_raw(&self, s: Slice) -> bool { self.0.is_committed_raw(s) }
        fn commit_raw(&mut self, s: Slice) -> Result<(), VmError> { self.0.commit_raw(s) }
        fn get_raw(&self, s: Slice) -> Result<Option<BitVec>, VmError> { self.0.get_raw(s) }
        fn decode_raw(&mut self, s: Slice) -> Result<DecodeFuture<BitVec>, VmError> { self.0.decode_raw(s) }
    }
    impl<T> View<Binary> for $n<T> {
        type Error = VmError;
        fn mark_public_raw(&mut self, s: Slice) -> Result<(), VmError> { self.0.mark_public_raw(s) }
        fn mark_private_raw(&mut self, s: Slice) -> Result<(), VmError> { self.0.mark_private_raw(s) }
        fn mark_blind_raw(&mut self, s: Slice) -> Result<(), VmError> { self.0.mark_blind_raw(s) }
    }
    impl<T> Callable<Binary> for $n<T> { fn call_raw(&mut self, c: Call) -> Result<Slice, VmError> { self.0.call_raw(c) } }
    #[async_trait::async_trait]
    impl<T> Execute for $n<T> {
        fn wants_flush(&self) -> bool { self.0.wants_flush() }
        async fn flush(&mut self, ctx: &mut Context) -> Result<(), VmError> { self.0.flush(ctx).await }
        fn wants_preprocess(&self) -> bool { self.0.wants_preprocess() }
        async fn preprocess(&mut self, ctx: &mut Context) -> Result<(), VmError> { self.0.preprocess(ctx).await }
        fn wants_execute(&self) -> bool { self.0.wants_execute() }
        async fn execute(&mut self, ctx: &mut Context) -> Result<(), VmError> { self.0.execute(ctx).await }
    }
)* } }
vm!(Garbler, Evaluator, Prover, Verifier);
impl<T> Garbler<T> { pub fn new(_: T, _seed: [u8; 16], _: Delta) -> Self { Self::make() } }
impl<T> Evaluator<T> { pub fn new(_: T) -> Self { Self::make() } }
impl<T> Prover<T> { pub fn new(_: Config, _: T) -> Self { Self::make() } }
impl<T> Verifier<T> { pub fn new(_: Config, _: Delta, _: T) -> Self { Self::make() } }
#[allow(unused_imports)]
use Block as _;
