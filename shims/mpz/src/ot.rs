//! Oblivious transfer is not modelled: share conversions are ideal, so these are markers.
use crate::common::{Context, Flush};
#[derive(Debug, thiserror::Error)]
#[error("ot error")]
pub struct OTError;
macro_rules! marker { ($($n:ident<$($g:ident),*>),*) => { $(
    #[derive(Debug)]
    pub struct $n<$($g),*>(std::marker::PhantomData<fn() -> ($($g,)*)>);
    impl<$($g),*> Clone for $n<$($g),*> { fn clone(&self) -> Self { Self(std::marker::PhantomData) } }
    #[async_trait::async_trait]
    impl<$($g),*> Flush for $n<$($g),*> {
        type Error = OTError;
        fn wants_flush(&self) -> bool { false }
        async fn flush(&mut self, _: &mut Context) -> Result<(), OTError> { Ok(()) }
    }
)* } }
pub mod chou_orlandi {
    #[derive(Debug, Default, Clone)]
    pub struct Sender;
    #[derive(Debug, Default, Clone)]
    pub struct Receiver;
}
pub mod kos {
    #[derive(Debug, Default, Clone)]
    pub struct SenderConfig;
    #[derive(Debug, Default, Clone)]
    pub struct ReceiverConfig;
    #[derive(Debug, Clone)]
    pub struct Sender<B>(B);
    impl<B> Sender<B> { pub fn new(_: SenderConfig, _: crate::core::Block, b: B) -> Self { Self(b) } }
    #[derive(Debug, Clone)]
    pub struct Receiver<B>(B);
    impl<B> Receiver<B> { pub fn new(_: ReceiverConfig, b: B) -> Self { Self(b) } }
}
pub mod ferret {
    pub enum LpnType { Regular, Uniform }
    pub struct FerretConfig;
    pub struct FerretConfigBuilder;
    impl FerretConfig { pub fn builder() -> FerretConfigBuilder { FerretConfigBuilder } }
    impl FerretConfigBuilder {
        pub fn lpn_type(self, _: LpnType) -> Self { self }
        pub fn build(self) -> Result<FerretConfig, &'static str> { Ok(FerretConfig) }
    }
    #[derive(Debug, Clone)]
    pub struct Sender<B>(B);
    impl<B> Sender<B> { pub fn new(_: FerretConfig, _: crate::core::Block, b: B) -> Self { Self(b) } }
    #[derive(Debug, Clone)]
    pub struct Receiver<B>(B);
    impl<B> Receiver<B> { pub fn new(_: FerretConfig, _: crate::core::Block, b: B) -> Self { Self(b) } }
}
pub mod rcot {
    pub trait RCOTSender<T> {}
    pub trait RCOTReceiver<T, U> {}
    pub mod shared {
        use super::super::*;
        marker!(SharedRCOTSender<A, T>, SharedRCOTReceiver<A, T, U>);
        impl<A, T> SharedRCOTSender<A, T> { pub fn new(_: A) -> Self { Self(std::marker::PhantomData) } }
        impl<A, T, U> SharedRCOTReceiver<A, T, U> { pub fn new(_: A) -> Self { Self(std::marker::PhantomData) } }
        impl<A, T> super::RCOTSender<T> for SharedRCOTSender<A, T> {}
        impl<A, T, U> super::RCOTReceiver<T, U> for SharedRCOTReceiver<A, T, U> {}
    }
}
pub mod rot {
    pub mod any {
        pub struct AnySender<T>(T);
        impl<T> AnySender<T> { pub fn new(t: T) -> Self { Self(t) } }
        pub struct AnyReceiver<T>(T);
        impl<T> AnyReceiver<T> { pub fn new(t: T) -> Self { Self(t) } }
    }
    pub mod randomize {
        pub struct RandomizeRCOTSender<T>(T);
        impl<T> RandomizeRCOTSender<T> { pub fn new(t: T) -> Self { Self(t) } }
        pub struct RandomizeRCOTReceiver<T>(T);
        impl<T> RandomizeRCOTReceiver<T> { pub fn new(t: T) -> Self { Self(t) } }
    }
}
/// Ideal correlated OT handles for tests.
pub mod ideal {
    pub mod rcot {
        use super::super::*;
        marker!(IdealRCOTSender<>, IdealRCOTReceiver<>);
        impl<T> crate::ot::rcot::RCOTSender<T> for IdealRCOTSender {}
        impl<T, U> crate::ot::rcot::RCOTReceiver<T, U> for IdealRCOTReceiver {}
        pub fn ideal_rcot(_seed: crate::core::Block, _delta: crate::core::Block) -> (IdealRCOTSender, IdealRCOTReceiver) {
            (IdealRCOTSender(std::marker::PhantomData), IdealRCOTReceiver(std::marker::PhantomData))
        }
    }
}
pub mod cot {
    #[derive(Debug)]
    pub struct DerandCOTSender<T>(T);
    impl<T> DerandCOTSender<T> { pub fn new(t: T) -> Self { Self(t) } }
    #[derive(Debug)]
    pub struct DerandCOTReceiver<T>(T);
    impl<T> DerandCOTReceiver<T> { pub fn new(t: T) -> Self { Self(t) } }
}
