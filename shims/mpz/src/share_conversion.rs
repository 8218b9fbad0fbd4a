use crate::{common::{future::{self, Output, OutputCanceled}, Context, Flush}, core::Block, fields::Field};
use serio::{stream::IoStreamExt, SinkExt};
use std::marker::PhantomData;
#[derive(Debug, thiserror::Error)]
#[error("share conversion error: {0}")]
pub struct ShareConversionError(String);
#[derive(Debug, Clone)]
pub struct A2MOutput<F> { pub shares: Vec<F> }
#[derive(Debug, Clone)]
pub struct M2AOutput<F> { pub shares: Vec<F> }
pub trait AdditiveToMultiplicative<F> {
    type Error: std::error::Error + Send + Sync + 'static;
    type Future: Output<Ok = A2MOutput<F>> + Unpin + Send;
    fn alloc(&mut self, n: usize) -> Result<(), Self::Error>;
    fn queue_to_multiplicative(&mut self, s: &[F]) -> Result<Self::Future, Self::Error>;
}
pub trait MultiplicativeToAdditive<F> {
    type Error: std::error::Error + Send + Sync + 'static;
    type Future: Output<Ok = M2AOutput<F>> + Unpin + Send;
    fn alloc(&mut self, n: usize) -> Result<(), Self::Error>;
    fn queue_to_additive(&mut self, s: &[F]) -> Result<Self::Future, Self::Error>;
}
pub trait ShareConvert<F>: AdditiveToMultiplicative<F> + MultiplicativeToAdditive<F> {}
impl<F, T: AdditiveToMultiplicative<F> + MultiplicativeToAdditive<F>> ShareConvert<F> for T {}
enum Job<F> { A2M(Vec<F>, future::Sender<A2MOutput<F>>), M2A(Vec<F>, future::Sender<M2AOutput<F>>) }
/// Dealer state shared by every front end: one OLE per converted element must have been
/// allocated, and both directions run in the order they were queued.
pub struct Conv<F> { sender: bool, alloc: usize, jobs: Vec<Job<F>> }
impl<F: Field> Conv<F> {
    fn new(sender: bool) -> Self { Self { sender, alloc: 0, jobs: vec![] } }
    fn take(&mut self, n: usize) -> Result<(), ShareConversionError> {
        if n > self.alloc { return Err(ShareConversionError(format!("{n} conversions requested, {} allocated", self.alloc))); }
        self.alloc -= n;
        Ok(())
    }
    fn a2m(&mut self, s: &[F]) -> Result<future::MaybeDone<A2MOutput<F>>, ShareConversionError> {
        self.take(s.len())?;
        let (tx, rx) = future::new_output();
        self.jobs.push(Job::A2M(s.to_vec(), tx));
        Ok(rx)
    }
    fn m2a(&mut self, s: &[F]) -> Result<future::MaybeDone<M2AOutput<F>>, ShareConversionError> {
        self.take(s.len())?;
        let (tx, rx) = future::new_output();
        self.jobs.push(Job::M2A(s.to_vec(), tx));
        Ok(rx)
    }
    async fn run(&mut self, ctx: &mut Context) -> Result<(), ShareConversionError> {
        let e = |e: std::io::Error| ShareConversionError(e.to_string());
        for job in std::mem::take(&mut self.jobs) {
            let (kind, xs) = match &job { Job::A2M(x, _) => (0u8, x), Job::M2A(x, _) => (1u8, x) };
            let out: Vec<F> = if self.sender {
                let r: Vec<F> = xs.iter().map(|_| F::random_nonzero()).collect();
                ctx.io_mut().send((kind, xs.clone(), r.clone())).await.map_err(e)?;
                r
            } else {
                let (k, px, r): (u8, Vec<F>, Vec<F>) = ctx.io_mut().expect_next().await.map_err(e)?;
                if k != kind || px.len() != xs.len() || r.len() != xs.len() { return Err(ShareConversionError("peer converts something else".into())); }
                xs.iter().zip(px).zip(r).map(|((&y, x), r)| if kind == 0 {
                    r.inverse().map(|i| (x + y) * i).unwrap_or(F::zero())
                } else {
                    x * y - r
                }).collect()
            };
            match job { Job::A2M(_, tx) => tx.send(A2MOutput { shares: out }), Job::M2A(_, tx) => tx.send(M2AOutput { shares: out }) }
        }
        Ok(())
    }
}
macro_rules! front { ($n:ident<$($g:ident),*> $f:ident; $($b:tt)*) => {
    impl<$($g),*> AdditiveToMultiplicative<$f> for $n<$($g),*> where $($b)* {
        type Error = ShareConversionError;
        type Future = future::MaybeDone<A2MOutput<$f>>;
        fn alloc(&mut self, n: usize) -> Result<(), ShareConversionError> { self.0.alloc += n; Ok(()) }
        fn queue_to_multiplicative(&mut self, s: &[$f]) -> Result<Self::Future, ShareConversionError> { self.0.a2m(s) }
    }
    impl<$($g),*> MultiplicativeToAdditive<$f> for $n<$($g),*> where $($b)* {
        type Error = ShareConversionError;
        type Future = future::MaybeDone<M2AOutput<$f>>;
        fn alloc(&mut self, n: usize) -> Result<(), ShareConversionError> { self.0.alloc += n; Ok(()) }
        fn queue_to_additive(&mut self, s: &[$f]) -> Result<Self::Future, ShareConversionError> { self.0.m2a(s) }
    }
    #[async_trait::async_trait]
    impl<$($g),*> Flush for $n<$($g),*> where $($b)* {
        type Error = ShareConversionError;
        fn wants_flush(&self) -> bool { !self.0.jobs.is_empty() }
        async fn flush(&mut self, ctx: &mut Context) -> Result<(), ShareConversionError> { self.0.run(ctx).await }
    }
} }
pub struct ShareConversionSender<T, F>(Conv<F>, PhantomData<fn() -> T>);
pub struct ShareConversionReceiver<T, F>(Conv<F>, PhantomData<fn() -> T>);
impl<T, F: Field> ShareConversionSender<T, F> { pub fn new(_: T) -> Self { Self(Conv::new(true), PhantomData) } }
impl<T, F: Field> ShareConversionReceiver<T, F> { pub fn new(_: T) -> Self { Self(Conv::new(false), PhantomData) } }
front!(ShareConversionSender<T, F> F; F: Field, T: 'static);
front!(ShareConversionReceiver<T, F> F; F: Field, T: 'static);
pub mod ideal {
    use super::*;
    pub struct IdealShareConvertSender<F>(pub(super) Conv<F>);
    pub struct IdealShareConvertReceiver<F>(pub(super) Conv<F>);
    impl<F> std::fmt::Debug for IdealShareConvertSender<F> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("IdealShareConvertSender") } }
    impl<F> std::fmt::Debug for IdealShareConvertReceiver<F> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("IdealShareConvertReceiver") } }
    pub fn ideal_share_convert<F: Field>(_: Block) -> (IdealShareConvertSender<F>, IdealShareConvertReceiver<F>) {
        (IdealShareConvertSender(Conv::new(true)), IdealShareConvertReceiver(Conv::new(false)))
    }
}
use ideal::*;
front!(IdealShareConvertSender<F> F; F: Field);
front!(IdealShareConvertReceiver<F> F; F: Field);
#[allow(unused_imports)]
use OutputCanceled as _;
