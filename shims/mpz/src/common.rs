use futures::{AsyncRead, AsyncWrite};
use serio::{FrameSink, FrameStream};
use std::{collections::{HashMap, VecDeque}, future::Future, pin::Pin, sync::{Arc, Mutex}, task::{Poll, Waker}};
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct ContextId(Vec<u8>);
impl ContextId { pub fn as_bytes(&self) -> &[u8] { &self.0 } }
impl AsRef<[u8]> for ContextId { fn as_ref(&self) -> &[u8] { &self.0 } }
impl std::fmt::Display for ContextId { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self.0) } }
#[derive(Debug, thiserror::Error)]
#[error("context error: {0}")]
pub struct ContextError(#[from] std::io::Error);
pub struct Context { id: ContextId, io: io::Io, mux: Arc<dyn mux::Mux>, children: Vec<Context> }
impl std::fmt::Debug for Context { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Context({:?})", self.id) } }
pub type ScopedFut<'b, T> = Pin<Box<dyn Future<Output = T> + Send + 'b>>;
impl Context {
    fn open(id: Vec<u8>, mux: Arc<dyn mux::Mux>) -> Result<Self, std::io::Error> {
        let io = mux.open(&id)?;
        Ok(Self { id: ContextId(id), io, mux, children: vec![] })
    }
    pub fn id(&self) -> &ContextId { &self.id }
    pub fn io_mut(&mut self) -> &mut io::Io { &mut self.io }
    fn fork(&mut self, n: usize) -> Result<(), ContextError> {
        while self.children.len() < n {
            let mut id = self.id.0.clone();
            id.extend_from_slice(&[b'/', self.children.len() as u8]);
            self.children.push(Context::open(id, self.mux.clone())?);
        }
        Ok(())
    }
    pub async fn try_join<FA, FB, A, B, E>(&mut self, a: FA, b: FB) -> Result<Result<(A, B), E>, ContextError>
    where
        FA: for<'b> FnOnce(&'b mut Context) -> ScopedFut<'b, Result<A, E>> + Send + 'static,
        FB: for<'b> FnOnce(&'b mut Context) -> ScopedFut<'b, Result<B, E>> + Send + 'static,
        A: Send + 'static, B: Send + 'static, E: Send + 'static,
    {
        self.fork(2)?;
        let [c0, c1, ..] = self.children.as_mut_slice() else { unreachable!() };
        Ok(futures::future::try_join(a(c0), b(c1)).await)
    }
    pub async fn try_join3<FA, FB, FC, A, B, C, E>(&mut self, a: FA, b: FB, c: FC) -> Result<Result<(A, B, C), E>, ContextError>
    where
        FA: for<'b> FnOnce(&'b mut Context) -> ScopedFut<'b, Result<A, E>> + Send + 'static,
        FB: for<'b> FnOnce(&'b mut Context) -> ScopedFut<'b, Result<B, E>> + Send + 'static,
        FC: for<'b> FnOnce(&'b mut Context) -> ScopedFut<'b, Result<C, E>> + Send + 'static,
        A: Send + 'static, B: Send + 'static, C: Send + 'static, E: Send + 'static,
    {
        self.fork(3)?;
        let [c0, c1, c2, ..] = self.children.as_mut_slice() else { unreachable!() };
        Ok(futures::future::try_join3(a(c0), b(c1), c(c2)).await)
    }
}
#[async_trait::async_trait]
pub trait Flush {
    type Error: std::error::Error + Send + Sync + 'static;
    fn wants_flush(&self) -> bool;
    async fn flush(&mut self, ctx: &mut Context) -> Result<(), Self::Error>;
}
#[async_trait::async_trait]
pub trait Task {
    type Output: Send;
    async fn run(self, ctx: &mut Context) -> Self::Output where Self: Sized;
    async fn run_boxed(self: Box<Self>, ctx: &mut Context) -> Self::Output;
}
pub mod future {
    use futures::channel::oneshot;
    use std::{future::Future, pin::Pin, task::{Context, Poll}};
    #[derive(Debug, thiserror::Error)]
    #[error("output canceled")]
    pub struct OutputCanceled;
    pub trait Output: Future<Output = Result<Self::Ok, OutputCanceled>> {
        type Ok;
        fn try_recv(&mut self) -> Result<Option<Self::Ok>, OutputCanceled>;
    }
    #[derive(Debug)]
    pub struct MaybeDone<T>(oneshot::Receiver<T>);
    #[derive(Debug)]
    pub struct Sender<T>(oneshot::Sender<T>);
    impl<T> Sender<T> { pub fn send(self, t: T) { let _ = self.0.send(t); } }
    pub fn new_output<T>() -> (Sender<T>, MaybeDone<T>) { let (a, b) = oneshot::channel(); (Sender(a), MaybeDone(b)) }
    impl<T> Future for MaybeDone<T> {
        type Output = Result<T, OutputCanceled>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> { Pin::new(&mut self.0).poll(cx).map_err(|_| OutputCanceled) }
    }
    impl<T> Output for MaybeDone<T> {
        type Ok = T;
        fn try_recv(&mut self) -> Result<Option<T>, OutputCanceled> { self.0.try_recv().map_err(|_| OutputCanceled) }
    }
}
pub mod io {
    use super::*;
    trait Rw: AsyncRead + AsyncWrite + Send + Unpin {}
    impl<T: AsyncRead + AsyncWrite + Send + Unpin> Rw for T {}
    enum Kind {
        Mem { side: usize, id: Vec<u8>, link: Arc<link::Link> },
        Stream { sid: u64, io: Box<dyn Rw>, out: VecDeque<u8>, rd: Vec<u8>, eof: bool },
    }
    /// A frame transport.
    pub struct Io(Kind);
    impl std::fmt::Debug for Io { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Io") } }
    // Only used through `&mut`.
    impl Io {
        pub fn from_io<T: AsyncRead + AsyncWrite + Send + Unpin + 'static>(io: T) -> Self { Self(Kind::Stream { sid: crate::ideal_vm::new_stream(), io: Box::new(io), out: VecDeque::new(), rd: vec![], eof: false }) }
        pub(super) fn mem(side: usize, id: &[u8], link: Arc<link::Link>) -> Self { Self(Kind::Mem { side, id: id.to_vec(), link }) }
    }
    impl Drop for Io {
        fn drop(&mut self) { if let Kind::Mem { side, id, link } = &self.0 { link.close(*side, id) } }
    }
    impl FrameSink for Io {
        fn poll_send_frame(&mut self, cx: &mut std::task::Context<'_>, frame: &mut Option<Vec<u8>>) -> Poll<std::io::Result<()>> {
            match &mut self.0 {
                Kind::Mem { side, id, link } => { link.send(*side, id, frame.take().expect("frame")); Poll::Ready(Ok(())) }
                Kind::Stream { sid, io, out, .. } => {
                    if let Some(f) = frame.take() { for f in crate::ideal_vm::tap(*sid, f) { out.extend((f.len() as u32).to_be_bytes()); out.extend(f); } }
                    while !out.is_empty() {
                        let n = std::task::ready!(Pin::new(&mut *io).poll_write(cx, out.make_contiguous()))?;
                        if n == 0 { return Poll::Ready(Err(std::io::ErrorKind::WriteZero.into())); }
                        out.drain(..n);
                    }
                    Pin::new(io).poll_flush(cx)
                }
            }
        }
    }
    impl FrameStream for Io {
        fn poll_next_frame(&mut self, cx: &mut std::task::Context<'_>) -> Poll<Option<std::io::Result<Vec<u8>>>> {
            match &mut self.0 {
                Kind::Mem { side, id, link } => link.recv(*side, id, cx).map(|f| f.map(Ok)),
                Kind::Stream { io, rd, eof, .. } => loop {
                    if rd.len() >= 4 {
                        let n = u32::from_be_bytes(rd[..4].try_into().unwrap()) as usize;
                        if rd.len() >= 4 + n { let f = rd[4..4 + n].to_vec(); rd.drain(..4 + n); return Poll::Ready(Some(Ok(f))); }
                    }
                    if *eof { return Poll::Ready(None); }
                    let mut b = [0; 4096];
                    match std::task::ready!(Pin::new(&mut *io).poll_read(cx, &mut b)) {
                        Ok(0) => *eof = true,
                        Ok(n) => rd.extend_from_slice(&b[..n]),
                        Err(e) => return Poll::Ready(Some(Err(e))),
                    }
                },
            }
        }
    }
}
pub mod mux {
    pub trait Mux: std::fmt::Debug + Send + Sync { fn open(&self, id: &[u8]) -> Result<super::io::Io, std::io::Error>; }
}
/// Executor handing out root contexts in order.
#[derive(Debug)]
pub struct Executor { mux: Arc<dyn mux::Mux>, next: u32 }
impl Executor {
    pub fn builder() -> ExecutorBuilder { ExecutorBuilder }
    pub fn new_context(&mut self) -> Result<Context, ContextError> {
        let id = self.next.to_be_bytes().to_vec();
        self.next += 1;
        Ok(Context::open(id, self.mux.clone())?)
    }
}
pub struct ExecutorBuilder;
impl ExecutorBuilder {
    pub fn num_threads(self, _: usize) -> Self { self }
    pub fn build(self, mux: impl mux::Mux + 'static) -> Executor { Executor { mux: Arc::new(mux), next: 0 } }
}
/// In-memory frame link between two parties, with a man-in-the-middle hook.
pub mod link {
    use super::*;
    #[derive(Default)]
    struct Chan { q: [VecDeque<Vec<u8>>; 2], wakers: [Option<Waker>; 2], closed: [bool; 2], seq: [usize; 2] }
    /// (sender side, channel id, sequence number on that channel, frame) -> frames delivered.
    pub type Hook = Box<dyn FnMut(usize, &[u8], usize, Vec<u8>) -> Vec<Vec<u8>> + Send>;
    #[derive(Default)]
    pub struct Link { chans: Mutex<HashMap<Vec<u8>, Chan>>, hook: Mutex<Option<Hook>>, log: Mutex<Option<Vec<(usize, Vec<u8>, usize, Vec<u8>)>>> }
    impl std::fmt::Debug for Link { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Link") } }
    impl Link {
        pub fn set_hook(&self, h: Hook) { *self.hook.lock().unwrap() = Some(h); }
        pub fn record(&self) { *self.log.lock().unwrap() = Some(vec![]); }
        pub fn take_log(&self) -> Vec<(usize, Vec<u8>, usize, Vec<u8>)> { self.log.lock().unwrap().take().unwrap_or_default() }
        pub(super) fn send(&self, side: usize, id: &[u8], frame: Vec<u8>) {
            let mut chans = self.chans.lock().unwrap();
            let c = chans.entry(id.to_vec()).or_default();
            let seq = c.seq[side];
            c.seq[side] += 1;
            if let Some(l) = self.log.lock().unwrap().as_mut() { l.push((side, id.to_vec(), seq, frame.clone())); }
            let frames = match self.hook.lock().unwrap().as_mut() { Some(h) => h(side, id, seq, frame), None => vec![frame] };
            c.q[side].extend(frames);
            if let Some(w) = c.wakers[1 - side].take() { w.wake() }
        }
        pub(super) fn recv(&self, side: usize, id: &[u8], cx: &mut std::task::Context<'_>) -> Poll<Option<Vec<u8>>> {
            let mut chans = self.chans.lock().unwrap();
            let c = chans.entry(id.to_vec()).or_default();
            if let Some(f) = c.q[1 - side].pop_front() { return Poll::Ready(Some(f)); }
            if c.closed[1 - side] { return Poll::Ready(None); }
            c.wakers[side] = Some(cx.waker().clone());
            Poll::Pending
        }
        pub(super) fn close(&self, side: usize, id: &[u8]) {
            let mut chans = self.chans.lock().unwrap();
            let c = chans.entry(id.to_vec()).or_default();
            c.closed[side] = true;
            if let Some(w) = c.wakers[1 - side].take() { w.wake() }
        }
    }
    #[derive(Debug)]
    pub struct MemMux { pub link: Arc<Link>, pub side: usize }
    impl mux::Mux for MemMux { fn open(&self, id: &[u8]) -> Result<io::Io, std::io::Error> { Ok(io::Io::mem(self.side, id, self.link.clone())) } }
    /// Two connected executors.
    pub fn pair() -> (Executor, Executor, Arc<Link>) {
        let link = Arc::new(Link::default());
        let f = |side| Executor::builder().build(MemMux { link: link.clone(), side });
        (f(0), f(1), link.clone())
    }
}
pub mod context {
    use super::*;
    pub fn test_st_context(_: usize) -> (Context, Context) { let (mut a, mut b, _) = link::pair(); (a.new_context().unwrap(), b.new_context().unwrap()) }
    pub fn test_mt_context(_: usize) -> (Executor, Executor) { let (a, b, _) = link::pair(); (a, b) }
}
