//! In-memory duplex byte pipe with direct buffer access.
use futures::{AsyncRead, AsyncWrite};
use std::{io, pin::Pin, sync::{Arc, Mutex, MutexGuard}, task::{ready, Context, Poll, Waker}};
const CHUNK: usize = 1 << 15;
struct Pipe { buf: Vec<u8>, cap: usize, wr_closed: bool, rd_closed: bool, rd: Option<Waker>, wr: Option<Waker> }
impl Pipe {
    fn wake(w: &mut Option<Waker>) { if let Some(w) = w.take() { w.wake() } }
    fn readable(&mut self, cx: &mut Context<'_>) -> Poll<()> {
        if self.buf.is_empty() && !self.wr_closed { self.rd = Some(cx.waker().clone()); return Poll::Pending }
        Poll::Ready(())
    }
    fn writable(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<usize>> {
        if self.wr_closed || self.rd_closed { return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into())) }
        if self.buf.len() >= self.cap { self.wr = Some(cx.waker().clone()); return Poll::Pending }
        Poll::Ready(Ok(self.cap - self.buf.len()))
    }
    fn consume(&mut self, n: usize) { self.buf.drain(..n); if n > 0 { Self::wake(&mut self.wr) } }
    fn push(&mut self, b: &[u8]) { self.buf.extend_from_slice(b); if !b.is_empty() { Self::wake(&mut self.rd) } }
}
pub struct DuplexStream { rd: Arc<Mutex<Pipe>>, wr: Arc<Mutex<Pipe>> }
pub fn duplex(cap: usize) -> (DuplexStream, DuplexStream) {
    let p = || Arc::new(Mutex::new(Pipe { buf: vec![], cap, wr_closed: false, rd_closed: false, rd: None, wr: None }));
    let (a, b) = (p(), p());
    (DuplexStream { rd: a.clone(), wr: b.clone() }, DuplexStream { rd: b, wr: a })
}
pub struct ReadGuard<'a>(MutexGuard<'a, Pipe>);
impl ReadGuard<'_> {
    pub fn poll_get(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> { ready!(self.0.readable(cx)); Poll::Ready(Ok(&self.0.buf)) }
    pub fn advance(&mut self, n: usize) { self.0.consume(n) }
}
pub struct WriteGuard<'a>(MutexGuard<'a, Pipe>, Vec<u8>);
impl WriteGuard<'_> {
    pub fn poll_mut(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<&mut [u8]>> {
        let n = ready!(self.0.writable(cx))?.min(CHUNK);
        self.1.clear();
        self.1.resize(n, 0);
        Poll::Ready(Ok(&mut self.1))
    }
    pub fn advance_mut(&mut self, n: usize) { let b = self.1[..n].to_vec(); self.0.push(&b) }
}
impl DuplexStream {
    pub fn poll_lock_read<'a>(self: Pin<&'a mut Self>, _: &mut Context<'_>) -> Poll<ReadGuard<'a>> { Poll::Ready(ReadGuard(self.get_mut().rd.lock().unwrap())) }
    pub fn poll_lock_write<'a>(self: Pin<&'a mut Self>, _: &mut Context<'_>) -> Poll<WriteGuard<'a>> { Poll::Ready(WriteGuard(self.get_mut().wr.lock().unwrap(), vec![])) }
    /// Reads from `io` into this stream's write half; 0 is the end of `io`.
    pub fn poll_write_from<T: AsyncRead>(&mut self, cx: &mut Context<'_>, io: Pin<&mut T>) -> Poll<io::Result<usize>> {
        let mut p = self.wr.lock().unwrap();
        let n = ready!(p.writable(cx))?.min(CHUNK);
        let mut b = vec![0; n];
        let n = ready!(io.poll_read(cx, &mut b))?;
        p.push(&b[..n]);
        Poll::Ready(Ok(n))
    }
    /// Writes what this stream's read half holds to `io`.
    pub fn poll_read_to<T: AsyncWrite>(&mut self, cx: &mut Context<'_>, io: Pin<&mut T>) -> Poll<io::Result<usize>> {
        let mut p = self.rd.lock().unwrap();
        ready!(p.readable(cx));
        if p.buf.is_empty() { return Poll::Ready(Ok(0)) }
        // Until there is nothing left or `io` takes no more (and wakes this task when it does).
        let mut n = 0;
        let mut io = io;
        while !p.buf.is_empty() {
            match io.as_mut().poll_write(cx, &p.buf) {
                Poll::Ready(Ok(k)) => { p.consume(k); n += k; if k == 0 { break } }
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Pending if n == 0 => return Poll::Pending,
                Poll::Pending => break,
            }
        }
        Poll::Ready(Ok(n))
    }
}
impl AsyncRead for DuplexStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut p = self.rd.lock().unwrap();
        ready!(p.readable(cx));
        let n = p.buf.len().min(b.len());
        b[..n].copy_from_slice(&p.buf[..n]);
        p.consume(n);
        Poll::Ready(Ok(n))
    }
}
impl AsyncWrite for DuplexStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        let mut p = self.wr.lock().unwrap();
        let n = ready!(p.writable(cx))?.min(b.len());
        p.push(&b[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut p = self.wr.lock().unwrap();
        p.wr_closed = true;
        Pipe::wake(&mut p.rd);
        Poll::Ready(Ok(()))
    }
}
impl Drop for DuplexStream {
    fn drop(&mut self) {
        let mut p = self.wr.lock().unwrap();
        p.wr_closed = true;
        Pipe::wake(&mut p.rd);
        drop(p);
        let mut p = self.rd.lock().unwrap();
        p.rd_closed = true;
        Pipe::wake(&mut p.wr);
    }
}
