//! Stream multiplexer: streams with caller-chosen ids over one byte channel.
use futures::{AsyncRead, AsyncWrite};
use std::{collections::{HashMap, VecDeque}, fmt, io, pin::Pin, sync::{Arc, Mutex}, task::{Context, Poll, Waker}};
#[derive(Debug, Clone, Default)]
pub struct Config;
impl Config {
    pub fn set_keep_alive(&mut self, _: bool) -> &mut Self { self }
    pub fn set_close_sync(&mut self, _: bool) -> &mut Self { self }
}
#[derive(Debug)]
pub enum ConnectionError { Io(io::Error), Closed }
impl fmt::Display for ConnectionError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "mux: {self:?}") } }
impl std::error::Error for ConnectionError {}
impl From<ConnectionError> for io::Error { fn from(e: ConnectionError) -> Self { match e { ConnectionError::Io(e) => e, e => io::Error::other(e) } } }
#[derive(Default)]
struct Chan { rx: VecDeque<u8>, eof: bool, waker: Option<Waker>, open: bool }
#[derive(Default)]
struct Shared { chans: HashMap<Vec<u8>, Chan>, out: VecDeque<u8>, conn: Option<Waker>, dead: bool }
impl Shared {
    fn frame(&mut self, kind: u8, id: &[u8], data: &[u8]) {
        self.out.push_back(kind);
        self.out.extend((id.len() as u16).to_be_bytes());
        self.out.extend((data.len() as u32).to_be_bytes());
        self.out.extend(id);
        self.out.extend(data);
        if let Some(w) = self.conn.take() { w.wake() }
    }
    fn end(&mut self) {
        self.dead = true;
        for c in self.chans.values_mut() { c.eof = true; if let Some(w) = c.waker.take() { w.wake() } }
    }
}
#[derive(Clone)]
pub struct Handle(Arc<Mutex<Shared>>);
impl fmt::Debug for Handle { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Handle") } }
impl Handle {
    pub fn new_stream(&self, id: &[u8]) -> Result<Stream, ConnectionError> {
        let mut s = self.0.lock().unwrap();
        if s.dead { return Err(ConnectionError::Closed) }
        let c = s.chans.entry(id.to_vec()).or_default();
        if c.open { return Err(ConnectionError::Closed) }
        c.open = true;
        drop(s);
        Ok(Stream { id: id.to_vec(), sh: self.0.clone(), fin: false })
    }
}
pub struct Stream { id: Vec<u8>, sh: Arc<Mutex<Shared>>, fin: bool }
impl fmt::Debug for Stream { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Stream") } }
impl AsyncRead for Stream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut s = self.sh.lock().unwrap();
        let dead = s.dead;
        let c = s.chans.get_mut(&self.id).unwrap();
        if c.rx.is_empty() {
            if c.eof || dead { return Poll::Ready(Ok(0)) }
            c.waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = c.rx.len().min(b.len());
        for (x, y) in b.iter_mut().zip(c.rx.drain(..n)) { *x = y }
        Poll::Ready(Ok(n))
    }
}
impl AsyncWrite for Stream {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        let mut s = self.sh.lock().unwrap();
        if s.dead || self.fin { return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into())) }
        s.frame(1, &self.id, b);
        Poll::Ready(Ok(b.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_close(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        if !self.fin { self.fin = true; let id = self.id.clone(); self.sh.lock().unwrap().frame(2, &id, b"") }
        Poll::Ready(Ok(()))
    }
}
impl Drop for Stream {
    fn drop(&mut self) { if !self.fin { let id = self.id.clone(); self.sh.lock().unwrap().frame(2, &id, b"") } }
}
pub struct Connection<T> { io: T, sh: Arc<Mutex<Shared>>, rd: Vec<u8>, sent_close: bool, got_close: bool, done: bool, flushed: bool }
impl<T> Connection<T> {
    pub fn new(io: T, _: Config) -> Self { Self { io, sh: Default::default(), rd: vec![], sent_close: false, got_close: false, done: false, flushed: true } }
    pub fn handle(&self) -> Result<Handle, ConnectionError> { Ok(Handle(self.sh.clone())) }
    pub fn is_complete(&self) -> bool { self.done }
    pub fn close(&mut self) { if !self.sent_close { self.sent_close = true; self.sh.lock().unwrap().frame(3, b"", b"") } }
    pub fn try_into_io(self) -> Result<T, Self> { if self.done { Ok(self.io) } else { Err(self) } }
}
impl<T: AsyncRead + AsyncWrite + Unpin> Connection<T> {
    pub fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), ConnectionError>> {
        let r = self.step(cx);
        if let Poll::Ready(r) = &r { self.done |= r.is_ok(); self.sh.lock().unwrap().end() }
        r
    }
    fn step(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), ConnectionError>> {
        if self.done { return Poll::Ready(Ok(())) }
        let sh = self.sh.clone();
        loop {
            let mut s = sh.lock().unwrap();
            s.conn = Some(cx.waker().clone());
            let mut progress = false;
            while !s.out.is_empty() {
                match Pin::new(&mut self.io).poll_write(cx, s.out.make_contiguous()) {
                    Poll::Ready(Ok(0)) => return Poll::Ready(Err(ConnectionError::Io(io::ErrorKind::WriteZero.into()))),
                    Poll::Ready(Ok(n)) => { s.out.drain(..n); self.flushed = false; progress = true }
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(ConnectionError::Io(e))),
                    Poll::Pending => break,
                }
            }
            if !self.flushed {
                match Pin::new(&mut self.io).poll_flush(cx) {
                    Poll::Ready(Ok(())) => self.flushed = true,
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(ConnectionError::Io(e))),
                    Poll::Pending => {}
                }
            }
            if self.sent_close && self.got_close && s.out.is_empty() && self.flushed { return Poll::Ready(Ok(())) }
            if !self.got_close {
                let mut b = [0; 16384];
                match Pin::new(&mut self.io).poll_read(cx, &mut b) {
                    Poll::Ready(Ok(0)) => return Poll::Ready(if self.sent_close { Ok(()) } else { Err(ConnectionError::Io(io::ErrorKind::UnexpectedEof.into())) }),
                    Poll::Ready(Ok(n)) => { self.rd.extend_from_slice(&b[..n]); progress = true }
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(ConnectionError::Io(e))),
                    Poll::Pending => {}
                }
                while self.rd.len() >= 7 {
                    let (k, il, dl) = (self.rd[0], u16::from_be_bytes([self.rd[1], self.rd[2]]) as usize, u32::from_be_bytes(self.rd[3..7].try_into().unwrap()) as usize);
                    if self.rd.len() < 7 + il + dl { break }
                    let f: Vec<u8> = self.rd.drain(..7 + il + dl).collect();
                    if k == 3 {
                        self.got_close = true;
                        for c in s.chans.values_mut() { c.eof = true; if let Some(w) = c.waker.take() { w.wake() } }
                        continue;
                    }
                    let c = s.chans.entry(f[7..7 + il].to_vec()).or_default();
                    if k == 1 { c.rx.extend(&f[7 + il..]) } else { c.eof = true }
                    if let Some(w) = c.waker.take() { w.wake() }
                }
            }
            if !progress { return Poll::Pending }
        }
    }
}
