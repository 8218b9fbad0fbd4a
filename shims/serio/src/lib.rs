//! Framed serde messages over any transport that carries whole frames.
use serde::{de::DeserializeOwned, Serialize};
use std::{future::poll_fn, future::Future, io, task::{Context, Poll}};
pub trait FrameSink { fn poll_send_frame(&mut self, cx: &mut Context<'_>, frame: &mut Option<Vec<u8>>) -> Poll<io::Result<()>>; }
pub trait FrameStream { fn poll_next_frame(&mut self, cx: &mut Context<'_>) -> Poll<Option<io::Result<Vec<u8>>>>; }
impl<T: FrameSink + ?Sized> FrameSink for &mut T { fn poll_send_frame(&mut self, cx: &mut Context<'_>, f: &mut Option<Vec<u8>>) -> Poll<io::Result<()>> { (**self).poll_send_frame(cx, f) } }
impl<T: FrameStream + ?Sized> FrameStream for &mut T { fn poll_next_frame(&mut self, cx: &mut Context<'_>) -> Poll<Option<io::Result<Vec<u8>>>> { (**self).poll_next_frame(cx) } }
pub mod sink {
    use super::*;
    pub trait SinkExt: FrameSink {
        fn send<T: Serialize>(&mut self, item: T) -> impl Future<Output = io::Result<()>> + Send where Self: Send {
            let frame = bincode::serialize(&item).map_err(io::Error::other);
            async move {
                let mut frame = Some(frame?);
                poll_fn(move |cx| self.poll_send_frame(cx, &mut frame)).await
            }
        }
    }
    impl<S: FrameSink + ?Sized> SinkExt for S {}
}
pub mod stream {
    use super::*;
    pub trait IoStreamExt: FrameStream {
        fn expect_next<T: DeserializeOwned>(&mut self) -> impl Future<Output = io::Result<T>> + Send where Self: Send {
            async move {
                match poll_fn(move |cx| self.poll_next_frame(cx)).await {
                    None => Err(io::Error::new(io::ErrorKind::UnexpectedEof, "stream closed unexpectedly")),
                    Some(f) => bincode::deserialize(&f?).map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e)),
                }
            }
        }
        fn next<T: DeserializeOwned>(&mut self) -> impl Future<Output = Option<io::Result<T>>> + Send where Self: Send {
            async move {
                poll_fn(move |cx| self.poll_next_frame(cx)).await.map(|f| f.and_then(|f| bincode::deserialize(&f).map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))))
            }
        }
    }
    impl<S: FrameStream + ?Sized> IoStreamExt for S {}
}
pub use sink::SinkExt;
pub use stream::IoStreamExt as StreamExt;
