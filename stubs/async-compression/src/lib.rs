pub mod tokio {
    pub mod bufread {
        use std::{io, pin::Pin, task::{Context, Poll}};
        use ::tokio::io::{AsyncBufRead, AsyncRead, ReadBuf};
        pub struct GzipDecoder<R>(R);
        impl<R: AsyncBufRead> GzipDecoder<R> { pub fn new(r: R) -> GzipDecoder<R> { GzipDecoder(r) } }
        impl<R: AsyncBufRead + Unpin> AsyncRead for GzipDecoder<R> { fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> { Pin::new(&mut self.0).poll_read(cx, b) } }
    }
    pub mod write {
        use std::{io, pin::Pin, task::{Context, Poll}};
        use ::tokio::io::AsyncWrite;
        pub struct GzipEncoder<W>(W);
        impl<W: AsyncWrite> GzipEncoder<W> { pub fn new(w: W) -> GzipEncoder<W> { GzipEncoder(w) } }
        impl<W: AsyncWrite + Unpin> AsyncWrite for GzipEncoder<W> {
            fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { Pin::new(&mut self.0).poll_write(cx, b) }
            fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { Pin::new(&mut self.0).poll_flush(cx) }
            fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { Pin::new(&mut self.0).poll_shutdown(cx) }
        }
    }
}
