//! Run-time types of the test transforms (generated code refers to them).
use std::io::{self, BufRead, Read, Write};

pub fn xk(a: Option<u8>, i: usize) -> u8 { a.unwrap_or(0x55).wrapping_add(i as u8) }
pub fn ak(a: Option<u8>) -> u8 { a.unwrap_or(1) }

#[derive(Clone, Copy)]
pub enum K { Xor(Option<u8>), Add(Option<u8>), Same }
impl K {
    fn enc(self, i: usize, b: u8) -> u8 { match self { K::Xor(a) => b ^ xk(a, i), K::Add(a) => b.wrapping_add(ak(a)), K::Same => b } }
    fn dec(self, i: usize, b: u8) -> u8 { match self { K::Xor(a) => b ^ xk(a, i), K::Add(a) => b.wrapping_sub(ak(a)), K::Same => b } }
}
/// byte-wise writer
pub struct MapW<W>(pub W, pub K, pub usize);
impl<W: Write> Write for MapW<W> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let v: Vec<u8> = buf.iter().enumerate().map(|(i, b)| self.1.enc(self.2 + i, *b)).collect();
        let n = self.0.write(&v)?;
        self.2 += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { self.0.flush() }
}
/// byte-wise reader, never reads more than it is asked for
pub struct MapR<R> { r: R, k: K, pos: usize, buf: Vec<u8> }
impl<R> MapR<R> { pub fn new(r: R, k: K) -> Self { MapR { r, k, pos: 0, buf: vec![] } } }
impl<R: Read> Read for MapR<R> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.r.read(buf)?;
        for i in 0..n { buf[i] = self.k.dec(self.pos + i, buf[i]); }
        self.pos += n;
        Ok(n)
    }
}
impl<R: BufRead> BufRead for MapR<R> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        let (k, p) = (self.k, self.pos);
        self.buf = self.r.fill_buf()?.iter().enumerate().map(|(i, b)| k.dec(p + i, *b)).collect();
        Ok(&self.buf)
    }
    fn consume(&mut self, n: usize) { self.r.consume(n); self.pos += n; }
}
/// collects everything, emits length, data and a trailer when it is finished
pub struct FrameW<W>(pub W, pub Vec<u8>);
impl<W: Write> FrameW<W> {
    pub fn finish(&mut self) -> io::Result<()> {
        let mut v = vec![self.1.len() as u8];
        v.append(&mut self.1);
        v.push(0xee);
        self.0.write_all(&v)?;
        self.0.flush()
    }
}
impl<W: Write> Write for FrameW<W> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> { self.1.extend_from_slice(buf); Ok(buf.len()) }
    fn flush(&mut self) -> io::Result<()> { self.0.flush() }
}
/// changes nothing, but holds everything back until it is flushed
pub struct HoldW<W>(pub W, pub Vec<u8>);
impl<W: Write> Write for HoldW<W> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> { self.1.extend_from_slice(buf); Ok(buf.len()) }
    fn flush(&mut self) -> io::Result<()> {
        let v = std::mem::take(&mut self.1);
        self.0.write_all(&v)?;
        self.0.flush()
    }
}
pub struct FrameR<R> { r: R, buf: Option<Vec<u8>>, pos: usize }
impl<R> FrameR<R> { pub fn new(r: R) -> Self { FrameR { r, buf: None, pos: 0 } } }
impl<R: Read> BufRead for FrameR<R> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.buf.is_none() {
            let mut n = [0u8];
            self.r.read_exact(&mut n)?;
            let mut v = vec![0u8; n[0] as usize];
            self.r.read_exact(&mut v)?;
            self.r.read_exact(&mut n)?;
            if n[0] != 0xee { return Err(io::Error::new(io::ErrorKind::InvalidData, "frame trailer")); }
            self.buf = Some(v);
        }
        Ok(&self.buf.as_ref().unwrap()[self.pos..])
    }
    fn consume(&mut self, n: usize) { self.pos += n; }
}
impl<R: Read> Read for FrameR<R> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() { return Ok(0); }
        let b = self.fill_buf()?;
        let n = b.len().min(buf.len());
        buf[..n].copy_from_slice(&b[..n]);
        self.consume(n);
        Ok(n)
    }
}

#[cfg(feature = "async")]
pub mod aio {
    use super::*;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    use tokio::io::{AsyncBufRead, AsyncRead, AsyncWrite, ReadBuf};
    pub struct AMapW<W>(pub W, pub K, pub usize);
    impl<W: AsyncWrite + Unpin> AsyncWrite for AMapW<W> {
        fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
            let (k, p) = (self.1, self.2);
            let v: Vec<u8> = buf.iter().enumerate().map(|(i, b)| k.enc(p + i, *b)).collect();
            let r = Pin::new(&mut self.0).poll_write(cx, &v);
            if let Poll::Ready(Ok(n)) = &r { self.2 += n; }
            r
        }
        fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { Pin::new(&mut self.0).poll_flush(cx) }
        fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { Pin::new(&mut self.0).poll_shutdown(cx) }
    }
    pub struct AMapR<R> { r: R, k: K, pos: usize, buf: Vec<u8> }
    impl<R> AMapR<R> { pub fn new(r: R, k: K) -> Self { AMapR { r, k, pos: 0, buf: vec![] } } }
    impl<R: AsyncBufRead + Unpin> AsyncRead for AMapR<R> {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            if buf.remaining() == 0 { return Poll::Ready(Ok(())); }
            let s = self.get_mut();
            let (k, p) = (s.k, s.pos);
            let n = match Pin::new(&mut s.r).poll_fill_buf(cx) {
                Poll::Ready(Ok(b)) => { let n = b.len().min(buf.remaining()); for i in 0..n { buf.put_slice(&[k.dec(p + i, b[i])]); } n }
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Pending => return Poll::Pending,
            };
            Pin::new(&mut s.r).consume(n);
            s.pos += n;
            Poll::Ready(Ok(()))
        }
    }
    impl<R: AsyncBufRead + Unpin> AsyncBufRead for AMapR<R> {
        fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
            let s = self.get_mut();
            let (k, p) = (s.k, s.pos);
            match Pin::new(&mut s.r).poll_fill_buf(cx) {
                Poll::Ready(Ok(b)) => { s.buf = b.iter().enumerate().map(|(i, b)| k.dec(p + i, *b)).collect(); Poll::Ready(Ok(&s.buf)) }
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Pending => Poll::Pending,
            }
        }
        fn consume(mut self: Pin<&mut Self>, n: usize) { Pin::new(&mut self.r).consume(n); self.pos += n; }
    }
    fn drain<W: AsyncWrite + Unpin>(w: &mut W, v: &[u8], at: &mut usize, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        while *at < v.len() {
            match Pin::new(&mut *w).poll_write(cx, &v[*at..]) {
                Poll::Ready(Ok(0)) => return Poll::Ready(Err(io::ErrorKind::WriteZero.into())),
                Poll::Ready(Ok(n)) => *at += n,
                Poll::Ready(Err(e)) if e.kind() == io::ErrorKind::Interrupted => (),
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Pending => return Poll::Pending,
            }
        }
        Poll::Ready(Ok(()))
    }
    pub struct AFrameW<W>(pub W, pub Vec<u8>);
    impl<W: AsyncWrite + Unpin> AFrameW<W> {
        pub async fn finish(&mut self) -> io::Result<()> {
            use tokio::io::AsyncWriteExt;
            let mut v = vec![self.1.len() as u8];
            v.append(&mut self.1);
            v.push(0xee);
            let mut at = 0;
            std::future::poll_fn(|cx| drain(&mut self.0, &v, &mut at, cx)).await?;
            self.0.flush().await
        }
    }
    impl<W: AsyncWrite + Unpin> AsyncWrite for AFrameW<W> {
        fn poll_write(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> { self.1.extend_from_slice(buf); Poll::Ready(Ok(buf.len())) }
        fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { Pin::new(&mut self.0).poll_flush(cx) }
        fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { Pin::new(&mut self.0).poll_shutdown(cx) }
    }
    pub struct AHoldW<W>(pub W, pub Vec<u8>, pub usize);
    impl<W: AsyncWrite + Unpin> AsyncWrite for AHoldW<W> {
        fn poll_write(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> { self.1.extend_from_slice(buf); Poll::Ready(Ok(buf.len())) }
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            let s = self.get_mut();
            match drain(&mut s.0, &s.1, &mut s.2, cx) { Poll::Ready(Ok(())) => (), x => return x }
            s.1.clear();
            s.2 = 0;
            Pin::new(&mut s.0).poll_flush(cx)
        }
        fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { Pin::new(&mut self.0).poll_shutdown(cx) }
    }
    pub struct AFrameR<R> { r: R, raw: Vec<u8>, done: bool, pos: usize }
    impl<R> AFrameR<R> { pub fn new(r: R) -> Self { AFrameR { r, raw: vec![], done: false, pos: 1 } } }
    impl<R: AsyncBufRead + Unpin> AsyncBufRead for AFrameR<R> {
        fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
            let s = self.get_mut();
            while !s.done {
                let want = if s.raw.is_empty() { 1 } else { s.raw[0] as usize + 2 - s.raw.len() };
                let n = match Pin::new(&mut s.r).poll_fill_buf(cx) {
                    Poll::Ready(Ok(b)) => { if b.is_empty() { return Poll::Ready(Err(io::ErrorKind::UnexpectedEof.into())); } let n = b.len().min(want); s.raw.extend_from_slice(&b[..n]); n }
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                    Poll::Pending => return Poll::Pending,
                };
                Pin::new(&mut s.r).consume(n);
                if s.raw.len() == s.raw[0] as usize + 2 {
                    if s.raw.pop() != Some(0xee) { return Poll::Ready(Err(io::Error::new(io::ErrorKind::InvalidData, "frame trailer"))); }
                    s.done = true;
                }
            }
            Poll::Ready(Ok(&s.raw[s.pos..]))
        }
        fn consume(mut self: Pin<&mut Self>, n: usize) { self.pos += n; }
    }
    impl<R: AsyncBufRead + Unpin> AsyncRead for AFrameR<R> {
        fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            if buf.remaining() == 0 { return Poll::Ready(Ok(())); }
            let n = match self.as_mut().poll_fill_buf(cx) {
                Poll::Ready(Ok(b)) => { let n = b.len().min(buf.remaining()); buf.put_slice(&b[..n]); n }
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Pending => return Poll::Pending,
            };
            self.pos += n;
            Poll::Ready(Ok(()))
        }
    }
}
