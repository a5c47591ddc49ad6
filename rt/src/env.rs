//! Environment models: readers and writers whose every answer is decided by
//! an explored schedule.
use std::io::{self, BufRead, Read, Write};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ev {
    /// the next fill makes this many bytes visible
    Chunk(usize),
    /// the call is interrupted
    Intr,
    /// the call fails
    Fail,
    /// (async) not ready, wakes later
    Pend,
}
pub fn show(s: &[Ev]) -> String { s.iter().map(|e| match e { Ev::Chunk(n) => n.to_string(), Ev::Intr => "I".into(), Ev::Fail => "F".into(), Ev::Pend => "P".into() }).collect::<Vec<_>>().join(",") }

/// calls without progress before it counts as a livelock
const SPIN: usize = 10_000;

pub struct Rd<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    /// end of the bytes currently visible
    vis: usize,
    pub plan: &'a [Ev],
    pub at: usize,
    spins: usize,
    pub fills: usize,
    /// position and kind: the environment failed here
    pub failed: bool,
    pub eof_seen: bool,
    /// size of a fill when the plan is over (0: everything)
    pub rest: usize,
}
impl<'a> Rd<'a> {
    pub fn new(data: &'a [u8], plan: &'a [Ev]) -> Rd<'a> { Rd { data, pos: 0, vis: 0, plan, at: 0, spins: 0, fills: 0, failed: false, eof_seen: false, rest: 0 } }
    pub fn rest(mut self, n: usize) -> Rd<'a> { self.rest = n; self }
    /// answers one request for more data
    fn fill(&mut self) -> Result<(), Ev> {
        self.spins += 1;
        if self.spins > SPIN { panic!("livelock: reader polled {} times without progress", SPIN) }
        if self.pos < self.vis { return Ok(()); }
        self.fills += 1;
        let ev = self.plan.get(self.at).copied();
        if ev.is_some() { self.at += 1; }
        match ev {
            Some(Ev::Chunk(n)) => { self.vis = self.data.len().min(self.pos + n.max(1)); }
            Some(e) => { if e == Ev::Fail { self.failed = true; } return Err(e); }
            None => { self.vis = if self.rest == 0 { self.data.len() } else { self.data.len().min(self.pos + self.rest) }; }
        }
        if self.pos == self.data.len() { self.eof_seen = true; }
        Ok(())
    }
    fn eat(&mut self, n: usize) { if n > self.vis - self.pos { panic!("consumed {} of {} visible bytes", n, self.vis - self.pos) } if n > 0 { self.spins = 0; } self.pos += n; }
}
fn err(e: Ev) -> io::Error { match e { Ev::Intr => io::Error::from(io::ErrorKind::Interrupted), _ => io::Error::new(io::ErrorKind::ConnectionReset, "injected failure") } }
impl<'a> Read for Rd<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() { return Ok(0); }
        self.fill().map_err(err)?;
        let n = buf.len().min(self.vis - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.eat(n);
        Ok(n)
    }
}
impl<'a> BufRead for Rd<'a> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> { self.fill().map_err(err)?; Ok(&self.data[self.pos..self.vis]) }
    fn consume(&mut self, n: usize) { self.eat(n) }
}

/// what a writer does at one call
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Wv { Full, Short(usize), Intr, Zero, Fail, Pend }
pub struct Wr<'a> { pub out: Vec<u8>, pub plan: &'a [(usize, Wv)], pub calls: usize, pub failed: bool, pub flushes: usize, pub sizes: Vec<usize>, pub every: Option<usize>, spins: usize }
impl<'a> Wr<'a> {
    /// plan: call number -> answer; all other calls are accepted in full (or at most `every` bytes)
    pub fn new(plan: &'a [(usize, Wv)]) -> Wr<'a> { Wr { out: vec![], plan, calls: 0, failed: false, flushes: 0, sizes: vec![], every: None, spins: 0 } }
    fn step(&mut self, buf: &[u8]) -> Result<usize, Wv> {
        self.spins += 1;
        if self.spins > SPIN { panic!("livelock: writer called {} times without progress", SPIN) }
        let k = self.calls;
        self.calls += 1;
        self.sizes.push(buf.len());
        let a = self.plan.iter().find(|p| p.0 == k).map(|p| p.1).unwrap_or(Wv::Full);
        let n = match a {
            Wv::Full => self.every.map_or(buf.len(), |e| e.min(buf.len())),
            Wv::Short(n) => n.min(buf.len()),
            Wv::Zero => { self.failed = true; 0 }
            x => { if x == Wv::Fail { self.failed = true; } return Err(x) }
        };
        if n > 0 { self.spins = 0; }
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
}
fn werr(e: Wv) -> io::Error { match e { Wv::Intr => io::Error::from(io::ErrorKind::Interrupted), _ => io::Error::new(io::ErrorKind::BrokenPipe, "injected failure") } }
impl<'a> Write for Wr<'a> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> { if buf.is_empty() { return Ok(0); } self.step(buf).map_err(werr) }
    fn flush(&mut self) -> io::Result<()> { self.flushes += 1; Ok(()) }
}

#[cfg(feature = "async")]
pub mod aio {
    use super::*;
    use std::future::Future;
    use std::pin::Pin;
    use std::sync::atomic::{AtomicBool, Ordering};
    use std::sync::Arc;
    use std::task::{Context, Poll, Wake, Waker};
    use tokio::io::{AsyncBufRead, AsyncRead, AsyncWrite, ReadBuf};

    pub struct ARd<'a>(pub Rd<'a>);
    impl<'a> ARd<'a> {
        fn go(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            match self.0.fill() { Ok(()) => Poll::Ready(Ok(())), Err(Ev::Pend) => { cx.waker().wake_by_ref(); Poll::Pending } Err(e) => Poll::Ready(Err(err(e))) }
        }
    }
    impl<'a> AsyncRead for ARd<'a> {
        fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            if buf.remaining() == 0 { return Poll::Ready(Ok(())); }
            match self.go(cx) { Poll::Ready(Ok(())) => (), x => return x }
            let r = &mut self.0;
            let n = buf.remaining().min(r.vis - r.pos);
            buf.put_slice(&r.data[r.pos..r.pos + n]);
            r.eat(n);
            Poll::Ready(Ok(()))
        }
    }
    impl<'a> AsyncBufRead for ARd<'a> {
        fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
            let s = self.get_mut();
            match s.go(cx) { Poll::Ready(Ok(())) => Poll::Ready(Ok(&s.0.data[s.0.pos..s.0.vis])), Poll::Ready(Err(e)) => Poll::Ready(Err(e)), Poll::Pending => Poll::Pending }
        }
        fn consume(mut self: Pin<&mut Self>, n: usize) { self.0.eat(n) }
    }
    pub struct AWr<'a>(pub Wr<'a>);
    impl<'a> AsyncWrite for AWr<'a> {
        fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
            if buf.is_empty() { return Poll::Ready(Ok(0)); }
            match self.0.step(buf) { Ok(n) => Poll::Ready(Ok(n)), Err(Wv::Pend) => { cx.waker().wake_by_ref(); Poll::Pending } Err(e) => Poll::Ready(Err(werr(e))) }
        }
        fn poll_flush(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { self.0.flushes += 1; Poll::Ready(Ok(())) }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    }
    struct Flag(AtomicBool);
    impl Wake for Flag { fn wake(self: Arc<Self>) { self.0.store(true, Ordering::SeqCst) } fn wake_by_ref(self: &Arc<Self>) { self.0.store(true, Ordering::SeqCst) } }
    /// runs a future to completion on a deterministic executor
    pub fn block<F: Future + ?Sized>(mut f: Pin<Box<F>>) -> F::Output {
        let flag = Arc::new(Flag(AtomicBool::new(false)));
        let w = Waker::from(flag.clone());
        let mut cx = Context::from_waker(&w);
        for _ in 0..SPIN {
            flag.0.store(false, Ordering::SeqCst);
            if let Poll::Ready(x) = f.as_mut().poll(&mut cx) { return x; }
            if !flag.0.load(Ordering::SeqCst) { panic!("hang: future pending without a wake-up") }
        }
        panic!("livelock: future never completes")
    }
}
