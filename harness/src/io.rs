//! Sources and sinks that behave badly in every way their traits allow.
use crate::rng::Rng;
use futures::io::{AsyncRead, AsyncWrite};
use std::io::{self, ErrorKind, Read, Write};
use std::pin::Pin;
use std::task::{Context, Poll};

pub struct Src<'a> {
    pub data: &'a [u8], pub pos: usize,
    /// largest number of bytes handed out per read (0: no limit)
    pub chunk: usize,
    /// per-mille probability of an Interrupted error / of Pending
    pub intr: usize, pub pend: usize,
    pub fault: Option<(usize, ErrorKind)>,
    pub rng: Rng, pub idle: u32, pub faulted: bool,
}
impl<'a> Src<'a> {
    pub fn new(data: &'a [u8]) -> Self { Src { data, pos: 0, chunk: 0, intr: 0, pend: 0, fault: None, rng: Rng::new(1), idle: 0, faulted: false } }
    pub fn rough(data: &'a [u8], chunk: usize, intr: usize, pend: usize, seed: u64) -> Self { Src { chunk, intr, pend, rng: Rng::new(seed), ..Src::new(data) } }
    fn give(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() { return Ok(0); }
        let mut end = self.data.len();
        if let Some((at, k)) = self.fault {
            if self.pos >= at { self.faulted = true; self.idle += 1; if self.idle > 10_000 { panic!("livelock: the reader keeps reading a source that failed"); } return Err(io::Error::new(k, "injected fault")); }
            end = end.min(at);
        }
        let mut n = buf.len().min(end - self.pos);
        if self.chunk > 0 && n > 0 { n = n.min(1 + self.rng.below(self.chunk)); }
        if n == 0 { self.idle += 1; if self.idle > 10_000 { panic!("livelock: the reader keeps reading at end of input"); } }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl<'a> Read for Src<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.intr > 0 && self.rng.below(1000) < self.intr { return Err(io::Error::new(ErrorKind::Interrupted, "interrupted")); }
        self.give(buf)
    }
}
impl<'a> AsyncRead for Src<'a> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let p = self.pend;
        if p > 0 && self.rng.below(1000) < p { cx.waker().wake_by_ref(); return Poll::Pending; }
        Poll::Ready(self.give(buf))
    }
}

pub struct Sink {
    pub out: Vec<u8>, pub chunk: usize, pub intr: usize, pub pend: usize,
    /// once this many bytes were accepted, every write fails so
    pub fault: Option<(usize, ErrorKind)>,
    /// once this many bytes were accepted, every write returns Ok(0)
    pub zero: Option<usize>,
    pub flush_err: Option<ErrorKind>, pub flushes: u32,
    pub rng: Rng, idle: u32, pub hit: bool,
}
impl Sink {
    pub fn new() -> Self { Sink { out: vec![], chunk: 0, intr: 0, pend: 0, fault: None, zero: None, flush_err: None, flushes: 0, rng: Rng::new(1), idle: 0, hit: false } }
    pub fn rough(chunk: usize, intr: usize, pend: usize, seed: u64) -> Self { Sink { chunk, intr, pend, rng: Rng::new(seed), ..Sink::new() } }
    fn stuck(&mut self) { self.hit = true; self.idle += 1; if self.idle > 10_000 { panic!("livelock: the writer keeps writing to a sink that accepts nothing"); } }
    fn take(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() { return Ok(0); }
        let mut n = buf.len();
        if let Some((at, k)) = self.fault { if self.out.len() >= at { self.stuck(); return Err(io::Error::new(k, "injected fault")); } n = n.min(at - self.out.len()); }
        if let Some(at) = self.zero { if self.out.len() >= at { self.stuck(); return Ok(0); } n = n.min(at - self.out.len()); }
        if self.chunk > 0 { n = n.min(1 + self.rng.below(self.chunk)); }
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn fl(&mut self) -> io::Result<()> { self.flushes += 1; match self.flush_err { Some(k) => Err(io::Error::new(k, "injected flush fault")), None => Ok(()) } }
}
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.intr > 0 && self.rng.below(1000) < self.intr { return Err(io::Error::new(ErrorKind::Interrupted, "interrupted")); }
        self.take(buf)
    }
    fn flush(&mut self) -> io::Result<()> { self.fl() }
}
impl AsyncWrite for Sink {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let p = self.pend;
        if p > 0 && self.rng.below(1000) < p { cx.waker().wake_by_ref(); return Poll::Pending; }
        Poll::Ready(self.take(buf))
    }
    fn poll_flush(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(self.fl()) }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
}
pub const KINDS: &[ErrorKind] = &[ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::ConnectionRefused, ErrorKind::ConnectionReset, ErrorKind::ConnectionAborted, ErrorKind::NotConnected, ErrorKind::AddrInUse, ErrorKind::AddrNotAvailable, ErrorKind::BrokenPipe, ErrorKind::AlreadyExists, ErrorKind::WouldBlock, ErrorKind::InvalidInput, ErrorKind::InvalidData, ErrorKind::TimedOut, ErrorKind::WriteZero, ErrorKind::Unsupported, ErrorKind::UnexpectedEof, ErrorKind::OutOfMemory, ErrorKind::Other];
