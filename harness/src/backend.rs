//! The underlying streams sessions run over.
use fourleaf::io::{AsExtBytes, TransparentCursor};
use fourleaf::stream::{Blob, Field, Stream};
use crate::json::J;
use std::io::{self, BufRead, Cursor, Read, Seek, SeekFrom, Write};

/// Faults and interruptions of the transport: (hard, seek, interrupted).
pub type Ev = (u32, u32, u32);
thread_local!(static EV: std::cell::Cell<Ev> = std::cell::Cell::new((0, 0, 0)));
pub fn note(a: u32, b: u32, c: u32) { EV.with(|e| { let v = e.get(); e.set((v.0 + a, v.1 + b, v.2 + c)); }) }
/// ... since the last call.
pub fn events() -> Ev { EV.with(|e| e.replace((0, 0, 0))) }

pub type SR<T> = fourleaf::stream::Result<T>;

/// What a session needs of an underlying stream.  The slice accessors are
/// `None` where the stream does not offer them.
pub trait Be: Read + Write + Seek + BufRead + Sized {
    const WRITABLE: bool = true;
    const SEEKABLE: bool = true;
    const SLICE: bool = false;
    const MUT: bool = false;
    const EXT: bool = false;
    fn slice(_: &Blob<Self>) -> SR<Vec<u8>> { unreachable!() }
    fn slice_mut(_: &mut Blob<Self>) -> SR<Vec<u8>> { unreachable!() }
    fn ext(_: &mut Blob<Self>) -> SR<(usize, Vec<u8>)> { unreachable!() }
    /// Operations of the typed layer, where there is one (see `typed.rs`).
    fn typed(_: &mut Stream<Self>, _: &J) -> Option<J> { None }
    fn typed_field(_: &mut Field<Self>, _: &J) -> Option<J> { None }
    fn buffer(self) -> Vec<u8>;
    /// (address, length) of the caller's buffer
    fn base(&self) -> (usize, usize) { (0, 0) }
    /// (offset, length) of the underlying stream
    fn at(&self) -> (u64, u64);
}

fn flip(d: &mut [u8]) -> Vec<u8> {
    let v = d.to_vec();
    for b in d { *b = 255 - *b; }
    v
}

impl Be for Cursor<Vec<u8>> {
    fn buffer(self) -> Vec<u8> { self.into_inner() }
    fn at(&self) -> (u64, u64) { (self.position(), self.get_ref().len() as u64) }
}

impl Be for TransparentCursor<Vec<u8>> {
    const SLICE: bool = true;
    const MUT: bool = true;
    fn slice(b: &Blob<Self>) -> SR<Vec<u8>> { b.slice().map(|s| s.to_vec()) }
    fn slice_mut(b: &mut Blob<Self>) -> SR<Vec<u8>> { b.slice_mut().map(flip) }
    fn buffer(self) -> Vec<u8> { self.0.into_inner() }
    fn at(&self) -> (u64, u64) { (self.0.position(), self.0.get_ref().len() as u64) }
}

fn ro<T>() -> io::Result<T> { Err(io::Error::new(io::ErrorKind::Unsupported, "read-only")) }

/// `TransparentCursor<&[u8]>`, the stream behind `from_slice_*`.
pub struct Bor(pub TransparentCursor<&'static [u8]>);
impl Read for Bor { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.0.read(b) } }
impl BufRead for Bor {
    fn fill_buf(&mut self) -> io::Result<&[u8]> { self.0.fill_buf() }
    fn consume(&mut self, n: usize) { self.0.consume(n) }
}
impl Write for Bor { fn write(&mut self, _: &[u8]) -> io::Result<usize> { ro() } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
impl Seek for Bor { fn seek(&mut self, s: SeekFrom) -> io::Result<u64> { self.0.seek(s) } }
impl AsRef<[u8]> for Bor { fn as_ref(&self) -> &[u8] { self.0.as_ref() } }
impl AsExtBytes<'static> for Bor { fn as_ext_bytes(&mut self) -> &'static [u8] { self.0.as_ext_bytes() } }
impl Be for Bor {
    const WRITABLE: bool = false;
    const SLICE: bool = true;
    const EXT: bool = true;
    fn slice(b: &Blob<Self>) -> SR<Vec<u8>> { b.slice().map(|s| s.to_vec()) }
    fn ext(b: &mut Blob<Self>) -> SR<(usize, Vec<u8>)> { b.ext_slice().map(|s| (s.as_ptr() as usize, s.to_vec())) }
    fn typed(s: &mut Stream<Self>, op: &J) -> Option<J> { crate::typed::bor(s, op) }
    fn typed_field(f: &mut Field<Self>, op: &J) -> Option<J> { crate::typed::bor_field(f, op) }
    fn buffer(self) -> Vec<u8> { (self.0).0.into_inner().to_vec() }
    fn base(&self) -> (usize, usize) { let d = (self.0).0.get_ref(); (d.as_ptr() as usize, d.len()) }
    fn at(&self) -> (u64, u64) { ((self.0).0.position(), (self.0).0.get_ref().len() as u64) }
}

/// A plain `&[u8]`.
pub struct Sl(pub &'static [u8], pub &'static [u8]);
impl Read for Sl { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.0.read(b) } }
impl BufRead for Sl {
    fn fill_buf(&mut self) -> io::Result<&[u8]> { self.0.fill_buf() }
    fn consume(&mut self, n: usize) { self.0.consume(n) }
}
impl Write for Sl { fn write(&mut self, _: &[u8]) -> io::Result<usize> { ro() } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
impl Seek for Sl { fn seek(&mut self, _: SeekFrom) -> io::Result<u64> { ro() } }
impl AsRef<[u8]> for Sl { fn as_ref(&self) -> &[u8] { self.0 } }
impl AsExtBytes<'static> for Sl { fn as_ext_bytes(&mut self) -> &'static [u8] { self.0.as_ext_bytes() } }
impl Be for Sl {
    const WRITABLE: bool = false;
    const SEEKABLE: bool = false;
    const SLICE: bool = true;
    const EXT: bool = true;
    fn slice(b: &Blob<Self>) -> SR<Vec<u8>> { b.slice().map(|s| s.to_vec()) }
    fn ext(b: &mut Blob<Self>) -> SR<(usize, Vec<u8>)> { b.ext_slice().map(|s| (s.as_ptr() as usize, s.to_vec())) }
    fn buffer(self) -> Vec<u8> { self.1.to_vec() }
    fn base(&self) -> (usize, usize) { (self.1.as_ptr() as usize, self.1.len()) }
    fn at(&self) -> (u64, u64) { ((self.1.len() - self.0.len()) as u64, self.1.len() as u64) }
}

/// An in-memory stream which splits, interrupts and fails transfers.
pub struct Mem {
    pub b: Vec<u8>,
    pub p: u64,
    /// how much each transfer may move, cyclically; 0: it is interrupted
    pub caps: Vec<usize>,
    pub calls: usize,
    /// the transfer which fails, if any
    pub fail: Option<usize>,
    /// whether seeks count as transfers that can fail
    pub fail_seek: bool,
    pub last0: bool,
}
impl Mem {
    pub fn new(b: Vec<u8>, caps: Vec<usize>, fail: Option<usize>, fail_seek: bool) -> Mem {
        Mem { b, p: 0, caps, calls: 0, fail, fail_seek, last0: false }
    }
    fn call(&mut self) -> io::Result<usize> {
        let c = self.calls; self.calls += 1;
        if self.fail == Some(c) { note(1, 0, 0); return Err(io::Error::new(io::ErrorKind::Other, "fault")); }
        if self.caps.is_empty() { return Ok(usize::MAX); }
        let cap = self.caps[c % self.caps.len()];
        if cap == 0 && !self.last0 {
            self.last0 = true; note(0, 0, 1);
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        self.last0 = false;
        Ok(if cap == 0 { 1 } else { cap })
    }
    fn avail(&self) -> &[u8] { &self.b[(self.p.min(self.b.len() as u64) as usize)..] }
}
impl Read for Mem {
    fn read(&mut self, d: &mut [u8]) -> io::Result<usize> {
        let c = self.call()?;
        let n = c.min(d.len()).min(self.avail().len());
        d[..n].copy_from_slice(&self.avail()[..n]);
        self.p += n as u64;
        Ok(n)
    }
}
impl BufRead for Mem {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        let c = self.call()?;
        let n = c.min(self.avail().len());
        Ok(&self.avail()[..n])
    }
    fn consume(&mut self, n: usize) { self.p += n as u64; }
}
impl Write for Mem {
    fn write(&mut self, d: &[u8]) -> io::Result<usize> {
        let c = self.call()?;
        let n = c.min(d.len());
        let p = self.p as usize;
        if n > 0 {
            if self.b.len() < p + n { self.b.resize(p + n, 0); }
            self.b[p..p + n].copy_from_slice(&d[..n]);
        }
        self.p += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl Seek for Mem {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        let c = self.calls; self.calls += 1;
        if self.fail_seek && self.fail == Some(c) { note(0, 1, 0); return Err(io::Error::new(io::ErrorKind::Other, "fault")); }
        let t = match s {
            SeekFrom::Start(n) => Some(n),
            SeekFrom::End(n) => (self.b.len() as u64).checked_add_signed(n),
            SeekFrom::Current(n) => self.p.checked_add_signed(n),
        };
        match t { Some(n) => { self.p = n; Ok(n) }, None => Err(io::Error::new(io::ErrorKind::InvalidInput, "bad seek")) }
    }
}
impl Be for Mem {
    fn typed(s: &mut Stream<Self>, op: &J) -> Option<J> { crate::typed::mem(s, op) }
    fn typed_field(f: &mut Field<Self>, op: &J) -> Option<J> { crate::typed::mem_field(f, op) }
    fn buffer(self) -> Vec<u8> { self.b }
    fn at(&self) -> (u64, u64) { (self.p, self.b.len() as u64) }
}
