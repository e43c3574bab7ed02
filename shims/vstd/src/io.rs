//! `std::io` with a plain-data error type.
pub use ::std::io::{ErrorKind, SeekFrom};
use ::std::fmt;

const PAD: usize = /*ERRPAD*/0;
pub struct Error {
    /// An ErrorKind; as a number, for the layout's sake (see `Niche`).
    kind: u8,
    os: i32,
    /// Makes the errors larger than what they come in place of.
    pad: [u64; PAD],
}
pub type Result<T> = ::std::result::Result<T, Error>;
impl Error {
    pub fn new<E>(kind: ErrorKind, _e: E) -> Self {
        ::std::mem::forget(_e);
        Error { kind: kind as u8, os: 0, pad: [0; PAD] }
    }
    pub fn other<E>(_e: E) -> Self {
        ::std::mem::forget(_e);
        Error { kind: ErrorKind::Other as u8, os: 0, pad: [0; PAD] }
    }
    pub fn last_os_error() -> Self {
        Error { kind: ErrorKind::Other as u8, os: 1, pad: [0; PAD] }
    }
    pub fn from_raw_os_error(os: i32) -> Self {
        Error { kind: ErrorKind::Other as u8, os, pad: [0; PAD] }
    }
    pub fn kind(&self) -> ErrorKind {
        unsafe { ::std::mem::transmute::<u8, ErrorKind>(self.kind) }
    }
    pub fn raw_os_error(&self) -> Option<i32> {
        if self.os != 0 { Some(self.os) } else { None }
    }
    /// Rendering is not modelled.
    pub fn to_string(&self) -> crate::Text {
        crate::Text
    }
}
impl From<ErrorKind> for Error {
    fn from(kind: ErrorKind) -> Self {
        Error { kind: kind as u8, os: 0, pad: [0; PAD] }
    }
}
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("io::Error")
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("io::Error")
    }
}
impl ::std::error::Error for Error {}

/// A transfer is done in at most this many calls.
pub const RETRY: usize = /*RETRY*/3;
pub trait Read {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize>;
    fn read_exact(&mut self, mut buf: &mut [u8]) -> Result<()> {
        let mut tries = 0;
        while tries < RETRY {
            tries += 1;
            if buf.is_empty() {
                return Ok(());
            }
            match self.read(buf) {
                Ok(0) => return Err(Error::from(ErrorKind::UnexpectedEof)),
                Ok(n) => {
                    let tmp = buf;
                    buf = &mut tmp[n..];
                }
                // (Nothing here is ever interrupted.)
                Err(e) => return Err(e),
            }
        }
        vk::limit(buf.is_empty());
        Ok(())
    }
    fn read_to_end(&mut self, out: &mut crate::vec::Vec<u8>) -> Result<usize> {
        let mut n = 0;
        let mut b = [0u8; 1];
        loop {
            if self.read(&mut b)? == 0 {
                return Ok(n);
            }
            out.push(b[0]);
            n += 1;
        }
    }
    /// `self.take(limit).read_to_end(out)`.
    #[doc(hidden)]
    fn vk_read_up_to(&mut self, out: &mut crate::vec::Vec<u8>, limit: u64) -> Result<usize> {
        let mut n = 0;
        let mut b = [0u8; 1];
        while (n as u64) < limit {
            if self.read(&mut b)? == 0 {
                return Ok(n);
            }
            out.push(b[0]);
            n += 1;
        }
        Ok(n)
    }
    fn by_ref(&mut self) -> &mut Self
    where
        Self: Sized,
    {
        self
    }
    fn take(self, limit: u64) -> Take<Self>
    where
        Self: Sized,
    {
        Take { inner: self, limit }
    }
}
pub struct Take<R> {
    inner: R,
    limit: u64,
}
impl<R: Read> Read for Take<R> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if self.limit == 0 {
            return Ok(0);
        }
        let max = ::std::cmp::min(buf.len() as u64, self.limit) as usize;
        let n = self.inner.read(&mut buf[..max])?;
        self.limit -= n as u64;
        Ok(n)
    }
    fn read_to_end(&mut self, out: &mut crate::vec::Vec<u8>) -> Result<usize> {
        let n = self.inner.vk_read_up_to(out, self.limit)?;
        self.limit -= n as u64;
        Ok(n)
    }
}
impl<R: Read + ?Sized> Read for &mut R {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        (**self).read(buf)
    }
}
impl Read for &[u8] {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let n = ::std::cmp::min(buf.len(), self.len());
        let (a, b) = self.split_at(n);
        let mut i = 0;
        // (One of the lengths is known; the symbolic execution stops at that one.)
        while i < buf.len() && i < a.len() {
            buf[i] = a[i];
            i += 1;
        }
        *self = b;
        Ok(n)
    }
}
pub trait Write {
    fn write(&mut self, buf: &[u8]) -> Result<usize>;
    fn flush(&mut self) -> Result<()>;
    fn write_all(&mut self, mut buf: &[u8]) -> Result<()> {
        let mut tries = 0;
        while tries < RETRY {
            tries += 1;
            if buf.is_empty() {
                return Ok(());
            }
            match self.write(buf) {
                Ok(0) => return Err(Error::from(ErrorKind::WriteZero)),
                Ok(n) => buf = &buf[n..],
                // (Nothing here is ever interrupted.)
                Err(e) => return Err(e),
            }
        }
        vk::limit(buf.is_empty());
        Ok(())
    }
    fn by_ref(&mut self) -> &mut Self
    where
        Self: Sized,
    {
        self
    }
}
impl Write for Vec<u8> {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.extend_from_slice(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
    fn write_all(&mut self, buf: &[u8]) -> Result<()> {
        self.extend_from_slice(buf);
        Ok(())
    }
}
impl<W: Write + ?Sized> Write for &mut W {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        (**self).write(buf)
    }
    fn flush(&mut self) -> Result<()> {
        (**self).flush()
    }
}
pub trait Seek {
    fn seek(&mut self, pos: SeekFrom) -> Result<u64>;
    fn rewind(&mut self) -> Result<()> {
        self.seek(SeekFrom::Start(0)).map(|_| ())
    }
    fn stream_position(&mut self) -> Result<u64> {
        self.seek(SeekFrom::Current(0))
    }
    fn seek_relative(&mut self, off: i64) -> Result<()> {
        self.seek(SeekFrom::Current(off)).map(|_| ())
    }
}
impl<S: Seek + ?Sized> Seek for &mut S {
    fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
        (**self).seek(pos)
    }
}
pub trait BufRead: Read {}

/// Buffering is invisible to the reader.
#[derive(Debug)]
pub struct BufReader<R>(R);
impl<R: Read> BufReader<R> {
    pub fn new(r: R) -> Self {
        BufReader(r)
    }
    pub fn with_capacity(_: usize, r: R) -> Self {
        BufReader(r)
    }
    pub fn get_ref(&self) -> &R {
        &self.0
    }
    pub fn get_mut(&mut self) -> &mut R {
        &mut self.0
    }
    pub fn into_inner(self) -> R {
        self.0
    }
}
impl<R: Read> Read for BufReader<R> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.0.read(buf)
    }
}
impl<R: Seek> Seek for BufReader<R> {
    fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
        self.0.seek(pos)
    }
}
#[derive(Debug, Clone, Default)]
pub struct Cursor<T> {
    inner: T,
    pos: u64,
}
impl<T> Cursor<T> {
    pub fn new(inner: T) -> Self {
        Cursor { inner, pos: 0 }
    }
    pub fn position(&self) -> u64 {
        self.pos
    }
    pub fn set_position(&mut self, p: u64) {
        self.pos = p;
    }
    pub fn into_inner(self) -> T {
        self.inner
    }
    pub fn get_ref(&self) -> &T {
        &self.inner
    }
}
impl<T: AsRef<[u8]>> Read for Cursor<T> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let s = self.inner.as_ref();
        let mut n = 0;
        while n < buf.len() && (self.pos as usize) < s.len() {
            buf[n] = s[self.pos as usize];
            self.pos += 1;
            n += 1;
        }
        Ok(n)
    }
}
impl<T: AsRef<[u8]>> Seek for Cursor<T> {
    fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
        let n = match pos {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::End(d) => self.inner.as_ref().len() as i128 + d as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        if n < 0 {
            return Err(Error::from(ErrorKind::InvalidInput));
        }
        self.pos = n as u64;
        Ok(self.pos)
    }
}
pub fn copy<R: Read + ?Sized, W: Write + ?Sized>(r: &mut R, w: &mut W) -> Result<u64> {
    let mut n = 0;
    let mut b = [0u8; 1];
    while r.read(&mut b)? == 1 {
        w.write_all(&b)?;
        n += 1;
    }
    Ok(n)
}
pub mod prelude {
    pub use super::{BufRead, Read, Seek, Write};
}
