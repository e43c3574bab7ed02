//! `tokio::io` with the suspension points taken out: the generated code has `async` and `.await` removed,
//! so an asynchronous read is a synchronous one.
pub use vstd::io::{Read as AsyncRead, Seek as AsyncSeek, Write as AsyncWrite};
pub trait AsyncReadExt {}
impl<T: ?Sized> AsyncReadExt for T {}
pub trait AsyncWriteExt {}
impl<T: ?Sized> AsyncWriteExt for T {}
pub trait AsyncSeekExt {}
impl<T: ?Sized> AsyncSeekExt for T {}

/// A stream over a slice that gives at most so many bytes at a time.
pub struct Slow<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub at_most: usize,
}
impl vstd::io::Read for Slow<'_> {
    fn read(&mut self, buf: &mut [u8]) -> vstd::io::Result<usize> {
        let mut n = 0;
        while n < buf.len() && n < self.at_most && self.pos < self.data.len() {
            buf[n] = self.data[self.pos];
            self.pos += 1;
            n += 1;
        }
        Ok(n)
    }
}
