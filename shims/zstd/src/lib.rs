//! A stand-in compressor: a frame is a magic byte, a repeat count, and bytes each of which stands for
//! that many copies of itself. The encoder writes repeat count 1; a crafted frame may expand.
#![allow(missing_docs, clippy::all)]
pub const MAGIC: u8 = 0x28;
pub mod stream {
    pub mod read {
        use vstd::io::{Error, ErrorKind, Read, Result};
        pub struct Decoder<'a, R> {
            r: R,
            started: bool,
            rep: u8,
            cur: u8,
            left: u8,
            _l: std::marker::PhantomData<&'a ()>,
        }
        impl<'a, R: Read> Decoder<'a, R> {
            pub fn new(r: R) -> Result<Self> {
                Ok(Decoder { r, started: false, rep: 0, cur: 0, left: 0, _l: std::marker::PhantomData })
            }
            pub fn window_log_max(&mut self, _: u32) -> Result<()> {
                Ok(())
            }
        }
        impl<R: Read> Read for Decoder<'_, R> {
            fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
                if !self.started {
                    let mut h = [0u8; 2];
                    self.r.read_exact(&mut h)?;
                    if h[0] != super::super::MAGIC {
                        return Err(Error::from(ErrorKind::Other));
                    }
                    self.started = true;
                    self.rep = h[1];
                }
                let mut n = 0;
                while n < buf.len() {
                    if self.left == 0 {
                        let mut b = [0u8; 1];
                        if self.rep == 0 || self.r.read(&mut b)? == 0 {
                            break;
                        }
                        self.cur = b[0];
                        self.left = self.rep;
                    }
                    buf[n] = self.cur;
                    self.left -= 1;
                    n += 1;
                }
                Ok(n)
            }
            fn read_to_end(&mut self, out: &mut vstd::vec::Vec<u8>) -> Result<usize> {
                self.vk_read_up_to(out, u64::MAX)
            }
            fn vk_read_up_to(&mut self, out: &mut vstd::vec::Vec<u8>, limit: u64) -> Result<usize> {
                assert!(!self.started, "a decoder is read in one go");
                let mut b = [0u8; 64];
                let n = self.r.read(&mut b)?;
                if n < 2 {
                    return Err(Error::from(ErrorKind::UnexpectedEof));
                }
                if b[0] != super::super::MAGIC {
                    return Err(Error::from(ErrorKind::Other));
                }
                self.started = true;
                let rep = b[1] as usize;
                let all = (n - 2) * rep;
                assert!(limit <= 64 || all <= 64, "a small frame must not expand without limit");
                let all = if all as u64 > limit { limit as usize } else { all };
                // The bytes that fit; past them only the length matters.
                let (mut i, mut k) = (2, 0);
                let mut j = 0;
                while j < 64 && j < all {
                    out.push(b[i]);
                    k += 1;
                    if k == rep {
                        k = 0;
                        i += 1;
                    }
                    j += 1;
                }
                vk::limit(all <= 64);
                Ok(all)
            }
        }
    }
    pub mod write {
        use vstd::io::{Result, Write};
        pub struct Encoder<'a, W: Write> {
            w: W,
            _l: std::marker::PhantomData<&'a ()>,
        }
        impl<W: Write> Encoder<'_, W> {
            pub fn new(mut w: W, _level: i32) -> Result<Self> {
                w.write_all(&[super::super::MAGIC, 1])?;
                Ok(Encoder { w, _l: std::marker::PhantomData })
            }
            pub fn finish(self) -> Result<W> {
                Ok(self.w)
            }
        }
        impl<W: Write> Write for Encoder<'_, W> {
            fn write(&mut self, b: &[u8]) -> Result<usize> {
                self.w.write(b)
            }
            fn flush(&mut self) -> Result<()> {
                self.w.flush()
            }
        }
    }
}
