//! A stand-in text form: one letter per byte value below 32 ('@' is 0), nothing else.
pub mod decode {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum Error { BufferTooSmall, InvalidCharacter { character: char, index: usize } }
    impl std::fmt::Display for Error { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
    impl std::error::Error for Error {}
}
pub struct Decode<'a>(&'a [u8]);
pub fn decode<I: AsRef<[u8]> + ?Sized>(i: &I) -> Decode<'_> { Decode(i.as_ref()) }
pub trait Target { fn put(&mut self, at: usize, b: u8) -> bool; }
impl<const N: usize> Target for [u8; N] {
    fn put(&mut self, at: usize, b: u8) -> bool { if at < N { self[at] = b; true } else { false } }
}
impl Target for Vec<u8> {
    fn put(&mut self, at: usize, b: u8) -> bool { if at < self.len() { self[at] = b } else { self.push(b) } true }
}
impl Target for [u8] {
    fn put(&mut self, at: usize, b: u8) -> bool { if at < self.len() { self[at] = b; true } else { false } }
}
impl Decode<'_> {
    /// The number of bytes written; less than the room there is, if the text stands for less.
    pub fn onto<T: Target + ?Sized>(self, out: &mut T) -> Result<usize, decode::Error> {
        let mut i = 0;
        while i < self.0.len() {
            if !(self.0[i] >= b'@' && self.0[i] < b'@' + 32) { return Err(decode::Error::InvalidCharacter { character: self.0[i] as char, index: i }); }
            if !out.put(i, self.0[i] - b'@') { return Err(decode::Error::BufferTooSmall); }
            i += 1;
        }
        Ok(i)
    }
    pub fn into_vec(self) -> Result<Vec<u8>, decode::Error> { let mut v = Vec::with_capacity(8); self.onto(&mut v)?; Ok(v) }
}
pub struct Encode<I>(I);
pub fn encode<I: AsRef<[u8]>>(i: I) -> Encode<I> { Encode(i) }
impl<I: AsRef<[u8]>> Encode<I> {
    pub fn into_string(self) -> String {
        let mut s = Vec::with_capacity(8);
        for b in self.0.as_ref() { s.push(b'@' + (*b & 31)); }
        unsafe { String::from_utf8_unchecked(s) }
    }
    pub fn into_vec(self) -> Vec<u8> { self.into_string().into_bytes() }
}
