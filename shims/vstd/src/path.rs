//! `std::path` with fixed-size paths: a path is the list of hashes of its components.
use ::std::{
    borrow::Borrow,
    ffi::{OsStr, OsString},
    fmt,
    ops::Deref,
};

/// Up to eight components of 16 bits, the last in the lowest bits; a component is never 0.
///
/// It carries the file system it is a path of (a local variable of the harness), so that there is no
/// global state.
#[derive(Clone, Copy)]
pub struct Path {
    c: u128,
    pub(crate) fs: *mut crate::fs::S,
}
unsafe impl Send for Path {}
unsafe impl Sync for Path {}
impl PartialEq for Path {
    fn eq(&self, o: &Path) -> bool {
        self.c == o.c
    }
}
impl Eq for Path {}
impl PartialOrd for Path {
    fn partial_cmp(&self, o: &Path) -> Option<::std::cmp::Ordering> {
        Some(self.c.cmp(&o.c))
    }
}
impl Ord for Path {
    fn cmp(&self, o: &Path) -> ::std::cmp::Ordering {
        self.c.cmp(&o.c)
    }
}
impl ::std::hash::Hash for Path {
    fn hash<H: ::std::hash::Hasher>(&self, h: &mut H) {
        h.write_u128(self.c)
    }
}
impl Default for Path {
    fn default() -> Path {
        Path { c: 0, fs: ::std::ptr::null_mut() }
    }
}
pub type PathBuf = Path;
const fn hash(s: &[u8]) -> u128 {
    let mut h = 0x811c9dc5u32;
    let mut i = 0;
    while i < s.len() {
        h = (h ^ s[i] as u32).wrapping_mul(0x01000193);
        i += 1;
    }
    ((h ^ (h >> 16)) & 0xffff | 1) as u128
}
fn of_str(s: &str) -> Path {
    // The empty path has no components; '/' is not split: harnesses build paths with join.
    Path { c: if s.is_empty() { 0 } else { hash(s.as_bytes()) }, fs: ::std::ptr::null_mut() }
}
impl Path {
    /// The root of a file system.
    pub fn root(fs: &mut crate::fs::S) -> Path {
        Path { c: hash(b"root"), fs }
    }
    pub fn new<S: AsRef<Path> + ?Sized>(s: &S) -> &Path {
        s.as_ref()
    }
    pub fn to_path_buf(&self) -> PathBuf {
        *self
    }
    pub fn to_owned(&self) -> PathBuf {
        *self
    }
    pub fn as_path(&self) -> &Path {
        self
    }
    pub fn join<P: AsRef<Path>>(&self, p: P) -> PathBuf {
        let p = p.as_ref();
        let mut c = self.c;
        let mut x = p.c;
        while x != 0 {
            c <<= 16;
            x >>= 16;
        }
        Path { c: c | p.c, fs: self.fs }
    }
    pub fn push<P: AsRef<Path>>(&mut self, p: P) {
        *self = self.join(p);
    }
    pub fn pop(&mut self) -> bool {
        match self.parent() {
            Some(p) => {
                *self = *p;
                true
            }
            None => false,
        }
    }
    pub fn parent(&self) -> Option<&Path> {
        if self.c == 0 {
            return None;
        }
        Some(crate::fs::keep(Path { c: self.c >> 16, fs: self.fs }))
    }
    pub fn with_extension<S>(&self, s: S) -> PathBuf
    where
        S: AsRef<OsStr>,
    {
        let b = s.as_ref().as_encoded_bytes();
        Path { c: self.c ^ ((hash(b) << 1) & 0xffff), fs: self.fs }
    }
    pub fn set_extension<S: AsRef<OsStr>>(&mut self, s: S) -> bool {
        *self = self.with_extension(s);
        true
    }
    pub fn exists(&self) -> bool {
        super::fs::lookup(self).is_some() || super::fs::is_dir(self)
    }
    pub fn is_dir(&self) -> bool {
        super::fs::is_dir(self)
    }
    pub fn is_file(&self) -> bool {
        super::fs::lookup(self).is_some()
    }
    pub fn try_exists(&self) -> super::io::Result<bool> {
        Ok(self.exists())
    }
    pub fn metadata(&self) -> super::io::Result<super::fs::Metadata> {
        super::fs::metadata(self)
    }
    pub fn display(&self) -> Self {
        *self
    }
    pub fn to_string_lossy(&self) -> String {
        String::new()
    }
    pub fn starts_with<P: AsRef<Path>>(&self, p: P) -> bool {
        let p = p.as_ref().c;
        let mut c = self.c;
        while c != 0 {
            if c == p {
                return true;
            }
            c >>= 16;
        }
        p == 0
    }
}
impl fmt::Debug for Path {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("path")
    }
}
impl fmt::Display for Path {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("path")
    }
}
impl<'a> PartialEq<&'a Path> for Path {
    fn eq(&self, o: &&'a Path) -> bool {
        *self == **o
    }
}
impl<'a> PartialEq<Path> for &'a Path {
    fn eq(&self, o: &Path) -> bool {
        **self == *o
    }
}
impl AsRef<Path> for Path {
    fn as_ref(&self) -> &Path {
        self
    }
}
impl AsRef<Path> for str {
    fn as_ref(&self) -> &Path {
        Box::leak(Box::new(of_str(self)))
    }
}
impl AsRef<Path> for String {
    fn as_ref(&self) -> &Path {
        Box::leak(Box::new(of_str(self)))
    }
}
impl AsRef<Path> for OsStr {
    fn as_ref(&self) -> &Path {
        Box::leak(Box::new(of_str(self.to_str().unwrap_or(""))))
    }
}
impl From<&str> for Path {
    fn from(s: &str) -> Path {
        of_str(s)
    }
}
impl From<String> for Path {
    fn from(s: String) -> Path {
        of_str(&s)
    }
}
impl From<&Path> for Path {
    fn from(s: &Path) -> Path {
        *s
    }
}
#[allow(unused)]
fn _unused(_: OsString) where Path: Borrow<Path>, Box<Path>: Deref {}
