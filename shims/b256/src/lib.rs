//! The 32-byte digest type.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
pub struct B256(pub [u8; N]);
pub const N: usize = /*B256N*/32;
impl B256 {
    pub const ZERO: B256 = B256([0; N]);
    pub fn from_slice(s: &[u8]) -> Self {
        let mut a = [0u8; N];
        a.copy_from_slice(s);
        B256(a)
    }
    pub fn as_slice(&self) -> &[u8] {
        &self.0
    }
    pub const fn new(a: [u8; N]) -> Self {
        B256(a)
    }
    pub fn len(&self) -> usize {
        N
    }
}
impl std::ops::Deref for B256 {
    type Target = [u8; N];
    fn deref(&self) -> &[u8; N] {
        &self.0
    }
}
impl AsRef<[u8]> for B256 {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl From<[u8; N]> for B256 {
    fn from(a: [u8; N]) -> Self {
        B256(a)
    }
}
