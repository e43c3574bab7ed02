//! `Vec` of bounded capacity, held in place: no allocation, copies element by element.
use ::std::{
    fmt,
    mem::MaybeUninit,
    ops::{Deref, DerefMut},
};
pub use crate::vk_vec as vec;

pub const VCAP: usize = /*VCAP*/16;

static mut BOUND: usize = usize::MAX;
/// From here on, asking for room for more than `n` elements at once fails the harness.
pub fn set_alloc_bound(n: usize) {
    unsafe { BOUND = n }
}
#[inline(always)]
fn asked(n: usize) {
    assert!(n <= unsafe { BOUND }, "no allocation beyond the documented limit");
}
pub struct Vec<T> {
    /// An object of its own, so that an index into it is an index into nothing else.
    a: *mut [MaybeUninit<T>; VCAP],
    n: usize,
    cap: usize,
    _niche: crate::Niche,
}
#[macro_export]
macro_rules! vk_vec {
    () => { $crate::vec::Vec::new() };
    ($e:expr; $n:expr) => { $crate::vec::from_elem($e, $n) };
    ($($e:expr),+ $(,)?) => {{ let mut v = $crate::vec::Vec::new(); $(v.push($e);)+ v }};
}
pub fn from_elem<T: Clone>(e: T, n: usize) -> Vec<T> {
    let mut v = Vec::new();
    v.resize(n, e);
    v
}
unsafe impl<T: Send> Send for Vec<T> {}
unsafe impl<T: Sync> Sync for Vec<T> {}
impl<T> Vec<T> {
    /// Elements that own something are few, and lie where a std Vec would have them.
    const OWNS: bool = ::std::mem::needs_drop::<T>();
    const ROOM: usize = if Self::OWNS && VCAP > 8 { 8 } else { VCAP };
    #[inline(always)]
    fn set(&mut self, i: usize, t: T) {
        if Self::OWNS {
            unsafe { (self.a as *mut T).add(i).write(t) }
        } else {
            unsafe { (*self.a)[i] = MaybeUninit::new(t) }
        }
    }
    #[inline(always)]
    fn get_out(&self, i: usize) -> T {
        if Self::OWNS {
            unsafe { (self.a as *mut T).add(i).read() }
        } else {
            unsafe { (*self.a)[i].assume_init_read() }
        }
    }
    pub fn new() -> Self {
        let a = if Self::OWNS {
            let mut v = ::std::mem::ManuallyDrop::new(::std::vec::Vec::<T>::with_capacity(Self::ROOM));
            v.as_mut_ptr() as *mut [MaybeUninit<T>; VCAP]
        } else {
            Box::leak(Box::new([const { MaybeUninit::uninit() }; VCAP]))
        };
        Vec { a, n: 0, cap: 0, _niche: crate::Niche::new() }
    }
    pub fn with_capacity(n: usize) -> Self {
        asked(n);
        let mut v = Self::new();
        v.cap = n;
        v
    }
    pub fn capacity(&self) -> usize {
        if self.cap > self.n { self.cap } else { self.n }
    }
    pub fn reserve(&mut self, n: usize) {
        asked(self.n.saturating_add(n));
    }
    pub fn reserve_exact(&mut self, n: usize) {
        asked(self.n.saturating_add(n));
    }
    pub fn shrink_to_fit(&mut self) {}
    pub fn len(&self) -> usize {
        self.n
    }
    pub fn is_empty(&self) -> bool {
        self.n == 0
    }
    pub fn push(&mut self, t: T) {
        vk::limit(self.n < Self::ROOM);
        self.set(self.n, t);
        self.n += 1;
    }
    pub fn pop(&mut self) -> Option<T> {
        if self.n == 0 {
            return None;
        }
        self.n -= 1;
        Some(self.get_out(self.n))
    }
    pub fn clear(&mut self) {
        self.truncate(0)
    }
    pub fn truncate(&mut self, n: usize) {
        while self.n > n {
            if ::std::mem::needs_drop::<T>() {
                drop(self.pop());
            } else {
                self.n = n;
            }
        }
    }
    pub fn insert(&mut self, i: usize, t: T) {
        assert!(i <= self.n);
        let mut t = t;
        let mut k = i;
        while k < self.n {
            t = ::std::mem::replace(&mut self[k], t);
            k += 1;
        }
        self.push(t);
    }
    pub fn remove(&mut self, i: usize) -> T {
        assert!(i < self.n);
        let mut x = self.pop().unwrap();
        let mut k = self.n;
        while k > i {
            k -= 1;
            x = ::std::mem::replace(&mut self[k], x);
        }
        x
    }
    pub fn swap_remove(&mut self, i: usize) -> T {
        assert!(i < self.n);
        let x = self.pop().unwrap();
        if i == self.n { x } else { ::std::mem::replace(&mut self[i], x) }
    }
    pub const fn as_slice(&self) -> &[T] {
        unsafe { ::std::slice::from_raw_parts(self.a as *const T, self.n) }
    }
    pub fn as_mut_slice(&mut self) -> &mut [T] {
        self
    }
    pub fn append(&mut self, o: &mut Vec<T>) {
        let m = o.n;
        let mut i = 0;
        while i < m {
            self.push(o.get_out(i));
            i += 1;
        }
        o.n = 0;
    }
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) {
        let m = self.n;
        let (mut i, mut k) = (0, 0);
        while i < m {
            let x = self.get_out(i);
            if f(&x) {
                self.set(k, x);
                k += 1;
            }
            i += 1;
        }
        self.n = k;
    }
}
impl<T> Vec<T> {
    /// Takes the range out at once.
    pub fn drain<R: ::std::ops::RangeBounds<usize>>(&mut self, r: R) -> IntoIter<T> {
        use ::std::ops::Bound::*;
        let lo = match r.start_bound() { Included(&x) => x, Excluded(&x) => x + 1, Unbounded => 0 };
        let hi = match r.end_bound() { Included(&x) => x + 1, Excluded(&x) => x, Unbounded => self.n };
        assert!(lo <= hi && hi <= self.n, "range out of bounds");
        if lo == 0 && hi == self.n {
            return ::std::mem::take(self).into_iter();
        }
        let mut out = Vec::new();
        let mut i = lo;
        while i < hi {
            out.push(self.remove(lo));
            i += 1;
        }
        out.into_iter()
    }
}
impl<T: Clone> Vec<T> {
    pub fn resize(&mut self, n: usize, e: T) {
        asked(n);
        vk::limit(n <= Self::ROOM);
        self.truncate(n);
        let mut i = self.n;
        while i < Self::ROOM && i < n {
            self.set(i, e.clone());
            i += 1;
        }
        self.n = n;
    }
    pub fn extend_from_slice(&mut self, s: &[T]) {
        vk::limit(self.n + s.len() <= Self::ROOM);
        let m = s.len();
        let at = self.n;
        let mut i = 0;
        while i < Self::ROOM && i < m {
            self.set(at + i, s[i].clone());
            i += 1;
        }
        self.n += m;
    }
}
impl<T> Drop for Vec<T> {
    fn drop(&mut self) {
        if ::std::mem::needs_drop::<T>() {
            self.truncate(0);
        }
    }
}
impl<T> Deref for Vec<T> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        unsafe { ::std::slice::from_raw_parts(self.a as *const T, self.n) }
    }
}
impl<T> DerefMut for Vec<T> {
    fn deref_mut(&mut self) -> &mut [T] {
        unsafe { ::std::slice::from_raw_parts_mut(self.a as *mut T, self.n) }
    }
}
impl<T> Default for Vec<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: Clone> Clone for Vec<T> {
    fn clone(&self) -> Self {
        let mut v = Self::new();
        v.extend_from_slice(self);
        v
    }
}
impl<T> fmt::Debug for Vec<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Vec")
    }
}
impl<T: PartialEq> PartialEq for Vec<T> {
    fn eq(&self, o: &Self) -> bool {
        if self.n != o.n {
            return false;
        }
        let mut i = 0;
        while i < self.n {
            if self[i] != o[i] {
                return false;
            }
            i += 1;
        }
        true
    }
}
impl<T: Eq> Eq for Vec<T> {}
impl<T> AsRef<[T]> for Vec<T> {
    fn as_ref(&self) -> &[T] {
        self
    }
}
impl<T> Extend<T> for Vec<T> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) {
        for x in i {
            self.push(x);
        }
    }
}
impl<T> FromIterator<T> for Vec<T> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        let mut v = Self::new();
        v.extend(i);
        v
    }
}
pub struct IntoIter<T> {
    v: ::std::mem::ManuallyDrop<Vec<T>>,
    i: usize,
}
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.i < self.v.n {
            self.i += 1;
            Some(self.v.get_out(self.i - 1))
        } else {
            None
        }
    }
}
impl<T> DoubleEndedIterator for IntoIter<T> {
    fn next_back(&mut self) -> Option<T> {
        if self.i < self.v.n {
            self.v.n -= 1;
            Some(self.v.get_out(self.v.n))
        } else {
            None
        }
    }
}
impl<T> ExactSizeIterator for IntoIter<T> {
    fn len(&self) -> usize {
        self.v.n - self.i
    }
}
impl<T> IntoIter<T> {
    pub fn as_slice(&self) -> &[T] {
        &self.v[self.i..]
    }
}
impl<T> Drop for IntoIter<T> {
    fn drop(&mut self) {
        if ::std::mem::needs_drop::<T>() {
            while self.next().is_some() {}
        }
    }
}
impl<T> IntoIterator for Vec<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter { v: ::std::mem::ManuallyDrop::new(self), i: 0 }
    }
}
impl<'a, T> IntoIterator for &'a Vec<T> {
    type Item = &'a T;
    type IntoIter = ::std::slice::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<'a, T> IntoIterator for &'a mut Vec<T> {
    type Item = &'a mut T;
    type IntoIter = ::std::slice::IterMut<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter_mut()
    }
}
impl<T: Clone> From<&[T]> for Vec<T> {
    fn from(s: &[T]) -> Self {
        let mut v = Self::new();
        v.extend_from_slice(s);
        v
    }
}
impl crate::io::Write for Vec<u8> {
    fn write(&mut self, buf: &[u8]) -> crate::io::Result<usize> {
        self.extend_from_slice(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> crate::io::Result<()> {
        Ok(())
    }
    fn write_all(&mut self, buf: &[u8]) -> crate::io::Result<()> {
        self.extend_from_slice(buf);
        Ok(())
    }
}
impl ::std::io::Write for Vec<u8> {
    fn write(&mut self, buf: &[u8]) -> ::std::io::Result<usize> {
        self.extend_from_slice(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> ::std::io::Result<()> {
        Ok(())
    }
    fn write_all(&mut self, buf: &[u8]) -> ::std::io::Result<()> {
        self.extend_from_slice(buf);
        Ok(())
    }
}
/// `copy_from_slice`, element by element.
pub trait SliceCopy<T> {
    fn vk_copy_from_slice(&mut self, s: &[T]);
}
impl<T: Copy> SliceCopy<T> for [T] {
    #[inline(always)]
    fn vk_copy_from_slice(&mut self, s: &[T]) {
        assert!(self.len() == s.len(), "copy_from_slice: source slice length does not match destination slice length");
        let n = s.len();
        vk::limit(n <= crate::fs::XFER);
        let mut i = 0;
        while i < crate::fs::XFER && i < n {
            self[i] = s[i];
            i += 1;
        }
    }
}
pub mod prelude {
    pub use super::{vec, SliceCopy as _, Vec};
}
