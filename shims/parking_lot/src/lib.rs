//! Mutexes for two threads of control, one of which runs at a single place of the other (vk::sched).
//! A lock the other one holds prunes the schedule: there it would wait, and run at a later event.
#![allow(missing_docs)]
use std::{
    cell::{Cell, UnsafeCell},
    fmt,
    ops::{Deref, DerefMut},
};

pub struct Mutex<T> {
    held: Cell<bool>,
    v: UnsafeCell<T>,
}
unsafe impl<T: Send> Send for Mutex<T> {}
unsafe impl<T: Send> Sync for Mutex<T> {}
impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
        Self { held: Cell::new(false), v: UnsafeCell::new(v) }
    }
    pub fn lock(&self) -> MutexGuard<'_, T> {
        vk::sched::event();
        if self.held.get() {
            if vk::sched::inside() {
                vk::assume(false);
            }
            panic!("a thread waits for a lock it holds itself");
        }
        self.held.set(true);
        MutexGuard { m: self }
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        vk::sched::event();
        if self.held.get() {
            return None;
        }
        self.held.set(true);
        Some(MutexGuard { m: self })
    }
    pub fn is_locked(&self) -> bool {
        self.held.get()
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.v.get_mut()
    }
    pub fn into_inner(self) -> T {
        self.v.into_inner()
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(v: T) -> Self {
        Self::new(v)
    }
}
impl<T> fmt::Debug for Mutex<T> {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
pub struct MutexGuard<'a, T> {
    m: &'a Mutex<T>,
}
impl<T> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.v.get() }
    }
}
impl<T> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.v.get() }
    }
}
impl<T> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.m.held.set(false);
        vk::sched::event();
    }
}
/// Readers and writers alike take the whole lock.
pub struct RwLock<T>(Mutex<T>);
impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self {
        Self(Mutex::new(v))
    }
    pub fn read(&self) -> MutexGuard<'_, T> {
        self.0.lock()
    }
    pub fn write(&self) -> MutexGuard<'_, T> {
        self.0.lock()
    }
    pub fn into_inner(self) -> T {
        self.0.into_inner()
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T> fmt::Debug for RwLock<T> {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
pub type RwLockReadGuard<'a, T> = MutexGuard<'a, T>;
pub type RwLockWriteGuard<'a, T> = MutexGuard<'a, T>;
