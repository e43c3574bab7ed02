//! Channels without a runtime. Every operation is atomic and an event of vk::sched.
use std::{cell::RefCell, fmt, rc::Rc};

/// Rc, but claims to be shareable: there is one real thread.
struct Sh<T>(Rc<RefCell<T>>);
unsafe impl<T> Send for Sh<T> {}
unsafe impl<T> Sync for Sh<T> {}
impl<T> Sh<T> {
    fn new(v: T) -> Self {
        Sh(Rc::new(RefCell::new(v)))
    }
}
impl<T> Clone for Sh<T> {
    fn clone(&self) -> Self {
        Sh(self.0.clone())
    }
}

pub mod oneshot {
    use super::*;
    use std::{
        future::Future,
        pin::Pin,
        task::{Context, Poll, Waker},
    };
    struct St<T> {
        v: Option<T>,
        rx: bool,
        tx: bool,
        w: Option<Waker>,
    }
    pub struct Sender<T>(Sh<St<T>>, bool);
    pub struct Receiver<T>(Sh<St<T>>);
    pub mod error {
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct RecvError(pub(crate) ());
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub enum TryRecvError { Empty, Closed }
    }
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        let s = Sh::new(St { v: None, rx: true, tx: true, w: None });
        (Sender(s.clone(), true), Receiver(s))
    }
    impl<T> Sender<T> {
        pub fn send(mut self, v: T) -> Result<(), T> {
            vk::sched::event();
            self.1 = false;
            let w = {
                let mut s = (self.0).0.borrow_mut();
                s.tx = false;
                if !s.rx {
                    return Err(v);
                }
                s.v = Some(v);
                s.w.take()
            };
            if let Some(w) = w {
                w.wake();
            }
            Ok(())
        }
        pub fn is_closed(&self) -> bool {
            !(self.0).0.borrow().rx
        }
    }
    impl<T> Drop for Sender<T> {
        fn drop(&mut self) {
            if self.1 {
                vk::sched::event();
                let w = {
                    let mut s = (self.0).0.borrow_mut();
                    s.tx = false;
                    s.w.take()
                };
                if let Some(w) = w {
                    w.wake();
                }
            }
        }
    }
    impl<T> Receiver<T> {
        pub fn close(&mut self) {
            vk::sched::event();
            (self.0).0.borrow_mut().rx = false;
        }
        pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> {
            vk::sched::event();
            let mut s = (self.0).0.borrow_mut();
            match s.v.take() {
                Some(v) => Ok(v),
                None if s.tx => Err(error::TryRecvError::Empty),
                None => Err(error::TryRecvError::Closed),
            }
        }
    }
    impl<T> Future for Receiver<T> {
        type Output = Result<T, error::RecvError>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            vk::sched::event();
            let mut s = (self.0).0.borrow_mut();
            if let Some(v) = s.v.take() {
                return Poll::Ready(Ok(v));
            }
            if !s.tx {
                return Poll::Ready(Err(error::RecvError(())));
            }
            s.w = Some(cx.waker().clone());
            Poll::Pending
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            vk::sched::event();
            (self.0).0.borrow_mut().rx = false;
        }
    }
    impl<T> fmt::Debug for Sender<T> {
        fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) }
    }
    impl<T> fmt::Debug for Receiver<T> {
        fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) }
    }
}

pub mod watch {
    use super::*;
    use std::cell::Ref;
    struct St<T> {
        v: T,
        version: u32,
        tx: bool,
    }
    pub struct Sender<T>(Sh<St<T>>);
    pub struct Receiver<T>(Sh<St<T>>, u32);
    pub mod error {
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct RecvError(pub(crate) ());
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct SendError<T>(pub T);
    }
    pub fn channel<T>(v: T) -> (Sender<T>, Receiver<T>) {
        let s = Sh::new(St { v, version: 0, tx: true });
        (Sender(s.clone()), Receiver(s, 0))
    }
    impl<T> Sender<T> {
        pub fn new(v: T) -> Self {
            channel(v).0
        }
        pub fn send_if_modified<F: FnOnce(&mut T) -> bool>(&self, f: F) -> bool {
            vk::sched::event();
            let mut s = (self.0).0.borrow_mut();
            let m = f(&mut s.v);
            if m {
                s.version += 1;
            }
            m
        }
        pub fn send_modify<F: FnOnce(&mut T)>(&self, f: F) {
            self.send_if_modified(|v| {
                f(v);
                true
            });
        }
        pub fn send_replace(&self, v: T) -> T {
            let mut v = v;
            self.send_modify(|o| std::mem::swap(o, &mut v));
            v
        }
        /// All receivers count as alive.
        pub fn send(&self, v: T) -> Result<(), error::SendError<T>> {
            self.send_replace(v);
            Ok(())
        }
        pub fn borrow(&self) -> Ref<'_, T> {
            vk::sched::event();
            Ref::map((self.0).0.borrow(), |s| &s.v)
        }
        pub fn subscribe(&self) -> Receiver<T> {
            Receiver(self.0.clone(), (self.0).0.borrow().version)
        }
    }
    impl<T> Receiver<T> {
        pub fn borrow(&self) -> Ref<'_, T> {
            vk::sched::event();
            Ref::map((self.0).0.borrow(), |s| &s.v)
        }
        pub fn borrow_and_update(&mut self) -> Ref<'_, T> {
            vk::sched::event();
            self.1 = (self.0).0.borrow().version;
            Ref::map((self.0).0.borrow(), |s| &s.v)
        }
        pub fn has_changed(&self) -> Result<bool, error::RecvError> {
            Ok((self.0).0.borrow().version != self.1)
        }
    }
    impl<T> Clone for Receiver<T> {
        fn clone(&self) -> Self {
            Receiver(self.0.clone(), self.1)
        }
    }
    impl<T> fmt::Debug for Sender<T> {
        fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) }
    }
    impl<T> fmt::Debug for Receiver<T> {
        fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) }
    }
}

pub mod mpsc {
    use super::*;
    use std::{
        future::poll_fn,
        task::{Context, Poll, Waker},
    };
    pub mod error {
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub enum TryRecvError { Empty, Disconnected }
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub struct SendError<T>(pub T);
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub enum TrySendError<T> { Full(T), Closed(T) }
    }
    struct St<T> {
        q: Vec<T>,
        cap: usize,
        rx: bool,
        tx: usize,
        w: Option<Waker>,
    }
    pub struct Sender<T>(Sh<St<T>>);
    pub struct Receiver<T>(Sh<St<T>>);
    pub fn channel<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
        let s = Sh::new(St { q: Vec::with_capacity(cap), cap, rx: true, tx: 1, w: None });
        (Sender(s.clone()), Receiver(s))
    }
    impl<T> Sender<T> {
        pub fn try_send(&self, v: T) -> Result<(), error::TrySendError<T>> {
            vk::sched::event();
            let mut s = (self.0).0.borrow_mut();
            if !s.rx {
                return Err(error::TrySendError::Closed(v));
            }
            if s.q.len() >= s.cap {
                return Err(error::TrySendError::Full(v));
            }
            s.q.push(v);
            let w = s.w.take();
            drop(s);
            if let Some(w) = w {
                w.wake();
            }
            Ok(())
        }
        pub async fn send(&self, v: T) -> Result<(), error::SendError<T>> {
            let mut v = Some(v);
            poll_fn(move |_| match self.try_send(v.take().expect("polled after completion")) {
                Ok(()) => Poll::Ready(Ok(())),
                Err(error::TrySendError::Closed(x)) => Poll::Ready(Err(error::SendError(x))),
                Err(error::TrySendError::Full(x)) => {
                    v = Some(x);
                    Poll::Pending
                }
            })
            .await
        }
        pub fn is_closed(&self) -> bool {
            !(self.0).0.borrow().rx
        }
    }
    impl<T> Clone for Sender<T> {
        fn clone(&self) -> Self {
            (self.0).0.borrow_mut().tx += 1;
            Sender(self.0.clone())
        }
    }
    impl<T> Drop for Sender<T> {
        fn drop(&mut self) {
            (self.0).0.borrow_mut().tx -= 1;
        }
    }
    impl<T> Receiver<T> {
        pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> {
            vk::sched::event();
            let mut s = (self.0).0.borrow_mut();
            if !s.q.is_empty() {
                Ok(s.q.remove(0))
            } else if s.tx == 0 {
                Err(error::TryRecvError::Disconnected)
            } else {
                Err(error::TryRecvError::Empty)
            }
        }
        pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<T>> {
            match self.try_recv() {
                Ok(v) => Poll::Ready(Some(v)),
                Err(error::TryRecvError::Disconnected) => Poll::Ready(None),
                Err(error::TryRecvError::Empty) => {
                    (self.0).0.borrow_mut().w = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        }
        pub async fn recv(&mut self) -> Option<T> {
            poll_fn(|cx| self.poll_recv(cx)).await
        }
        pub fn close(&mut self) {
            (self.0).0.borrow_mut().rx = false;
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            (self.0).0.borrow_mut().rx = false;
        }
    }
    impl<T> fmt::Debug for Sender<T> {
        fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) }
    }
    impl<T> fmt::Debug for Receiver<T> {
        fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) }
    }
}

pub mod broadcast {
    use super::*;
    use std::{future::poll_fn, task::Poll};
    pub mod error {
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub enum TryRecvError { Empty, Closed, Lagged(u64) }
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub enum RecvError { Closed, Lagged(u64) }
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub struct SendError<T>(pub T);
    }
    /// The last `cap` values; `first` is the sequence number of q[0].
    struct St<T> {
        q: Vec<T>,
        first: usize,
        cap: usize,
        tx: usize,
        rx: usize,
    }
    pub struct Sender<T>(Sh<St<T>>);
    pub struct Receiver<T>(Sh<St<T>>, usize);
    pub fn channel<T: Clone>(cap: usize) -> (Sender<T>, Receiver<T>) {
        let s = Sh::new(St { q: Vec::with_capacity(cap), first: 0, cap, tx: 1, rx: 1 });
        (Sender(s.clone()), Receiver(s, 0))
    }
    impl<T> Sender<T> {
        pub fn send(&self, v: T) -> Result<usize, error::SendError<T>> {
            vk::sched::event();
            let mut s = (self.0).0.borrow_mut();
            if s.rx == 0 {
                return Err(error::SendError(v));
            }
            if s.q.len() == s.cap {
                s.q.remove(0);
                s.first += 1;
            }
            s.q.push(v);
            Ok(s.rx)
        }
        pub fn subscribe(&self) -> Receiver<T> {
            let mut s = (self.0).0.borrow_mut();
            s.rx += 1;
            let at = s.first + s.q.len();
            drop(s);
            Receiver(self.0.clone(), at)
        }
        pub fn receiver_count(&self) -> usize {
            (self.0).0.borrow().rx
        }
    }
    impl<T> Clone for Sender<T> {
        fn clone(&self) -> Self {
            (self.0).0.borrow_mut().tx += 1;
            Sender(self.0.clone())
        }
    }
    impl<T> Drop for Sender<T> {
        fn drop(&mut self) {
            (self.0).0.borrow_mut().tx -= 1;
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            (self.0).0.borrow_mut().rx -= 1;
        }
    }
    impl<T: Clone> Receiver<T> {
        pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> {
            vk::sched::event();
            let s = (self.0).0.borrow();
            if self.1 < s.first {
                let n = s.first - self.1;
                self.1 = s.first;
                return Err(error::TryRecvError::Lagged(n as u64));
            }
            let i = self.1 - s.first;
            if i < s.q.len() {
                self.1 += 1;
                return Ok(s.q[i].clone());
            }
            Err(if s.tx == 0 { error::TryRecvError::Closed } else { error::TryRecvError::Empty })
        }
        pub async fn recv(&mut self) -> Result<T, error::RecvError> {
            poll_fn(|_| match self.try_recv() {
                Ok(v) => Poll::Ready(Ok(v)),
                Err(error::TryRecvError::Lagged(n)) => Poll::Ready(Err(error::RecvError::Lagged(n))),
                Err(error::TryRecvError::Closed) => Poll::Ready(Err(error::RecvError::Closed)),
                Err(error::TryRecvError::Empty) => Poll::Pending,
            })
            .await
        }
    }
    impl<T> fmt::Debug for Sender<T> {
        fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) }
    }
    impl<T> fmt::Debug for Receiver<T> {
        fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) }
    }
}
