//! The parts of tokio the code under test uses, without a runtime: futures that are polled by the
//! harness, one step at a time.
#![allow(missing_docs, clippy::all)]
pub mod io;
pub mod sync;

use std::{
    future::Future,
    pin::Pin,
    task::{Context, Poll, RawWaker, RawWakerVTable, Waker},
};

fn clone(_: *const ()) -> RawWaker {
    RawWaker::new(std::ptr::null(), &VT)
}
fn nop(_: *const ()) {}
static VT: RawWakerVTable = RawWakerVTable::new(clone, nop, nop, nop);
pub fn noop_waker() -> Waker {
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}
/// Poll once.
pub fn poll_once<F: Future + ?Sized>(f: Pin<&mut F>) -> Poll<F::Output> {
    let w = noop_waker();
    let mut cx = Context::from_waker(&w);
    f.poll(&mut cx)
}
/// Poll to completion; nothing in the harness may be pending for ever.
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    loop {
        if let Poll::Ready(v) = poll_once(f.as_mut()) {
            return v;
        }
    }
}
