//! The channel traits: no value is lost or made up by the wrappers, and a lag does not end the reception.
use super::*;
use std::{pin::pin, task::Poll};

fn once<F: Future>(f: F) -> Option<F::Output> {
    let mut f = pin!(f);
    let w = vk::wake::waker(0);
    let mut cx = Context::from_waker(&w);
    let r = f.as_mut().poll(&mut cx);
    std::mem::forget(w);
    match r {
        Poll::Ready(v) => Some(v),
        Poll::Pending => None,
    }
}
/// Values v[0..n] into a broadcast channel for 2; the receiver gets the last two, in order, then waits or ends.
fn lag(n: usize, close: bool, try_first: bool) {
    let (tx, mut rx) = broadcast::channel::<u16>(2);
    let v = [vk::u16(), vk::u16(), vk::u16(), vk::u16()];
    let mut i = 0;
    while i < n {
        if vk::bool() {
            assert!(once(TnSender::send(&tx, v[i])) == Some(Ok(())), "sent");
        } else {
            assert!(TnSender::try_send(&tx, v[i]) == Ok(()), "sent");
        }
        i += 1;
    }
    let tx = if close { drop(tx); None } else { Some(tx) };
    if try_first && n > 2 {
        assert!(TnReceiver::try_recv(&mut rx) == Err(TryRecvError::Lagged), "a lag is reported as a lag");
    }
    i = n.saturating_sub(2);
    while i < n {
        if try_first {
            assert!(TnReceiver::try_recv(&mut rx) == Ok(v[i]), "the values still held, in order");
        } else {
            assert!(once(TnReceiver::recv(&mut rx)) == Some(Some(v[i])), "the values still held, in order, whatever was missed");
        }
        i += 1;
    }
    let want = if close { TryRecvError::Disconnected } else { TryRecvError::Empty };
    assert!(TnReceiver::try_recv(&mut rx) == Err(want), "empty or closed");
    assert!(once(TnReceiver::recv(&mut rx)) == if close { Some(None) } else { None }, "the end only when the senders are gone");
    std::mem::forget((tx, rx));
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn channels_broadcast_fits() {
    lag(2, false, false);
    lag(1, true, true);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn channels_broadcast_lag() {
    lag(4, true, false);
    lag(3, false, true);
}
/// Nobody listens: that is no error, and a later listener gets what comes later.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn channels_broadcast_nobody() {
    let (tx, rx) = broadcast::channel::<u16>(2);
    drop(rx);
    let (a, b) = (vk::u16(), vk::u16());
    assert!(once(TnSender::send(&tx, a)) == Some(Ok(())), "no listener is no error");
    assert!(TnSender::try_send(&tx, a) == Ok(()), "no listener is no error");
    let mut rx = tx.subscribe();
    assert!(TnSender::try_send(&tx, b) == Ok(()), "sent");
    assert!(once(TnReceiver::recv(&mut rx)) == Some(Some(b)), "received");
    std::mem::forget((tx, rx));
}
/// A queue for one: full, closed and empty are told apart, and a value that was not sent comes back.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn channels_queue() {
    let (tx, mut rx) = mpsc::channel::<u16>(1);
    let (a, b) = (vk::u16(), vk::u16());
    assert!(TnReceiver::try_recv(&mut rx) == Err(TryRecvError::Empty), "empty");
    assert!(once(TnReceiver::recv(&mut rx)).is_none(), "empty: wait");
    if vk::bool() {
        assert!(TnSender::try_send(&tx, a) == Ok(()), "sent");
    } else {
        assert!(once(TnSender::send(&tx, a)) == Some(Ok(())), "sent");
    }
    assert!(TnSender::try_send(&tx, b) == Err(TrySendError::Full(b)), "full, and the value comes back");
    assert!(once(TnSender::send(&tx, b)).is_none(), "full: wait");
    if vk::bool() {
        assert!(TnReceiver::try_recv(&mut rx) == Ok(a), "the value");
    } else {
        assert!(once(TnReceiver::recv(&mut rx)) == Some(Some(a)), "the value");
    }
    if vk::bool() {
        drop(rx);
        assert!(TnSender::try_send(&tx, b) == Err(TrySendError::Closed(b)), "closed, and the value comes back");
        assert!(once(TnSender::send(&tx, b)) == Some(Err(SendError(b))), "closed, and the value comes back");
        std::mem::forget(tx);
    } else {
        drop(tx);
        assert!(TnReceiver::try_recv(&mut rx) == Err(TryRecvError::Disconnected), "the senders are gone");
        assert!(once(TnReceiver::recv(&mut rx)) == Some(None), "the senders are gone");
        std::mem::forget(rx);
    }
}
