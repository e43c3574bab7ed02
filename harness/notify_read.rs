//! Registrations for a value: each is fulfilled, and counted while it is pending.
use super::*;
use std::task::{Context, Poll};
use vk::sched;

fn poll(r: &mut Registration<'_, u8, u16>, w: usize) -> Option<u16> {
    let wk = vk::wake::waker(w);
    let mut cx = Context::from_waker(&wk);
    let p = Pin::new(r).poll(&mut cx);
    std::mem::forget(wk);
    match p {
        Poll::Ready(v) => Some(v),
        Poll::Pending => None,
    }
}
fn left(n: &NotifyRead<u8, u16>) -> bool {
    let mut i = 0;
    while i < n.pending.len() {
        if !n.pending[i].lock().is_empty() {
            return true;
        }
        i += 1;
    }
    false
}
/// Two registrations of keys k1, k2; one notification of key k3: exactly its registrations are fulfilled.
fn fulfil(k: [u8; 3], all: bool) {
    let n = NotifyRead::<u8, u16>::new();
    let v = vk::u16();
    let (mut a, mut b) = if all {
        let mut rs = n.register_all(vec![k[0], k[1]]);
        assert!(rs.len() == 2, "one registration per key");
        let b = rs.pop().unwrap();
        let a = rs.pop().unwrap();
        std::mem::forget(rs);
        (a, b)
    } else {
        (n.register_one(&k[0]), n.register_one(&k[1]))
    };
    assert!(n.num_pending() == 2, "two are pending");
    let early = vk::bool();
    if early {
        assert!(poll(&mut a, 1).is_none() && poll(&mut b, 2).is_none(), "nothing before a notification");
    }
    n.notify(&k[2], &v);
    let (fa, fb) = (k[0] == k[2], k[1] == k[2]);
    assert!(n.num_pending() == 2 - fa as usize - fb as usize, "the fulfilled ones are no longer pending");
    if early {
        assert!((vk::wake::woken(1) > 0) == fa && (vk::wake::woken(2) > 0) == fb, "exactly those that waited for the key are woken");
    }
    assert!(poll(&mut a, 3) == if fa { Some(v) } else { None }, "the value, for its key only");
    assert!(poll(&mut b, 4) == if fb { Some(v) } else { None }, "the value, for its key only");
    let v2 = vk::u16();
    n.notify(&k[2], &v2);
    assert!(n.num_pending() == 2 - fa as usize - fb as usize, "a second notification fulfils nothing");
    drop(a);
    assert!(n.num_pending() == 1 - fb as usize, "a dropped registration is no longer pending");
    if !fb {
        assert!(poll(&mut b, 5).is_none(), "and the other is untouched");
        n.notify(&k[1], &v2);
        assert!(poll(&mut b, 5) == Some(v2), "and the other is still fulfilled");
    }
    drop(b);
    assert!(n.num_pending() == 0, "nothing is pending");
    assert!(!left(&n), "nothing is kept");
    std::mem::forget(n);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notify_read_same() {
    fulfil([7, 7, 7], false);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notify_read_one() {
    let n = NotifyRead::<u8, u16>::new();
    let mut a = n.register_one(&7);
    let mut b = n.register_one(&9);
    let v = vk::u16();
    n.notify(&9, &v);
    assert!(n.num_pending() == 1, "the fulfilled one is no longer pending");
    assert!(poll(&mut b, 1) == Some(v), "the value, for its key");
    assert!(poll(&mut a, 2).is_none(), "and for no other key");
    std::mem::forget(a);
    std::mem::forget(b);
    std::mem::forget(n);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notify_read_shards() {
    fulfil([8, 7, 8], true);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notify_read_none() {
    fulfil([7, 7, 9], true);
}
static mut N: *const NotifyRead<u8, u16> = std::ptr::null();
static mut R: Option<Registration<'static, u8, u16>> = None;
static mut RAN: bool = false;
fn other_drops() {
    unsafe {
        RAN = true;
        drop(R.take());
    }
}
fn other_registers() {
    unsafe {
        RAN = true;
        R = Some((*N).register_one(&7));
    }
}
fn other_notifies() {
    unsafe {
        RAN = true;
        (*N).notify(&7, &44);
    }
}
/// A notification while one of two registrations of the key is dropped, at event `at`.
fn drop_race(at: u8) {
    let n = std::mem::ManuallyDrop::new(NotifyRead::<u8, u16>::new());
    unsafe {
        N = &*n;
        R = Some((*N).register_one(&7));
        RAN = false;
    }
    let mut b = n.register_one(&7);
    let v = vk::u16();
    sched::set(at, other_drops);
    n.notify(&7, &v);
    sched::clear();
    assert!(poll(&mut b, 1) == Some(v), "the other registration is fulfilled");
    assert!(n.num_pending() == 0 || unsafe { !RAN }, "nothing is pending");
    assert!(!left(&n), "nothing is kept");
    unsafe { std::mem::forget(R.take()) };
    std::mem::forget(b);
}
/// A notification while another registration of the key is made: it is fulfilled now or by the next.
fn register_race(at: u8) {
    let n = std::mem::ManuallyDrop::new(NotifyRead::<u8, u16>::new());
    unsafe {
        N = &*n;
        RAN = false;
    }
    let mut b = n.register_one(&7);
    let v = vk::u16();
    sched::set(at, other_registers);
    n.notify(&7, &v);
    sched::clear();
    assert!(poll(&mut b, 1) == Some(v), "the registration before is fulfilled");
    unsafe {
        if RAN {
            let a = R.as_mut().unwrap();
            let got = poll(a, 2);
            assert!(n.num_pending() == got.is_none() as usize, "what is not fulfilled is pending");
            if got.is_none() {
                n.notify(&7, &77);
                assert!(poll(a, 3) == Some(77), "by the next at the latest");
            } else {
                assert!(got == Some(v), "the value");
            }
        }
        assert!(n.num_pending() == 0 && !left(&n), "nothing is kept");
        std::mem::forget(R.take());
    }
    std::mem::forget(b);
}
/// A registration that is dropped while a notification comes.
fn cleanup_race(at: u8) {
    let n = std::mem::ManuallyDrop::new(NotifyRead::<u8, u16>::new());
    unsafe {
        N = &*n;
        RAN = false;
    }
    let a = n.register_one(&7);
    let mut b = n.register_one(&7);
    sched::set(at, other_notifies);
    drop(a);
    sched::clear();
    unsafe {
        let got = poll(&mut b, 1);
        assert!(got == if RAN { Some(44) } else { None }, "the other registration is fulfilled exactly if there was a notification");
        assert!(n.num_pending() == !RAN as usize, "what is not fulfilled is pending");
    }
    n.notify(&7, &45);
    assert!(n.num_pending() == 0 && !left(&n), "nothing is kept");
    std::mem::forget(b);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notify_read_drop_race_0() {
    drop_race(0);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notify_read_drop_race_1() {
    drop_race(1);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notify_read_drop_race_2() {
    drop_race(2);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notify_read_drop_race_3() {
    drop_race(3);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notify_read_drop_race_4() {
    drop_race(4);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notify_read_drop_race_5() {
    drop_race(5);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notify_read_register_race_0() {
    register_race(0);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notify_read_register_race_1() {
    register_race(1);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notify_read_register_race_2() {
    register_race(2);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notify_read_register_race_3() {
    register_race(3);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notify_read_register_race_4() {
    register_race(4);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notify_read_cleanup_race_0() {
    cleanup_race(0);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notify_read_cleanup_race_1() {
    cleanup_race(1);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notify_read_cleanup_race_2() {
    cleanup_race(2);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notify_read_cleanup_race_3() {
    cleanup_race(3);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notify_read_cleanup_race_4() {
    cleanup_race(4);
}
