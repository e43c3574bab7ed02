//! Notifications: nobody who subscribed before is left asleep, whatever the interleaving.
use super::*;
use std::task::{Context, Poll};
use vk::sched;

fn poll(n: &Noticer, w: usize) -> bool {
    let wk = vk::wake::waker(w);
    let mut cx = Context::from_waker(&wk);
    let mut f = n;
    let r = Pin::new(&mut f).poll(&mut cx).is_ready();
    std::mem::forget(wk);
    r
}
static mut SUBJECT: *const Noticer = std::ptr::null();
static mut READY: bool = false;
static mut RAN: bool = false;
/// The waiting task: polls; if it was told to wait it may poll once more with another waker.
fn other_polls() {
    unsafe {
        RAN = true;
        READY = poll(&*SUBJECT, 2);
    }
}
static mut LATE: Option<Noticer> = None;
static mut EARLY_NOTICED: bool = false;
static mut MAIN: *const Notifier = std::ptr::null();
static mut SHUT: *const ShutdownNotifier = std::ptr::null();

macro_rules! family {
    ($waits:ident, $polls:ident, $subs:ident, $t:ty, $st:ident, $sticky:expr) => {
        /// notify while a task polls: `before` polls were made beforehand.
        fn $waits(before: bool, at: u8, sym: bool) {
            let n = <$t>::new();
            let a = n.subscribe();
            let b = n.subscribe();
            assert!(!a.noticed() && !b.noticed(), "noticed before any notification");
            if before {
                assert!(!poll(&a, 1), "ready before any notification");
            }
            assert!(!poll(&b, 3), "ready before any notification");
            unsafe { SUBJECT = &a };
            sched::set(at, other_polls);
            n.notify();
            sched::clear();
            assert!(a.noticed() && b.noticed(), "everyone who subscribed before is noticed");
            unsafe {
                if RAN {
                    assert!(READY || vk::wake::woken(2) > 0, "the waiting task was neither ready nor woken");
                } else if before {
                    assert!(vk::wake::woken(1) > 0, "the waiting task was not woken");
                }
            }
            vk::reach!(!sym || unsafe { RAN && READY }, "the task polls after it was notified");
            vk::reach!(!sym || unsafe { RAN && !READY }, "the task polls before it is notified");
            assert!(vk::wake::woken(3) > 0, "the other task was not woken");
            assert!(poll(&a, 4) && poll(&b, 4), "everyone who subscribed before is ready");
            let c = n.subscribe();
            assert!(c.noticed() == $sticky, "a later subscription");
            assert!(poll(&c, 5) == $sticky, "a later subscription");
            n.notify();
            assert!(c.noticed() && poll(&c, 6) && ($sticky || vk::wake::woken(5) > 0), "a later subscription, notified");
            std::mem::forget((n, a, b, c));
        }
        fn $polls(at: u8) {
            fn other() {
                unsafe {
                    RAN = true;
                    (*$st).notify();
                }
            }
            let n = <$t>::new();
            let a = n.subscribe();
            unsafe { $st = &n };
            sched::set(at, other);
            let r = poll(&a, 2);
            sched::clear();
            unsafe {
                if RAN {
                    assert!(r || vk::wake::woken(2) > 0, "the task was neither ready nor woken");
                    assert!(a.noticed(), "noticed");
                    vk::reach!(r, "notified before the poll");
                    vk::reach!(!r, "notified after the poll");
                } else {
                    assert!(!r, "ready without a notification");
                }
            }
            std::mem::forget((n, a));
        }
        /// notify while another task subscribes.
        fn $subs(at: u8) {
            fn other() {
                unsafe {
                    RAN = true;
                    LATE = Some((*$st).subscribe());
                    EARLY_NOTICED = LATE.as_ref().unwrap().noticed();
                    if !EARLY_NOTICED {
                        READY = poll(LATE.as_ref().unwrap(), 2);
                    }
                }
            }
            let n = <$t>::new();
            let a = n.subscribe();
            assert!(!poll(&a, 1), "ready before any notification");
            unsafe { $st = &n };
            sched::set(at, other);
            n.notify();
            sched::clear();
            assert!(a.noticed() && vk::wake::woken(1) > 0, "who subscribed before is noticed and woken");
            unsafe {
                if RAN {
                    let l = LATE.as_ref().unwrap();
                    if at == 0 {
                        assert!(l.noticed(), "subscribed before the notification");
                    }
                    if $sticky {
                        assert!(l.noticed(), "whoever subscribes during or after a shutdown is noticed");
                    }
                    if l.noticed() {
                        assert!(EARLY_NOTICED || READY || vk::wake::woken(2) > 0, "a noticed subscriber that waited was woken");
                    }
                    n.notify();
                    assert!(l.noticed(), "noticed by the next notification at the latest");
                    assert!(EARLY_NOTICED || READY || vk::wake::woken(2) > 0, "and woken");
                }
            }
            std::mem::forget((n, a));
        }
    };
}
family!(waits, polls, subs, Notifier, MAIN, false);
family!(shut_waits, shut_polls, shut_subs, ShutdownNotifier, SHUT, true);

#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notifier_waits() {
    waits(true, vk::below(16) as u8, true);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notifier_waits_fresh() {
    waits(false, vk::below(16) as u8, true);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notifier_polls() {
    polls(vk::below(8) as u8);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notifier_shut_waits() {
    shut_waits(true, vk::below(16) as u8, true);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notifier_shut_polls() {
    shut_polls(vk::below(8) as u8);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notifier_subs_0() {
    subs(0);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notifier_subs_1() {
    subs(1);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notifier_subs_2() {
    subs(2);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notifier_subs_3() {
    subs(3);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notifier_subs_4() {
    subs(4);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notifier_subs_5() {
    subs(5);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notifier_subs_6() {
    subs(6);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notifier_subs_7() {
    subs(7);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notifier_shut_subs_0() {
    shut_subs(0);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notifier_shut_subs_1() {
    shut_subs(1);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notifier_shut_subs_2() {
    shut_subs(2);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notifier_shut_subs_3() {
    shut_subs(3);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notifier_shut_subs_4() {
    shut_subs(4);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notifier_shut_subs_5() {
    shut_subs(5);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notifier_shut_subs_6() {
    shut_subs(6);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notifier_shut_subs_7() {
    shut_subs(7);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notifier_shut_fresh_0() {
    shut_waits(false, 0, false);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notifier_shut_fresh_1() {
    shut_waits(false, 1, false);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notifier_shut_fresh_2() {
    shut_waits(false, 2, false);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notifier_shut_fresh_3() {
    shut_waits(false, 3, false);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notifier_shut_fresh_4() {
    shut_waits(false, 4, false);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notifier_shut_fresh_5() {
    shut_waits(false, 5, false);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notifier_shut_fresh_6() {
    shut_waits(false, 6, false);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notifier_shut_fresh_7() {
    shut_waits(false, 7, false);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn notifier_shut_fresh_8() {
    shut_waits(false, 8, false);
}
