//! Symbolic inputs: under Kani every value is an unconstrained symbolic variable; natively the
//! values come from the file named in VK_VALS, one per call in call order, as the solver chose them.
#![allow(missing_docs)]

#[cfg(kani)]
mod imp {
    #[inline(always)]
    pub fn u8() -> u8 { kani::any() }
    #[inline(always)]
    pub fn u16() -> u16 { kani::any() }
    #[inline(always)]
    pub fn u32() -> u32 { kani::any() }
    #[inline(always)]
    pub fn u64() -> u64 { kani::any() }
    #[inline(always)]
    pub fn u128() -> u128 { kani::any() }
    #[inline(always)]
    pub fn assume(b: bool) { kani::assume(b) }
}

#[cfg(not(kani))]
mod imp {
    use std::{cell::RefCell, collections::VecDeque};
    thread_local! {
        static VALS: RefCell<Option<VecDeque<Vec<u8>>>> = const { RefCell::new(None) };
    }
    fn pop(n: usize) -> Vec<u8> {
        VALS.with(|v| {
            let mut v = v.borrow_mut();
            let q = v.get_or_insert_with(|| {
                let p = std::env::var("VK_VALS").expect("VK_VALS");
                std::fs::read_to_string(p)
                    .expect("values file")
                    .lines()
                    .filter(|l| !l.trim().is_empty())
                    .map(|l| {
                        l.split(',').filter(|s| !s.trim().is_empty())
                            .map(|s| s.trim().parse::<u8>().expect("byte")).collect()
                    })
                    .collect()
            });
            match q.pop_front() {
                Some(b) => {
                    if b.len() != n {
                        eprintln!("VK: value size mismatch: want {n}, have {}", b.len());
                        std::process::exit(66);
                    }
                    b
                }
                // The solver left the rest unconstrained.
                None => vec![0; n],
            }
        })
    }
    pub fn u8() -> u8 { pop(1)[0] }
    pub fn u16() -> u16 { u16::from_le_bytes(pop(2).try_into().unwrap()) }
    pub fn u32() -> u32 { u32::from_le_bytes(pop(4).try_into().unwrap()) }
    pub fn u64() -> u64 { u64::from_le_bytes(pop(8).try_into().unwrap()) }
    pub fn u128() -> u128 { u128::from_le_bytes(pop(16).try_into().unwrap()) }
    pub fn assume(b: bool) {
        if !b {
            eprintln!("VK: assumption not satisfied by the replayed values");
            std::process::exit(65);
        }
    }
}

/// A limit of the stand-ins: when it does not hold, the run says nothing.
#[inline(always)]
pub fn limit(b: bool) {
    #[cfg(kani)]
    assert!(b, "vk: limit of a stand-in reached");
    #[cfg(not(kani))]
    if !b {
        eprintln!("VK: limit of a stand-in reached");
        std::process::exit(67);
    }
}

pub use imp::{assume, u128, u16, u32, u64, u8};

#[inline(always)]
pub fn bool() -> bool { u8() & 1 == 1 }
#[inline(always)]
pub fn usize() -> usize { u64() as usize }
/// An arbitrary value below `n`.
#[inline(always)]
pub fn below(n: usize) -> usize {
    let x = u8() as usize;
    assume(x < n);
    x
}
/// An arbitrary value below `n`, from a byte.
#[inline(always)]
pub fn upto(lo: u64, hi: u64) -> u64 {
    let x = u64();
    assume(x >= lo && x <= hi);
    x
}
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut a = [0u8; N];
    let mut i = 0;
    while i < N {
        a[i] = u8();
        i += 1;
    }
    a
}

/// Reachability witness: the harness must be able to come here with `$c` true.
#[macro_export]
macro_rules! reach {
    ($c:expr, $m:literal) => {{
        #[cfg(kani)]
        kani::cover!($c, $m);
        #[cfg(not(kani))]
        $crate::cover($c, $m);
    }};
}
#[inline(never)]
pub fn cover(_: bool, _: &'static str) {}

/// A second thread of control: one operation, run at one place of the first thread's execution.
pub mod sched {
    static mut OP: Option<fn()> = None;
    static mut AT: u8 = 0;
    static mut N: u8 = 0;
    static mut INSIDE: bool = false;
    /// `op` runs at the `at`-th event from here on.
    pub fn set(at: u8, op: fn()) {
        unsafe {
            OP = Some(op);
            AT = at;
            N = 0;
        }
    }
    /// A place where the other thread may run: before a lock is taken, after one is let go, and so on.
    #[inline(always)]
    pub fn event() {
        unsafe {
            if !INSIDE {
                if let Some(op) = OP {
                    if N == AT {
                        INSIDE = true;
                        op();
                        INSIDE = false;
                    }
                }
                N += 1;
            }
        }
    }
    /// Whether the other thread is running.
    #[inline(always)]
    pub fn inside() -> bool {
        unsafe { INSIDE }
    }
    /// The number of events so far.
    pub fn count() -> u8 {
        unsafe { N }
    }
    pub fn clear() {
        unsafe { OP = None }
    }
}

/// Wakers that count how often they were woken.
pub mod wake {
    use std::task::{RawWaker, RawWakerVTable, Waker};
    static mut WOKEN: [u8; 8] = [0; 8];
    static VT: RawWakerVTable = RawWakerVTable::new(clone, wake, wake, nop);
    unsafe fn clone(p: *const ()) -> RawWaker {
        RawWaker::new(p, &VT)
    }
    unsafe fn wake(p: *const ()) {
        unsafe { *(p as *mut u8) += 1 }
    }
    unsafe fn nop(_: *const ()) {}
    pub fn waker(i: usize) -> Waker {
        unsafe { Waker::from_raw(RawWaker::new((&raw mut WOKEN[i]) as *const (), &VT)) }
    }
    pub fn woken(i: usize) -> u8 {
        unsafe { WOKEN[i] }
    }
}
