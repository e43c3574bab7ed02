//! The layered store: what its background thread writes, answers and forgets.
use super::*;
use crate::{lstd, phys, phys::Phys, Table1 as T1};
use std::{
    pin::Pin,
    task::{Context, Poll, RawWaker, RawWakerVTable, Waker},
};

static VT: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &VT), |_| {}, |_| {}, |_| {});
fn waker() -> Waker {
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}
fn ok<X, E>(r: Result<X, E>) -> X {
    match r {
        Ok(x) => x,
        Err(e) => {
            std::mem::forget(e);
            panic!("the store takes it")
        }
    }
}
type Db = LayeredDatabase<Phys>;
type Fut = Pin<Box<dyn Future<Output = eyre::Result<()>>>>;

/// What the client did: rows it inserted, each once, and the barriers it waits at.
struct St {
    db: Option<Db>,
    /// Rows: 0 not inserted, else the number of the message that carries it.
    row: [u8; 3],
    v: [u8; 3],
    /// How many messages the client has sent.
    sent: u8,
    /// Barriers: the future, the number of its message, and whether it has answered.
    bar: [Option<Fut>; 2],
    bar_at: [u8; 2],
    bar_done: [u8; 2],
    /// Write transactions that are open after each message: started minus ended.
    open_after: [u8; 16],
    /// A barrier said yes; the end was reached without a failure.
    yes: u8,
    well: u8,
}
static mut ST: St = St { db: None, row: [0; 3], v: [0; 3], sent: 0, bar: [None, None], bar_at: [0; 2], bar_done: [0; 2], open_after: [0; 16], yes: 0, well: 0 };
fn st() -> &'static mut St {
    unsafe { &mut *std::ptr::addr_of_mut!(ST) }
}
fn db() -> &'static Db {
    st().db.as_ref().unwrap()
}
fn sent(open: i8) {
    let s = st();
    let n = s.sent as usize;
    let before = if n == 0 { 0 } else { s.open_after[n] };
    s.sent += 1;
    s.open_after[n + 1] = (before as i8 + open) as u8;
}
fn start(full: bool) {
    let p = Phys::new();
    let d = Db::open(p, full);
    ok(d.open_table::<T1>());
    st().db = Some(d);
    let s = st();
    s.v = [vk::u8(), vk::u8(), vk::u8()];
}
fn ins(k: u8) {
    ok(db().insert::<T1>(&k, &st().v[k as usize]));
    sent(0);
    st().row[k as usize] = st().sent;
}
fn txn() -> LayeredDbTxMut<Phys> {
    let t = ok(db().write_txn());
    sent(1);
    t
}
fn tins(t: &mut LayeredDbTxMut<Phys>, k: u8) {
    ok(t.insert::<T1>(&k, &st().v[k as usize]));
    sent(0);
    st().row[k as usize] = st().sent;
}
fn commit(t: LayeredDbTxMut<Phys>) {
    ok(t.commit());
    sent(-1);
}
fn abandon(t: LayeredDbTxMut<Phys>) {
    drop(t);
    sent(-1);
}
fn barrier(i: usize) {
    let f: Fut = Box::pin(db().persist::<T1>());
    sent(0);
    let s = st();
    std::mem::forget(std::mem::replace(&mut s.bar[i], Some(f)));
    s.bar_at[i] = s.sent;
}
/// Whenever the background thread asks for its next message: `done` messages have been dealt with.
fn look(done: u8) {
    let s = st();
    let mut k = 0;
    while k < 3 {
        if s.row[k] != 0 {
            let got = db().get::<T1>(&(k as u8));
            match got {
                Ok(x) => assert!(x == Some(s.v[k]), "an inserted row is there at every moment"),
                Err(e) => { std::mem::forget(e); panic!("a get works") }
            }
        }
        k += 1;
    }
    let mut i = 0;
    while i < 2 {
        if s.bar_at[i] != 0 && s.bar_done[i] == 0 {
            let w = waker();
            let mut cx = Context::from_waker(&w);
            match s.bar[i].as_mut().unwrap().as_mut().poll(&mut cx) {
                Poll::Ready(r) => {
                    s.bar_done[i] = 1;
                    assert!(done >= s.bar_at[i], "it answers in its turn");
                    match r {
                        Ok(()) => {
                            assert!(!phys::failed(), "after a failure no barrier says it is on disk");
                            let mut k = 0;
                            while k < 3 {
                                if s.row[k] != 0 && s.row[k] < s.bar_at[i] {
                                    assert!(phys::disk(k as u8) == Some(s.v[k]), "what was written before the barrier is on disk");
                                }
                                k += 1;
                            }
                            s.yes = 1;
                        }
                        Err(e) => {
                            std::mem::forget(e);
                            assert!(phys::failed(), "a barrier fails only after a failure");
                        }
                    }
                }
                Poll::Pending => assert!(done < s.bar_at[i] || s.open_after[done as usize] != 0, "a barrier waits for nothing but an open transaction"),
            }
        }
        i += 1;
    }
}
/// The background thread deals with everything; afterwards every row is on disk unless something failed.
fn finish() {
    lstd::set_hook(look);
    lstd::run();
    let s = st();
    assert!(lstd::done() == s.sent, "everything is dealt with");
    if s.open_after[s.sent as usize] == 0 && !phys::failed() {
        let mut k = 0;
        while k < 3 {
            if s.row[k] != 0 {
                assert!(phys::disk(k as u8) == Some(s.v[k]), "in the end every row is on disk");
            }
            k += 1;
        }
        s.well = 1;
    }
}

#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(18))]
pub fn layered_bare() {
    phys::plan(vk::u8(), 3);
    start(true);
    ins(0);
    barrier(0);
    ins(1);
    barrier(1);
    finish();
    vk::reach!(phys::failed(), "a failed write");
    vk::reach!(st().yes == 1 && st().well == 1, "all on disk");
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(18))]
pub fn layered_txn() {
    phys::plan(vk::u8(), 5);
    start(true);
    let mut a = txn();
    tins(&mut a, 0);
    ins(1);
    barrier(0);
    commit(a);
    ins(2);
    barrier(1);
    finish();
    vk::reach!(phys::failed(), "a failed write");
    vk::reach!(st().yes == 1 && st().well == 1, "all on disk");
}
/// Two transactions that overlap: the first to end does not commit, a bare row rides along.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(18))]
pub fn layered_overlap() {
    phys::plan(vk::u8(), 5);
    start(true);
    let mut a = txn();
    let mut b = txn();
    tins(&mut b, 0);
    commit(b);
    barrier(0);
    ins(1);
    tins(&mut a, 2);
    commit(a);
    barrier(1);
    finish();
    vk::reach!(phys::failed(), "a failed write");
    vk::reach!(st().yes == 1 && st().well == 1, "all on disk");
}
/// A transaction dropped without a commit, and one with two clones that both commit: each ends once.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(18))]
pub fn layered_abandon() {
    phys::plan(vk::u8(), 4);
    start(true);
    let mut a = txn();
    tins(&mut a, 0);
    barrier(0);
    abandon(a);
    let b = txn();
    let mut c = b.clone();
    commit(b);
    ok(c.insert::<T1>(&1, &st().v[1]));
    sent(0);
    st().row[1] = st().sent;
    ok(c.commit());
    barrier(1);
    finish();
    vk::reach!(phys::failed(), "a failed write");
    vk::reach!(st().yes == 1 && st().well == 1, "all on disk");
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(18))]
pub fn layered_left_open() {
    phys::plan(vk::u8(), 3);
    start(true);
    let mut a = txn();
    tins(&mut a, 0);
    barrier(0);
    ins(1);
    finish();
    assert!(st().bar_done[0] == 0, "a barrier behind an open transaction does not answer");
    assert!(phys::disk(0).is_none() && phys::disk(1).is_none(), "nor is anything on disk");
    vk::reach!(true, "open");
    std::mem::forget(a);
}
/// A store that keeps rows in memory only until they are on disk.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(18))]
pub fn layered_cache_bare() {
    phys::plan(vk::u8(), 2);
    start(false);
    ins(0);
    ins(1);
    barrier(0);
    finish();
    vk::reach!(phys::failed(), "a failed write");
    vk::reach!(st().yes == 1 && st().well == 1, "all on disk");
}
fn cache_txn(plan: u8) {
    phys::plan(plan, 3);
    start(false);
    let mut a = txn();
    tins(&mut a, 0);
    ins(1);
    commit(a);
    barrier(0);
    finish();
    vk::reach!(phys::failed() == (plan != 0), "as planned");
}
/// A later transaction that commits takes nothing from memory that an earlier one failed to write.
fn cache_again(plan: u8) {
    phys::plan(plan, 4);
    start(false);
    let mut a = txn();
    tins(&mut a, 0);
    commit(a);
    let mut b = txn();
    tins(&mut b, 1);
    commit(b);
    finish();
    vk::reach!(phys::failed() == (plan != 0), "as planned");
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(18))]
pub fn layered_cache_txn_none() {
    cache_txn(0);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(18))]
pub fn layered_cache_txn_first() {
    cache_txn(1);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(18))]
pub fn layered_cache_txn_second() {
    cache_txn(2);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(18))]
pub fn layered_cache_txn_commit() {
    cache_txn(4);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(18))]
pub fn layered_cache_again_commit() {
    cache_again(2);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(18))]
pub fn layered_cache_again_insert() {
    cache_again(1);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(18))]
pub fn layered_cache_again_late() {
    cache_again(8);
}
