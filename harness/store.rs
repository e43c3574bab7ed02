//! The store against a map.
use super::*;
use crate::{DbTx, DbTxMut, TableHint};

#[derive(Debug)]
pub struct A;
impl Table for A {
    type Key = u16;
    type Value = u8;
    const NAME: &'static str = "a";
    const HINT: TableHint = TableHint::Epoch;
}
#[derive(Debug)]
pub struct B;
impl Table for B {
    type Key = u16;
    type Value = u8;
    const NAME: &'static str = "b";
    const HINT: TableHint = TableHint::Cache;
}
fn ok<T, E>(r: Result<T, E>) -> T {
    match r {
        Ok(x) => x,
        Err(e) => {
            std::mem::forget(e);
            panic!("the store works")
        }
    }
}
fn open() -> ReDB {
    let db = ok(ReDB::open(""));
    ok(db.open_table::<A>());
    ok(db.open_table::<B>());
    db
}
/// Three insertions, in any order of the keys; the model is the value that was inserted last.
type Three = [(u16, u8); 3];
fn three() -> Three {
    [(vk::u16(), vk::u8()), (vk::u16(), vk::u8()), (vk::u16(), vk::u8())]
}
fn at(m: &Three, k: u16) -> Option<u8> {
    if m[2].0 == k {
        Some(m[2].1)
    } else if m[1].0 == k {
        Some(m[1].1)
    } else if m[0].0 == k {
        Some(m[0].1)
    } else {
        None
    }
}
fn fill(db: &ReDB, m: &Three) {
    ok(db.insert::<A>(&m[0].0, &m[0].1));
    ok(db.insert::<A>(&m[1].0, &m[1].1));
    ok(db.insert::<A>(&m[2].0, &m[2].1));
}
fn distinct(m: &Three) -> usize {
    1 + (m[1].0 != m[0].0) as usize + (m[2].0 != m[0].0 && m[2].0 != m[1].0) as usize
}
fn done(db: ReDB) {
    std::mem::forget(db);
}

#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn store_get() {
    let db = open();
    assert!(db.is_empty::<A>(), "a new table is empty");
    let m = three();
    fill(&db, &m);
    assert!(!db.is_empty::<A>(), "a table with rows is not empty");
    assert!(db.is_empty::<B>(), "the other table is");
    let k = vk::u16();
    assert!(ok(db.get::<A>(&k)) == at(&m, k), "get gives what was inserted last");
    assert!(ok(db.contains_key::<A>(&k)) == at(&m, k).is_some(), "contains_key says whether get would");
    assert!(ok(db.get::<B>(&k)).is_none(), "another table has nothing");
    vk::reach!(at(&m, k).is_some() && distinct(&m) == 3, "found among three");
    vk::reach!(at(&m, k).is_none(), "not found");
    done(db);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn store_remove() {
    let db = open();
    let m = three();
    fill(&db, &m);
    ok(db.insert::<B>(&m[0].0, &7));
    let (r, k) = (vk::u16(), vk::u16());
    ok(db.remove::<A>(&r));
    let want = if k == r { None } else { at(&m, k) };
    assert!(ok(db.get::<A>(&k)) == want, "remove takes exactly its key");
    assert!(ok(db.get::<B>(&m[0].0)) == Some(7), "from its own table");
    vk::reach!(r == m[1].0 && want.is_some(), "another one stays");
    done(db);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn store_clear() {
    let db = open();
    let m = three();
    fill(&db, &m);
    ok(db.insert::<B>(&m[0].0, &7));
    ok(db.clear_table::<A>());
    let k = vk::u16();
    assert!(db.is_empty::<A>() && ok(db.get::<A>(&k)).is_none() && db.last_record::<A>().is_none(), "a cleared table is empty");
    assert!(db.iter::<A>().next().is_none(), "a cleared table is empty");
    assert!(ok(db.get::<B>(&m[0].0)) == Some(7), "another table is not");
    ok(db.insert::<A>(&k, &9));
    assert!(ok(db.get::<A>(&k)) == Some(9), "a cleared table takes rows again");
    vk::reach!(true, "cleared");
    done(db);
}
/// What an iterator has to give: rows of the model, each once, strictly in order.
fn walk(m: &Three, it: &mut dyn Iterator<Item = (u16, u8)>, up: bool, from: u16, want: usize) {
    let mut n = 0;
    let mut last = 0u16;
    while n < 4 {
        let Some((k, v)) = it.next() else { break };
        assert!(at(m, k) == Some(v), "a row of the table");
        assert!(k >= from, "at or after the key");
        assert!(n == 0 || (if up { k > last } else { k < last }), "in order, each once");
        last = k;
        n += 1;
    }
    assert!(n == want, "all of them");
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn store_iter() {
    let db = open();
    let m = three();
    fill(&db, &m);
    let mut it = db.iter::<A>();
    walk(&m, &mut it, true, 0, distinct(&m));
    vk::reach!(distinct(&m) == 3 && m[2].0 < m[0].0, "out of order");
    std::mem::forget(it);
    done(db);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn store_reverse() {
    let db = open();
    let m = three();
    fill(&db, &m);
    let mut it = db.reverse_iter::<A>();
    walk(&m, &mut it, false, 0, distinct(&m));
    vk::reach!(distinct(&m) == 3 && m[2].0 < m[0].0, "out of order");
    std::mem::forget(it);
    done(db);
}
fn count(m: &Three, p: impl Fn(u16) -> bool) -> usize {
    p(m[0].0) as usize + (p(m[1].0) && m[1].0 != m[0].0) as usize + (p(m[2].0) && m[2].0 != m[0].0 && m[2].0 != m[1].0) as usize
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn store_skip() {
    let db = open();
    let m = three();
    fill(&db, &m);
    let q = vk::u16();
    let mut it = ok(db.skip_to::<A>(&q));
    walk(&m, &mut it, true, q, count(&m, |k| k >= q));
    vk::reach!(count(&m, |k| k >= q) == 2 && at(&m, q).is_some(), "on a key");
    vk::reach!(count(&m, |k| k >= q) == 2 && at(&m, q).is_none(), "between keys");
    std::mem::forget(it);
    done(db);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn store_prior() {
    let db = open();
    let m = three();
    fill(&db, &m);
    let q = vk::u16();
    match db.record_prior_to::<A>(&q) {
        Some((k, v)) => {
            assert!(k < q && at(&m, k) == Some(v), "a row before the key");
            assert!(count(&m, |x| x > k && x < q) == 0, "the last of them");
        }
        None => assert!(count(&m, |x| x < q) == 0, "none only when no row is before the key"),
    }
    match db.last_record::<A>() {
        Some((k, v)) => assert!(at(&m, k) == Some(v) && count(&m, |x| x > k) == 0, "the last row"),
        None => panic!("there is a last row"),
    }
    vk::reach!(count(&m, |x| x < q) == 2 && at(&m, q).is_some(), "on a key");
    vk::reach!(count(&m, |x| x < q) == 1 && at(&m, q).is_none(), "between keys");
    done(db);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn store_multi() {
    let db = open();
    let m = three();
    fill(&db, &m);
    let ks = [vk::u16(), vk::u16(), vk::u16()];
    let got = ok(db.multi_get::<A>(ks.iter()));
    assert!(got.len() == 3, "as many as asked for");
    assert!(got[0] == at(&m, ks[0]) && got[1] == at(&m, ks[1]) && got[2] == at(&m, ks[2]), "each one's, in the order asked");
    vk::reach!(at(&m, ks[0]).is_none() && at(&m, ks[1]).is_some(), "some missing");
    std::mem::forget(got);
    done(db);
}
/// One write transaction: it sees its own writes, others see none of them until the commit and then all.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn store_txn() {
    let db = open();
    let m = three();
    fill(&db, &m);
    let before = ok(db.read_txn());
    let mut tx = ok(db.write_txn());
    let (k, v, r, q) = (vk::u16(), vk::u8(), vk::u16(), vk::u16());
    ok(tx.insert::<A>(&k, &v));
    ok(tx.remove::<A>(&r));
    let new = if q == r { None } else if q == k { Some(v) } else { at(&m, q) };
    assert!(ok(tx.get::<A>(&q)) == new, "a transaction reads its own writes");
    assert!(ok(tx.contains_key::<A>(&q)) == new.is_some(), "a transaction reads its own writes");
    assert!(ok(db.get::<A>(&q)) == at(&m, q), "nobody else does before the commit");
    if vk::bool() {
        ok(tx.commit());
        assert!(ok(db.get::<A>(&q)) == new, "everybody does after it");
        vk::reach!(new != at(&m, q), "committed");
    } else {
        drop(tx);
        assert!(ok(db.get::<A>(&q)) == at(&m, q), "a transaction that is dropped leaves nothing");
        vk::reach!(new != at(&m, q), "dropped");
    }
    assert!(ok(before.get::<A>(&q)) == at(&m, q), "a read transaction stays at its beginning");
    assert!(ok(before.contains_key::<A>(&q)) == at(&m, q).is_some(), "a read transaction stays at its beginning");
    std::mem::forget(before);
    done(db);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn store_txn_clear() {
    let db = open();
    let m = three();
    fill(&db, &m);
    ok(db.insert::<B>(&m[0].0, &7));
    let mut tx = ok(db.write_txn());
    ok(tx.clear_table::<A>());
    let (k, v, q) = (vk::u16(), vk::u8(), vk::u16());
    assert!(ok(tx.get::<A>(&q)).is_none(), "cleared");
    ok(tx.insert::<A>(&k, &v));
    assert!(ok(db.get::<A>(&q)) == at(&m, q), "not before the commit");
    ok(tx.commit());
    assert!(ok(db.get::<A>(&q)) == (if q == k { Some(v) } else { None }), "all or nothing");
    assert!(ok(db.get::<B>(&m[0].0)) == Some(7), "in its own table");
    // opening a table again keeps what it holds
    ok(db.open_table::<A>());
    ok(db.compact());
    assert!(ok(db.get::<A>(&k)) == Some(v), "opening a table keeps its rows");
    vk::reach!(q == k, "committed");
    done(db);
}
