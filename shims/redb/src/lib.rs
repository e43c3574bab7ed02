//! A key-value store of two tables with up to four rows of two bytes: rows sorted by the key type's own
//! comparison of encoded keys, one write transaction at a time, which works on a copy that replaces the
//! tables on commit and is thrown away otherwise, and read transactions on a copy made when they begin.
#![allow(warnings)]
use std::{
    borrow::Borrow,
    cell::{Cell, UnsafeCell},
    cmp::Ordering,
    fmt,
    marker::PhantomData,
    ops::{Bound, RangeBounds},
    path::Path,
};

const ROWS: usize = 4;
const TABLES: usize = 2;

#[derive(Clone, Copy)]
struct Word { len: u8, b: [u8; 2] }
impl Word {
    const fn none() -> Self { Word { len: 0, b: [0; 2] } }
    fn of(x: &[u8]) -> Self {
        vk::limit(x.len() <= 2);
        let mut b = [0; 2];
        if x.len() > 0 { b[0] = x[0]; }
        if x.len() > 1 { b[1] = x[1]; }
        Word { len: x.len() as u8, b }
    }
    fn get(&self) -> &[u8] { &self.b[..self.len as usize] }
}
#[derive(Clone, Copy)]
struct Rows { open: u8, len: usize, name: &'static str, k: [Word; ROWS], v: [Word; ROWS] }
const NO_ROWS: Rows = Rows { open: 0, len: 0, name: "", k: [Word::none(); ROWS], v: [Word::none(); ROWS] };
#[derive(Clone, Copy)]
struct Tables([Rows; TABLES]);
impl Tables {
    fn at(&self, name: &str) -> Option<usize> {
        let mut i = 0;
        while i < TABLES {
            if self.0[i].open != 0 && same(self.0[i].name, name) { return Some(i); }
            i += 1;
        }
        None
    }
}
fn same(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    a.len() == b.len() && (a.len() == 0 || a[a.len() - 1] == b[b.len() - 1])
}

#[derive(Debug)]
pub struct Error;
impl fmt::Display for Error { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl std::error::Error for Error {}
pub type TableError = Error;
pub type StorageError = Error;
pub type TransactionError = Error;
pub type CommitError = Error;
pub type DatabaseError = Error;
pub type CompactionError = Error;
pub type Result<T, E = Error> = core::result::Result<T, E>;

pub struct TypeName(());
impl TypeName { pub fn new(_: &str) -> Self { TypeName(()) } }
pub trait Value: fmt::Debug {
    type SelfType<'a>: fmt::Debug + 'a where Self: 'a;
    type AsBytes<'a>: AsRef<[u8]> + 'a where Self: 'a;
    fn fixed_width() -> Option<usize>;
    fn from_bytes<'a>(data: &'a [u8]) -> Self::SelfType<'a> where Self: 'a;
    fn as_bytes<'a, 'b: 'a>(value: &'a Self::SelfType<'b>) -> Self::AsBytes<'a> where Self: 'b;
    fn type_name() -> TypeName;
}
pub trait Key: Value { fn compare(a: &[u8], b: &[u8]) -> Ordering; }

fn word<'a, K: Value + 'static>(x: &K::SelfType<'a>) -> Word {
    let b = K::as_bytes(x);
    let w = Word::of(b.as_ref());
    w
}
/// Where the key is, or where it goes.
fn find<K: Key + 'static>(r: &Rows, k: &Word) -> core::result::Result<usize, usize> {
    let mut i = 0;
    while i < ROWS {
        if i >= r.len { return Err(i); }
        match K::compare(r.k[i].get(), k.get()) {
            Ordering::Less => {}
            Ordering::Equal => return Ok(i),
            Ordering::Greater => return Err(i),
        }
        i += 1;
    }
    Err(ROWS)
}

pub struct TableDefinition<'a, K: Key + 'static, V: Value + 'static> { name: &'a str, p: PhantomData<(K, V)> }
impl<'a, K: Key + 'static, V: Value + 'static> TableDefinition<'a, K, V> {
    pub const fn new(name: &'a str) -> Self { TableDefinition { name, p: PhantomData } }
    pub fn name(&self) -> &str { self.name }
}
impl<K: Key + 'static, V: Value + 'static> Clone for TableDefinition<'_, K, V> { fn clone(&self) -> Self { *self } }
impl<K: Key + 'static, V: Value + 'static> Copy for TableDefinition<'_, K, V> {}
impl<K: Key + 'static, V: Value + 'static> fmt::Debug for TableDefinition<'_, K, V> { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }

struct Inner { t: UnsafeCell<Tables>, writing: Cell<u8> }
pub struct Database(&'static Inner);
unsafe impl Send for Database {}
unsafe impl Sync for Database {}
impl fmt::Debug for Database { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl Database {
    pub fn create(_: impl AsRef<Path>) -> Result<Database> {
        Ok(Database(Box::leak(Box::new(Inner { t: UnsafeCell::new(Tables([NO_ROWS; TABLES])), writing: Cell::new(0) }))))
    }
    pub fn begin_write(&self) -> Result<WriteTransaction> {
        assert!(self.0.writing.get() == 0, "a write transaction waits for one that its own thread holds open");
        self.0.writing.set(1);
        Ok(WriteTransaction { db: self.0, t: UnsafeCell::new(unsafe { *self.0.t.get() }), open: Cell::new(0) })
    }
    pub fn compact(&mut self) -> Result<bool> { Ok(false) }
}
pub trait ReadableDatabase { fn begin_read(&self) -> Result<ReadTransaction>; }
impl ReadableDatabase for Database {
    fn begin_read(&self) -> Result<ReadTransaction> { Ok(ReadTransaction(unsafe { *self.0.t.get() })) }
}
pub struct ReadTransaction(Tables);
impl fmt::Debug for ReadTransaction { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl ReadTransaction {
    pub fn open_table<K: Key + 'static, V: Value + 'static>(&self, d: TableDefinition<'_, K, V>) -> Result<ReadOnlyTable<K, V>> {
        match self.0.at(d.name) { Some(i) => Ok(ReadOnlyTable { rows: self.0 .0[i], p: PhantomData }), None => Err(Error) }
    }
    pub fn close(self) -> Result<()> { Ok(()) }
}
pub struct WriteTransaction { db: &'static Inner, t: UnsafeCell<Tables>, open: Cell<u8> }
unsafe impl Send for WriteTransaction {}
unsafe impl Sync for WriteTransaction {}
impl WriteTransaction {
    fn t(&self) -> &mut Tables { unsafe { &mut *self.t.get() } }
    pub fn open_table<'t, K: Key + 'static, V: Value + 'static>(&'t self, d: TableDefinition<'_, K, V>) -> Result<OpenTable<'t, K, V>> {
        let t = self.t();
        let i = match t.at(d.name) {
            Some(i) => i,
            None => {
                let mut i = 0;
                while i < TABLES && t.0[i].open != 0 { i += 1; }
                vk::limit(i < TABLES);
                t.0[i] = NO_ROWS;
                t.0[i].open = 1;
                // the name is a constant of the table's type
                t.0[i].name = unsafe { std::mem::transmute::<&str, &'static str>(d.name) };
                i
            }
        };
        if self.open.get() >> i & 1 == 1 { return Err(Error); }
        self.open.set(self.open.get() | 1 << i);
        Ok(OpenTable { tx: self, i, p: PhantomData })
    }
    pub fn delete_table<K: Key + 'static, V: Value + 'static>(&self, d: TableDefinition<'_, K, V>) -> Result<bool> {
        match self.t().at(d.name) {
            Some(i) => {
                if self.open.get() >> i & 1 == 1 { return Err(Error); }
                self.t().0[i] = NO_ROWS;
                Ok(true)
            }
            None => Ok(false),
        }
    }
    pub fn commit(self) -> Result<()> {
        unsafe { *self.db.t.get() = *self.t.get() };
        Ok(())
    }
    pub fn abort(self) -> Result<()> { Ok(()) }
}
impl Drop for WriteTransaction { fn drop(&mut self) { self.db.writing.set(0); } }

pub struct AccessGuard<'a, V: Value + 'static> { w: Word, p: PhantomData<(&'a (), V)> }
impl<V: Value + 'static> AccessGuard<'_, V> { pub fn value(&self) -> V::SelfType<'_> { V::from_bytes(self.w.get()) } }
fn guard<'a, V: Value + 'static>(w: Word) -> AccessGuard<'a, V> { AccessGuard { w, p: PhantomData } }

pub struct ReadOnlyTable<K: Key + 'static, V: Value + 'static> { rows: Rows, p: PhantomData<(K, V)> }
pub struct OpenTable<'t, K: Key + 'static, V: Value + 'static> { tx: &'t WriteTransaction, i: usize, p: PhantomData<(K, V)> }
pub use OpenTable as Table;
impl<K: Key + 'static, V: Value + 'static> Drop for OpenTable<'_, K, V> { fn drop(&mut self) { self.tx.open.set(self.tx.open.get() & !(1 << self.i)); } }
impl<K: Key + 'static, V: Value + 'static> OpenTable<'_, K, V> {
    pub fn insert<'k, 'v>(&mut self, k: impl Borrow<K::SelfType<'k>>, v: impl Borrow<V::SelfType<'v>>) -> Result<Option<AccessGuard<'_, V>>> {
        let (k, v) = (word::<K>(k.borrow()), word::<V>(v.borrow()));
        let r = &mut self.tx.t().0[self.i];
        match find::<K>(r, &k) {
            Ok(i) => { let old = r.v[i]; r.v[i] = v; Ok(Some(guard(old))) }
            Err(at) => {
                vk::limit(r.len < ROWS);
                let mut i = ROWS - 1;
                while i > 0 {
                    if i > at { r.k[i] = r.k[i - 1]; r.v[i] = r.v[i - 1]; }
                    i -= 1;
                }
                r.k[at] = k; r.v[at] = v; r.len += 1;
                Ok(None)
            }
        }
    }
    pub fn remove<'k>(&mut self, k: impl Borrow<K::SelfType<'k>>) -> Result<Option<AccessGuard<'_, V>>> {
        let k = word::<K>(k.borrow());
        let r = &mut self.tx.t().0[self.i];
        match find::<K>(r, &k) {
            Ok(at) => {
                let old = r.v[at];
                let mut i = 0;
                while i + 1 < ROWS {
                    if i >= at { r.k[i] = r.k[i + 1]; r.v[i] = r.v[i + 1]; }
                    i += 1;
                }
                r.len -= 1;
                Ok(Some(guard(old)))
            }
            Err(_) => Ok(None),
        }
    }
    pub fn retain<F: for<'f> FnMut(K::SelfType<'f>, V::SelfType<'f>) -> bool>(&mut self, mut f: F) -> Result<()> {
        let r = &mut self.tx.t().0[self.i];
        let (old, mut n, mut i) = (*r, 0, 0);
        while i < ROWS {
            if i < old.len && f(K::from_bytes(old.k[i].get()), V::from_bytes(old.v[i].get())) { r.k[n] = old.k[i]; r.v[n] = old.v[i]; n += 1; }
            i += 1;
        }
        r.len = n;
        Ok(())
    }
    pub fn pop_first(&mut self) -> Result<Option<(AccessGuard<'_, K>, AccessGuard<'_, V>)>> {
        let r = &mut self.tx.t().0[self.i];
        if r.len == 0 { return Ok(None); }
        let (k, v) = (r.k[0], r.v[0]);
        let mut i = 0;
        while i + 1 < ROWS { r.k[i] = r.k[i + 1]; r.v[i] = r.v[i + 1]; i += 1; }
        r.len -= 1;
        Ok(Some((guard(k), guard(v))))
    }
}
pub trait ReadableTableMetadata { fn len(&self) -> Result<u64>; fn is_empty(&self) -> Result<bool> { Ok(self.len()? == 0) } }
pub trait ReadableTable<K: Key + 'static, V: Value + 'static>: ReadableTableMetadata {
    #[doc(hidden)]
    fn vk_rows(&self) -> &Rows;
    fn get<'a>(&self, k: impl Borrow<K::SelfType<'a>>) -> Result<Option<AccessGuard<'_, V>>> {
        let r = self.vk_rows();
        Ok(match find::<K>(r, &word::<K>(k.borrow())) { Ok(i) => Some(guard(r.v[i])), Err(_) => None })
    }
    fn iter(&self) -> Result<Range<'_, K, V>> { let r = self.vk_rows(); Ok(Range { rows: *r, a: 0, b: r.len, p: PhantomData }) }
    fn range<'a, KR: Borrow<K::SelfType<'a>> + 'a>(&self, range: impl RangeBounds<KR> + 'a) -> Result<Range<'_, K, V>> {
        let r = self.vk_rows();
        let a = match range.start_bound() {
            Bound::Unbounded => 0,
            Bound::Included(k) => match find::<K>(r, &word::<K>(k.borrow())) { Ok(i) | Err(i) => i },
            Bound::Excluded(k) => match find::<K>(r, &word::<K>(k.borrow())) { Ok(i) => i + 1, Err(i) => i },
        };
        let b = match range.end_bound() {
            Bound::Unbounded => r.len,
            Bound::Included(k) => match find::<K>(r, &word::<K>(k.borrow())) { Ok(i) => i + 1, Err(i) => i },
            Bound::Excluded(k) => match find::<K>(r, &word::<K>(k.borrow())) { Ok(i) | Err(i) => i },
        };
        Ok(Range { rows: *r, a, b: if b < a { a } else { b }, p: PhantomData })
    }
    fn first(&self) -> Result<Option<(AccessGuard<'_, K>, AccessGuard<'_, V>)>> { Ok(self.iter()?.next().map(|x| x.unwrap())) }
    fn last(&self) -> Result<Option<(AccessGuard<'_, K>, AccessGuard<'_, V>)>> { Ok(self.iter()?.next_back().map(|x| x.unwrap())) }
}
impl<K: Key + 'static, V: Value + 'static> ReadableTableMetadata for ReadOnlyTable<K, V> { fn len(&self) -> Result<u64> { Ok(self.rows.len as u64) } }
impl<K: Key + 'static, V: Value + 'static> ReadableTableMetadata for OpenTable<'_, K, V> { fn len(&self) -> Result<u64> { Ok(self.vk_rows().len as u64) } }
impl<K: Key + 'static, V: Value + 'static> ReadableTable<K, V> for ReadOnlyTable<K, V> { fn vk_rows(&self) -> &Rows { &self.rows } }
impl<K: Key + 'static, V: Value + 'static> ReadableTable<K, V> for OpenTable<'_, K, V> { fn vk_rows(&self) -> &Rows { &self.tx.t().0[self.i] } }

pub struct Range<'a, K: Key + 'static, V: Value + 'static> { rows: Rows, a: usize, b: usize, p: PhantomData<(&'a (), K, V)> }
impl<'a, K: Key + 'static, V: Value + 'static> Iterator for Range<'a, K, V> {
    type Item = Result<(AccessGuard<'a, K>, AccessGuard<'a, V>)>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.a >= self.b { return None; }
        let i = self.a;
        self.a += 1;
        Some(Ok((guard(self.rows.k[i]), guard(self.rows.v[i]))))
    }
}
impl<'a, K: Key + 'static, V: Value + 'static> DoubleEndedIterator for Range<'a, K, V> {
    fn next_back(&mut self) -> Option<Self::Item> {
        if self.a >= self.b { return None; }
        self.b -= 1;
        Some(Ok((guard(self.rows.k[self.b]), guard(self.rows.v[self.b]))))
    }
}
