//! PositionIndex: the values saved, at their keys, in order, across reopening, truncation and torn tails.
use super::*;
use crate::archive::pack::PackCompression;
use vstd::{fs as vfs, path::PathBuf};

const H: usize = 26;
fn head(version: u16) -> DataHeader {
    DataHeader::new(7, PackCompression::None, version)
}
fn file(dir: &PathBuf) -> PathBuf {
    dir.join("i")
}
fn open<T: PosIndexValue>(dir: &PathBuf) -> PositionIndex<T> {
    PositionIndex::<T>::open_pdx_file(dir, &head(1), "i", false).expect("open")
}
fn not_found<T>(r: Result<T, FetchError>) -> bool {
    let b = matches!(r, Err(FetchError::NotFound));
    std::mem::forget(r);
    b
}
fn refused<T>(r: Result<T, AppendError>) -> bool {
    let b = r.is_err();
    std::mem::forget(r);
    b
}
/// Loads the key: the value saved, or nothing.
fn loads<T: PosIndexValue + PartialEq + Copy>(ix: &mut PositionIndex<T>, vals: &[T], key: u64) {
    if key < vals.len() as u64 {
        assert!(ix.load(key).expect("load") == vals[key as usize], "a key gives the value saved under it");
    } else {
        assert!(not_found(ix.load(key)), "a key beyond the end is not found");
    }
}

fn save_load<T: PosIndexValue + PartialEq + Copy>(v: [T; 2], re: bool) {
    let mut s = vfs::S::new();
    let dir = s.root();
    let mut ix = open::<T>(&dir);
    assert!(ix.is_empty() && ix.len() == 0, "new and empty");
    let mut n = 0;
    while n < 2 {
        ix.save(n as u64, v[n]).expect("save");
        n += 1;
        assert!(ix.len() == n && !ix.is_empty(), "one more");
    }
    if re {
        ix.sync().expect("sync");
        assert!(vfs::durable_len_of(&file(&dir)) == H + 2 * T::buffer_len(), "a sync makes everything durable");
        std::mem::forget(ix);
        ix = open::<T>(&dir);
    }
    loads(&mut ix, &v, 1);
    loads(&mut ix, &v, 0);
    loads(&mut ix, &v, if re { u64::MAX } else { vk::u64() });
    vk::reach!(v[0] != v[1], "different values");
    std::mem::forget(ix);
}
/// Only the next key can be saved.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn posidx_wrong_key() {
    let mut s = vfs::S::new();
    let dir = s.root();
    let (mut ix, v) = filled(&dir, 1);
    let k = vk::u64();
    let ok = !refused(ix.save(k, 5));
    assert!(ok == (k == 1), "only the next key can be saved");
    assert!(ix.len() == 1 + ok as usize, "a refused key changes nothing");
    vk::reach!(k == 0, "a key there already");
    std::mem::forget(ix);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn posidx_save_load() {
    save_load([vk::u64(), vk::u64()], false);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn posidx_save_reload() {
    save_load([vk::u64(), vk::u64()], true);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn posidx_pairs() {
    save_load([(vk::u64(), vk::u64()), (vk::u64(), vk::u64())], true);
}

fn filled(dir: &PathBuf, n: usize) -> (PositionIndex<u64>, [u64; 4]) {
    let mut ix = open::<u64>(dir);
    let mut v = [0; 4];
    let mut i = 0;
    while i < n {
        v[i] = vk::u64();
        ix.save(i as u64, v[i]).expect("save");
        i += 1;
    }
    (ix, v)
}
fn iters(n: usize, re: bool) {
    let mut s = vfs::S::new();
    let dir = s.root();
    let (mut ix, v) = filled(&dir, n);
    if re {
        ix.sync().expect("sync");
        std::mem::forget(ix);
        ix = open::<u64>(&dir);
    }
    let mut k = 0;
    while k <= n + 1 {
        let m = if k < n { k } else { n };
        let mut it = ix.iter(k).expect("iter");
        let mut rv = ix.rev_iter(k).expect("rev_iter");
        let mut i = 0;
        while i < m {
            assert!(it.next().expect("item").expect("item") == v[i], "the first items, in order");
            assert!(rv.next().expect("item").expect("item") == v[n - 1 - i], "the last items, from the end");
            i += 1;
        }
        assert!(it.next().is_none() && rv.next().is_none(), "no more than asked for");
        std::mem::forget((it, rv));
        k += 1;
    }
    vk::reach!(v[0] != v[1], "different values");
    std::mem::forget(ix);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn posidx_iters() {
    iters(3, false);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn posidx_iters_reopened() {
    iters(2, true);
}

/// Truncates three items after the key (3 and more: a no-op; 9: all) and goes on.
fn truncated(key: u64, re: bool) {
    let mut s = vfs::S::new();
    let dir = s.root();
    let (mut ix, mut v) = filled(&dir, 3);
    let left = match key {
        9 => {
            ix.truncate_all().expect("truncate");
            0
        }
        k => {
            ix.truncate_to_index(k).expect("truncate");
            if k < 3 { k as usize + 1 } else { 3 }
        }
    };
    assert!(ix.len() == left, "keeps the key and what is below");
    if re {
        ix.sync().expect("sync");
        std::mem::forget(ix);
        ix = open::<u64>(&dir);
        assert!(ix.len() == left, "on disk too");
    }
    v[left] = vk::u64();
    ix.save(left as u64, v[left]).expect("save");
    let mut k = 0;
    while k < left as u64 + 2 {
        loads(&mut ix, &v[..left + 1], k);
        k += 1;
    }
    vk::reach!(v[left] == 3, "another");
    std::mem::forget(ix);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn posidx_truncate_0() {
    truncated(0, false);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn posidx_truncate_1() {
    truncated(1, true);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn posidx_truncate_2() {
    truncated(2, false);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn posidx_truncate_3() {
    truncated(3, true);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn posidx_truncate_4() {
    truncated(4, false);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn posidx_truncate_all() {
    truncated(9, true);
}

/// A tail that is no whole item: dropped by a writer, refused by a reader.
fn torn(n: usize, extra: usize) {
    let mut s = vfs::S::new();
    let dir = s.root();
    let (mut ix, mut v) = filled(&dir, n);
    ix.sync().expect("sync");
    std::mem::forget(ix);
    vfs::force_len(&file(&dir), H + 8 * n + extra, vk::u8());
    let ro = PositionIndex::<u64>::open_pdx_file(&dir, &head(1), "i", true);
    match &ro {
        Ok(ix) => assert!(extra == 0 && ix.len() == n, "a reader refuses a torn index"),
        Err(e) => assert!(extra != 0 && matches!(e, LoadHeaderError::InvalidIndexGeometry), "a reader accepts a whole one"),
    }
    std::mem::forget(ro);
    let mut ix = open::<u64>(&dir);
    assert!(ix.len() == n, "a writer keeps the whole items");
    assert!(vfs::len_of(&file(&dir)) == H + 8 * n, "and only them");
    v[n] = vk::u64();
    ix.save(n as u64, v[n]).expect("save");
    let mut k = 0;
    while k < n as u64 + 2 {
        loads(&mut ix, &v[..n + 1], k);
        k += 1;
    }
    vk::reach!(v[n] == 3, "another");
    std::mem::forget(ix);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn posidx_torn_0() {
    torn(0, 5);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn posidx_torn_1() {
    torn(2, 1);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn posidx_torn_7() {
    torn(1, 7);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn posidx_torn_not() {
    torn(2, 0);
}

/// Opens only for its own pack's version, application number and uid, with an intact header.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn posidx_gate() {
    let mut s = vfs::S::new();
    let dir = s.root();
    let (mut ix, _) = filled(&dir, 1);
    ix.sync().expect("sync");
    std::mem::forget(ix);
    let f = file(&dir);
    // Up to four neighbouring bytes of the header are altered.
    let at = vk::below(H - 3);
    let x = vk::bytes::<4>();
    let dirty = x != [0; 4];
    let mut i = 0;
    while i < 4 {
        vfs::set_byte(&f, at + i, vfs::byte_of(&f, at + i) ^ x[i]);
        i += 1;
    }
    let r = PositionIndex::<u64>::open_pdx_file(&dir, &head(1), "i", true);
    assert!(r.is_ok() == !dirty, "opens only intact");
    vk::reach!(dirty, "damage");
    std::mem::forget(r);
}
/// With a checksum that matches: the fields decide.
fn fields(at: usize, n: usize) {
    let mut s = vfs::S::new();
    let dir = s.root();
    let (mut ix, _) = filled(&dir, 1);
    ix.sync().expect("sync");
    std::mem::forget(ix);
    let f = file(&dir);
    let mut b = [0u8; H];
    let mut i = 0;
    while i < H {
        b[i] = vfs::byte_of(&f, i);
        i += 1;
    }
    i = 0;
    let mut dirty = false;
    while i < n {
        let x = vk::u8();
        dirty |= x != 0;
        b[at + i] ^= x;
        i += 1;
    }
    add_crc32(&mut b[..]);
    i = 0;
    while i < H {
        vfs::set_byte(&f, i, b[i]);
        i += 1;
    }
    let r = PositionIndex::<u64>::open_pdx_file(&dir, &head(1), "i", vk::bool());
    assert!(r.is_ok() == !dirty, "refuses another type, version, uid or application");
    vk::reach!(dirty, "another");
    std::mem::forget(r);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn posidx_field_type() {
    fields(0, 8);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn posidx_field_version() {
    fields(8, 2);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn posidx_field_uid() {
    fields(10, 8);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn posidx_field_app() {
    fields(18, 4);
}
/// A caller with a different epoch or version.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn posidx_other_pack() {
    let mut s = vfs::S::new();
    let dir = s.root();
    let (mut ix, _) = filled(&dir, 1);
    ix.sync().expect("sync");
    std::mem::forget(ix);
    let (epoch, version) = (vk::u8() as u64, vk::u16());
    let r = PositionIndex::<u64>::open_pdx_file(&dir, &DataHeader::new(epoch, PackCompression::None, version), "i", true);
    assert!(r.is_ok() == (epoch == 7 && version == 1), "opens exactly for its own pack");
    std::mem::forget(r);
    vk::reach!(epoch == 7 && version != 1, "another version");
    vk::reach!(epoch != 7 && version == 1, "another epoch");
}
/// Nothing to read yet.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn posidx_empty_ro() {
    let mut s = vfs::S::new();
    let dir = s.root();
    vfs::put(&file(&dir), &[]);
    let r = PositionIndex::<u64>::open_pdx_file(&dir, &head(1), "i", true);
    assert!(matches!(r, Err(LoadHeaderError::ReadOnlyEmpty)), "a reader refuses an empty file");
    assert!(vfs::len_of(&file(&dir)) == 0, "and writes nothing");
    vk::reach!(true, "empty");
    std::mem::forget(r);
}
