//! HdxIndex: the last position saved under each digest, across splits, overflows and reopening.
use super::*;
use crate::archive::pack::PackCompression;
use vstd::{fs as vfs, path::PathBuf};

/// A stable hasher whose hash of a key is its first byte.
#[derive(Default, Debug)]
pub struct First;
pub struct FirstHasher(u64);
impl BuildHasher for First {
    type Hasher = FirstHasher;
    fn build_hasher(&self) -> FirstHasher {
        FirstHasher(0)
    }
}
impl ::std::hash::Hasher for FirstHasher {
    fn write(&mut self, b: &[u8]) {
        self.0 = b[0] as u64;
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = i.rotate_left(7) ^ 0x5a;
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
type Ix = HdxIndex<8, First>;
fn head() -> DataHeader {
    DataHeader::new(7, PackCompression::None, 1)
}
fn open(dir: &PathBuf, ro: bool) -> Ix {
    Ix::open_hdx_file(dir, &head(), First, ro).expect("open")
}
fn key(hash: u8, id: u8) -> B256 {
    B256([hash, id, 1, 2, 3, 4, 5, 6])
}
fn not_found<T>(r: Result<T, FetchError>) -> bool {
    let b = matches!(r, Err(FetchError::NotFound));
    std::mem::forget(r);
    b
}
/// Saves each (hash, id) with an arbitrary position; each key then gives what was saved last under it.
fn run(keys: &[(u8, u8)], re: usize) {
    let mut s = vfs::S::new();
    let dir = s.root();
    let mut ix = open(&dir, false);
    let mut pos = [0u64; 6];
    let mut i = 0;
    while i < keys.len() {
        pos[i] = vk::u64();
        ix.save(key(keys[i].0, keys[i].1), pos[i]).expect("save");
        if i + 1 == re {
            ix.sync().expect("sync");
            std::mem::forget(ix);
            ix = open(&dir, false);
        }
        i += 1;
    }
    i = 0;
    while i < keys.len() {
        let mut last = pos[i];
        let mut j = i + 1;
        while j < keys.len() {
            if keys[j] == keys[i] {
                last = pos[j];
            }
            j += 1;
        }
        assert!(ix.load(key(keys[i].0, keys[i].1)).expect("load") == last, "a key gives the position saved last");
        i += 1;
    }
    assert!(not_found(ix.load(key(keys[0].0, 77))), "a key that was not saved is not found");
    vk::reach!(pos[0] != pos[1], "different positions");
    std::mem::forget(ix);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(72))]
pub fn hdx_one() {
    run(&[(1, 1), (0, 2)], 0);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(72))]
pub fn hdx_overflow() {
    run(&[(0, 1), (0, 2), (0, 3)], 0);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(72))]
pub fn hdx_again() {
    run(&[(1, 1), (0, 2), (1, 1), (2, 3)], 0);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(72))]
pub fn hdx_shadowed() {
    run(&[(0, 1), (0, 2), (0, 3), (0, 1)], 0);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(72))]
pub fn hdx_reopened() {
    run(&[(0, 1), (1, 2), (3, 3)], 3);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(72))]
pub fn hdx_reopened_overflow() {
    run(&[(0, 1), (0, 2), (0, 3), (0, 1), (1, 5)], 4);
}

/// Splits while there are overflow records: none is lost, and the newest stays the newest.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(72))]
pub fn hdx_split_overflow() {
    run(&[(2, 1), (0, 2), (4, 3), (2, 1), (1, 4)], 0);
}
/// Whatever else is asked for is not found, or what was saved.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(72))]
pub fn hdx_stranger() {
    let mut s = vfs::S::new();
    let dir = s.root();
    let mut ix = open(&dir, false);
    let (a, b) = (vk::u64(), vk::u64());
    ix.save(key(0, 1), a).expect("save");
    ix.save(key(0, 9), b).expect("save");
    let mut k = key(0, 1);
    let id = vk::u8();
    k.0[1] = id;
    match ix.load(k) {
        Ok(x) => assert!(id == 1 && x == a || id == 9 && x == b, "only what was saved under the key"),
        Err(e) => {
            assert!(id != 1 && id != 9 && matches!(e, FetchError::NotFound), "a saved key is found");
            std::mem::forget(e);
        }
    }
    vk::reach!(id == 9, "found");
    vk::reach!(id == 8, "not found");
    std::mem::forget(ix);
}
/// An index that is dropped without a sync is there after all.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(72))]
pub fn hdx_dropped() {
    let mut s = vfs::S::new();
    let dir = s.root();
    let mut ix = open(&dir, false);
    let a = vk::u64();
    ix.save(key(0, 1), a).expect("save");
    drop(ix);
    let mut ix = open(&dir, false);
    assert!(ix.len() == 1, "counts its keys");
    assert!(ix.load(key(0, 1)).expect("load") == a, "what was saved");
    vk::reach!(a == 3, "a position");
    std::mem::forget(ix);
}
/// A reader sees what was synced and cannot change it.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(72))]
pub fn hdx_reader() {
    let mut s = vfs::S::new();
    let dir = s.root();
    let mut ix = open(&dir, false);
    let (a, b) = (vk::u64(), vk::u64());
    ix.save(key(0, 1), a).expect("save");
    ix.save(key(1, 2), b).expect("save");
    ix.sync().expect("sync");
    std::mem::forget(ix);
    let mut ix = open(&dir, true);
    assert!(ix.len() == 2, "counts its keys");
    assert!(ix.load(key(1, 2)).expect("load") == b && ix.load(key(0, 1)).expect("load") == a, "what was saved");
    let r = ix.save(key(3, 3), a);
    assert!(matches!(r, Err(AppendError::ReadOnly)), "a reader saves nothing");
    std::mem::forget(r);
    let r = ix.sync();
    assert!(matches!(r, Err(CommitError::ReadOnly)), "a reader syncs nothing");
    std::mem::forget(r);
    vk::reach!(a != b, "different positions");
    std::mem::forget(ix);
}
/// An overflow record with another checksum gives an error, not a position and not "not found".
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(72))]
pub fn hdx_damaged_overflow() {
    let mut s = vfs::S::new();
    let dir = s.root();
    let mut ix = open(&dir, false);
    let mut pos = [0; 3];
    let mut i = 0;
    while i < 3 {
        pos[i] = vk::u64();
        ix.save(key(0, i as u8), pos[i]).expect("save");
        i += 1;
    }
    ix.sync().expect("sync");
    std::mem::forget(ix);
    // The checksum is the last four of the 48 bytes.
    let (f, at) = (dir.join("index.odx"), 28 + 44);
    vfs::set_byte(&f, at, vfs::byte_of(&f, at) ^ 1);
    let mut ix = open(&dir, false);
    let r = ix.load(key(0, 0));
    assert!(matches!(r, Err(FetchError::CrcFailed)), "damage is reported as such");
    std::mem::forget(r);
    assert!(ix.load(key(0, 2)).expect("load") == pos[2], "the newest bucket is intact");
    vk::reach!(pos[0] != pos[2], "different positions");
    std::mem::forget(ix);
}
/// What a sync left is durable, in both files.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(72))]
pub fn hdx_synced() {
    let mut s = vfs::S::new();
    let dir = s.root();
    let mut ix = open(&dir, false);
    let mut pos = [0; 3];
    let mut i = 0;
    while i < 3 {
        pos[i] = vk::u64();
        ix.save(key(0, i as u8), pos[i]).expect("save");
        i += 1;
    }
    ix.sync().expect("sync");
    let (h, o) = (dir.join("index.hdx"), dir.join("index.odx"));
    assert!(vfs::durable_len_of(&h) == vfs::len_of(&h) && vfs::durable_len_of(&o) == vfs::len_of(&o), "a sync makes everything durable");
    assert!(vfs::len_of(&o) > 28, "there is an overflow");
    vk::reach!(pos[0] != pos[1], "different positions");
    std::mem::forget(ix);
}
