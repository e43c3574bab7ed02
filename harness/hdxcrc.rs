//! HdxIndex on damaged files.
use super::*;
use crate::archive::pack::PackCompression;
use vstd::{fs as vfs, path::PathBuf};

#[derive(Default, Debug)]
pub struct First;
pub struct FirstHasher(u64);
impl BuildHasher for First {
    type Hasher = FirstHasher;
    fn build_hasher(&self) -> FirstHasher {
        FirstHasher(0)
    }
}
impl ::std::hash::Hasher for FirstHasher {
    fn write(&mut self, b: &[u8]) {
        self.0 = b[0] as u64;
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = i.rotate_left(7) ^ 0x5a;
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
/// Another stable hasher.
#[derive(Default, Debug)]
pub struct Other;
impl BuildHasher for Other {
    type Hasher = FirstHasher;
    fn build_hasher(&self) -> FirstHasher {
        FirstHasher(0)
    }
    fn hash_one<T: ::std::hash::Hash>(&self, t: T) -> u64 {
        First.hash_one(t) ^ 1
    }
}
type Ix = HdxIndex<8, First>;
fn head() -> DataHeader {
    DataHeader::new(7, PackCompression::None, 1)
}
fn open(dir: &PathBuf, ro: bool) -> Ix {
    Ix::open_hdx_file(dir, &head(), First, ro).expect("open")
}
fn damage(f: &PathBuf, at: usize) -> bool {
    let x = vk::bytes::<4>();
    let mut i = 0;
    while i < 4 {
        vfs::set_byte(f, at + i, vfs::byte_of(f, at + i) ^ x[i]);
        i += 1;
    }
    x != [0; 4]
}
/// A damaged header of either file.
fn header(odx: bool, at: usize) {
    let mut s = vfs::S::new();
    let dir = s.root();
    let ix = open(&dir, false);
    std::mem::forget(ix);
    let f = dir.join(if odx { "index.odx" } else { "index.hdx" });
    let dirty = damage(&f, at);
    let r = Ix::open_hdx_file(&dir, &head(), First, true);
    assert!(r.is_ok() == !dirty, "opens only with intact headers");
    vk::reach!(dirty, "damaged");
    std::mem::forget(r);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(72))]
pub fn hdx_header_h0() {
    header(false, 0);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(72))]
pub fn hdx_header_h8() {
    header(false, 8);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(72))]
pub fn hdx_header_h26() {
    header(false, 26);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(72))]
pub fn hdx_header_h40() {
    header(false, 40);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(72))]
pub fn hdx_header_h64() {
    header(false, 64);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(72))]
pub fn hdx_header_o0() {
    header(true, 0);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(72))]
pub fn hdx_header_o9() {
    header(true, 9);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(72))]
pub fn hdx_header_o22() {
    header(true, 22);
}
/// Headers whose checksum matches: the fields decide.
fn field(odx: bool, at: usize, n: usize) {
    let mut s = vfs::S::new();
    let dir = s.root();
    let ix = open(&dir, false);
    std::mem::forget(ix);
    let f = dir.join(if odx { "index.odx" } else { "index.hdx" });
    let len = if odx { 28 } else { 68 };
    let mut b = [0u8; 68];
    let mut i = 0;
    while i < len {
        b[i] = vfs::byte_of(&f, i);
        i += 1;
    }
    let mut dirty = false;
    i = 0;
    while i < n {
        let x = vk::u8();
        dirty |= x != 0;
        b[at + i] ^= x;
        i += 1;
    }
    add_crc32(&mut b[..len]);
    i = 0;
    while i < len {
        vfs::set_byte(&f, i, b[i]);
        i += 1;
    }
    let r = Ix::open_hdx_file(&dir, &head(), First, true);
    assert!(r.is_ok() == !dirty, "refuses another type, version, uid, application, geometry or salt");
    vk::reach!(dirty, "another");
    std::mem::forget(r);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(72))]
pub fn hdx_field_type() {
    field(false, 0, 8);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(72))]
pub fn hdx_field_version() {
    field(false, 8, 2);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(72))]
pub fn hdx_field_uid() {
    field(false, 10, 8);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(72))]
pub fn hdx_field_app() {
    field(false, 18, 4);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(72))]
pub fn hdx_field_geometry() {
    field(false, 26, 4);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(72))]
pub fn hdx_field_salt() {
    field(false, 30, 8);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(72))]
pub fn hdx_field_otype() {
    field(true, 0, 8);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(72))]
pub fn hdx_field_oversion() {
    field(true, 8, 2);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(72))]
pub fn hdx_field_ouid() {
    field(true, 10, 8);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(72))]
pub fn hdx_field_oapp() {
    field(true, 18, 4);
}
/// Another epoch's or version's index, or another hasher.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(72))]
pub fn hdx_other_pack() {
    let mut s = vfs::S::new();
    let dir = s.root();
    let ix = open(&dir, false);
    std::mem::forget(ix);
    let (epoch, version) = (vk::u8() as u64, vk::u16());
    let r = Ix::open_hdx_file(&dir, &DataHeader::new(epoch, PackCompression::None, version), First, true);
    assert!(r.is_ok() == (epoch == 7 && version == 1), "opens exactly for its own pack");
    std::mem::forget(r);
    vk::reach!(epoch == 7 && version != 1, "another version");
    vk::reach!(epoch != 7 && version == 1, "another epoch");
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(72))]
pub fn hdx_other_hasher() {
    let mut s = vfs::S::new();
    let dir = s.root();
    let ix = open(&dir, false);
    std::mem::forget(ix);
    let r = HdxIndex::<8, Other>::open_hdx_file(&dir, &head(), Other, true);
    assert!(matches!(r, Err(LoadHeaderError::InvalidHasher)), "refuses another hasher");
    std::mem::forget(r);
    vk::reach!(true, "refused");
}
