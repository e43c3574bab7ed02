//! Pack files: what is appended is what is read, through every reader, across crashes and corruption.
use super::*;
use crate::archive::pack_iter::AsyncPackIter;
use vstd::{
    fs as vfs,
    path::PathBuf,
    vec::{vec, Vec},
};

pub type R = Option<u8>;
const H: usize = 28;
/// A record of an arbitrary value; whether it is the short or the long kind is fixed by `long`.
pub fn rec(long: bool) -> R {
    if long { Some(vk::u8()) } else { None }
}
/// Bytes of a record in the file: length, BCS, checksum.
pub fn size(r: &R, c: PackCompression) -> u64 {
    let z = match c {
        PackCompression::None => 0,
        PackCompression::ZStd => 2,
    };
    (if r.is_some() { 10 } else { 9 }) + z
}
fn comp(z: bool) -> PackCompression {
    if z { PackCompression::ZStd } else { PackCompression::None }
}
fn new(path: &PathBuf, c: PackCompression) -> Pack<R> {
    Pack::<R>::open(path, 7, false, c, 1).expect("open")
}
fn reopen(path: &PathBuf) -> Pack<R> {
    Pack::<R>::open(path, 7, false, PackCompression::None, 1).expect("reopen")
}
fn all(path: &PathBuf) -> PackIter<R, File> {
    PackIter::open(File::open(path).expect("file"), 7).expect("iter")
}
fn kept(n: usize, path: &PathBuf) -> Vec<u8> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < n {
        v.push(vfs::byte_of(path, i));
        i += 1;
    }
    v
}

fn append_fetch(shape: u8) {
    let mut s = vfs::S::new();
    let path = s.root().join("data");
    let c = comp(shape & 8 != 0);
    let (a, b) = (rec(shape & 1 != 0), rec(shape & 2 != 0));
    let mut p = new(&path, c);
    let pa = p.append(&a).expect("append");
    if shape & 4 != 0 {
        p.commit().expect("commit");
        assert!(vfs::durable_len_of(&path) as u64 == pa + size(&a, c), "a commit makes everything durable");
    }
    let pb = p.append(&b).expect("append");
    assert!(pa == H as u64 && pb == pa + size(&a, c), "records lie one after the other");
    assert!(p.file_len() == pb + size(&b, c), "and nothing else");
    assert!(p.fetch(pb).expect("fetch second") == b, "the second record reads back");
    assert!(p.fetch(pa).expect("fetch first") == a, "the first record reads back");
    assert!(p.record_size(pa).expect("size") as u64 == size(&a, c), "the record's size");
    p.commit().expect("commit");
    assert!(vfs::durable_len_of(&path) as u64 == p.file_len(), "a commit makes everything durable");
    let raw = p.read_bytes(pb, pb + size(&b, c)).expect("raw");
    assert!(raw.len() as u64 == size(&b, c) && raw[0] == vfs::byte_of(&path, pb as usize), "raw bytes are the file's");
    assert!(p.read_bytes(pb, pb + size(&b, c) + 1).is_err(), "and no more");
    std::mem::forget(p);
    let mut p = reopen(&path);
    assert!(p.fetch(pa).expect("fetch first") == a && p.fetch(pb).expect("fetch second") == b, "also after a reopen");
    let mut it = p.raw_iter().expect("iter");
    assert!(it.next().expect("first").expect("first") == a, "the iterator gives the first record");
    assert!(it.next().expect("second").expect("second") == b, "then the second");
    assert!(it.next().is_none(), "then nothing");
    vk::reach!(a != b, "different records");
    std::mem::forget((p, it));
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_append_fetch_a() {
    append_fetch(3);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_append_fetch_b() {
    append_fetch(1);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_append_fetch_c() {
    append_fetch(6);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_append_fetch_za() {
    append_fetch(8 | 7);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_append_fetch_zb() {
    append_fetch(8 | 2);
}

/// The iterators agree on whatever bytes follow the header, and give exactly the records up to the first
/// bad one.
fn iters_agree(z: bool, n: usize, len: u32, at_most: usize) {
    let mut s = vfs::S::new();
    let path = s.root().join("data");
    let p = new(&path, comp(z));
    std::mem::forget(p);
    let mut tail = [0u8; 16];
    let mut i = 0;
    while i < n {
        tail[i] = vk::u8();
        i += 1;
    }
    let l = len.to_le_bytes();
    i = 0;
    while i < 4 {
        tail[i] = l[i];
        i += 1;
    }
    let mut f = kept(H, &path);
    f.extend_from_slice(&tail[..n]);
    vfs::put(&path, &f);
    let mut it = all(&path);
    let x = it.next();
    let slow = tokio::io::Slow { data: &f, pos: 0, at_most };
    let mut ait = AsyncPackIter::<R, _>::open(slow, 7).expect("async iter");
    let y = ait.next();
    let mut p = reopen(&path);
    let w = p.fetch(H as u64);
    match (&x, &y) {
        (None, None) => assert!(n < 4, "an end before the length only"),
        (Some(Ok(a)), Some(Ok(b))) => {
            assert!(a == b, "sync and async give the same record");
            let len = len as usize;
            assert!(len + 8 <= n, "a record lies within the file");
            let mut h = crc32fast::Hasher::new();
            h.update(&tail[..4 + len]);
            let c = h.finalize().to_le_bytes();
            assert!(c[0] == tail[4 + len] && c[1] == tail[5 + len] && c[2] == tail[6 + len] && c[3] == tail[7 + len],
                "a record carries its checksum");
            assert!(w.as_ref().ok() == Some(a), "fetch gives the same record");
        }
        (Some(Err(a)), Some(Err(b))) => {
            assert!(std::mem::discriminant(a) == std::mem::discriminant(b), "the same kind of error");
            assert!(w.is_err(), "fetch fails too");
        }
        _ => assert!(false, "sync and async iterators agree"),
    }
    vk::reach!(z || n != len as usize + 8 || matches!(x, Some(Ok(_))), "a good record");
    vk::reach!(n < 4 || matches!(x, Some(Err(_))), "a bad one");
    std::mem::forget((it, ait, x, y, w, p));
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_iters_agree_0() {
    iters_agree(false, 3, 0, 64);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_iters_agree_1() {
    iters_agree(false, 9, 1, 64);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_iters_agree_2() {
    iters_agree(false, 11, 2, 15);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_iters_agree_torn() {
    iters_agree(false, 9, 2, 64);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_iters_agree_body() {
    iters_agree(false, 7, 6, 64);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_iters_agree_huge() {
    iters_agree(false, 12, 0x0100_0000, 64);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_iters_agree_z() {
    iters_agree(true, 12, 4, 64);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_iters_agree_zbomb() {
    iters_agree(true, 13, 5, 64);
}

/// Two records, a commit after the first, a crash that keeps any length from the committed one on.
fn crash(shape: u8, cut: usize) {
    let mut s = vfs::S::new();
    let path = s.root().join("data");
    let c = comp(false);
    let (a, b, d) = (rec(shape & 1 != 0), rec(shape & 2 != 0), rec(true));
    let mut p = new(&path, c);
    let pa = p.append(&a).expect("append");
    p.commit().expect("commit");
    let pb = p.append(&b).expect("append");
    p.flush().expect("flush");
    let full = p.file_len() as usize;
    std::mem::forget(p);
    let dur = vfs::durable_len_of(&path);
    assert!(dur as u64 == pb, "what was committed is durable");
    vfs::crash_to(&path, dur + cut);
    let whole = dur + cut == full;
    let mut p = reopen(&path);
    assert!(p.fetch(pa).expect("committed") == a, "a committed record survives");
    let mut it = all(&path);
    assert!(it.next().expect("first").expect("first") == a, "the iterator starts with the committed record");
    match it.next() {
        None => assert!(cut < 4, "the end at the torn record's start"),
        Some(Ok(x)) => assert!(whole && x == b, "a torn record is never given out"),
        Some(Err(_)) => assert!(!whole, "a whole record is readable"),
    }
    if whole {
        assert!(p.fetch(pb).expect("whole") == b, "a whole record is readable");
    } else {
        assert!(p.fetch(pb).is_err(), "a torn record is never given out");
    }
    // Back to the known good state, and on.
    p.truncate(pb).expect("truncate");
    assert!(p.file_len() == pb, "truncated");
    let pd = p.append(&d).expect("append");
    assert!(pd == pb, "the log goes on where it was cut");
    assert!(p.fetch(pd).expect("fetch") == d && p.fetch(pa).expect("fetch") == a, "and reads back");
    p.commit().expect("commit");
    let mut it = all(&path);
    assert!(it.next().expect("a").expect("a") == a && it.next().expect("d").expect("d") == d && it.next().is_none(),
        "the log after recovery");
    vk::reach!(true, "recovered");
    std::mem::forget(p);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_crash_0() {
    crash(3, 0);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_crash_2() {
    crash(3, 2);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_crash_4() {
    crash(2, 4);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_crash_5() {
    crash(3, 5);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_crash_8() {
    crash(1, 8);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_crash_9() {
    crash(3, 9);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_crash_10() {
    crash(3, 10);
}

/// A burst of at most 32 wrong bits in the contents or checksum of a record is never read as a record.
fn corrupt(z: bool, at: usize) {
    let mut s = vfs::S::new();
    let path = s.root().join("data");
    let c = comp(z);
    let (a, b) = (rec(true), rec(true));
    let mut p = new(&path, c);
    let pa = p.append(&a).expect("append") as usize;
    let pb = p.append(&b).expect("append") as usize;
    p.commit().expect("commit");
    std::mem::forget(p);
    // Bytes 4.. of the first record: up to four neighbours are hit.
    let len = size(&a, c) as usize;
    assert!(at >= 4 && at + 4 <= len);
    let m = vk::bytes::<4>();
    vk::assume(m[0] | m[1] | m[2] | m[3] != 0);
    let mut i = 0;
    while i < 4 {
        let o = vfs::byte_of(&path, pa + at + i);
        vfs::set_byte(&path, pa + at + i, o ^ m[i]);
        i += 1;
    }
    let mut p = reopen(&path);
    match p.fetch(pa as u64) {
        Ok(_) => assert!(false, "a damaged record is never given out"),
        Err(e) => std::mem::forget(e),
    }
    match p.record_size(pa as u64) {
        Ok(_) => assert!(false, "nor its size"),
        Err(e) => std::mem::forget(e),
    }
    let mut it = all(&path);
    match it.next() {
        Some(Err(e)) => std::mem::forget(e),
        _ => assert!(false, "the iterator reports it"),
    }
    assert!(p.fetch(pb as u64).expect("fetch") == b, "the next record is still readable");
    vk::reach!(m[3] != 0 && m[0] != 0, "a burst");
    std::mem::forget((p, it));
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_corruption_4() {
    corrupt(false, 4);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_corruption_5() {
    corrupt(false, 5);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_corruption_6() {
    corrupt(false, 6);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_corruption_z4() {
    corrupt(true, 4);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_corruption_z6() {
    corrupt(true, 6);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_corruption_z8() {
    corrupt(true, 8);
}

/// The header decides who may read a file.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_header_gate() {
    let mut s = vfs::S::new();
    let path = s.root().join("data");
    let epoch = vk::u8() as u64;
    let want = vk::u8() as u64;
    let (ver, mine) = (vk::u16(), vk::u16());
    let h = DataHeader::new(epoch, PackCompression::None, ver);
    let mut df = DataFile::open(&path, false).expect("open");
    h.write_header(&mut df).expect("write");
    df.flush().expect("flush");
    std::mem::forget(df);
    let mut f = [0u8; H];
    let mut i = 0;
    while i < H {
        f[i] = vfs::byte_of(&path, i);
        i += 1;
    }
    let (app, cmp) = (vk::u8(), vk::u8());
    let magic = vk::u8();
    f[0] = magic;
    f[16] = app;
    f[20] = cmp;
    add_crc32(&mut f);
    let bad = vk::u8();
    f[27] ^= bad;
    vfs::put(&path, &f);
    let p = Pack::<R>::open(&path, want, false, PackCompression::None, mine);
    let ok = epoch == want && ver <= mine && app == 1 && cmp <= 1 && bad == 0 && magic == b't';
    assert!(p.is_ok() == ok, "a pack opens for its own epoch, at a version not newer than asked, intact");
    if let Ok(p) = &p {
        assert!(p.version() == ver && p.appnum() == 1, "the header as written");
        assert!(p.file_len() == H as u64, "opening adds nothing");
    }
    let it = PackIter::<R, _>::open(File::open(&path).expect("file"), want);
    let iok = epoch == want && app == 1 && cmp <= 1 && bad == 0 && magic == b't';
    assert!(it.is_ok() == iok, "an iterator opens the same files");
    let ait = AsyncPackIter::<R, _>::open(tokio::io::Slow { data: &f, pos: 0, at_most: 64 }, want);
    assert!(ait.is_ok() == iok, "and so does a peer's stream");
    if let (Ok(i), Ok(a)) = (&it, &ait) {
        assert!(i.version() == ver && a.version() == ver, "the version as written");
    }
    vk::reach!(ok, "opens");
    vk::reach!(!ok && epoch == want, "does not");
    std::mem::forget((p, it, ait));
}

/// Whatever a file claims, reading it never makes room for more than the file buffers (64 here), and a
/// record beyond the limit is refused for its size.
fn claims(reader: u8, len: u32) {
    let mut s = vfs::S::new();
    let path = s.root().join("data");
    let p = new(&path, comp(false));
    std::mem::forget(p);
    let mut f = kept(H, &path);
    f.extend_from_slice(&len.to_le_bytes());
    f.extend_from_slice(&vk::bytes::<2>());
    vk::assume(len > 2);
    vfs::put(&path, &f);
    let e = if reader == 0 {
        let mut p = reopen(&path);
        vstd::vec::set_alloc_bound(64);
        let r = p.fetch(H as u64);
        std::mem::forget(p);
        r.err()
    } else if reader == 1 {
        let mut p = reopen(&path);
        vstd::vec::set_alloc_bound(64);
        let r = p.record_size(H as u64);
        std::mem::forget(p);
        r.err()
    } else if reader == 2 {
        let mut it = all(&path);
        vstd::vec::set_alloc_bound(64);
        let r = it.next();
        std::mem::forget(it);
        r.expect("not the end").err()
    } else {
        let mut it = AsyncPackIter::<R, _>::open(tokio::io::Slow { data: &f, pos: 0, at_most: 64 }, 7).expect("async iter");
        vstd::vec::set_alloc_bound(64);
        let r = it.next();
        std::mem::forget(it);
        r.expect("not the end").err()
    };
    match &e {
        Some(FetchError::RequestedSizeTooLarge(n, m)) => assert!(*n == len && *m == MAX_RECORD_SIZE && len > MAX_RECORD_SIZE, "too large"),
        Some(_) => assert!(len <= MAX_RECORD_SIZE, "a record beyond the limit is refused for its size"),
        None => assert!(false, "there is no such record"),
    }
    vk::reach!(len > MAX_RECORD_SIZE, "beyond");
    std::mem::forget(e);
}
/// A frame of 5 bytes that stands for `rep` times as many.
fn bomb(rep: u8) {
    let mut s = vfs::S::new();
    let path = s.root().join("data");
    let p = new(&path, comp(true));
    std::mem::forget(p);
    let mut f = kept(H, &path);
    f.extend_from_slice(&[5, 0, 0, 0, 0x28, rep]);
    f.extend_from_slice(&vk::bytes::<3>());
    let mut c = crc32fast::Hasher::new();
    c.update(&f[H..H + 9]);
    f.extend_from_slice(&c.finalize().to_le_bytes());
    vfs::put(&path, &f);
    let mut p = reopen(&path);
    let mut it = all(&path);
    let mut ait = AsyncPackIter::<R, _>::open(tokio::io::Slow { data: &f, pos: 0, at_most: 64 }, 7).expect("async iter");
    let over = 3 * rep as u32 > MAX_RECORD_SIZE;
    let r = p.fetch(H as u64);
    let x = it.next();
    let y = ait.next();
    assert!(matches!(r, Err(FetchError::RequestedDecompressSizeTooLarge(MAX_RECORD_SIZE))) == over, "fetch");
    assert!(matches!(x, Some(Err(FetchError::RequestedDecompressSizeTooLarge(MAX_RECORD_SIZE)))) == over, "iterator");
    assert!(matches!(y, Some(Err(FetchError::RequestedDecompressSizeTooLarge(MAX_RECORD_SIZE)))) == over, "async iterator");
    vk::reach!(r.is_err(), "refused");
    std::mem::forget((p, it, ait, r, x, y));
}
/// Any range of raw bytes: within the file, or refused without making room for it.
fn ranges() {
    let mut s = vfs::S::new();
    let path = s.root().join("data");
    let p = new(&path, comp(false));
    std::mem::forget(p);
    let mut p = reopen(&path);
    vstd::vec::set_alloc_bound(H);
    let (a, b) = (vk::u64(), vk::u64());
    let good = a <= b && b <= H as u64;
    if good {
        vk::assume(a == b || (b - a == 3 && a < 12));
    }
    let r = p.read_bytes(a, b);
    assert!(r.is_ok() == good, "a range of the file, or an error");
    if let Ok(r) = &r {
        assert!(r.len() as u64 == b - a, "the range's length");
        if r.len() > 0 {
            assert!(r[0] == vfs::byte_of(&path, a as usize), "the file's bytes");
        }
    }
    vk::reach!(good && a != b, "a range");
    vk::reach!(!good && a <= b, "out of range");
    std::mem::forget((p, r));
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_bounded_fetch() {
    let n = MAX_RECORD_SIZE;
    claims(0, n + 1);
    claims(0, u32::MAX);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_bounded_size() {
    let n = MAX_RECORD_SIZE;
    claims(1, n + 1);
    claims(1, u32::MAX);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_bounded_iter() {
    claims(2, vk::u32());
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_bounded_async() {
    claims(3, vk::u32());
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_bounded_bomb() {
    bomb(3);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_bounded_bomb_max() {
    bomb(200);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_bounded_frame() {
    bomb(2);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_bounded_ranges() {
    ranges();
}

/// The disk fills up at an arbitrary byte: from then on the pack reports the first cause and writes nothing.
fn latch(budget: u64) {
    let mut s = vfs::S::new();
    let path = s.root().join("data");
    let (a, b) = (rec(true), rec(true));
    let mut p = new(&path, comp(false));
    let pa = p.append(&a).expect("append");
    p.commit().expect("commit");
    let before = vfs::len_of(&path);
    s.set_write_budget(budget);
    let r = p.append(&b);
    match &r {
        Err(AppendError::WriteDataError(e)) => assert!(e.kind() == io::ErrorKind::StorageFull, "the cause"),
        _ => assert!(false, "a full disk is a write error"),
    }
    s.set_write_budget(1000);
    let len = vfs::len_of(&path);
    match p.append(&a) {
        Err(AppendError::WriteDataError(e)) => assert!(e.kind() == io::ErrorKind::StorageFull, "every append repeats the first cause"),
        _ => assert!(false, "a failed pack takes no more records"),
    }
    match p.commit() {
        Err(CommitError::Failed(e)) => assert!(e.kind() == io::ErrorKind::StorageFull, "every commit repeats the first cause"),
        _ => assert!(false, "a failed pack does not commit"),
    }
    assert!(vfs::len_of(&path) == len, "and nothing is written");
    assert!(p.fetch(pa).expect("fetch") == a, "what was committed stays readable");
    assert!(len as u64 == before as u64 + budget, "as much as fits is written");
    vk::reach!(a != b, "the end");
    std::mem::forget((p, r));
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_failed_latch_0() {
    latch(0);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_failed_latch_3() {
    latch(3);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn pack_failed_latch_7() {
    latch(7);
}
