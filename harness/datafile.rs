//! DataFile against a plain byte array.
use super::*;
use vstd::fs as vfs;

const CAP: usize = 12;
struct Model {
    b: [u8; CAP],
    n: usize,
}
fn path(root: &PathBuf) -> PathBuf {
    root.join("f")
}
/// A read of up to 3 bytes, from an arbitrary position or from where the last one ended.
fn read_at(df: &mut DataFile, m: &Model, pos: &mut u64) {
    if vk::bool() {
        let p = vk::below(CAP) as u64;
        *pos = df.seek(SeekFrom::Start(p)).expect("seek");
        assert!(*pos == p);
    }
    let mut buf = [0u8; 3];
    let k = vk::below(4);
    let r = df.read(&mut buf[..k]).expect("read");
    let left = if *pos >= m.n as u64 { 0 } else { m.n - *pos as usize };
    assert!(r <= k && r <= left, "reads no more than asked for and there");
    assert!(r > 0 || k == 0 || left == 0, "end of file only at the end");
    let mut i = 0;
    while i < 3 {
        if i < r {
            assert!(buf[i] == m.b[*pos as usize + i], "the bytes read are the bytes written");
        }
        i += 1;
    }
    *pos += r as u64;
}
/// One arbitrary operation on both.
fn step(f: &PathBuf, df: &mut DataFile, m: &mut Model, pos: &mut u64, op: usize) {
    match op {
        0 => {
            // write up to 2 bytes: always appended, wherever the read position is
            let data = vk::bytes::<2>();
            let n = vk::below(3);
            let w = df.write(&data[..n]).expect("write");
            assert!(w <= n && (n == 0 || w > 0), "a write takes some of its bytes");
            let mut i = 0;
            while i < 2 {
                if i < w {
                    m.b[m.n + i] = data[i];
                }
                i += 1;
            }
            m.n += w;
        }
        1 => read_at(df, m, pos),
        2 => {
            df.flush().expect("flush");
            assert!(vfs::len_of(f) == m.n, "a flush leaves nothing behind");
        }
        _ => {
            let l = vk::below(CAP);
            vk::assume(l <= m.n);
            df.set_len(l as u64).expect("set_len");
            m.n = l;
        }
    }
    assert!(df.len() == m.n as u64, "len counts buffered bytes");
}
fn start(f: &PathBuf) -> (DataFile, Model) {
    let mut m = Model { b: [0; CAP], n: 0 };
    let init = vk::bytes::<6>();
    m.n = vk::below(7);
    let mut i = 0;
    while i < 6 {
        m.b[i] = init[i];
        i += 1;
    }
    vfs::put(f, &m.b[..m.n]);
    let df = DataFile::open(f, false).expect("open");
    (df, m)
}

fn ops(first: usize) {
    let mut s = vfs::S::new();
    let f = path(&s.root());
    let (mut df, mut m) = start(&f);
    let mut pos = 0u64;
    step(&f, &mut df, &mut m, &mut pos, first);
    let second = vk::below(4);
    step(&f, &mut df, &mut m, &mut pos, second);
    read_at(&mut df, &m, &mut pos);
    vk::reach!(m.n > 3, "not empty");
    std::mem::forget(df);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(9))]
pub fn datafile_write_first() {
    ops(0);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(9))]
pub fn datafile_read_first() {
    ops(1);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(9))]
pub fn datafile_set_len_first() {
    ops(3);
}

/// Longer histories of fixed kinds of calls: with the read window moved, cut off and refilled.
fn history(kinds: &[usize]) {
    let mut s = vfs::S::new();
    let f = path(&s.root());
    let (mut df, mut m) = start(&f);
    let mut pos = 0u64;
    let mut i = 0;
    while i < kinds.len() {
        step(&f, &mut df, &mut m, &mut pos, kinds[i]);
        i += 1;
    }
    read_at(&mut df, &m, &mut pos);
    vk::reach!(m.n > 3, "not empty");
    std::mem::forget(df);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(9))]
pub fn datafile_refill() {
    history(&[1, 3, 0, 0, 2]);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(9))]
pub fn datafile_regrow() {
    history(&[1, 0, 0, 1, 3]);
}
