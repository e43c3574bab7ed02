//! A small in-memory file system.
//!
//! Every file has its current contents (what reads see) and its durable contents (what the last
//! sync left). `crash()` picks what survives a power loss: for each file the durable bytes, plus an
//! arbitrary prefix of what was appended since.
use super::{
    io::{self, Error, ErrorKind, Read, Seek, SeekFrom, Write},
    path::Path,
};

pub const MAXF: usize = /*MAXF*/4;
pub const FCAP: usize = /*FCAP*/64;
/// No single transfer is longer.
pub const XFER: usize = /*XFER*/64;
const MAXD: usize = /*MAXD*/2;

#[derive(Clone, Copy)]
pub struct F {
    used: bool,
    /// Reachable under its path.
    linked: bool,
    path: Path,
    data: [u8; FCAP],
    len: usize,
    /// Length that was synced (of the current contents), and the lowest length since.
    durable: usize,
    low: usize,
}
pub struct S {
    /// Paths handed out by reference.
    kept: [Path; 8],
    nk: usize,
    f: [F; MAXF],
    d: [Path; MAXD],
    nd: usize,
    /// Bytes that may still be written before writes fail.
    budget: u64,
    /// What failing writes do first: write the part that fits.
    writes: u32,
    syncs: u32,
    sync_fail: bool,
}
/// The file system of a path.
#[inline(always)]
fn st(p: &Path) -> &'static mut S {
    unsafe { &mut *p.fs }
}
pub(crate) fn keep(p: Path) -> &'static Path {
    if p.fs.is_null() {
        return Box::leak(Box::new(p));
    }
    let s = st(&p);
    let i = s.nk & 7;
    s.nk += 1;
    s.kept[i] = p;
    &s.kept[i]
}
impl S {
    pub fn new() -> S {
        S {
            kept: [Path::default(); 8],
            nk: 0,
            f: [F { used: false, linked: false, path: Path::default(), data: [0; FCAP], len: 0, durable: 0, low: 0 }; MAXF],
            d: [Path::default(); MAXD],
            nd: 0,
            budget: u64::MAX,
            writes: 0,
            syncs: 0,
            sync_fail: false,
        }
    }
    pub fn root(&mut self) -> Path {
        Path::root(self)
    }
    /// From now on only `n` more bytes can be written; then writes fail with StorageFull.
    pub fn set_write_budget(&mut self, n: u64) {
        self.budget = n;
    }
    pub fn fail_sync(&mut self, b: bool) {
        self.sync_fail = b;
    }
    pub fn write_calls(&self) -> u32 {
        self.writes
    }
    pub fn sync_calls(&self) -> u32 {
        self.syncs
    }
}
// ---- for harnesses ----
/// Replace or create a file with these bytes, all durable.
pub fn put(path: &Path, bytes: &[u8]) {
    let i = match lookup(path) {
        Some(i) => i,
        None => create(path),
    };
    let f = &mut st(path).f[i];
    let mut k = 0;
    while k < bytes.len() {
        f.data[k] = bytes[k];
        k += 1;
    }
    f.len = bytes.len();
    f.durable = f.len;
    f.low = f.len;
}
pub fn len_of(path: &Path) -> usize {
    match lookup(path) {
        Some(i) => st(path).f[i].len,
        None => 0,
    }
}
pub fn durable_len_of(path: &Path) -> usize {
    match lookup(path) {
        Some(i) => {
            let f = &st(path).f[i];
            if f.low < f.durable { f.low } else { f.durable }
        }
        None => 0,
    }
}
pub fn byte_of(path: &Path, at: usize) -> u8 {
    match lookup(path) {
        Some(i) => st(path).f[i].data[at],
        None => 0,
    }
}
pub fn set_byte(path: &Path, at: usize, b: u8) {
    if let Some(i) = lookup(path) {
        st(path).f[i].data[at] = b;
    }
}
/// Power loss: this file keeps its first `len` bytes, `len` at least what is durable.
pub fn crash_to(path: &Path, len: usize) {
    if let Some(i) = lookup(path) {
        let f = &mut st(path).f[i];
        let d = if f.low < f.durable { f.low } else { f.durable };
        vk::assume(len >= d && len <= f.len);
        f.len = len;
        f.durable = len;
        f.low = len;
    }
}
/// Cut or extend (with `fill`) a file, durably, as something outside would.
pub fn force_len(path: &Path, len: usize, fill: u8) {
    if let Some(i) = lookup(path) {
        let f = &mut st(path).f[i];
        let mut k = f.len;
        while k < len {
            f.data[k] = fill;
            k += 1;
        }
        f.len = len;
        f.durable = len;
        f.low = len;
    }
}
pub fn lookup(path: &Path) -> Option<usize> {
    let s = st(path);
    let mut i = 0;
    while i < MAXF {
        if s.f[i].used && s.f[i].linked && s.f[i].path == *path {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn is_used(path: &Path, i: usize) -> bool {
    st(path).f[i].used
}
impl File {
    pub fn blank(p: &Path) -> File {
        File { fs: p.fs, i: 0, pos: 0, append: false, write: false, read: false, _niche: crate::Niche::new() }
    }
}
pub fn is_dir(path: &Path) -> bool {
    let s = st(path);
    let mut i = 0;
    while i < MAXD {
        if i < s.nd && s.d[i] == *path {
            return true;
        }
        i += 1;
    }
    false
}
fn create(path: &Path) -> usize {
    let s = st(path);
    let mut i = 0;
    while i < MAXF {
        if !s.f[i].used {
            s.f[i].used = true;
            s.f[i].linked = true;
            s.f[i].path = *path;
            s.f[i].len = 0;
            s.f[i].durable = 0;
            s.f[i].low = 0;
            return i;
        }
        i += 1;
    }
    vk::limit(false);
    unreachable!();
}

pub struct File {
    fs: *mut S,
    /// usize::MAX: a directory.
    i: usize,
    pos: u64,
    append: bool,
    write: bool,
    read: bool,
    _niche: crate::Niche,
}
impl ::std::fmt::Debug for File {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.write_str("File")
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Metadata {
    len: u64,
    dir: bool,
}
impl Metadata {
    pub fn len(&self) -> u64 {
        self.len
    }
    pub fn is_dir(&self) -> bool {
        self.dir
    }
    pub fn is_file(&self) -> bool {
        !self.dir
    }
}
unsafe impl Send for File {}
unsafe impl Sync for File {}
impl File {
    #[inline(always)]
    fn st(&self) -> &'static mut S {
        unsafe { &mut *self.fs }
    }
    pub fn open<P: AsRef<Path>>(p: P) -> io::Result<File> {
        OpenOptions::new().read(true).open(p)
    }
    pub fn create<P: AsRef<Path>>(p: P) -> io::Result<File> {
        OpenOptions::new().write(true).create(true).truncate(true).open(p)
    }
    pub fn create_new<P: AsRef<Path>>(p: P) -> io::Result<File> {
        OpenOptions::new().read(true).write(true).create_new(true).open(p)
    }
    pub fn options() -> OpenOptions {
        OpenOptions::new()
    }
    pub fn sync_all(&self) -> io::Result<()> {
        if self.i == usize::MAX {
            return Ok(());
        }
        let s = self.st();
        if s.sync_fail {
            return Err(Error::from(ErrorKind::Other));
        }
        s.syncs += 1;
        let f = &mut s.f[self.i];
        f.durable = f.len;
        f.low = f.len;
        Ok(())
    }
    pub fn sync_data(&self) -> io::Result<()> {
        self.sync_all()
    }
    pub fn set_len(&self, len: u64) -> io::Result<()> {
        if !self.write {
            return Err(Error::from(ErrorKind::InvalidInput));
        }
        let f = &mut self.st().f[self.i];
        vk::limit(len as usize <= FCAP);
        let mut k = f.len;
        while k < len as usize {
            f.data[k] = 0;
            k += 1;
        }
        f.len = len as usize;
        if f.len < f.low {
            f.low = f.len;
        }
        Ok(())
    }
    pub fn metadata(&self) -> io::Result<Metadata> {
        if self.i == usize::MAX {
            return Ok(Metadata { len: 0, dir: true });
        }
        Ok(Metadata { len: self.st().f[self.i].len as u64, dir: false })
    }
    /// Clones share nothing but the file here; std's share the cursor. Code under test seeks first.
    pub fn try_clone(&self) -> io::Result<File> {
        Ok(File { fs: self.fs, i: self.i, pos: self.pos, append: self.append, write: self.write, read: self.read, _niche: crate::Niche::new() })
    }
    fn do_read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if !self.read {
            return Err(Error::from(ErrorKind::PermissionDenied));
        }
        if self.i == usize::MAX {
            return Err(Error::from(ErrorKind::IsADirectory));
        }
        let f = &self.st().f[self.i];
        let pos = self.pos;
        if pos >= f.len as u64 {
            return Ok(0);
        }
        let pos = pos as usize;
        let mut n = f.len - pos;
        if buf.len() < n {
            n = buf.len();
        }
        vk::limit(n <= XFER);
        let mut k = 0;
        while k < XFER && k < n {
            buf[k] = f.data[pos + k];
            k += 1;
        }
        self.pos += n as u64;
        Ok(n)
    }
    fn do_write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if !self.write {
            return Err(Error::from(ErrorKind::PermissionDenied));
        }
        let s = self.st();
        s.writes += 1;
        let mut n = buf.len();
        if (n as u64) > s.budget {
            n = s.budget as usize;
            if n == 0 && !buf.is_empty() {
                return Err(Error::from(ErrorKind::StorageFull));
            }
        }
        s.budget -= n as u64;
        let f = &mut s.f[self.i];
        let at = if self.append {
            f.len
        } else {
            let at = self.pos as usize;
            let mut k = f.len;
            while k < at {
                f.data[k] = 0;
                k += 1;
            }
            if at < f.low {
                f.low = at;
            }
            at
        };
        vk::limit(at + n <= FCAP);
        vk::limit(n <= XFER);
        let mut k = 0;
        while k < XFER && k < n {
            f.data[at + k] = buf[k];
            k += 1;
        }
        if at + n > f.len {
            f.len = at + n;
        }
        self.pos = (at + n) as u64;
        Ok(n)
    }
    fn do_seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        let n = match pos {
            SeekFrom::Start(p) => p as i64,
            SeekFrom::End(d) => self.st().f[self.i].len as i64 + d,
            SeekFrom::Current(d) => self.pos as i64 + d,
        };
        if n < 0 {
            return Err(Error::from(ErrorKind::InvalidInput));
        }
        self.pos = n as u64;
        Ok(self.pos)
    }
}
impl Read for File {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.do_read(buf)
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
        if self.do_read(buf)? == buf.len() {
            Ok(())
        } else {
            Err(Error::from(ErrorKind::UnexpectedEof))
        }
    }
}
impl Write for File {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.do_write(buf)
    }
    fn write_all(&mut self, buf: &[u8]) -> io::Result<()> {
        if self.do_write(buf)? == buf.len() {
            Ok(())
        } else {
            // Out of space part of the way: the next call would fail.
            Err(Error::from(ErrorKind::StorageFull))
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for File {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        self.do_seek(pos)
    }
}
#[derive(Clone, Copy, Debug, Default)]
pub struct OpenOptions {
    r: bool,
    w: bool,
    a: bool,
    t: bool,
    c: bool,
    cn: bool,
}
impl OpenOptions {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn read(&mut self, b: bool) -> &mut Self {
        self.r = b;
        self
    }
    pub fn write(&mut self, b: bool) -> &mut Self {
        self.w = b;
        self
    }
    pub fn append(&mut self, b: bool) -> &mut Self {
        self.a = b;
        self
    }
    pub fn truncate(&mut self, b: bool) -> &mut Self {
        self.t = b;
        self
    }
    pub fn create(&mut self, b: bool) -> &mut Self {
        self.c = b;
        self
    }
    pub fn create_new(&mut self, b: bool) -> &mut Self {
        self.cn = b;
        self
    }
    pub fn open<P: AsRef<Path>>(&self, p: P) -> io::Result<File> {
        let p = p.as_ref();
        let w = self.w || self.a;
        let i = match lookup(p) {
            Some(i) => {
                if self.cn {
                    return Err(Error::from(ErrorKind::AlreadyExists));
                }
                i
            }
            None => {
                if (self.c || self.cn) && w {
                    create(p)
                } else if !w && self.r {
                    // A directory: the only use is to sync it.
                    if is_dir(p) || p.parent().is_some() && has_child(p) {
                        return Ok(File { fs: p.fs, i: usize::MAX, pos: 0, append: false, write: false, read: true, _niche: crate::Niche::new() });
                    }
                    return Err(Error::from(ErrorKind::NotFound));
                } else {
                    return Err(Error::from(ErrorKind::NotFound));
                }
            }
        };
        if self.t && w {
            let f = &mut st(p).f[i];
            f.len = 0;
            f.low = 0;
        }
        Ok(File { fs: p.fs, i, pos: 0, append: self.a, write: w, read: self.r, _niche: crate::Niche::new() })
    }
}
fn has_child(p: &Path) -> bool {
    let s = st(p);
    let mut i = 0;
    while i < MAXF {
        if s.f[i].used && s.f[i].linked && s.f[i].path.starts_with(p) {
            return true;
        }
        i += 1;
    }
    false
}
pub fn create_dir_all<P: AsRef<Path>>(p: P) -> io::Result<()> {
    let s = st(p.as_ref());
    let p = p.as_ref();
    if !is_dir(p) {
        s.d[s.nd] = *p;
        s.nd += 1;
    }
    Ok(())
}
pub fn create_dir<P: AsRef<Path>>(p: P) -> io::Result<()> {
    create_dir_all(p)
}
pub fn remove_file<P: AsRef<Path>>(p: P) -> io::Result<()> {
    match lookup(p.as_ref()) {
        Some(i) => {
            st(p.as_ref()).f[i].linked = false;
            Ok(())
        }
        None => Err(Error::from(ErrorKind::NotFound)),
    }
}
pub fn remove_dir_all<P: AsRef<Path>>(p: P) -> io::Result<()> {
    let p = p.as_ref();
    let s = st(p.as_ref());
    let mut i = 0;
    while i < MAXF {
        if s.f[i].used && s.f[i].path.starts_with(p) {
            s.f[i].linked = false;
        }
        i += 1;
    }
    Ok(())
}
pub fn rename<P: AsRef<Path>, Q: AsRef<Path>>(a: P, b: Q) -> io::Result<()> {
    match lookup(a.as_ref()) {
        Some(i) => {
            if let Some(j) = lookup(b.as_ref()) {
                st(a.as_ref()).f[j].linked = false;
            }
            st(a.as_ref()).f[i].path = *b.as_ref();
            Ok(())
        }
        None => Err(Error::from(ErrorKind::NotFound)),
    }
}
pub fn exists<P: AsRef<Path>>(p: P) -> io::Result<bool> {
    Ok(p.as_ref().exists())
}
pub fn metadata<P: AsRef<Path>>(p: P) -> io::Result<Metadata> {
    match lookup(p.as_ref()) {
        Some(i) => Ok(Metadata { len: st(p.as_ref()).f[i].len as u64, dir: false }),
        None if is_dir(p.as_ref()) => Ok(Metadata { len: 0, dir: true }),
        None => Err(Error::from(ErrorKind::NotFound)),
    }
}
pub fn copy<P: AsRef<Path>, Q: AsRef<Path>>(a: P, b: Q) -> io::Result<u64> {
    match lookup(a.as_ref()) {
        Some(i) => {
            let j = match lookup(b.as_ref()) {
                Some(j) => j,
                None => create(b.as_ref()),
            };
            let s = st(a.as_ref());
            s.f[j].data = s.f[i].data;
            s.f[j].len = s.f[i].len;
            Ok(s.f[j].len as u64)
        }
        None => Err(Error::from(ErrorKind::NotFound)),
    }
}
