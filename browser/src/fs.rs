//! The file system the browser crate keeps in the cache storage of an origin.
use rv::engine::{Cx, Property, Res};
use rv::gen::{show, Val};
use rv::tape::Src;
use rv::{ensure, fail};
use radixdb::store::BlobStore;
use sample::{SimpleWebCacheFs, SyncDir, SyncFile, SyncFs};
use std::ffi::CString;
use wasm_futures_executor::ThreadPool;
use web_sys::Storage;

/// a position in a file, given its length
#[derive(Debug, Clone, Copy)]
pub enum At {
    Start,
    End,
    /// a multiple of 8
    Grid(u8),
    Frac(u8),
    Past(u8),
    Huge(u8),
}
impl At {
    fn of(self, len: usize) -> u64 {
        let len = len as u64;
        match self {
            At::Start => 0,
            At::End => len,
            At::Grid(g) => (g as u64 * 8).min(len),
            At::Frac(x) => len * x as u64 / 256,
            At::Past(d) => len + 1 + d as u64,
            At::Huge(d) => u64::MAX - d as u64,
        }
    }
}

#[derive(Debug, Clone)]
pub enum FOp {
    /// file, whether through the interface for databases, where, what
    Write(usize, bool, At, Val),
    /// a blob
    Append(usize, Val),
    /// the same part written many times
    Burst(usize, At, Val, u16),
    Trunc(usize, bool, At),
    Read(usize, bool, At, At),
    /// the blob at a position, whether there is one or not
    Blob(usize, At),
    /// a blob written before
    Again(usize, u8),
    BadId(usize, u8),
    Len(usize, bool),
    Flush(usize),
    /// another handle
    Open(usize),
    Exists(usize),
    Delete(usize, bool),
    DeleteDir(usize),
    Reopen,
}

fn gen_at(src: &mut Src) -> At {
    match src.weighted(&[4, 8, 6, 5, 1]) {
        0 => At::Start,
        1 => At::End,
        2 => At::Grid(src.below(24) as u8),
        3 => At::Frac(src.u8()),
        _ => At::Past(src.below(40) as u8),
    }
}
fn gen_data(src: &mut Src) -> Val {
    let len = match src.weighted(&[8, 8, 3, 1]) {
        0 => src.range(1, 8) * 8,
        1 => src.below(24),
        2 => src.below(300),
        _ => src.below(3000),
    };
    Val { tag: src.u8(), len }
}
/// operations that change something
pub fn gen_change(src: &mut Src, files: usize) -> FOp {
    let f = src.below(files);
    match src.weighted(&[12, 5, 8, 2, 1, 1]) {
        0 => FOp::Write(f, src.chance(60), gen_at(src), gen_data(src)),
        1 => FOp::Append(f, gen_data(src)),
        2 => FOp::Trunc(f, src.chance(60), gen_at(src)),
        3 => FOp::Flush(f),
        4 => FOp::Delete(f, src.chance(60)),
        _ => FOp::DeleteDir(f),
    }
}
pub fn gen_fop(src: &mut Src, files: usize) -> FOp {
    let f = src.below(files);
    match src.weighted(&[40, 10, 6, 6, 2, 4, 2, 2, 8, 1]) {
        0 => gen_change(src, files),
        1 => FOp::Read(f, src.chance(100), gen_at(src), if src.chance(12) { At::Huge(src.below(9) as u8) } else { gen_at(src) }),
        2 => FOp::Blob(f, if src.chance(60) { At::Huge(src.below(9) as u8) } else { gen_at(src) }),
        3 => FOp::Again(f, src.u8()),
        4 => FOp::BadId(f, src.u8()),
        5 => FOp::Len(f, src.chance(100)),
        6 => FOp::Open(f),
        7 => FOp::Exists(f),
        8 => FOp::Reopen,
        _ => FOp::Burst(f, gen_at(src), gen_data(src), src.pick(&[20, 40, 80, 255, 256, 257, 300])),
    }
}

const NAMES: &[&str] = &[
    "a", "ab", "b", "A", "test.db", "test.db-journal", "0000-00000000-0001", "x/y", "x/yz", "a b", "a%20b", "a%2520b", "%41", "%", "a?b", "a?", "a#b", "a&b=c", "ü", "a+b", "a\"b<c>", "{}^|`", "...", ".a", "a:b",
];
const DIRS: &[&str] = &["d", "dd", "D", "e/f", "", "d?x", "ü"];

/// where the files are: directory and name
#[derive(Debug, Clone)]
pub struct Places {
    pub dirs: Vec<&'static str>,
    pub files: Vec<(usize, &'static str)>,
}
pub fn gen_places(src: &mut Src) -> Places {
    let mut dirs = vec![src.pick(DIRS)];
    let d = src.pick(DIRS);
    if d != dirs[0] {
        dirs.push(d);
    }
    let n = src.range(1, 4);
    let mut files = Vec::new();
    for _ in 0..n {
        let x = (src.below(dirs.len()), if src.chance(128) { src.pick(NAMES) } else { src.pick(&NAMES[..8]) });
        if !files.contains(&x) {
            files.push(x);
        }
    }
    Places { dirs, files }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Out {
    Unit,
    Bool(bool),
    Num(u64),
    Bytes(Vec<u8>),
    /// refused
    Err,
    /// not specified
    Any,
}

/// what should be there
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Model {
    pub files: Vec<Vec<u8>>,
    /// whether the directory was opened since it was deleted
    dirs: Vec<bool>,
    /// blobs written
    blobs: Vec<Vec<u64>>,
}
impl Model {
    pub fn new(p: &Places) -> Self {
        Model { files: vec![vec![]; p.files.len()], dirs: vec![true; p.dirs.len()], blobs: vec![vec![]; p.files.len()] }
    }
    fn blob(&self, f: usize, at: u64) -> Out {
        let d = &self.files[f];
        let get = |a: u64, n: u64| d.get(usize::try_from(a).ok()?..usize::try_from(a.checked_add(n)?).ok()?);
        let r = get(at, 4).and_then(|h| get(at + 4, u32::from_be_bytes(h.try_into().unwrap()) as u64));
        r.map_or(Out::Err, |r| Out::Bytes(r.to_vec()))
    }
    /// the effect of an operation and its result
    pub fn apply(&mut self, p: &Places, op: &FOp) -> Out {
        match op {
            FOp::Write(f, _, at, v) => {
                let d = &mut self.files[*f];
                let a = at.of(d.len()) as usize;
                let b = v.bytes();
                if b.is_empty() {
                    return Out::Unit;
                }
                if d.len() < a + b.len() {
                    d.resize(a + b.len(), 0);
                }
                d[a..a + b.len()].copy_from_slice(&b);
                Out::Unit
            }
            FOp::Burst(f, at, v, n) => {
                // all but the last write are overwritten
                if *n > 0 {
                    let v = Val { tag: v.tag.wrapping_add((*n - 1) as u8), len: v.len };
                    self.apply(p, &FOp::Write(*f, false, *at, v));
                }
                Out::Unit
            }
            FOp::Append(f, v) => {
                let d = &mut self.files[*f];
                let at = d.len() as u64;
                d.extend_from_slice(&(v.len as u32).to_be_bytes());
                d.extend_from_slice(&v.bytes());
                self.blobs[*f].push(at);
                Out::Num(at)
            }
            FOp::Trunc(f, _, at) => {
                let d = &mut self.files[*f];
                d.truncate(at.of(d.len()) as usize);
                Out::Unit
            }
            FOp::Read(f, vfs, a, b) => {
                let d = &self.files[*f];
                let (a, b) = (a.of(d.len()), b.of(d.len()));
                let n = d.len() as u64;
                if *vfs {
                    Out::Bytes(d[a.min(n) as usize..b.min(n).max(a.min(n)) as usize].to_vec())
                } else if a > b {
                    Out::Any
                } else if b > n {
                    Out::Err
                } else {
                    Out::Bytes(d[a as usize..b as usize].to_vec())
                }
            }
            FOp::Blob(f, at) => self.blob(*f, at.of(self.files[*f].len())),
            FOp::Again(f, i) => match self.blobs[*f].as_slice() {
                [] => Out::Any,
                b => self.blob(*f, b[*i as usize % b.len()]),
            },
            FOp::BadId(..) => Out::Err,
            FOp::Len(f, _) => Out::Num(self.files[*f].len() as u64),
            FOp::Flush(_) | FOp::Open(_) => Out::Unit,
            FOp::Exists(f) if self.files[*f].is_empty() => Out::Any,
            FOp::Exists(_) => Out::Bool(true),
            FOp::Delete(f, vfs) => {
                let d = std::mem::take(&mut self.files[*f]);
                self.blobs[*f].clear();
                match (*vfs, d.is_empty()) {
                    (true, _) => Out::Unit,
                    (_, true) => Out::Any,
                    _ => Out::Bool(true),
                }
            }
            FOp::DeleteDir(f) => {
                let dir = p.files[*f].0;
                for (i, x) in p.files.iter().enumerate() {
                    if x.0 == dir {
                        self.files[i].clear();
                        self.blobs[i].clear();
                    }
                }
                Out::Bool(true)
            }
            FOp::Reopen => Out::Unit,
        }
    }
}

/// a running file system
pub struct Fs<'a> {
    pub storage: Storage,
    pool: ThreadPool,
    fs: SyncFs,
    p: &'a Places,
    dirs: Vec<Option<SyncDir>>,
    files: Vec<Option<SyncFile>>,
}
type A<T> = anyhow::Result<T>;
fn vfs<T>(r: sqlite_vfs::VfsResult<T>) -> A<T> {
    r.map_err(|e| anyhow::anyhow!("vfs error {}", e))
}
impl<'a> Fs<'a> {
    pub fn mount(storage: &Storage, p: &'a Places) -> Self {
        let pool = ThreadPool::with(storage.clone());
        let fs = SimpleWebCacheFs::new(pool.clone());
        Fs { storage: storage.clone(), pool, fs, p, dirs: p.dirs.iter().map(|_| None).collect(), files: p.files.iter().map(|_| None).collect() }
    }
    /// false if the file system died
    pub fn unmount(self) -> bool {
        self.fs.unmount();
        self.pool.join()
    }
    fn dir(&mut self, f: usize) -> A<&mut SyncDir> {
        let d = self.p.files[f].0;
        if self.dirs[d].is_none() {
            self.dirs[d] = Some(self.fs.open_dir(self.p.dirs[d])?);
        }
        Ok(self.dirs[d].as_mut().unwrap())
    }
    pub fn file(&mut self, f: usize) -> A<&SyncFile> {
        if self.files[f].is_none() {
            let name = self.p.files[f].1;
            let x = self.dir(f)?.open_file(name)?;
            self.files[f] = Some(x);
        }
        Ok(self.files[f].as_ref().unwrap())
    }
    fn vfs(&mut self, f: usize) -> A<Box<dyn sqlite_vfs::File>> {
        self.file(f)?;
        let name = CString::new(self.p.files[f].1).unwrap();
        vfs(sqlite_vfs::Vfs::open(self.dir(f)?, &name, Default::default()))
    }
    /// give the handle of a file away
    pub fn take(&mut self, f: usize) -> A<SyncFile> {
        self.file(f)?;
        Ok(self.files[f].take().unwrap())
    }
    pub fn content(&mut self, f: usize) -> A<Vec<u8>> {
        let n = self.file(f)?.length()?;
        self.file(f)?.read(0..n)
    }
    /// an operation; positions are those of the model before it
    pub fn exec(&mut self, m: &Model, op: &FOp) -> A<Out> {
        let len = |f: &usize| m.files[*f].len();
        Ok(match op {
            FOp::Write(f, false, at, v) => {
                SyncFile::write(self.file(*f)?, at.of(len(f)), v.bytes())?;
                Out::Unit
            }
            FOp::Write(f, true, at, v) => {
                let n = vfs(self.vfs(*f)?.write(at.of(len(f)), &v.bytes()))?;
                if n == v.len { Out::Unit } else { Out::Num(n as u64) }
            }
            FOp::Burst(f, at, v, n) => {
                let at = at.of(len(f));
                for i in 0..*n {
                    SyncFile::write(self.file(*f)?, at, Val { tag: v.tag.wrapping_add(i as u8), len: v.len }.bytes())?;
                }
                Out::Unit
            }
            FOp::Append(f, v) => Out::Num(u64::from_be_bytes(BlobStore::write(self.file(*f)?, &v.bytes())?[..].try_into()?)),
            FOp::Trunc(f, false, at) => {
                self.file(*f)?.truncate(at.of(len(f)))?;
                Out::Unit
            }
            FOp::Trunc(f, true, at) => {
                vfs(self.vfs(*f)?.truncate(at.of(len(f))))?;
                Out::Unit
            }
            FOp::Read(f, false, a, b) => Out::Bytes(SyncFile::read(self.file(*f)?, a.of(len(f))..b.of(len(f)))?),
            FOp::Read(f, true, a, b) => {
                let (a, b) = (a.of(len(f)), b.of(len(f)));
                let mut buf = vec![0xEE; b.saturating_sub(a).min(1 << 16) as usize];
                let n = vfs(self.vfs(*f)?.read(a, &mut buf))?;
                buf.truncate(n);
                Out::Bytes(buf)
            }
            FOp::Blob(f, at) => Out::Bytes(BlobStore::read(self.file(*f)?, &at.of(len(f)).to_be_bytes())?.to_vec()),
            FOp::Again(f, i) => match m.blobs[*f].as_slice() {
                [] => Out::Unit,
                b => Out::Bytes(BlobStore::read(self.file(*f)?, &b[*i as usize % b.len()].to_be_bytes())?.to_vec()),
            },
            FOp::BadId(f, n) => Out::Bytes(BlobStore::read(self.file(*f)?, &[0; 12][..[0, 1, 4, 7, 9, 12][*n as usize % 6]])?.to_vec()),
            FOp::Len(f, false) => Out::Num(self.file(*f)?.length()?),
            FOp::Len(f, true) => Out::Num(vfs(self.vfs(*f)?.file_size())?),
            FOp::Flush(f) => {
                self.file(*f)?.sync()?;
                Out::Unit
            }
            FOp::Open(f) => {
                self.files[*f] = None;
                self.file(*f)?;
                Out::Unit
            }
            FOp::Exists(f) => {
                let name = self.p.files[*f].1;
                let a = self.dir(*f)?.file_exists(name)?;
                let c = CString::new(name).unwrap();
                let b = vfs(sqlite_vfs::Vfs::exists(self.dir(*f)?, &c))?;
                if a == b { Out::Bool(a) } else { Out::Unit }
            }
            FOp::Delete(f, v) => {
                let name = self.p.files[*f].1;
                let c = CString::new(name).unwrap();
                let r = if *v {
                    vfs(sqlite_vfs::Vfs::delete(self.dir(*f)?, &c))?;
                    Out::Unit
                } else {
                    Out::Bool(self.dir(*f)?.delete_file(name)?)
                };
                self.files[*f] = None;
                r
            }
            FOp::DeleteDir(f) => {
                let d = self.p.files[*f].0;
                self.dir(*f)?;
                let r = Out::Bool(self.fs.delete_dir(self.p.dirs[d])?);
                self.dirs[d] = None;
                for (i, x) in self.p.files.iter().enumerate() {
                    if x.0 == d {
                        self.files[i] = None;
                    }
                }
                r
            }
            FOp::Reopen => unreachable!(),
        })
    }
}

fn compare(got: &A<Out>, want: &Out, op: &FOp) -> Res {
    match (got, want) {
        (_, Out::Any) => Ok(()),
        (Err(_), Out::Err) => Ok(()),
        (Ok(g), w) if g == w => Ok(()),
        (Ok(Out::Bytes(g)), Out::Bytes(w)) => Err(format!("{:?}: \"{}\" instead of \"{}\"", op, show(g), show(w))),
        (g, w) => Err(format!("{:?}: {:?} instead of {:?}", op, g, w)),
    }
}
fn touched(op: &FOp) -> Option<usize> {
    match op {
        FOp::Write(f, ..) | FOp::Burst(f, ..) | FOp::Append(f, _) | FOp::Trunc(f, ..) | FOp::Delete(f, _) | FOp::DeleteDir(f) => Some(*f),
        _ => None,
    }
}
fn same(fs: &mut Fs, m: &Model, f: usize, when: &str) -> Res {
    match fs.content(f) {
        Ok(c) if c == m.files[f] => Ok(()),
        Ok(c) => Err(format!("{}: file {} contains \"{}\" instead of \"{}\"", when, f, show(&c), show(&m.files[f]))),
        Err(e) => Err(format!("{}: file {} cannot be read: {:#}", when, f, e)),
    }
}
fn all_same(fs: &mut Fs, m: &Model, when: &str) -> Res {
    (0..m.files.len()).try_for_each(|f| same(fs, m, f, when))
}
fn close(fs: Fs) -> Res {
    ensure!(fs.unmount(), "the file system died");
    Ok(())
}

/// operations that must all work; the file system after them
fn history<'a>(mut fs: Fs<'a>, p: &'a Places, m: &mut Model, ops: &[FOp], cx: &mut Cx) -> Result<Fs<'a>, String> {
    for (i, op) in ops.iter().enumerate() {
        if let FOp::Reopen = op {
            let s = fs.storage.clone();
            close(fs)?;
            fs = Fs::mount(&s, p);
            for f in 0..m.files.len() {
                // before any of them is open
                let op = FOp::Exists(f);
                let got = fs.exec(m, &op);
                compare(&got, &m.apply(p, &op), &op).map_err(|e| format!("after reopening (operation {}): {}", i, e))?;
            }
            all_same(&mut fs, m, &format!("after reopening (operation {})", i))?;
            continue;
        }
        let got = fs.exec(m, op);
        let before = touched(op).map(|f| m.files[f].len());
        let want = m.apply(p, op);
        let r = compare(&got, &want, op);
        if r.is_err() {
            // what it is that went wrong
            if !fs.unmount() {
                fail!("operation {}: {:?}: the file system died: {}", i, op, r.unwrap_err());
            }
            fail!("operation {}: {}", i, r.unwrap_err());
        }
        if let Some(f) = touched(op) {
            same(&mut fs, m, f, &format!("after operation {} {:?}", i, op))?;
            let b = before.unwrap();
            match op {
                FOp::Write(_, _, at, v) if v.len > 0 => {
                    let a = at.of(b) as usize;
                    cx.label_if(a > b, "a write past the end");
                    cx.label_if(a < b && a + v.len > b, "a write across the end");
                    cx.label_if(a > 0 && a + v.len < b, "a write in the middle");
                    cx.label_if(a == b && b > 0, "a write at the end");
                }
                FOp::Trunc(_, _, at) => cx.label_if(at.of(b) > 0 && at.of(b) < b as u64, "cut in the middle"),
                FOp::Burst(..) => cx.label("the same part written many times"),
                FOp::Delete(..) => cx.label_if(b > 0, "a file deleted"),
                FOp::DeleteDir(..) => cx.label("a directory deleted"),
                _ => {}
            }
        }
        cx.inner += 1;
    }
    Ok(fs)
}

#[derive(Debug)]
pub struct FCase {
    p: Places,
    ops: Vec<FOp>,
}
pub struct C29;
impl Property for C29 {
    type Case = FCase;
    const ID: &'static str = "C29";
    const RULE: &'static str = "a file is written at least twice with overlapping, appended, cut or deleted parts, and the file system is opened again afterwards";
    const CASES: (u64, u64) = (300, 6000);
    const ASSUMPTIONS: &'static [&'static str] = &[
        "the cache API behaves as the stand-in for it in browser/stubs/web-sys: each operation is atomic and happens in order",
        "one file system at a time uses the storage; names have no empty, '.' or '..' segments",
    ];
    fn gen(src: &mut Src) -> FCase {
        let p = gen_places(src);
        let n = p.files.len();
        let ops = src.list(1, 60, 16, |s| gen_fop(s, n));
        FCase { p, ops }
    }
    fn run(c: &FCase, cx: &mut Cx) -> Res {
        let s = Storage::new();
        let mut m = Model::new(&c.p);
        let fs = history(Fs::mount(&s, &c.p), &c.p, &mut m, &c.ops, cx)?;
        close(fs)?;
        let mut fs = Fs::mount(&s, &c.p);
        all_same(&mut fs, &m, "at the end")?;
        close(fs)?;
        let changes = c.ops.iter().filter(|o| matches!(o, FOp::Write(..) | FOp::Append(..) | FOp::Trunc(..))).count();
        cx.nt_if(changes >= 3 && c.ops.iter().any(|o| matches!(o, FOp::Reopen)));
        cx.label_if(c.p.files.len() > 1, "several files");
        cx.label_if(c.p.dirs.len() > 1, "several directories");
        cx.label_if(c.p.files.iter().any(|f| !f.1.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'.' || b == b'-')), "a name with special characters");
        Ok(())
    }
}

#[derive(Debug)]
pub struct KCase {
    p: Places,
    before: Vec<FOp>,
    tail: Vec<FOp>,
    after: Vec<FOp>,
    /// where to start, and how many operations of the cache fail
    from: usize,
    fails: u64,
    /// where recovery crashes
    again: u64,
}
pub struct C30;

/// after a failure: which of the two states a file is in
fn either(fs: &mut Fs, old: &Model, new: &Model, what: &str) -> Result<Model, String> {
    let mut m = new.clone();
    let (mut olds, mut news) = (vec![], vec![]);
    for f in 0..m.files.len() {
        let c = match fs.content(f) {
            Ok(c) => c,
            Err(e) => fail!("{}: file {} cannot be read: {:#}", what, f, e),
        };
        if old.files[f] == new.files[f] {
            ensure!(c == new.files[f], "{}: file {} has changed from \"{}\" to \"{}\"", what, f, show(&new.files[f]), show(&c));
        } else if c == old.files[f] {
            m.files[f] = c;
            m.blobs[f] = old.blobs[f].clone();
            olds.push(f);
        } else if c == new.files[f] {
            news.push(f);
        } else {
            fail!("{}: file {} contains \"{}\", which is neither what was there, \"{}\", nor what should be, \"{}\"", what, f, show(&c), show(&old.files[f]), show(&new.files[f]));
        }
    }
    ensure!(olds.is_empty() || news.is_empty(), "{}: done for files {:?} and not for {:?}", what, news, olds);
    Ok(m)
}

impl Property for C30 {
    type Case = KCase;
    const ID: &'static str = "C30";
    const LEVEL: &'static str = "exploration";
    const RULE: &'static str = "at least one of the interrupted operations takes three or more steps of the cache (rewriting or removing chunks), and it is interrupted between them";
    const CASES: (u64, u64) = (40, 1000);
    const ASSUMPTIONS: &'static [&'static str] = &[
        "the cache API behaves as the stand-in for it in browser/stubs/web-sys: each operation is atomic, happens in order, is durable when it returns, and has no effect when it fails",
        "one file system at a time uses the storage; names have no empty, '.' or '..' segments",
    ];
    fn gen(src: &mut Src) -> KCase {
        let p = gen_places(src);
        let n = p.files.len().min(2);
        let p = Places { files: p.files[..n].to_vec(), ..p };
        let before = src.list(0, 14, 4, |s| if s.chance(20) { FOp::Reopen } else { gen_change(s, n) });
        let tail = src.list(1, 4, 1, |s| gen_change(s, n));
        let after = src.list(1, 8, 3, |s| if s.chance(30) { FOp::Reopen } else { gen_change(s, n) });
        KCase { p, before, tail, after, from: src.below(8), fails: 1 + src.below(4) as u64, again: src.below(10) as u64 }
    }
    fn run(c: &KCase, cx: &mut Cx) -> Res {
        let base = Storage::new();
        let mut m = Model::new(&c.p);
        close(history(Fs::mount(&base, &c.p), &c.p, &mut m, &c.before, &mut Cx::default())?)?;
        // how many steps the tail takes
        let s = base.snapshot();
        let mut fs = Fs::mount(&s, &c.p);
        all_same(&mut fs, &m, "before")?;
        let start = s.ops();
        let mut mm = m.clone();
        for op in &c.tail {
            let o = s.ops();
            let got = fs.exec(&mm, op);
            let want = mm.apply(&c.p, op);
            compare(&got, &want, op)?;
            cx.nt_if(s.ops() - o >= 3);
        }
        let steps = s.ops() - start;
        close(fs)?;
        let stride = 1 + steps / 24;
        let points: Vec<u64> = (0..steps).filter(|k| k % stride == c.from as u64 % stride).collect();
        for &k in &points {
            for (crash, direct) in [(true, false), (false, false), (false, true), (true, true)] {
                cx.inner += 1;
                let s = base.snapshot();
                let mut fs = Fs::mount(&s, &c.p);
                all_same(&mut fs, &m, "before")?;
                let at = s.ops() + k;
                if crash {
                    s.crash(Some(at));
                } else {
                    s.fail(Some((at, c.fails)));
                }
                let mut now = m.clone();
                let mut rest: &[FOp] = &[];
                let mut next = now.clone();
                let mut failed = None;
                for (i, op) in c.tail.iter().enumerate() {
                    next = now.clone();
                    let got = fs.exec(&now, op);
                    let want = next.apply(&c.p, op);
                    match got {
                        Err(e) => {
                            failed = Some(format!("{:?} {} at step {} of {:?} ({:#})", op, if crash { "crashed" } else { "failed" }, k, c.tail, e));
                            rest = &c.tail[i + 1..];
                            break;
                        }
                        g => compare(&g, &want, op)?,
                    }
                    now = next.clone();
                }
                let what = failed.clone().unwrap_or_else(|| "no failure".into());
                if direct {
                    // the next operation comes before anything is read
                    let Some(what) = failed else {
                        close(fs)?;
                        continue;
                    };
                    if crash {
                        close(fs)?;
                        s.crash(None);
                        fs = Fs::mount(&s, &c.p);
                    }
                    let op = &c.tail[c.tail.len() - rest.len() - 1];
                    let file = touched(op).unwrap_or(0);
                    let op2 = match c.again % 5 {
                        0 | 1 => op.clone(),
                        4 => FOp::Trunc(file, false, At::Grid((now.files[file].len() / 16).min(40) as u8)),
                        2 => FOp::Append(file, Val { tag: 77, len: 3 }),
                        _ => FOp::Write(file, false, At::Start, Val { tag: 78, len: 9 }),
                    };
                    let what = format!("{}; then at once {:?}", what, op2);
                    let again = c.again % 5 < 2 && !matches!(op, FOp::Append(..));
                    let more = !matches!(op2, FOp::Append(..));
                    if !more {
                        s.fail(None);
                    }
                    // more failures, until it works
                    let mut tries = 0;
                    while let Err(e) = fs.exec(&now, &op2) {
                        tries += 1;
                        ensure!(more && !crash && tries < c.fails, "{} ({} times): {:#}", what, tries, e);
                    }
                    s.fail(None);
                    cx.label_if(tries > 0, "recovery that failed");
                    let (mut old, mut new) = (now, next);
                    if again {
                        old = new.clone();
                    } else {
                        old.apply(&c.p, &op2);
                        new.apply(&c.p, &op2);
                    }
                    let now = either(&mut fs, &old, &new, &what)?;
                    close(fs)?;
                    let mut fs = Fs::mount(&s, &c.p);
                    all_same(&mut fs, &now, &format!("{}; reopened", what))?;
                    close(fs)?;
                    cx.label("the next operation follows the failure at once");
                    continue;
                }
                let mut fs = if crash {
                    close(fs)?;
                    s.crash(None);
                    // the state after the crash, and after a crash of the recovery from it
                    let (mut g, mut w) = (now.clone(), next.clone());
                    if failed.is_none() {
                        w = now.clone();
                        g = now.clone();
                    }
                    let s2 = s.snapshot();
                    let mut fs = Fs::mount(&s2, &c.p);
                    s2.crash(Some(c.again));
                    for f in 0..c.p.files.len() {
                        let _ = fs.content(f);
                    }
                    close(fs)?;
                    s2.crash(None);
                    cx.label_if(s2.ops() > c.again, "a crash during recovery");
                    let mut fs = Fs::mount(&s2, &c.p);
                    either(&mut fs, &g, &w, &format!("{}, and again after {} steps", what, c.again))?;
                    close(fs)?;
                    let mut fs = Fs::mount(&s, &c.p);
                    now = either(&mut fs, &g, &w, &what)?;
                    fs
                } else {
                    s.fail(None);
                    if failed.is_some() {
                        now = either(&mut fs, &now, &next, &what)?;
                    }
                    fs
                };
                all_same(&mut fs, &now, &what)?;
                // and the files go on as usual
                let more: Vec<FOp> = rest.iter().chain(&c.after).cloned().collect();
                let r = history(fs, &c.p, &mut now, &more, &mut Cx::default()).map_err(|e| format!("{}; then {:?}: {}", what, more, e))?;
                close(r)?;
                let mut fs = Fs::mount(&s, &c.p);
                all_same(&mut fs, &now, &format!("{}; then {:?}; reopened", what, more))?;
                close(fs)?;
            }
        }
        Ok(())
    }
}
