//! Blobs, and the contract every store keeps.
use super::paged::{content, limit, read_is};
use crate::engine::{Cx, Property, Res};
use crate::gen::*;
use crate::stores::{memfd, AnyStore, Spec};
use crate::tape::Src;
use crate::tstore::{Ids, TStore, FAULT};
use crate::{ensure, fail};
use radixdb::store::{Blob, BlobStore, DynBlobStore, MemStore, PagedFileStore};
use radixdb::RadixTree;
use std::any::Any;
use std::borrow::Borrow;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;

/// where a blob comes from
#[derive(Debug, Clone)]
pub enum Source {
    Copy(usize, u8),
    ArcVec(usize, u8),
    ArcArray(u8),
    /// an owner of our own, which scribbles over the bytes when it is dropped
    Owner(usize, u8),
    Static(u8),
    Mem(usize, u8),
    Test(usize, u8),
    /// page size, length; read before or after the page was closed, or after reopening
    Paged(u64, usize, u8, u8),
    /// loaded from a value of a tree (detached, or in a store)
    Tree(usize, u8, bool),
    Key(usize, u8),
    Empty,
    /// to_owned of a borrowed blob
    Borrowed(usize, u8),
}

#[derive(Debug, Clone, Copy)]
pub enum Pos {
    /// from the start, or from the end
    At(usize),
    Back(usize),
    /// beyond the end by
    Beyond(usize),
    /// near the largest number
    Huge(usize),
}

impl Pos {
    fn eval(&self, len: usize) -> usize {
        match self {
            Pos::At(n) => *n % (len + 1),
            Pos::Back(n) => len - n % (len + 1),
            Pos::Beyond(n) => len + n,
            Pos::Huge(n) => usize::MAX - n,
        }
    }
}

#[derive(Debug, Clone)]
pub enum BOp {
    New(Source),
    /// start and end: kind (included, excluded, unbounded) and position
    Slice(u8, (u8, Pos), (u8, Pos)),
    /// a slice of itself by reference, or of another blob
    SliceRef(u8, usize, usize),
    SliceForeign(u8, u8),
    Clone(u8),
    Drop(u8),
    ToOwned(u8),
    Compare(u8, u8),
    /// drop what the blobs came from
    Sources,
    /// use the stores further
    Grow(usize),
}

struct Owner {
    data: Vec<u8>,
    dropped: Arc<AtomicUsize>,
}
impl Drop for Owner {
    fn drop(&mut self) {
        self.data.iter_mut().for_each(|b| *b = !*b);
        self.dropped.fetch_add(1, SeqCst);
    }
}

fn gen_pos(src: &mut Src) -> Pos {
    match src.weighted(&[10, 8, 4, 2]) {
        0 => Pos::At(src.below(300)),
        1 => Pos::Back(src.below(300)),
        2 => Pos::Beyond(src.below(4)),
        _ => Pos::Huge(src.below(3)),
    }
}

fn gen_len_b(src: &mut Src) -> usize {
    match src.weighted(&[5, 4, 2, 1]) {
        0 => src.below(20),
        1 => src.pick(&[0usize, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 127, 128, 255, 256]),
        2 => src.below(1000),
        _ => src.pick(&[4096usize, 5000, 65536]),
    }
}

fn gen_source(src: &mut Src) -> Source {
    let n = gen_len_b(src);
    let t = src.u8();
    match src.weighted(&[4, 3, 1, 4, 1, 2, 1, 5, 3, 2, 1, 2]) {
        0 => Source::Copy(n, t),
        1 => Source::ArcVec(n, t),
        2 => Source::ArcArray(t),
        3 => Source::Owner(n, t),
        4 => Source::Static(t),
        5 => Source::Mem(n, t),
        6 => Source::Test(n, t),
        7 => Source::Paged(src.pick(&[1024u64, 64, 4096, 65536]), n, t, src.below(4) as u8),
        8 => Source::Tree(n, t, src.chance(150)),
        9 => Source::Key(n, t),
        10 => Source::Empty,
        _ => Source::Borrowed(n, t),
    }
}

static BYTES: [u8; 300] = {
    let mut a = [0u8; 300];
    let mut i = 0;
    while i < 300 {
        a[i] = (i * 7 % 251) as u8;
        i += 1;
    }
    a
};

struct Item0 {
    b: Blob<'static>,
    want: Vec<u8>,
    /// index of the owner, if it is one of ours
    owner: Option<usize>,
}

#[derive(Default)]
struct World {
    mems: Vec<MemStore>,
    tests: Vec<TStore>,
    paged: Vec<(PagedFileStore, std::fs::File)>,
    trees: Vec<RadixTree>,
    att: Vec<RadixTree<AnyStore>>,
    vecs: Vec<Arc<Vec<u8>>>,
    owners: Vec<Arc<AtomicUsize>>,
}

fn anyhow_s(what: &str) -> impl Fn(anyhow::Error) -> String + '_ {
    move |e| format!("{}: {:#}", what, e)
}

fn make(s: &Source, w: &mut World) -> Result<Item0, String> {
    let mut owner = None;
    let (b, want): (Blob<'static>, Vec<u8>) = match s {
        Source::Copy(n, t) => {
            let d = content(*t, *n);
            (Blob::copy_from_slice(&d), d)
        }
        Source::ArcVec(n, t) => {
            let a = Arc::new(content(*t, *n));
            let b = if t % 2 == 0 { Blob::from_arc_vec(a.clone()) } else { Blob::from(a.clone()) };
            w.vecs.push(a.clone());
            (b, a.to_vec())
        }
        Source::ArcArray(t) => {
            let mut a = [0u8; 24];
            a.copy_from_slice(&content(*t, 24));
            (Blob::from(Arc::new(a)), a.to_vec())
        }
        Source::Owner(n, t) => {
            let dropped = Arc::new(AtomicUsize::new(0));
            let o = Arc::new(Owner { data: content(*t, *n), dropped: dropped.clone() });
            let d = o.data.clone();
            // the bytes live as long as the owner
            let s: &'static [u8] = unsafe { std::mem::transmute(&o.data[..]) };
            owner = Some(w.owners.len());
            w.owners.push(dropped);
            (Blob::owned_new(s, Some(o as Arc<dyn Any>)), d)
        }
        Source::Static(t) => (Blob::new(&BYTES[*t as usize..]), BYTES[*t as usize..].to_vec()),
        Source::Mem(n, t) => {
            let s = MemStore::default();
            let d = content(*t, *n);
            let id = s.write(&d).map_err(anyhow_s("write"))?;
            let b = s.read(&id).map_err(anyhow_s("read"))?;
            w.mems.push(s);
            (b, d)
        }
        Source::Test(n, t) => {
            let s = TStore::new(8, Ids::Seq, 0);
            let d = content(*t, *n);
            let id = s.write(&d).map_err(anyhow_s("write"))?;
            let b = s.read(&id).map_err(anyhow_s("read"))?;
            w.tests.push(s);
            (b, d)
        }
        Source::Paged(page, n, t, mode) => {
            let f = memfd();
            let mut s = PagedFileStore::new(f.try_clone().unwrap(), *page).map_err(anyhow_s("open"))?;
            let d = content(*t, (*n).min(limit(*page)));
            let id = s.write(&d).map_err(anyhow_s("write"))?;
            if *mode > 0 {
                // close its page
                s.write(&content(1, limit(*page))).map_err(anyhow_s("write"))?;
            }
            if *mode > 1 {
                s = PagedFileStore::new(f.try_clone().unwrap(), *page).map_err(anyhow_s("open"))?;
            }
            let b = s.read(&id).map_err(anyhow_s("read"))?;
            w.paged.push((s, f));
            (b, d)
        }
        Source::Tree(n, t, att) => {
            let d = content(*t, *n);
            let mut tree = RadixTree::default();
            tree.insert(b"key", &d);
            tree.insert(b"kei", b"x");
            if *att {
                let store = if t % 2 == 0 { Spec::Mem.open().store } else { Spec::Paged(131072).open().store };
                let tree = tree.try_attached(store.clone()).map_err(anyhow_s("attach"))?;
                let v = tree.try_get(b"key").map_err(anyhow_s("get"))?.ok_or("the key is gone")?;
                let b = v.load(&store).map_err(anyhow_s("load"))?;
                w.att.push(tree);
                (b, d)
            } else {
                let v = tree.get(b"key").ok_or("the key is gone")?;
                let b = v.load(&radixdb::store::Detached).map_err(|_| "load")?;
                w.trees.push(tree);
                (b, d)
            }
        }
        Source::Key(n, t) => {
            let d = content(*t, *n);
            let tree: RadixTree = [(d.clone(), b"1".to_vec()), ([&d[..], b"x"].concat(), b"2".to_vec())].into_iter().collect();
            let mut it = tree.iter();
            let (k, _) = it.next().ok_or("no entry")?;
            let b = k.to_owned_blob();
            // the iterator goes on
            drop(k);
            let _ = it.next();
            let _ = it.next();
            drop(it);
            w.trees.push(tree);
            (b, d)
        }
        Source::Empty => (Blob::empty(), vec![]),
        Source::Borrowed(n, t) => {
            let d = content(*t, *n);
            let b = {
                let tmp = d.clone();
                let b = Blob::new(&tmp);
                b.to_owned()
            };
            (b, d)
        }
    };
    Ok(Item0 { b, want, owner })
}

fn h(x: &(impl Hash + ?Sized)) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}

fn check(it: &Item0, what: &str) -> Res {
    ensure!(it.b.len() == it.want.len() && it.b[..] == it.want[..], "{}: a blob reads \"{}\" instead of \"{}\"", what, show(&it.b), show(&it.want));
    Ok(())
}

fn run21(c: &Vec<BOp>, cx: &mut Cx) -> Res {
    let mut w = World::default();
    let mut pool: Vec<Item0> = vec![];
    let (mut sliced, mut dropped, mut refused) = (0, 0, 0);
    for (i, op) in c.iter().enumerate() {
        let what = format!("step {} {:?}", i, op);
        let n = pool.len().max(1);
        let at = |k: &u8| *k as usize % n;
        match op {
            BOp::New(s) => {
                let it = make(s, &mut w)?;
                check(&it, &what)?;
                if pool.len() < 24 {
                    pool.push(it);
                }
            }
            BOp::Slice(k, a, b) => {
                let Some(it) = pool.get(at(k)) else { continue };
                let len = it.want.len();
                let bound = |x: &(u8, Pos)| match x.0 % 3 {
                    0 => Bound::Included(x.1.eval(len)),
                    1 => Bound::Excluded(x.1.eval(len)),
                    _ => Bound::Unbounded,
                };
                let r = (bound(a), bound(b));
                let begin = match r.0 {
                    Bound::Included(n) => n as u128,
                    Bound::Excluded(n) => n as u128 + 1,
                    Bound::Unbounded => 0,
                };
                let end = match r.1 {
                    Bound::Included(n) => n as u128 + 1,
                    Bound::Excluded(n) => n as u128,
                    Bound::Unbounded => len as u128,
                };
                let good = begin <= end && end <= len as u128;
                let res = catch_unwind(AssertUnwindSafe(|| it.b.slice(r)));
                match res {
                    Ok(s) => {
                        ensure!(good, "{}: slicing {} bytes by {:?} gives \"{}\"", what, len, r, show(&s));
                        let want = it.want[begin as usize..end as usize].to_vec();
                        let owner = if want.is_empty() { None } else { it.owner };
                        let new = Item0 { b: s, want, owner };
                        check(&new, &what)?;
                        sliced += 1;
                        if pool.len() < 24 {
                            pool.push(new);
                        }
                    }
                    Err(_) => {
                        ensure!(!good, "{}: slicing {} bytes by {:?} panics: {}", what, len, r, crate::engine::last_panic());
                        refused += 1;
                    }
                }
            }
            BOp::SliceRef(k, a, b) => {
                let Some(it) = pool.get(at(k)) else { continue };
                let len = it.want.len();
                let (a, b) = (a % (len + 1), b % (len + 1));
                let (a, b) = (a.min(b), a.max(b));
                let s = it.b.slice_ref(&it.b[a..b]);
                let owner = if a == b { None } else { it.owner };
                let new = Item0 { b: s, want: it.want[a..b].to_vec(), owner };
                check(&new, &what)?;
                sliced += 1;
                if pool.len() < 24 {
                    pool.push(new);
                }
            }
            BOp::SliceForeign(k, l) => {
                let (Some(x), Some(y)) = (pool.get(at(k)), pool.get(at(l))) else { continue };
                let (px, py) = (x.b.as_ptr() as usize, y.b.as_ptr() as usize);
                let inside = py >= px && py + y.want.len() <= px + x.want.len();
                let res = catch_unwind(AssertUnwindSafe(|| x.b.slice_ref(&y.b)));
                match res {
                    Ok(s) => {
                        ensure!(inside || y.want.is_empty(), "{}: a reference to other bytes was accepted", what);
                        ensure!(s[..] == y.want[..], "{}: slice_ref gives \"{}\" instead of \"{}\"", what, show(&s), show(&y.want));
                        let owner = if y.want.is_empty() { None } else { x.owner };
                        let new = Item0 { b: s, want: y.want.clone(), owner };
                        if pool.len() < 24 {
                            pool.push(new);
                        }
                    }
                    Err(_) => {
                        ensure!(!inside && !y.want.is_empty(), "{}: slice_ref panics for bytes inside", what);
                        refused += 1;
                    }
                }
            }
            BOp::Clone(k) => {
                let Some(it) = pool.get(at(k)) else { continue };
                let new = Item0 { b: it.b.clone(), want: it.want.clone(), owner: it.owner };
                if pool.len() < 24 {
                    pool.push(new);
                }
            }
            BOp::Drop(k) => {
                if !pool.is_empty() {
                    let i = at(k);
                    pool.remove(i);
                    dropped += 1;
                }
            }
            BOp::ToOwned(k) => {
                if !pool.is_empty() {
                    let i = at(k);
                    let it = pool.remove(i);
                    pool.push(Item0 { b: it.b.to_owned(), want: it.want, owner: it.owner });
                }
            }
            BOp::Compare(k, l) => {
                let (Some(x), Some(y)) = (pool.get(at(k)), pool.get(at(l))) else { continue };
                let (a, b) = (&x.b, &y.b);
                ensure!((a == b) == (x.want == y.want), "{}: == is {}", what, a == b);
                ensure!(a.cmp(b) == x.want.cmp(&y.want), "{}: cmp is {:?}", what, a.cmp(b));
                ensure!(a.partial_cmp(b) == x.want.partial_cmp(&y.want), "{}: partial_cmp is {:?}", what, a.partial_cmp(b));
                ensure!(h(a) == h(&x.want[..]) && h(b) == h(&y.want[..]), "{}: the hash is not that of the bytes", what);
                ensure!(Borrow::<[u8]>::borrow(a) == &x.want[..] && a.as_ref() == &x.want[..], "{}: borrow or as_ref differ", what);
                let hs: HashSet<Blob<'static>> = pool.iter().map(|i| i.b.clone()).collect();
                let bs: BTreeSet<Blob<'static>> = pool.iter().map(|i| i.b.clone()).collect();
                let vs: BTreeSet<Vec<u8>> = pool.iter().map(|i| i.want.clone()).collect();
                ensure!(hs.len() == vs.len(), "{}: a hash set of the blobs has {} elements instead of {}", what, hs.len(), vs.len());
                ensure!(bs.iter().map(|b| b.to_vec()).eq(vs.iter().cloned()), "{}: an ordered set of the blobs differs", what);
                ensure!(hs.contains(&x.want[..]) && bs.contains(&y.want[..]), "{}: lookup by bytes fails", what);
            }
            BOp::Sources => {
                let owners = std::mem::take(&mut w.owners);
                w = World { owners, ..World::default() };
                // the memory is used again
                let junk: Vec<Vec<u8>> = (0..20).map(|i| vec![0x5a; 1 << (i % 10)]).collect();
                std::hint::black_box(&junk);
                dropped += 1;
            }
            BOp::Grow(n) => {
                for s in &w.mems {
                    for i in 0..*n {
                        s.write(&content(1, i * 7)).map_err(anyhow_s(&what))?;
                    }
                }
                for (s, _) in &w.paged {
                    for i in 0..*n {
                        s.write(&content(1, (i * 17).min(50))).map_err(anyhow_s(&what))?;
                    }
                }
                for t in &mut w.trees {
                    t.insert(b"key", b"other");
                    t.insert(content(3, *n), b"y");
                    t.remove(b"kei");
                }
                for t in &mut w.att {
                    t.try_insert(b"key", b"other").map_err(anyhow_s(&what))?;
                    t.try_reattach().map_err(anyhow_s(&what))?;
                }
            }
        }
        for it in &pool {
            check(it, &what)?;
        }
        for it in &pool {
            if let Some(o) = it.owner {
                ensure!(w.owners[o].load(SeqCst) == 0, "{}: the owner of a blob was dropped while the blob exists", what);
            }
        }
    }
    cx.label_if(dropped > 0 && sliced > 0, "slices, and something dropped");
    cx.label_if(refused > 0, "a range out of bounds");
    let owners = std::mem::take(&mut w.owners);
    drop(w);
    for it in &pool {
        check(it, "after the sources were dropped")?;
    }
    while !pool.is_empty() {
        let it = pool.remove(pool.len() / 2);
        check(&it, "at the end")?;
        drop(it);
        for it in &pool {
            check(it, "while the others are dropped")?;
        }
    }
    for o in owners {
        let n = o.load(SeqCst);
        ensure!(n == 1, "an owner was dropped {} times after all its blobs are gone", n);
    }
    cx.nt_if(sliced > 0);
    Ok(())
}

pub struct C21;
impl Property for C21 {
    type Case = Vec<BOp>;
    const ID: &'static str = "C21";
    const CASES: (u64, u64) = (80_000, 16_000_000);
    const RULE: &'static str = "A case creates blobs from every source (slices, shared vectors and arrays, an owner that overwrites its bytes when dropped, memory, test and paged file stores with the page open, closed or mapped after reopening, tree values, keys of an iterator that goes on), slices them by all kinds of ranges (also out of bounds and near the largest number), by reference, and of each other, clones, compares, hashes, converts and drops them, drops the sources, and grows the stores. Every blob is compared with its bytes after every step; freed memory is poisoned. Non-trivial: at least one slice in range.";
    fn gen(src: &mut Src) -> Vec<BOp> {
        src.list(1, 40, 12, |src| match src.weighted(&[10, 10, 3, 2, 3, 5, 2, 3, 2, 2]) {
            0 => BOp::New(gen_source(src)),
            1 => BOp::Slice(src.u8(), (src.u8(), gen_pos(src)), (src.u8(), gen_pos(src))),
            2 => BOp::SliceRef(src.u8(), src.below(300), src.below(300)),
            3 => BOp::SliceForeign(src.u8(), src.u8()),
            4 => BOp::Clone(src.u8()),
            5 => BOp::Drop(src.u8()),
            6 => BOp::ToOwned(src.u8()),
            7 => BOp::Compare(src.u8(), src.u8()),
            8 => BOp::Sources,
            _ => BOp::Grow(src.below(20)),
        })
    }
    fn run(c: &Vec<BOp>, cx: &mut Cx) -> Res {
        run21(c, cx)
    }
    // every range over blobs of up to 4 bytes
    fn enum_count() -> u64 {
        5 * 3 * 9 * 3 * 9
    }
    fn enum_case(i: u64) -> Vec<BOp> {
        let len = (i % 5) as usize;
        let i = i / 5;
        let pos = |n: u64| -> Pos {
            match n {
                0..=4 => Pos::At(n as usize),
                5..=6 => Pos::Beyond(n as usize - 4),
                n => Pos::Huge(n as usize - 7),
            }
        };
        let (a, i) = ((i % 3) as u8, i / 3);
        let (p, i) = (pos(i % 9), i / 9);
        let (b, i) = ((i % 3) as u8, i / 3);
        vec![BOp::New(Source::Owner(len, 3)), BOp::Slice(0, (a, p), (b, pos(i % 9))), BOp::Drop(0)]
    }
}

// ---------------------------------------------------------------- C22

#[derive(Debug, Clone)]
pub enum SOp {
    Write(usize, u8),
    Same(u8),
    Read(u8),
    Unknown(u8, u8),
    Sync,
    Handle,
    DropHandle,
    /// the wrapped store fails the next calls
    Fail(u8, u8),
    Hold(u8),
    /// write through the wrapped store itself
    Direct(usize, u8),
}

#[derive(Debug)]
pub struct SCase {
    pub kind: u8,
    pub nest: usize,
    pub ops: Vec<SOp>,
}

fn run22(c: &SCase, cx: &mut Cx) -> Res {
    // kind 0: memory store itself, 1: dynamic memory, 2: dynamic test store, 3: dynamic paged
    let mem = MemStore::default();
    let test = TStore::new(8, if c.kind % 2 == 0 { Ids::Mixed } else { Ids::Seq }, 5);
    let file = memfd();
    let paged = PagedFileStore::new(file.try_clone().unwrap(), 1024).map_err(|e| format!("{:#}", e))?;
    let kind = c.kind % 4;
    cx.label(["memory store", "dynamic memory store", "dynamic test store", "dynamic paged file store"][kind as usize]);
    let inner: AnyStore = match kind {
        0 | 1 => AnyStore::Mem(mem.clone()),
        2 => AnyStore::T(test.clone()),
        _ => AnyStore::Paged(paged.clone()),
    };
    let mut outer: AnyStore = inner.clone();
    if kind > 0 {
        let mut d: DynBlobStore = match kind {
            1 => Arc::new(mem.clone()),
            2 => Arc::new(test.clone()),
            _ => Arc::new(paged.clone()),
        };
        for _ in 0..c.nest {
            d = Arc::new(d);
        }
        outer = AnyStore::Dyn(d);
    }
    ensure!(outer.needs_deep_detach() == inner.needs_deep_detach(), "needs_deep_detach differs");
    let mut handles = vec![outer];
    let mut written: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    let mut ids: HashSet<Vec<u8>> = HashSet::new();
    let mut held: Vec<(Blob<'static>, Vec<u8>)> = vec![];
    let (mut unknown, mut failed) = (0, 0);
    for (i, op) in c.ops.iter().enumerate() {
        let what = format!("step {} {:?}", i, op);
        let s = handles[i % handles.len()].clone();
        let (r0, w0) = test.counts();
        let y0 = test.st().syncs;
        let pick = |k: &u8| written.get(*k as usize % written.len().max(1)).cloned();
        let count = |r: u64, w: u64, y: u64| -> Res {
            if kind == 2 {
                let (r1, w1) = test.counts();
                let y1 = test.st().syncs;
                ensure!((r1 - r0, w1 - w0, y1 - y0) == (r, w, y), "{}: the wrapped store saw {} reads, {} writes and {} syncs", what, r1 - r0, w1 - w0, y1 - y0);
            }
            Ok(())
        };
        match op {
            SOp::Write(..) | SOp::Same(_) | SOp::Direct(..) => {
                let d = match op {
                    SOp::Write(n, t) | SOp::Direct(n, t) => content(*t, if kind == 3 { (*n).min(limit(1024)) } else { *n }),
                    SOp::Same(k) => match pick(k) {
                        Some(x) => x.1,
                        None => continue,
                    },
                    _ => unreachable!(),
                };
                let id = if matches!(op, SOp::Direct(..)) { inner.write(&d) } else { s.write(&d) }.map_err(|e| format!("{}: {:#}", what, e))?;
                count(0, 1, 0)?;
                ensure!(ids.insert(id.clone()), "{}: the id {:?} names another blob already", what, id);
                written.push((id.clone(), d.clone()));
                read_is(&s, &id, &d, &what)?;
                read_is(&inner, &id, &d, &what)?;
            }
            SOp::Read(k) | SOp::Hold(k) => {
                if let Some((id, d)) = pick(k) {
                    let b = s.read(&id).map_err(|e| format!("{}: {:#}", what, e))?;
                    count(1, 0, 0)?;
                    ensure!(b[..] == d[..], "{}: \"{}\" instead of \"{}\"", what, show(&b), show(&d));
                    if matches!(op, SOp::Hold(_)) {
                        held.push((b, d));
                    }
                }
            }
            SOp::Unknown(k, m) => {
                let mut id = pick(k).map(|x| x.0).unwrap_or(vec![0; 8]);
                match m % 6 {
                    0 => id = vec![],
                    1 => id.push(0),
                    2 => {
                        id.pop();
                    }
                    3 => id = vec![0; 8],
                    4 => id = vec![255; 8],
                    _ => id[7] = id[7].wrapping_add(100),
                }
                if ids.contains(&id) {
                    continue;
                }
                unknown += 1;
                let a = s.read(&id);
                count(1, 0, 0)?;
                let b = inner.read(&id);
                match (&a, &b) {
                    (Ok(x), Ok(y)) => ensure!(x == y && kind == 3, "{}: reads \"{}\"", what, show(x)),
                    (Err(x), Err(y)) => ensure!(x.to_string() == y.to_string(), "{}: the error is {} instead of {}", what, x, y),
                    _ => fail!("{}: the store gives {:?}, the wrapped store {:?}", what, a.is_ok(), b.is_ok()),
                }
            }
            SOp::Sync => {
                s.sync().map_err(|e| format!("{}: {:#}", what, e))?;
                count(0, 0, 1)?;
            }
            SOp::Handle => handles.push(s),
            SOp::DropHandle => {
                if handles.len() > 1 {
                    handles.remove(0);
                }
            }
            SOp::Fail(k, m) => {
                if kind != 2 {
                    continue;
                }
                test.set_fault(0, 1, true, true);
                let r = match m % 2 {
                    0 => s.write(b"lost").map(|_| ()),
                    _ => s.read(&pick(k).map(|x| x.0).unwrap_or_default()).map(|_| ()),
                };
                test.clear_fault();
                match r {
                    Ok(()) => fail!("{}: an error of the wrapped store is not passed on", what),
                    Err(e) => ensure!(e.to_string() == FAULT, "{}: the error is {}", what, e),
                }
                failed += 1;
            }
        }
        ensure!(kind > 1 || mem.count() == written.len(), "{}: count is {} after {} writes", what, mem.count(), written.len());
        std::hint::black_box(format!("{:?}", handles[0]));
    }
    for (n, s) in handles.iter().chain([&inner]).enumerate() {
        for (id, d) in &written {
            read_is(s, id, d, &format!("at the end, handle {}", n))?;
        }
    }
    drop((handles, inner, mem, test, paged, file));
    for (b, d) in &held {
        ensure!(b[..] == d[..], "a blob that was kept changed its content");
    }
    cx.label_if(unknown > 0, "an unknown id");
    cx.label_if(failed > 0, "the wrapped store failed");
    cx.nt_if(written.len() > 2);
    Ok(())
}

pub struct C22;
impl Property for C22 {
    type Case = SCase;
    const ID: &'static str = "C22";
    const CASES: (u64, u64) = (80_000, 16_000_000);
    const RULE: &'static str = "A case is a store (memory; memory, test or paged file store behind one to three layers of the dynamic store type) and a sequence of writes (also of the same content, also past the dynamic layer), reads, reads with unknown ids, syncs, failing calls, held blobs, and clones and drops of handles. Every id reads its blob at once and at the end through every handle, ids never repeat, errors are those of the wrapped store, and each call reaches it exactly once. Non-trivial: at least three blobs.";
    fn gen(src: &mut Src) -> SCase {
        let kind = src.below(4) as u8;
        let nest = src.below(3);
        let ops = src.list(1, 50, 15, |src| match src.weighted(&[10, 3, 5, 3, 2, 2, 1, 2, 2, 2]) {
            0 => SOp::Write(gen_len_b(src), src.u8()),
            1 => SOp::Same(src.u8()),
            2 => SOp::Read(src.u8()),
            3 => SOp::Unknown(src.u8(), src.u8()),
            4 => SOp::Sync,
            5 => SOp::Handle,
            6 => SOp::DropHandle,
            7 => SOp::Fail(src.u8(), src.u8()),
            8 => SOp::Hold(src.u8()),
            _ => SOp::Direct(gen_len_b(src), src.u8()),
        });
        SCase { kind, nest, ops }
    }
    fn run(c: &SCase, cx: &mut Cx) -> Res {
        run22(c, cx)
    }
}
