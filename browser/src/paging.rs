//! Blob stores over the files of the browser crate.
use crate::fs::{gen_places, Fs, Places};
use rv::engine::{Cx, Property, Res};
use rv::gen::{show, Val};
use rv::tape::Src;
use rv::{ensure, fail};
use radixdb::store::{BlobStore, DynBlobStore, OwnedBlob};
use radixdb::RadixTree;
use sample::{PagingFile, SyncFile};
use std::collections::BTreeMap;
use std::sync::Arc;
use web_sys::Storage;

type Dyn = DynBlobStore;

#[derive(Debug, Clone)]
pub enum SOp {
    Write(Val),
    /// leave this many bytes of the page
    Fill(u8, u8),
    /// this far from the largest blob a page can take
    Near(i8, u8),
    Again(u8),
    All,
    Hold(u8),
    Bad(u8),
    Sync,
    Reopen,
    /// the storage goes away this many steps from now, at the latest in the next Reopen
    Crash(u8),
    /// operations of the storage fail
    Fail(u8, u8),
    /// keys are added to a tree, which is attached, and read back
    Tree(Vec<(Vec<u8>, Val)>),
    /// threads write blobs at the same time
    Threads(Vec<Vec<Val>>),
}
fn gen_sop(src: &mut Src) -> SOp {
    match src.weighted(&[20, 8, 5, 5, 2, 3, 2, 5, 4, 2, 3, 2, 2]) {
        0 => SOp::Write(Val { tag: src.u8(), len: match src.weighted(&[6, 3, 1]) {
            0 => src.below(20),
            1 => src.below(120),
            _ => src.below(2000),
        } }),
        1 => SOp::Fill(src.below(20) as u8, src.u8()),
        2 => SOp::Near(src.below(20) as i8 - 15, src.u8()),
        3 => SOp::Again(src.u8()),
        4 => SOp::All,
        5 => SOp::Hold(src.u8()),
        6 => SOp::Bad(src.u8()),
        7 => SOp::Sync,
        8 => SOp::Reopen,
        9 => SOp::Crash(src.below(12) as u8),
        10 => SOp::Fail(src.below(8) as u8, 1 + src.below(3) as u8),
        12 => SOp::Threads(src.list(2, 4, 2, |s| s.list(1, 12, 5, |s| Val { tag: s.u8(), len: if s.chance(40) { s.below(200) } else { s.below(30) } }))),
        _ => SOp::Tree(src.list(1, 12, 5, |s| (s.list(0, 6, 2, |s| s.below(4) as u8), Val { tag: s.u8(), len: if s.chance(40) { s.range(9, 300) } else { s.below(9) } }))),
    }
}

#[derive(Debug)]
pub struct SCase {
    p: Places,
    /// 0: the file itself is the store
    page: u64,
    ops: Vec<SOp>,
}
pub struct C31;

enum Store {
    File(Arc<SyncFile>),
    Paged(Arc<PagingFile>),
}
impl Store {
    fn s(&self) -> &dyn BlobStore<Error = anyhow::Error> {
        match self {
            Store::File(f) => &**f,
            Store::Paged(f) => &**f,
        }
    }
    fn shared(&self) -> Dyn {
        match self {
            Store::File(f) => f.clone(),
            Store::Paged(f) => f.clone(),
        }
    }
}

fn check(s: &dyn BlobStore<Error = anyhow::Error>, id: &[u8], want: &[u8], what: &str) -> Res {
    match s.read(id) {
        Err(e) => fail!("{}: reading id {:?} fails: {:#}", what, id, e),
        Ok(b) => ensure!(&b[..] == want, "{}: id {:?} reads \"{}\" instead of \"{}\"", what, id, show(&b), show(want)),
    }
    Ok(())
}

fn same_tree(s: Dyn, id: &[u8], m: &BTreeMap<Vec<u8>, Vec<u8>>, what: &str) -> Res {
    let t = RadixTree::try_load(s.clone(), Some(id)).map_err(|e| format!("{}: loading a tree fails: {:#}", what, e))?;
    let mut n = 0;
    for x in t.try_iter() {
        let (k, v) = x.map_err(|e| format!("{}: iterating a tree fails: {:#}", what, e))?;
        let v = v.load(&s).map_err(|e| format!("{}: a value cannot be loaded: {:#}", what, e))?;
        ensure!(m.get(&k[..]).is_some_and(|w| w[..] == v[..]), "{}: a tree has a wrong value \"{}\" at \"{}\"", what, show(&v), show(&k));
        n += 1;
    }
    ensure!(n == m.len(), "{}: a tree has {} entries instead of {}", what, n, m.len());
    Ok(())
}

/// what several threads write into a store, in the order of the ids
fn threads(st: &Store, vs: &[Vec<Val>], old: &[(Vec<u8>, Vec<u8>)], sure: i64) -> Result<Vec<(Vec<u8>, Vec<u8>)>, String> {
    let gate = std::sync::Barrier::new(vs.len());
    let s = st.shared();
    let rs: Vec<Result<Vec<(Vec<u8>, Vec<u8>)>, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = vs
            .iter()
            .enumerate()
            .map(|(t, vs)| {
                let (s, gate) = (s.clone(), &gate);
                sc.spawn(move || {
                    gate.wait();
                    let mut mine: Vec<(Vec<u8>, Vec<u8>)> = vec![];
                    for (i, v) in vs.iter().enumerate() {
                        let b = v.bytes();
                        let what = format!("thread {}, blob {}", t, i);
                        match s.write(&b) {
                            Ok(id) => {
                                check(&s, &id, &b, &what)?;
                                mine.push((id, b));
                            }
                            Err(e) => ensure!(b.len() as i64 > sure, "{}: writing {} bytes fails: {:#}", what, b.len(), e),
                        }
                        if let Some((id, b)) = old.get((v.tag as usize).wrapping_mul(7) % old.len().max(1)) {
                            check(&s, id, b, &what)?;
                        }
                        if v.tag % 16 == 3 {
                            s.sync().map_err(|e| format!("{}: sync fails: {:#}", what, e))?;
                        }
                    }
                    for (id, b) in &mine {
                        check(&s, id, b, &format!("thread {} at its end", t))?;
                    }
                    Ok(mine)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    });
    let mut all = vec![];
    for r in rs {
        all.extend(r?);
    }
    all.sort();
    Ok(all)
}

fn open(fs: &mut Fs, page: u64) -> Result<Store, anyhow::Error> {
    fs.file(0)?;
    let f = fs.take(0)?;
    Ok(if page == 0 { Store::File(Arc::new(f)) } else { Store::Paged(Arc::new(PagingFile::new(f, page)?)) })
}

impl Property for C31 {
    type Case = SCase;
    const ID: &'static str = "C31";
    const RULE: &'static str = "blobs fill more than one page (or more than three are appended to a plain file) and are read again after reopening or a crash";
    const CASES: (u64, u64) = (300, 6000);
    const ASSUMPTIONS: &'static [&'static str] = &[
        "the cache API behaves as the stand-in for it in browser/stubs/web-sys: each operation is atomic, happens in order, is durable when it returns, and has no effect when it fails",
        "one file system at a time uses the storage, and one page size each file",
    ];
    fn gen(src: &mut Src) -> SCase {
        let mut p = gen_places(src);
        p.files.truncate(1);
        let page = src.pick(&[1024u64, 0, 64, 128, 256, 100, 101, 103, 106, 40, 4096, 1 << 16, 24, 16, 15, 12, 8, 1]);
        SCase { p, page, ops: src.list(1, 60, 20, gen_sop) }
    }
    fn run(c: &SCase, cx: &mut Cx) -> Res {
        let s = Storage::new();
        let mut fs = Fs::mount(&s, &c.p);
        if c.ops.len() % 8 == 3 {
            fs.file(0).map_err(|e| format!("opening: {:#}", e))?;
            let f = fs.take(0).map_err(|e| format!("opening: {:#}", e))?;
            ensure!(PagingFile::new(f, 0).is_err(), "a page size of 0 is accepted");
        }
        let mut st = open(&mut fs, c.page).map_err(|e| format!("opening: {:#}", e))?;
        // in the order of writing
        let mut blobs: Vec<(Vec<u8>, Vec<u8>)> = vec![];
        // so many of them are durable
        let mut synced = 0;
        let mut held: Vec<(OwnedBlob, Vec<u8>)> = vec![];
        let mut roots: Vec<(Vec<u8>, BTreeMap<Vec<u8>, Vec<u8>>)> = vec![];
        let (mut dead, mut faulty) = (false, false);
        // when the failing operations of the storage are over
        let mut until = 0;
        let mut pages = 0;
        // whether something failed at some time
        let mut trouble = false;
        // of a blob in a page that has nothing else; a page takes blobs that leave these 12 bytes
        let sure = if c.page == 0 { 1 << 20 } else { c.page as i64 - 12 };
        for (i, op) in c.ops.iter().enumerate() {
            let what = format!("operation {} {:?}", i, op);
            trouble |= dead || faulty;
            if faulty && s.ops() >= until {
                // what was written in the meantime is there
                faulty = false;
                cx.label("failing operations of the storage");
            }
            let val = match op {
                SOp::Write(v) => Some(v.clone()),
                SOp::Fill(left, tag) if c.page > 0 => {
                    let last = blobs.last().map_or(0, |(id, b)| u64::from_be_bytes(id[..].try_into().unwrap()) + 4 + b.len() as u64);
                    let free = c.page - last % c.page;
                    Some(Val { tag: *tag, len: free.saturating_sub(4 + *left as u64) as usize })
                }
                SOp::Near(d, tag) if c.page > 0 => Some(Val { tag: *tag, len: (c.page as i64 + *d as i64).max(0) as usize }),
                _ => None,
            };
            if let Some(v) = val {
                let b = v.bytes();
                match st.s().write(&b) {
                    Ok(id) => {
                        ensure!(id.len() == 8, "{}: an id of {} bytes", what, id.len());
                        check(st.s(), &id, &b, &what).or_else(|e| if dead || faulty { Ok(()) } else { Err(e) })?;
                        ensure!(!blobs.iter().any(|x| x.0 == id), "{}: id {:?} is given again", what, id);
                        blobs.push((id, b));
                        if c.page == 0 {
                            synced = blobs.len();
                        }
                    }
                    Err(e) => {
                        cx.label("a blob is refused");
                        ensure!(dead || faulty || b.len() as i64 > sure, "{}: writing {} bytes fails: {:#}", what, b.len(), e);
                    }
                }
            }
            match op {
                SOp::Again(k) if !blobs.is_empty() => {
                    let (id, b) = &blobs[*k as usize % blobs.len()];
                    check(st.s(), id, b, &what).or_else(|e| if dead || faulty { Ok(()) } else { Err(e) })?;
                }
                SOp::All => {
                    for (id, b) in &blobs {
                        check(st.s(), id, b, &what).or_else(|e| if dead || faulty { Ok(()) } else { Err(e) })?;
                    }
                }
                SOp::Hold(k) if !blobs.is_empty() => {
                    let (id, b) = &blobs[*k as usize % blobs.len()];
                    match st.s().read(id) {
                        Ok(x) => held.push((x, b.clone())),
                        Err(e) => ensure!(dead || faulty, "{}: {:#}", what, e),
                    }
                }
                SOp::Bad(k) => {
                    // no blob, or whatever is there, and no harm
                    let k = *k as u64;
                    let id: Vec<u8> = match k % 4 {
                        0 => (u64::MAX - k / 4).to_be_bytes().to_vec(),
                        1 => vec![0; [0, 1, 4, 7, 9, 16][k as usize / 4 % 6]],
                        2 => {
                            let last = blobs.last().map_or(0, |(id, b)| u64::from_be_bytes(id[..].try_into().unwrap()) + 4 + b.len() as u64);
                            (last + k / 4).to_be_bytes().to_vec()
                        }
                        _ => (k / 4 * 5).to_be_bytes().to_vec(),
                    };
                    let r = st.s().read(&id);
                    if k % 4 < 2 || (k % 4 == 2 && !trouble) {
                        ensure!(r.is_err(), "{}: id {:?} reads something", what, id);
                    }
                }
                SOp::Sync => match st.s().sync() {
                    Ok(()) => synced = blobs.len(),
                    Err(e) => ensure!(dead || faulty, "{}: {:#}", what, e),
                },
                SOp::Crash(k) => {
                    s.crash(Some(s.ops() + *k as u64));
                    dead = true;
                }
                SOp::Fail(k, n) if !dead && !faulty => {
                    s.fail(Some((s.ops() + *k as u64, *n as u64)));
                    faulty = true;
                    until = s.ops() + *k as u64 + *n as u64;
                }
                SOp::Reopen => {
                    if !dead && !faulty {
                        st.s().sync().map_err(|e| format!("{}: {:#}", what, e))?;
                        synced = blobs.len();
                    }
                    drop(st);
                    ensure!(fs.unmount(), "{}: the file system died", what);
                    cx.label_if(dead, "a crash");
                    s.crash(None);
                    s.fail(None);
                    (dead, faulty) = (false, false);
                    fs = Fs::mount(&s, &c.p);
                    st = open(&mut fs, c.page).map_err(|e| format!("{}: {:#}", what, e))?;
                    blobs.truncate(synced);
                    for (id, b) in &blobs {
                        check(st.s(), id, b, &what)?;
                    }
                    roots.retain(|r| blobs.iter().any(|b| b.0 == r.0));
                    for (id, m) in &roots {
                        same_tree(st.shared(), id, m, &what)?;
                    }
                    pages = pages.max(blobs.last().map_or(0, |(id, _)| u64::from_be_bytes(id[..].try_into().unwrap()) / c.page.max(1)));
                    if pages > 0 && (c.page > 0 || blobs.len() > 3) {
                        cx.nt();
                    }
                }
                SOp::Tree(items) if !dead && !faulty && (c.page == 0 || c.page >= 4096) => {
                    let t: RadixTree = items.iter().map(|(k, v)| (k.clone(), v.bytes())).collect();
                    let m: BTreeMap<_, _> = items.iter().map(|(k, v)| (k.clone(), v.bytes())).collect();
                    let mut t = t.try_attached(st.shared()).map_err(|e| format!("{}: attaching fails: {:#}", what, e))?;
                    let id = t.try_reattach().map_err(|e| format!("{}: {:#}", what, e))?;
                    drop(t);
                    same_tree(st.shared(), &id, &m, &what)?;
                    // the root is the last blob
                    let root = st.s().read(&id).map_err(|e| format!("{}: {:#}", what, e))?;
                    blobs.push((id.clone(), root.to_vec()));
                    if c.page == 0 {
                        synced = blobs.len();
                    }
                    roots.push((id, m));
                    cx.label("a tree");
                }
                SOp::Threads(vs) if !dead && !faulty => {
                    let new = threads(&st, vs, &blobs, sure).map_err(|e| format!("{}: {}", what, e))?;
                    for (id, b) in new {
                        ensure!(!blobs.iter().any(|x| x.0 == id), "{}: id {:?} is given twice", what, id);
                        check(st.s(), &id, &b, &what)?;
                        blobs.push((id, b));
                    }
                    if c.page == 0 {
                        synced = blobs.len();
                    }
                    cx.label("threads");
                }
                _ => {}
            }
            for (h, b) in &held {
                ensure!(h[..] == b[..], "{}: a blob that is held has changed from \"{}\" to \"{}\"", what, show(b), show(h));
            }
            cx.inner += 1;
        }
        drop(st);
        ensure!(fs.unmount(), "the file system died");
        Ok(())
    }
}
