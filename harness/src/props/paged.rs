//! The paged file store, and the contract every store keeps.
use crate::engine::{Cx, Property, Res};
use crate::gen::*;
use crate::stores::memfd;
use crate::sys;
use crate::tape::Src;
use crate::{ensure, fail};
use radixdb::store::{Blob, BlobStore, DynBlobStore, MemStore, PagedFileStore};
use std::collections::HashSet;
use std::fs::File;
use std::sync::Arc;

pub const PAGE_SIZES: &[u64] = &[1024, 64, 16, 24, 32, 128, 512, 1032, 4096, 4104, 8, 8192, 65536];

/// deterministic blob contents; some of them look like stored blobs themselves
pub fn content(tag: u8, len: usize) -> Vec<u8> {
    match tag % 4 {
        0 => vec![tag; len],
        1 => {
            // small big-endian numbers, so that every fourth position looks like a length
            (0..len).map(|i| if i % 4 == 3 { (i as u8) ^ tag } else { 0 }).collect()
        }
        _ => Val { tag, len }.bytes(),
    }
}

#[derive(Debug, Clone)]
pub enum POp {
    /// of the given length, cut to the limit
    Write(usize, u8),
    /// leave this many bytes free in the page
    Fill(usize, u8),
    /// of the limit minus this
    Max(usize, u8),
    TooBig(usize),
    Same(u8),
    Read(u8),
    ReadAll,
    /// keep the blob
    Hold(u8),
    Handle,
    Reopen,
    Sync,
    /// 4 GiB and this many zeros (only enumerated)
    Huge(u32),
    /// this many blobs of five to eight bytes more than a process can have mappings (only enumerated)
    Many(u32),
}

pub fn gen_pop(src: &mut Src, keep_open: bool) -> POp {
    match src.weighted(&[20, 14, 5, 2, 2, 6, 2, 4, 1, if keep_open { 0 } else { 5 }, 2]) {
        0 => POp::Write(match src.weighted(&[6, 3, 3, 1]) {
            0 => src.below(24),
            1 => src.below(130),
            2 => src.below(1100),
            _ => src.below(9000),
        }, src.u8()),
        1 => POp::Fill(src.pick(&[0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17]), src.u8()),
        2 => POp::Max(src.pick(&[0usize, 1, 2, 3, 4, 5, 8]), src.u8()),
        3 => POp::TooBig(src.pick(&[0usize, 1, 2, 3, 4, 5, 8, 100])),
        4 => POp::Same(src.u8()),
        5 => POp::Read(src.u8()),
        6 => POp::ReadAll,
        7 => POp::Hold(src.u8()),
        8 => POp::Handle,
        9 => POp::Reopen,
        _ => POp::Sync,
    }
}

pub fn limit(page: u64) -> usize {
    (page - 8) as usize
}

/// the blob to be written for an operation, given the last id
pub fn blob_for(op: &POp, page: u64, last: u64, written: &[(Vec<u8>, Vec<u8>)]) -> Option<Vec<u8>> {
    let lim = limit(page);
    Some(match op {
        POp::Write(n, t) => content(*t, (*n).min(lim)),
        POp::Max(d, t) => content(*t, lim.saturating_sub(*d)),
        POp::TooBig(d) => content(1, lim + 1 + d),
        POp::Fill(left, t) => {
            let free = (page - last % page) as usize;
            content(*t, free.saturating_sub(4 + left).min(lim))
        }
        POp::Same(i) => written.get(*i as usize % written.len().max(1))?.1.clone(),
        _ => return None,
    })
}

pub fn as_u64(id: &[u8]) -> Result<u64, String> {
    Ok(u64::from_be_bytes(id.try_into().map_err(|_| format!("an id of {} bytes", id.len()))?))
}

pub fn read_is(s: &impl BlobStore<Error = anyhow::Error>, id: &[u8], want: &[u8], what: &str) -> Res {
    match s.read(id) {
        Err(e) => fail!("{}: reading id {:?} fails: {:#}", what, id, e),
        Ok(b) => ensure!(&b[..] == want, "{}: id {:?} reads \"{}\" instead of \"{}\"", what, id, show(&b), show(want)),
    }
    Ok(())
}

#[derive(Debug)]
pub struct PCase {
    pub page: u64,
    pub ops: Vec<POp>,
}

/// the contents of a file that is not too large
fn image(f: &File, max: u64) -> Option<Vec<u8>> {
    let n = f.metadata().ok()?.len();
    if n > max {
        return None;
    }
    let mut v = vec![0; n as usize];
    std::os::unix::fs::FileExt::read_exact_at(f, &mut v, 0).ok()?;
    Some(v)
}

/// mostly one operation, sometimes many small writes
fn gen_pops(src: &mut Src) -> Vec<POp> {
    if src.chance(12) {
        let (n, len, tag) = (src.range(8, 40), src.below(12), src.u8());
        (0..n).map(|i| POp::Write(len, tag.wrapping_add(i as u8))).collect()
    } else {
        vec![gen_pop(src, false)]
    }
}

/// a file that cannot be a store, and a page size that cannot be one, are refused
fn refused(c: &PCase, cx: &mut Cx) -> Res {
    let n = c.ops.len() * 331 % 4095 + 1;
    let img = content(2, n);
    let f = sys::file_of(&img);
    ensure!(PagedFileStore::new(f.try_clone().unwrap(), c.page).is_err(), "a file of {} bytes was opened as a store", n);
    ensure!(image(&f, 1 << 20).as_deref() == Some(&img[..]), "a file of {} bytes that is no store was changed by opening it", n);
    let f = memfd();
    let page = c.page + 1 + n as u64 % 7;
    ensure!(PagedFileStore::new(f.try_clone().unwrap(), page).is_err(), "a page size of {} was accepted", page);
    cx.label("files and page sizes that are refused");
    Ok(())
}

fn run16(c: &PCase, cx: &mut Cx) -> Res {
    if c.ops.len() % 8 == 5 {
        refused(c, cx)?;
    }
    let f = memfd();
    let open = |f: &File| PagedFileStore::new(f.try_clone().unwrap(), c.page);
    let mut stores = vec![open(&f).map_err(|e| format!("creating the store: {:#}", e))?];
    ensure!(stores[0].last_id().is_none(), "a new store has a last id");
    let mut written: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    let mut ids: HashSet<Vec<u8>> = HashSet::new();
    let mut held: Vec<(Blob<'static>, Vec<u8>)> = vec![];
    let mut last: Option<Vec<u8>> = None;
    let (mut reopened, mut pages) = (0, 0u64);
    let mut h = 0usize;
    for (i, op) in c.ops.iter().enumerate() {
        let what = format!("step {} {:?}", i, op);
        h += 1;
        let s = stores[h % stores.len()].clone();
        let lid = last.as_deref().map(as_u64).transpose()?.unwrap_or(0);
        match op {
            POp::Read(k) => {
                if let Some((id, d)) = written.get(*k as usize % written.len().max(1)) {
                    read_is(&s, id, d, &what)?;
                }
            }
            POp::ReadAll => {
                for (id, d) in &written {
                    read_is(&s, id, d, &what)?;
                }
            }
            POp::Hold(k) => {
                if let Some((id, d)) = written.get(*k as usize % written.len().max(1)) {
                    let b = s.read(id).map_err(|e| format!("{}: {:#}", what, e))?;
                    ensure!(&b[..] == &d[..], "{}: wrong bytes", what);
                    held.push((b, d.clone()));
                }
            }
            POp::Handle => stores.push(s.clone()),
            POp::Sync => s.sync().map_err(|e| format!("{}: {:#}", what, e))?,
            POp::Huge(n) => {
                let len = (1 << 32) + *n as usize;
                // zeros that nobody has touched take no memory
                let zeros = unsafe {
                    let p = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
                    ensure!(p != libc::MAP_FAILED, "harness: no room for {} zeros", len);
                    std::slice::from_raw_parts(p as *const u8, len)
                };
                let r = s.write(zeros);
                unsafe {
                    libc::munmap(zeros.as_ptr() as *mut _, len);
                }
                if let Ok(id) = r {
                    drop(s);
                    stores.clear();
                    let s = open(&f).map_err(|e| format!("{}: {:#}", what, e))?;
                    let b = s.read(&id).map_err(|e| format!("{}: after reopening: {:#}", what, e))?;
                    ensure!(b.len() == len, "{}: a blob of {} bytes was accepted, and read back as {} bytes after reopening", what, len, b.len());
                    last = Some(id);
                    stores.push(s);
                }
                cx.label("a blob of 4 GiB");
            }
            POp::Many(n) => {
                let maps = std::fs::read_to_string("/proc/sys/vm/max_map_count").ok().and_then(|s| s.trim().parse::<u32>().ok());
                for i in 0..maps.filter(|n| *n < 1 << 18).unwrap_or(1 << 16) + n {
                    // one in a page of 16
                    let d = (i as u64).to_be_bytes()[i as usize % 4..].to_vec();
                    let id = s.write(&d).map_err(|e| format!("{}: writing blob {}: {:#}", what, i, e))?;
                    ensure!(ids.insert(id.clone()), "{}: the id {:?} was returned before", what, id);
                    last = Some(id.clone());
                    written.push((id, d));
                }
                pages = as_u64(last.as_ref().unwrap())? / c.page;
                cx.label("more pages than mappings");
            }
            POp::Reopen => {
                drop(s);
                stores.clear();
                let s = open(&f).map_err(|e| format!("{}: {:#}", what, e))?;
                ensure!(s.last_id().map(|x| x.to_vec()) == last, "{}: last_id is {:?}, expected {:?}", what, s.last_id(), last);
                stores.push(s);
                reopened += 1;
                cx.label("reopened");
            }
            _ => {
                let Some(d) = blob_for(op, c.page, lid, &written) else { continue };
                let fits = d.len() <= limit(c.page);
                match s.write(&d) {
                    Ok(id) => {
                        ensure!(fits, "{}: a blob of {} bytes was accepted", what, d.len());
                        ensure!(ids.insert(id.clone()), "{}: the id {:?} was returned before", what, id);
                        ensure!(s.last_id().map(|x| x.to_vec()).as_ref() == Some(&id), "{}: last_id is {:?} after writing {:?}", what, s.last_id(), id);
                        read_is(&s, &id, &d, &what)?;
                        pages = pages.max(as_u64(&id)? / c.page);
                        last = Some(id.clone());
                        // whoever opens the file now finds it
                        if let Some(img) = image(&f, if i % 4 == 0 { 1 << 15 } else { 1 << 11 }) {
                            let g = sys::file_of(&img);
                            let s = open(&g).map_err(|e| format!("{}: opening a copy of the file: {:#}", what, e))?;
                            ensure!(s.last_id().map(|x| x.to_vec()) == last, "{}: in a copy of the file last_id is {:?}, expected {:?}", what, s.last_id(), last);
                            read_is(&s, &id, &d, &format!("{}, in a copy of the file", what))?;
                            if let Some((id, d)) = written.get(i * 7 % written.len().max(1)) {
                                read_is(&s, id, d, &format!("{}, in a copy of the file", what))?;
                            }
                            cx.inner += 1;
                        }
                        written.push((id, d));
                    }
                    Err(e) => {
                        ensure!(!fits, "{}: a blob of {} bytes was rejected: {:#}", what, d.len(), e);
                        cx.label("rejected");
                        ensure!(s.last_id().map(|x| x.to_vec()) == last, "{}: last_id changed by a rejected write", what);
                    }
                }
            }
        }
        ensure!(stores[0].last_id().map(|x| x.to_vec()) == last, "{}: last_id is {:?}, expected {:?}", what, stores[0].last_id(), last);
    }
    for (n, s) in stores.iter().enumerate() {
        for (id, d) in &written {
            read_is(s, id, d, &format!("at the end, handle {}", n))?;
        }
    }
    stores.clear();
    for what in ["reopened at the end", "reopened once more"] {
        let s = open(&f).map_err(|e| format!("{}: {:#}", what, e))?;
        ensure!(s.last_id().map(|x| x.to_vec()) == last, "{}: last_id is {:?}, expected {:?}", what, s.last_id(), last);
        for (id, d) in written.iter().rev() {
            read_is(&s, id, d, what)?;
        }
        let d = content(3, 5.min(limit(c.page)));
        let id = s.write(&d).map_err(|e| format!("{}: write: {:#}", what, e))?;
        ensure!(ids.insert(id.clone()), "{}: the id {:?} was returned before", what, id);
        last = Some(id.clone());
        written.push((id, d));
        for (id, d) in written.iter() {
            read_is(&s, id, d, what)?;
        }
    }
    for (b, d) in &held {
        ensure!(&b[..] == &d[..], "a blob that was kept changed its content");
    }
    cx.label_if(pages >= 2, "three pages or more");
    cx.label_if(pages >= 2 && reopened > 0, "several pages and reopened");
    cx.nt_if(written.len() >= 5 && pages >= 1);
    Ok(())
}

pub fn gen_page(src: &mut Src) -> u64 {
    src.pick(PAGE_SIZES)
}

pub struct C16;
impl Property for C16 {
    type Case = PCase;
    const ID: &'static str = "C16";
    const CASES: (u64, u64) = (16_000, 8_000_000);
    const RULE: &'static str = "A case is a page size (8 to 65536, also not a multiple of the system's page) and a sequence of writes (of all sizes, up to the limit and over it, filling a page up to 0 to 17 bytes), reads through several handles, held blobs, syncs and reopens of one file; all ids ever returned are read back at the end, after reopening, and after further writes; last_id is compared after every step, and while the file is small, a copy of it is opened after every write and has the last id and blob. Non-trivial: at least three writes of the history plus a page boundary crossed.";
    fn gen(src: &mut Src) -> PCase {
        let page = gen_page(src);
        let ops = src.list(1, 60, 14, gen_pops).concat();
        PCase { page, ops }
    }
    fn run(c: &PCase, cx: &mut Cx) -> Res {
        run16(c, cx)
    }
    // two writes of every pair of lengths in a small page, then a reopen
    fn enum_count() -> u64 {
        3 * 24 * 24 * 5 + 2
    }
    fn enum_case(i: u64) -> PCase {
        // more pages than a process can map
        if i == 3 * 24 * 24 * 5 + 1 {
            return PCase { page: 16, ops: vec![POp::Many(2000), POp::Write(3, 1), POp::Handle, POp::Hold(0), POp::Reopen, POp::Read(5)] };
        }
        // more than a length prefix can say
        if i == 3 * 24 * 24 * 5 {
            return PCase { page: 1 << 33, ops: vec![POp::Write(5, 1), POp::Huge(5), POp::ReadAll] };
        }
        let page = [16u64, 24, 32][(i / (24 * 24 * 5)) as usize];
        let (a, b, d) = (i / 120 % 24, i / 5 % 24, i % 5);
        PCase { page, ops: vec![POp::Write(a as usize, 2), POp::Write(b as usize, 3), POp::Reopen, POp::Write(d as usize * 2, 7), POp::ReadAll] }
    }
}

// ---------------------------------------------------------------- invalid ids

#[derive(Debug, Clone)]
pub enum BadId {
    Bytes(B),
    Num(u64),
    /// a valid id plus this
    Near(u8, i32),
    /// the last id plus this
    After(i32),
    /// a valid id with bytes cut or appended
    Cut(u8, usize),
    Longer(u8, usize),
}

#[derive(Debug, Clone)]
pub enum IOp {
    P(POp),
    Bad(BadId),
}

#[derive(Debug)]
pub struct ICase {
    pub kind: u8,
    pub page: u64,
    pub ops: Vec<IOp>,
}

fn gen_bad(src: &mut Src) -> BadId {
    match src.weighted(&[2, 3, 6, 4, 2, 1]) {
        0 => {
            let n = src.pick(&[8usize, 0, 1, 7, 9, 16, 300]);
            BadId::Bytes(B((0..n).map(|_| src.u8()).collect()))
        }
        1 => BadId::Num(match src.below(8) {
            0 => 0,
            1 => src.below(10) as u64,
            2 => u64::MAX - src.below(5000) as u64,
            3 => (1 << 63) - 2 + src.below(5) as u64,
            4 => (i64::MAX as u64) - 4096 + src.below(10) as u64,
            5 => (i64::MAX as u64) - 4100 + src.below(10) as u64,
            6 => 1 << src.below(64),
            _ => src.u64(),
        }),
        2 => BadId::Near(src.u8(), src.pick(&[-1, 1, -2, 2, -3, 3, -4, 4, -5, -8, 8, -16, 16, -100, 100])),
        3 => BadId::After(src.pick(&[1, 2, 3, 4, 5, 8, 100, 1024, 4096, 70000])),
        4 => BadId::Cut(src.u8(), src.range(1, 8)),
        _ => BadId::Longer(src.u8(), src.range(1, 9)),
    }
}

fn run19(c: &ICase, cx: &mut Cx) -> Res {
    let f = memfd();
    let dynamic = c.kind >= 2;
    let mem = c.kind % 2 == 1;
    let open = |f: &File| -> Result<DynBlobStore, String> {
        Ok(if mem {
            Arc::new(MemStore::default())
        } else {
            let s = PagedFileStore::new(f.try_clone().unwrap(), c.page).map_err(|e| format!("open: {:#}", e))?;
            if dynamic {
                Arc::new(Arc::new(s) as DynBlobStore)
            } else {
                Arc::new(s)
            }
        })
    };
    cx.label(if mem { "memory store" } else { "paged file store" });
    let mut s = open(&f)?;
    let mut written: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    let (mut bad, mut answered) = (0, 0);
    for (i, op) in c.ops.iter().enumerate() {
        let what = format!("step {} {:?}", i, op);
        let last = written.last().map(|x| as_u64(&x.0)).transpose()?.unwrap_or(0);
        match op {
            IOp::P(POp::Reopen) if !mem => s = open(&f)?,
            IOp::P(POp::ReadAll) => {
                for (id, d) in &written {
                    read_is(&s, id, d, &what)?;
                }
            }
            IOp::P(p) => {
                if let Some(d) = blob_for(p, c.page, last, &written) {
                    if let Ok(id) = s.write(&d) {
                        read_is(&s, &id, &d, &what)?;
                        written.push((id, d));
                    }
                }
            }
            IOp::Bad(b) => {
                let pick = |k: &u8| written.get(*k as usize % written.len().max(1)).map(|x| x.0.clone()).unwrap_or(vec![0; 8]);
                let id = match b {
                    BadId::Bytes(x) => x.0.clone(),
                    BadId::Num(n) => n.to_be_bytes().to_vec(),
                    BadId::Near(k, d) => as_u64(&pick(k))?.wrapping_add(*d as i64 as u64).to_be_bytes().to_vec(),
                    BadId::After(d) => last.wrapping_add(*d as u64).to_be_bytes().to_vec(),
                    BadId::Cut(k, n) => {
                        let x = pick(k);
                        x[..x.len().saturating_sub(*n)].to_vec()
                    }
                    BadId::Longer(k, n) => {
                        let mut x = pick(k);
                        x.extend(std::iter::repeat_n(0, *n));
                        x
                    }
                };
                if written.iter().any(|x| x.0 == id) {
                    continue;
                }
                bad += 1;
                match s.read(&id) {
                    Ok(b) => {
                        answered += 1;
                        ensure!(id.len() == 8, "{}: an id of {} bytes was accepted", what, id.len());
                        ensure!(!mem, "{}: the memory store reads an id it never returned", what);
                        // the bytes have to be readable at least
                        let sum: u64 = b.iter().map(|x| *x as u64).sum();
                        std::hint::black_box(sum);
                    }
                    Err(_) => {}
                }
                // the last valid ids still read
                for (id, d) in written.iter().rev().take(3) {
                    read_is(&s, id, d, &format!("after {}", what))?;
                }
            }
        }
    }
    for (id, d) in &written {
        read_is(&s, id, d, "at the end")?;
    }
    if !mem {
        drop(s);
        let s = open(&f)?;
        for (id, d) in &written {
            read_is(&s, id, d, "reopened at the end")?;
        }
    }
    cx.label_if(answered > 0, "an invalid id gave bytes");
    cx.nt_if(bad > 0 && !written.is_empty());
    Ok(())
}

pub struct C19;
impl Property for C19 {
    type Case = ICase;
    const ID: &'static str = "C19";
    const CASES: (u64, u64) = (60_000, 12_000_000);
    const RULE: &'static str = "A case is a store (paged file with page sizes 8 to 65536, memory, dynamic) and a sequence of writes, reopens and reads with invalid ids: wrong length, zero, near the limits of the number type and of file offsets, beside valid ids, inside blobs whose bytes look like stored lengths, beyond the end. A read may give an error or bytes; it may not panic or crash, and all valid ids must still read, at once, later, and after reopening. Non-trivial: an invalid id is read while valid ones exist.";
    fn gen(src: &mut Src) -> ICase {
        let kind = src.weighted(&[8, 1, 2, 1]) as u8;
        let page = gen_page(src);
        let ops = src.list(1, 40, 10, |src| if src.chance(140) { IOp::Bad(gen_bad(src)) } else { IOp::P(gen_pop(src, false)) });
        ICase { kind, page, ops }
    }
    fn run(c: &ICase, cx: &mut Cx) -> Res {
        run19(c, cx)
    }
}

// ---------------------------------------------------------------- files that are no stores, or damaged ones

/// what happened to the file of a store
#[derive(Debug, Clone)]
pub enum Damage {
    /// a byte of the header
    Head(u16, u8),
    /// the number of bytes written, plus this
    Size(i64),
    SizeTo(u64),
    /// a byte anywhere
    Byte(u32, u8),
    /// the length of a blob becomes its id (or place in its page) plus this
    Len(u8, bool, i8),
    /// cut, by a part of it or to a few bytes around the header
    Cut(u16),
    CutTo(i16),
    /// bytes appended
    Zeros(u32),
    Garbage(u8, u16),
    /// something else altogether
    Other(u8, u16),
}

#[derive(Debug)]
pub struct DCase {
    pub page: u64,
    pub before: Vec<POp>,
    pub damage: Vec<Damage>,
    /// the page size it is opened with
    pub other: Option<u64>,
    pub after: Vec<IOp>,
}

const HEADER: usize = 4096;

fn gen_damage(src: &mut Src) -> Damage {
    match src.weighted(&[3, 6, 5, 5, 3, 2, 2, 2, 2, 6]) {
        0 => Damage::Head(src.below(HEADER) as u16, src.u8()),
        1 => Damage::Size(src.pick(&[-1i64, 1, 2, 3, 4, -2, -3, -4, 7, 8, -8, 16, -16, 100, -100, 1000, 1024, 4096, 5000, -1024, -5000, 100_000, 1 << 24])),
        2 => Damage::SizeTo(match src.weighted(&[1, 1, 1, 1, 1, 1, 3]) {
            0 => src.below(20) as u64,
            1 => u64::MAX - src.below(5000) as u64,
            2 => (i64::MAX as u64).wrapping_add(src.below(9000) as u64).wrapping_sub(5000),
            3 => src.below(70000) as u64,
            4 => 1 << src.range(62, 63),
            5 => src.u64() | 1 << 62,
            // a large store
            _ => (1u64 << src.pick(&[32, 31, 33, 40])) + src.below(9000) as u64 - 4500,
        }),
        3 => Damage::Byte(src.below(1 << 16) as u32, src.u8()),
        4 => Damage::Cut(src.below(1 << 16) as u16),
        5 => Damage::CutTo(src.below(40) as i16 - 10),
        6 => Damage::Zeros(src.pick(&[1u32, 4, 8, 100, 1024, 4096, 100_000])),
        7 => Damage::Garbage(src.u8(), src.below(3000) as u16),
        8 => Damage::Other(src.u8(), src.below(20000) as u16),
        _ => Damage::Len(src.u8(), src.chance(128), src.pick(&[-4i8, -3, -5, -1, 0, 1, -8, 4])),
    }
}

fn damage(img: &mut Vec<u8>, d: &Damage, old: &[(Vec<u8>, Vec<u8>)], page: u64) {
    let size = |img: &[u8]| img.get(16..24).map(|x| u64::from_be_bytes(x.try_into().unwrap()));
    match d {
        Damage::Head(at, b) => {
            if let Some(x) = img.get_mut(*at as usize) {
                *x = *b;
            }
        }
        Damage::Size(n) => {
            if let Some(s) = size(img) {
                img[16..24].copy_from_slice(&s.wrapping_add(*n as u64).to_be_bytes());
            }
        }
        Damage::SizeTo(n) => {
            if img.len() >= 24 {
                img[16..24].copy_from_slice(&n.to_be_bytes());
            }
        }
        Damage::Byte(at, b) => {
            let n = img.len().saturating_sub(HEADER);
            if n > 0 {
                img[HEADER + *at as usize % n] = *b;
            }
        }
        Damage::Len(k, whole, d) => {
            // mostly the last blob
            let k = if *k < 128 { old.len().saturating_sub(1) } else { *k as usize % old.len().max(1) };
            let Some(id) = old.get(k).and_then(|x| as_u64(&x.0).ok()) else { return };
            let n = if *whole { id } else { id % page };
            let at = HEADER + id as usize;
            if let Some(x) = img.get_mut(at - 4..at) {
                x.copy_from_slice(&(n.wrapping_add(*d as i64 as u64) as u32).to_be_bytes());
            }
        }
        Damage::Cut(x) => img.truncate(img.len() * *x as usize >> 16),
        Damage::CutTo(n) => img.truncate((HEADER as i64 + *n as i64) as usize),
        Damage::Zeros(n) => img.extend(std::iter::repeat_n(0, *n as usize)),
        Damage::Garbage(t, n) => img.extend(content(*t, *n as usize)),
        Damage::Other(t, n) => *img = content(*t, *n as usize),
    }
}

fn run32(c: &DCase, cx: &mut Cx) -> Res {
    // a store
    let f = memfd();
    let mut old: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    {
        let s = PagedFileStore::new(f.try_clone().unwrap(), c.page).map_err(|e| format!("creating the store: {:#}", e))?;
        for op in &c.before {
            let last = old.last().map(|x| as_u64(&x.0)).transpose()?.unwrap_or(0);
            if let Some(d) = blob_for(op, c.page, last, &old) {
                if let Ok(id) = s.write(&d) {
                    old.push((id, d));
                }
            }
        }
    }
    let mut img = image(&f, 1 << 30).ok_or("reading the file")?;
    let sound = img.clone();
    for d in &c.damage {
        damage(&mut img, d, &old, c.page);
    }
    let page = c.other.unwrap_or(c.page);
    let size = img.get(16..24).map_or(0, |x| u64::from_be_bytes(x.try_into().unwrap()));
    // the contents of a huge file are not looked at
    let huge = size > 1 << 25;
    // next to the largest offset a file can have, mapping a page fails
    let full = size > 1 << 60;
    let f = sys::file_of(&img);
    let s = match PagedFileStore::new(f.try_clone().unwrap(), page) {
        Ok(s) => s,
        Err(_) => {
            cx.label("refused");
            ensure!(huge || image(&f, 1 << 33).as_deref() == Some(&img[..]), "a file that is refused was changed");
            cx.nt_if(img != sound);
            return Ok(());
        }
    };
    cx.label(if img.len() < HEADER { "a new store" } else { "opened" });
    if !huge && !img.is_empty() {
        let now = image(&f, 1 << 33).ok_or("reading the file")?;
        let n = img.len().min(size as usize + HEADER);
        ensure!(now.get(..n) == Some(&img[..n]), "opening changed what is in the file");
    }
    let mut written: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    let read = |id: &[u8]| {
        if let Ok(b) = s.read(id) {
            // the bytes have to be there
            std::hint::black_box(b.iter().map(|x| *x as u64).sum::<u64>());
        }
    };
    let last = s.last_id();
    last.iter().for_each(|l| read(l));
    for (id, _) in &old {
        read(id);
    }
    for (i, op) in c.after.iter().enumerate() {
        let what = format!("step {} {:?}", i, op);
        let last = s.last_id().map(u64::from_be_bytes).unwrap_or(0);
        match op {
            IOp::Bad(BadId::Num(n)) if !huge => read(&n.to_be_bytes()),
            IOp::Bad(BadId::After(d)) if !huge => read(&last.wrapping_add(*d as u64).to_be_bytes()),
            IOp::Bad(BadId::Near(k, d)) if !huge => {
                let id = old.get(*k as usize % old.len().max(1)).map_or(last, |x| u64::from_be_bytes(x.0[..].try_into().unwrap()));
                read(&id.wrapping_add(*d as i64 as u64).to_be_bytes());
            }
            IOp::P(p) if !full => {
                let d = match p {
                    POp::Write(n, t) => content(*t, (*n).min(page.saturating_sub(8) as usize)),
                    _ if page < 8 || page > 1 << 20 => continue,
                    p => match blob_for(p, page, last, &written) {
                        Some(d) => d,
                        None => continue,
                    },
                };
                // the rest of a huge page would be filled with zeros
                if page > 1 << 24 && last % page + d.len() as u64 + 4 >= page {
                    continue;
                }
                match s.write(&d) {
                    Ok(id) => {
                        cx.label_if(as_u64(&id)? >> 32 > 0, "written beyond 4 GiB");
                        ensure!(as_u64(&id)? > last, "{}: the id {:?} is not larger than {}", what, id, last);
                        ensure!(!written.iter().any(|x| x.0 == id), "{}: the id {:?} was returned before", what, id);
                        ensure!(s.last_id().map(|x| x.to_vec()).as_ref() == Some(&id), "{}: last_id is {:?} after writing {:?}", what, s.last_id(), id);
                        written.push((id, d));
                        cx.label("written to");
                    }
                    Err(e) => {
                        cx.label("a blob is refused");
                        let fits = (d.len() as u64) <= page.saturating_sub(8) && page >= 8;
                        ensure!(!fits, "{}: a blob of {} bytes was rejected: {:#}", what, d.len(), e);
                    }
                }
            }
            _ => {}
        }
        for (id, d) in &written {
            read_is(&s, id, d, &what)?;
        }
    }
    drop(s);
    if !written.is_empty() {
        let s = PagedFileStore::new(f.try_clone().unwrap(), page).map_err(|e| format!("opened again: {:#}", e))?;
        ensure!(s.last_id().as_ref().map(|x| &x[..]) == written.last().map(|x| &x.0[..]), "opened again, the last id is {:?}", s.last_id());
        for (id, d) in &written {
            read_is(&s, id, d, "opened again")?;
        }
    }
    cx.label_if(huge, "of a huge size");
    cx.label_if(page != c.page, "opened with another page size");
    cx.nt_if(img != sound);
    Ok(())
}

pub struct C32;
impl Property for C32 {
    type Case = DCase;
    const ID: &'static str = "C32";
    const CASES: (u64, u64) = (20_000, 4_000_000);
    const RULE: &'static str = "A case is a paged file store with some blobs, whose file is then damaged: bytes of the header or the data changed, the recorded size changed a little, to a random, or to a huge number, the file cut, extended, or replaced by something else; it is opened with the same or another page size (also 0, not a multiple of 8, or huge), read with old, random and nearby ids, written to, and opened again. Non-trivial: the damage changed the file.";
    fn gen(src: &mut Src) -> DCase {
        let page = gen_page(src);
        let before = src.list(0, 20, 6, gen_pops).concat();
        let damage = src.list(0, 4, 1, gen_damage);
        let other = src.chance(90).then(|| match src.below(4) {
            0 => src.pick(&[0u64, 8, 16, 24, 4, 7, 1, 12]),
            1 => src.pick(&[1u64 << 31, 1 << 32, 1 << 33, 1 << 40, 1 << 62, 1 << 63, u64::MAX - 7, u64::MAX, i64::MAX as u64 - 7]),
            _ => gen_page(src),
        });
        let after = src.list(0, 20, 6, |s| if s.chance(128) { IOp::P(gen_pop(s, true)) } else { IOp::Bad(gen_bad(s)) });
        DCase { page, before, damage, other, after }
    }
    fn run(c: &DCase, cx: &mut Cx) -> Res {
        run32(c, cx)
    }
}
