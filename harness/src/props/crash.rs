//! The paged file store under crashes, power loss and failing file operations.
use super::paged::*;
use crate::engine::{Cx, Property, Res};
use crate::gen::*;
use crate::model::{self, Map};
use crate::stores::memfd;
use crate::sys::{self, apply, file_of, Fail, FileOp, Plan};
use crate::tape::{Rng, Src};
use crate::tree::*;
use crate::{ensure, fail};
use radixdb::store::{Blob, BlobStore, DynBlobStore, PagedFileStore};
use radixdb::RadixTree;
use std::collections::HashSet;
use std::fs::File;
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone)]
struct W {
    start: usize,
    ack: usize,
    id: Vec<u8>,
    data: Vec<u8>,
}

/// the paged store, remembering which writes were acknowledged when
#[derive(Clone, Debug)]
struct LogStore {
    s: PagedFileStore,
    w: Arc<Mutex<Vec<W>>>,
    inflight: Arc<Mutex<Option<(usize, Vec<u8>)>>>,
}

impl BlobStore for LogStore {
    type Error = anyhow::Error;
    fn read(&self, id: &[u8]) -> anyhow::Result<Blob<'static>> {
        self.s.read(id)
    }
    fn write(&self, data: &[u8]) -> anyhow::Result<Vec<u8>> {
        let start = sys::log_len();
        *self.inflight.lock().unwrap() = Some((start, data.to_vec()));
        let r = self.s.write(data);
        *self.inflight.lock().unwrap() = None;
        let id = r?;
        self.w.lock().unwrap().push(W { start, ack: sys::log_len(), id: id.clone(), data: data.to_vec() });
        Ok(id)
    }
    fn sync(&self) -> anyhow::Result<()> {
        // any handle will do
        match self.w.lock().unwrap().len() % 4 {
            0 => self.s.clone().sync(),
            1 => DynBlobStore::sync(&(Arc::new(self.s.clone()) as DynBlobStore)),
            2 => DynBlobStore::sync(&(Arc::new(Arc::new(self.s.clone()) as DynBlobStore) as DynBlobStore)),
            _ => self.s.sync(),
        }
    }
    fn needs_deep_detach(&self) -> bool {
        self.s.needs_deep_detach()
    }
}

#[derive(Debug, Clone)]
pub enum Step {
    P(POp),
    /// change the tree and write it
    Tree(Vec<Op>),
    /// the operation while this fails
    Faulty(POp, Plan),
}

#[derive(Debug)]
pub struct CrashCase {
    pub page: u64,
    /// each session ends with a crash, and the next one goes on from one of the images
    pub sessions: Vec<(Vec<Step>, u64)>,
}

#[derive(Clone)]
struct Root {
    id: Vec<u8>,
    map: Map,
    ack: usize,
}

/// what one session did
struct Session {
    base: Vec<u8>,
    log: Vec<FileOp>,
    /// writes of earlier sessions have ack 0
    writes: Vec<W>,
    roots: Vec<Root>,
    /// log position when a sync returned, number of writes and roots acknowledged before it was called
    syncs: Vec<(usize, usize, usize)>,
}

fn open(f: &File, page: u64, what: &str) -> Result<PagedFileStore, String> {
    PagedFileStore::new(f.try_clone().unwrap(), page).map_err(|e| format!("{}: opening the file fails: {:#}", what, e))
}

fn session(page: u64, base: Vec<u8>, writes: Vec<W>, roots: Vec<Root>, steps: &[Step], cx: &mut Cx) -> Result<Session, String> {
    let f = file_of(&base);
    sys::start(&f, true);
    let r = (|| {
        let w = Arc::new(Mutex::new(writes));
        let mk = |s| LogStore { s, w: w.clone(), inflight: Default::default() };
        let mut s = mk(open(&f, page, "at the start of a session")?);
        let mut roots = roots;
        let mut syncs = vec![];
        let mut tree: Option<(RadixTree<LogStore>, Map)> = None;
        for (i, st) in steps.iter().enumerate() {
            let what = format!("step {} {:?}", i, st);
            let written: Vec<(Vec<u8>, Vec<u8>)> = w.lock().unwrap().iter().map(|w| (w.id.clone(), w.data.clone())).collect();
            let plan = if let Step::Faulty(_, p) = st { Some(*p) } else { None };
            match st {
                Step::P(POp::Reopen) | Step::Faulty(POp::Reopen, _) => {
                    tree = None;
                    drop(s);
                    sys::arm(plan);
                    let r = open(&f, page, &what);
                    let (_, hits) = sys::disarm();
                    s = mk(match r {
                        Err(_) if hits > 0 => open(&f, page, &format!("again after {}", what))?,
                        r => r?,
                    });
                    ensure!(s.s.last_id().map(|x| x.to_vec()).as_ref() == written.last().map(|w| &w.0), "{}: last_id is {:?}", what, s.s.last_id());
                }
                Step::P(POp::Sync) | Step::Faulty(POp::Sync, _) => {
                    let (nw, nr) = (written.len(), roots.len());
                    sys::arm(plan);
                    let r = s.sync();
                    let (_, hits) = sys::disarm();
                    match r {
                        Err(e) if hits == 0 => return Err(format!("{}: {:#}", what, e)),
                        Err(_) => cx.label("a sync failed"),
                        Ok(()) => syncs.push((sys::log_len(), nw, nr)),
                    }
                }
                Step::Faulty(POp::Read(_) | POp::Hold(_) | POp::ReadAll, _) => {}
                Step::P(POp::Read(k)) | Step::P(POp::Hold(k)) => {
                    if let Some((id, d)) = written.get(*k as usize % written.len().max(1)) {
                        read_is(&s.s, id, d, &what)?;
                    }
                }
                Step::P(POp::ReadAll) => {
                    for (id, d) in &written {
                        read_is(&s.s, id, d, &what)?;
                    }
                }
                Step::P(POp::Handle) | Step::Faulty(POp::Handle, _) => {}
                Step::P(p) | Step::Faulty(p, _) => {
                    let last = written.last().map(|x| as_u64(&x.0)).transpose()?.unwrap_or(0);
                    let Some(d) = blob_for(p, page, last, &written) else { continue };
                    sys::arm(plan);
                    let r = s.write(&d);
                    let (_, hits) = sys::disarm();
                    match r {
                        Ok(_) => {}
                        Err(_) if hits > 0 => cx.label("a write failed"),
                        Err(e) => ensure!(d.len() > limit(page), "{}: {:#}", what, e),
                    }
                }
                Step::Tree(ops) => {
                    let (mut t, mut m) = match tree.take() {
                        Some(x) => x,
                        None => match roots.last() {
                            Some(r) => (RadixTree::try_load(s.clone(), Some(&r.id)).map_err(|e| format!("{}: load: {:#}", what, e))?, r.map.clone()),
                            None => (RadixTree::empty(s.clone()), Map::default()),
                        },
                    };
                    let mut large = false;
                    for op in ops {
                        let mut a = Att(t);
                        if let Err(e) = a.op(op) {
                            // a value or node may be larger than a page; the tree is then not kept
                            ensure!(format!("{:#}", e).contains("too large"), "{}: {:#}", what, e);
                            large = true;
                        }
                        t = a.0;
                        m = model::apply(&m, op);
                    }
                    if large {
                        continue;
                    }
                    match t.try_reattach() {
                        Ok(id) => {
                            roots.push(Root { id, map: m.clone(), ack: sys::log_len() });
                            cx.label("a tree was written");
                            tree = Some((t, m));
                        }
                        Err(e) => {
                            ensure!(format!("{:#}", e).contains("too large"), "{}: reattach: {:#}", what, e);
                        }
                    }
                }
            }
        }
        let writes = w.lock().unwrap().clone();
        Ok((writes, roots, syncs))
    })();
    let t = sys::stop();
    let (writes, roots, syncs) = r?;
    Ok(Session { base, log: t.log, writes, roots, syncs })
}

/// the store opened on an image has these blobs and roots, and can be used
fn usable(img: &[u8], page: u64, must: &[W], may_last: Option<&[Option<Vec<u8>>]>, roots: &[Root], salt: u64, what: &str) -> Result<(Vec<u8>, Option<Vec<u8>>), String> {
    let f = file_of(img);
    let s = open(&f, page, what)?;
    let last = s.last_id().map(|x| x.to_vec());
    if let Some(may) = may_last {
        ensure!(may.contains(&last), "{}: last_id is {:?}, expected one of {:?}", what, last, may);
    }
    for w in must {
        read_is(&s, &w.id, &w.data, what)?;
    }
    let lim = limit(page);
    let more: Vec<Vec<u8>> = match salt % 3 {
        0 => vec![content(3, 5.min(lim)), content(2, lim)],
        1 => vec![content(6, lim), vec![], content(7, (lim / 2).max(1).min(lim))],
        _ => {
            let free = (page - last.as_deref().map(as_u64).transpose()?.unwrap_or(0) % page) as usize;
            vec![content(2, free.saturating_sub(5).min(lim)), content(3, 9.min(lim))]
        }
    };
    let out = match may_last {
        Some(_) => {
            let mut buf = vec![];
            use std::io::{Read, Seek};
            let mut f2 = f.try_clone().unwrap();
            f2.rewind().unwrap();
            f2.read_to_end(&mut buf).unwrap();
            buf
        }
        None => vec![],
    };
    let mut ids: HashSet<Vec<u8>> = must.iter().map(|w| w.id.clone()).collect();
    let mut new: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    let mut s = s;
    for d in more {
        let id = s.write(&d).map_err(|e| format!("{}: a later write of {} bytes fails: {:#}", what, d.len(), e))?;
        ensure!(ids.insert(id.clone()), "{}: a later write returns the id {:?} again", what, id);
        new.push((id, d));
    }
    for round in 0..2 {
        let what = format!("{}{}", what, [" and later writes", ", later writes and reopening"][round]);
        ensure!(s.last_id().map(|x| x.to_vec()).as_ref() == new.last().map(|x| &x.0), "{}: last_id is {:?}", what, s.last_id());
        for w in must.iter().rev() {
            read_is(&s, &w.id, &w.data, &what)?;
        }
        for (id, d) in &new {
            read_is(&s, id, d, &what)?;
        }
        for r in roots {
            let t = RadixTree::try_load(s.clone(), Some(&r.id)).map_err(|e| format!("{}: loading root {:?}: {:#}", what, r.id, e))?;
            same_entries(&Att(t), &r.map, &format!("{}: root {:?}", what, r.id))?;
        }
        if round == 0 {
            drop(s);
            s = open(&f, page, &what)?;
        }
    }
    Ok((out, last))
}

fn is_header(op: &FileOp) -> bool {
    matches!(op, FileOp::Write(off, d) if off + d.len() as u64 <= 4096)
}

fn name(op: Option<&FileOp>) -> String {
    match op {
        None => "nothing".into(),
        Some(FileOp::Write(o, d)) => format!("a write of {} bytes at {}", d.len(), o),
        Some(FileOp::Trunc(n)) => format!("set_len {}", n),
        Some(FileOp::Sync) => "a flush".into(),
    }
}

fn run17(c: &CrashCase, cx: &mut Cx) -> Res {
    let mut base = vec![];
    let mut writes: Vec<W> = vec![];
    let mut roots: Vec<Root> = vec![];
    for (n, (steps, pick)) in c.sessions.iter().enumerate() {
        let s = session(c.page, base, writes, roots, steps, cx)?;
        let mut rng = Rng::new(*pick);
        // all cuts (p, bytes of operation p that were done)
        let mut cuts: Vec<(usize, usize)> = vec![];
        for p in 0..=s.log.len() {
            cuts.push((p, 0));
            if let Some(op @ FileOp::Write(_, d)) = s.log.get(p) {
                if !is_header(op) {
                    for k in [1, d.len() / 2, d.len().saturating_sub(1)] {
                        if k > 0 && k < d.len() && cuts.last() != Some(&(p, k)) {
                            cuts.push((p, k));
                        }
                    }
                }
            }
        }
        let total = cuts.len();
        while cuts.len() > 60 {
            let i = rng.below(cuts.len() as u64) as usize;
            cuts.swap_remove(i);
        }
        cuts.sort();
        let chosen = rng.below(cuts.len() as u64) as usize;
        let (mut img, mut done) = (s.base.clone(), 0);
        let mut next = None;
        for (i, (p, k)) in cuts.iter().enumerate() {
            while done < *p {
                apply(&mut img, &s.log[done], usize::MAX);
                done += 1;
            }
            let mut cut = img.clone();
            if *k > 0 {
                apply(&mut cut, &s.log[*p], *k);
            }
            let what = format!("session {}: crash after {} file operations ({}){}", n, p, name(p.checked_sub(1).and_then(|p| s.log.get(p))), if *k > 0 { format!(" and {} bytes of the next ({})", k, name(s.log.get(*p))) } else { String::new() });
            let acked: Vec<W> = s.writes.iter().filter(|w| w.ack <= *p).cloned().collect();
            let inflight: Vec<&W> = s.writes.iter().filter(|w| w.start <= *p && w.ack > *p).collect();
            ensure!(inflight.len() <= 1, "two writes in flight");
            let mut may = vec![acked.last().map(|w| w.id.clone())];
            may.extend(inflight.iter().map(|w| Some(w.id.clone())));
            let rs: Vec<Root> = s.roots.iter().filter(|r| r.ack <= *p).cloned().collect();
            let recent = if rs.len() > 4 && i != chosen { rs[rs.len() - 4..].to_vec() } else { rs.clone() };
            cx.inner += 1;
            // the blob in flight has to be complete if it is named
            let f = file_of(&cut);
            let st = open(&f, c.page, &what)?;
            let last = st.last_id().map(|x| x.to_vec());
            let mut must = acked.clone();
            if let Some(w) = inflight.iter().find(|w| Some(&w.id) == last.as_ref()) {
                must.push((*w).clone());
                cx.label("the blob in flight survived");
            }
            drop(st);
            let (out, _) = usable(&cut, c.page, &must, Some(&may), &recent, rng.next(), &what)?;
            if i == chosen {
                for w in &mut must {
                    w.start = 0;
                    w.ack = 0;
                }
                let mut rs = rs;
                for r in &mut rs {
                    r.ack = 0;
                }
                // the next session sees the file before or after it was opened once
                next = Some((if rng.below(2) == 0 { out } else { cut }, must, rs));
            }
            cx.label_if(*k > 0, "crash inside a write");
            cx.label_if(!acked.is_empty() && !inflight.is_empty(), "crash with a write in flight");
            cx.label_if(!rs_empty(&recent), "a root to load after the crash");
        }
        cx.label_if(total > 60, "cuts sampled");
        cx.label_if(n > 0, "a session after a crash");
        cx.nt_if(s.writes.len() >= 3);
        let (b, w, r) = next.unwrap();
        base = b;
        writes = w;
        roots = r;
    }
    Ok(())
}

fn rs_empty(r: &[Root]) -> bool {
    r.is_empty()
}

fn gen_steps(src: &mut Src, page: u64, sync: u32) -> Vec<Step> {
    let keys = gen_keys_with(src, false);
    let base = Contents(vec![]);
    let trees = page >= 512 && src.chance(120);
    src.list(1, 24, 7, |src| {
        if sync > 0 && src.chance(sync) {
            return if src.chance(30) { Step::Faulty(POp::Sync, gen_plan(src)) } else { Step::P(POp::Sync) };
        }
        if trees && src.chance(110) {
            Step::Tree(src.list(0, 8, 3, |src| gen_op(src, &keys, &base)))
        } else {
            let p = gen_pop(src, false);
            if src.chance(20) {
                Step::Faulty(p, gen_plan(src))
            } else {
                Step::P(p)
            }
        }
    })
}

const CRASH_PAGES: &[u64] = &[1024, 64, 16, 24, 32, 128, 512, 1032, 4096, 4104, 8, 8192];

pub struct C17;
impl Property for C17 {
    type Case = CrashCase;
    const ID: &'static str = "C17";
    const LEVEL: &'static str = "fault_enumeration";
    const CASES: (u64, u64) = (1_400, 280_000);
    const RULE: &'static str = "A case is a page size and one to three sessions of writes (all sizes, filling pages to 0 to 17 bytes), tree changes with reattach, syncs and reopens, run against the real store while its file operations are recorded; now and then file operations of a step fail. Every prefix of the recorded operations, also cut inside a data write (1, n/2, n-1 bytes), is a crash image (60 sampled if there are more); each is opened with the real store: all acknowledged blobs and roots, last_id, further writes, and reopening once more are checked. One image per session is where the next session goes on. Non-trivial: at least three writes.";
    const ASSUMPTIONS: &'static [&'static str] = &["a write inside the first 4096 bytes (the file header) and set_len happen completely or not at all", "a crash of the process keeps the operations it completed, in order"];
    fn init() {
        sys::self_test();
    }
    fn gen(src: &mut Src) -> CrashCase {
        let page = src.pick(CRASH_PAGES);
        let sessions = src.list(1, 3, 1, |src| (gen_steps(src, page, 0), src.u8() as u64));
        CrashCase { page, sessions }
    }
    fn run(c: &CrashCase, cx: &mut Cx) -> Res {
        run17(c, cx)
    }
    fn enum_count() -> u64 {
        2 * 24 * 24
    }
    fn enum_case(i: u64) -> CrashCase {
        let page = [16u64, 32][(i / 576) as usize];
        let (a, b) = (i / 24 % 24, i % 24);
        CrashCase { page, sessions: vec![(vec![Step::P(POp::Write(a as usize, 2)), Step::P(POp::Write(b as usize, 3)), Step::P(POp::Write(3, 5))], i)] }
    }
}

// ---------------------------------------------------------------- power loss

/// what became of an operation that was not flushed
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fate {
    Lost,
    Done,
    /// only the first bytes
    Part(usize),
    /// the file grew but the bytes are zero
    Grown,
}

fn run18(c: &CrashCase, cx: &mut Cx) -> Res {
    let mut base = vec![];
    let mut writes: Vec<W> = vec![];
    let mut roots: Vec<Root> = vec![];
    for (n, (steps, pick)) in c.sessions.iter().enumerate() {
        let s = session(c.page, base, writes, roots, steps, cx)?;
        let mut rng = Rng::new(*pick ^ 0x18);
        let mut next = None;
        // crash points: after every return of a sync, and a few others
        let mut points: Vec<usize> = s.syncs.iter().map(|x| x.0).collect();
        for (at, _, _) in &s.syncs {
            points.push((at + 1).min(s.log.len()));
            points.push((at + 3).min(s.log.len()));
        }
        for _ in 0..4 {
            points.push(rng.below(s.log.len() as u64 + 1) as usize);
        }
        points.push(s.log.len());
        points.sort();
        points.dedup();
        while points.len() > 12 {
            let i = rng.below(points.len() as u64) as usize;
            points.remove(i);
        }
        for p in points {
            if s.base.is_empty() && !s.syncs.iter().any(|x| x.0 <= p) {
                // nothing is promised about a new file before the first sync
                continue;
            }
            let flushed = s.log[..p].iter().rposition(|o| *o == FileOp::Sync).map(|i| i + 1).unwrap_or(0);
            let mut durable = s.base.clone();
            for op in &s.log[..flushed] {
                apply(&mut durable, op, usize::MAX);
            }
            let (nw, nr) = s.syncs.iter().filter(|x| x.0 <= p).map(|x| (x.1, x.2)).last().unwrap_or((0, 0));
            // what earlier sessions left is durable
            let old = s.writes.iter().take_while(|w| w.ack == 0).count();
            let oldr = s.roots.iter().take_while(|w| w.ack == 0).count();
            let must: Vec<W> = s.writes[..nw.max(old)].to_vec();
            let rs: Vec<Root> = s.roots[..nr.max(oldr)].to_vec();
            let pending: Vec<usize> = (flushed..p).collect();
            let m = pending.len();
            let mut fates: Vec<Vec<Fate>> = vec![vec![Fate::Lost; m], vec![Fate::Done; m]];
            if m > 0 {
                for _ in 0..3 {
                    let i = rng.below(m as u64) as usize;
                    let mut a = vec![Fate::Done; m];
                    a[i] = Fate::Lost;
                    fates.push(a);
                    let mut a = vec![Fate::Lost; m];
                    a[i] = Fate::Done;
                    fates.push(a);
                }
                for _ in 0..6 {
                    fates.push(
                        pending
                            .iter()
                            .map(|i| match (rng.below(6), &s.log[*i]) {
                                (0..=1, _) => Fate::Lost,
                                (2, FileOp::Write(_, d)) if !is_header(&s.log[*i]) => Fate::Part(rng.below(d.len() as u64 + 1) as usize),
                                (3, FileOp::Write(..)) if !is_header(&s.log[*i]) => Fate::Grown,
                                _ => Fate::Done,
                            })
                            .collect(),
                    );
                }
            }
            let chosen = rng.below(fates.len() as u64) as usize;
            for (k, fate) in fates.iter().enumerate() {
                let mut img = durable.clone();
                for (i, f) in pending.iter().zip(fate) {
                    match f {
                        Fate::Lost => {}
                        Fate::Done => apply(&mut img, &s.log[*i], usize::MAX),
                        Fate::Part(n) => apply(&mut img, &s.log[*i], *n),
                        Fate::Grown => {
                            if let FileOp::Write(o, d) = &s.log[*i] {
                                let end = *o as usize + d.len();
                                if img.len() < end {
                                    img.resize(end, 0);
                                }
                            }
                        }
                    }
                }
                let what = format!("session {}: power loss after {} file operations, {} of them flushed, then {:?}", n, p, flushed, fate);
                cx.inner += 1;
                let recent = if rs.len() > 3 { &rs[rs.len() - 3..] } else { &rs[..] };
                let (_, last) = usable(&img, c.page, &must, None, recent, rng.next(), &what)?;
                cx.label_if(m > 0 && !must.is_empty(), "unflushed operations after a sync");
                cx.label_if(!rs.is_empty(), "a root to load after the power loss");
                // go on from an image whose last blob is one that has to be there
                if k == chosen && last.as_ref() == must.last().map(|w| &w.id) && (next.is_none() || rng.below(2) == 0) {
                    let (mut w, mut r) = (must.clone(), rs.clone());
                    w.iter_mut().for_each(|w| (w.start, w.ack) = (0, 0));
                    r.iter_mut().for_each(|r| r.ack = 0);
                    next = Some((img, w, r));
                }
            }
        }
        cx.nt_if(s.syncs.iter().any(|x| x.1 > 0));
        cx.label_if(n > 0, "a session after a power loss");
        match next {
            Some((b, w, r)) => (base, writes, roots) = (b, w, r),
            None => break,
        }
    }
    Ok(())
}

pub struct C18;
impl Property for C18 {
    type Case = CrashCase;
    const ID: &'static str = "C18";
    const LEVEL: &'static str = "fault_enumeration";
    const CASES: (u64, u64) = (2_000, 400_000);
    const RULE: &'static str = "A case is a page size and one to three sessions of writes, tree changes with reattach, syncs and reopens, run against the real store while its file operations are recorded; now and then file operations of a step, also of a sync, fail. Crash points are the returns of sync, shortly after, and random ones (at most 12 per session); only operations before the last completed flush of the file are durable, and of the later ones none, all, all but one, only one, and random subsets (also a part of a data write, or the file grown with zeros) are applied. Each image is opened with the real store: it opens, every blob and root acknowledged before a returned sync reads, further writes work, also after reopening. Non-trivial: a sync after a write.";
    const ASSUMPTIONS: &'static [&'static str] = &["a write inside the first 4096 bytes (the file header) and set_len happen completely or not at all", "fsync or fdatasync of the file makes all earlier operations on it durable", "the directory entry of the file is made durable by its creator"];
    fn init() {
        sys::self_test();
    }
    fn gen(src: &mut Src) -> CrashCase {
        let page = src.pick(CRASH_PAGES);
        let sessions = src.list(1, 3, 1, |src| (gen_steps(src, page, 50), src.u8() as u64));
        CrashCase { page, sessions }
    }
    fn run(c: &CrashCase, cx: &mut Cx) -> Res {
        run18(c, cx)
    }
}

// ---------------------------------------------------------------- failing file operations

#[derive(Debug, Clone)]
pub enum FOp {
    P(POp),
    /// the operation while this fails
    Faulty(POp, Plan),
}

#[derive(Debug)]
pub struct FCase {
    pub page: u64,
    pub ops: Vec<FOp>,
}

fn gen_plan(src: &mut Src) -> Plan {
    let all = sys::DATA | sys::HEADER | sys::TRUNC | sys::FSYNC | sys::READ | sys::MMAP;
    let kinds = src.pick(&[all, sys::DATA, sys::DATA | sys::HEADER, sys::HEADER, sys::MMAP, sys::READ, sys::TRUNC, sys::FSYNC, all & !sys::HEADER, sys::READ | sys::MMAP]);
    let errno = src.pick(&[libc::EIO, libc::ENOSPC, libc::EINTR, libc::EFBIG, libc::EDQUOT]);
    Plan {
        kinds,
        skip: src.pick(&[0u64, 0, 1, 2, 3, 4, 5, 8]),
        len: src.pick(&[1u64, 1, 2, 3, 1000]).min(if errno == libc::EINTR { 3 } else { 1000 }),
        fail: if src.chance(70) { Fail::Short(errno) } else { Fail::Errno(errno) },
    }
}

fn run26(c: &FCase, cx: &mut Cx) -> Res {
    let f = memfd();
    sys::start(&f, true);
    let r = run26_in(c, cx, &f);
    sys::stop();
    r
}

fn run26_in(c: &FCase, cx: &mut Cx, f: &File) -> Res {
    let mut s = open(f, c.page, "creating")?;
    let mut written: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    let mut ids: HashSet<Vec<u8>> = HashSet::new();
    let mut held: Vec<(Blob<'static>, Vec<u8>)> = vec![];
    let (mut failed, mut after) = (0, 0);
    for (i, op) in c.ops.iter().enumerate() {
        let what = format!("step {} {:?}", i, op);
        let (op, plan) = match op {
            FOp::P(p) => (p, None),
            FOp::Faulty(p, f) => (p, Some(*f)),
        };
        let last = written.last().map(|x| as_u64(&x.0)).transpose()?.unwrap_or(0);
        let pick = |k: &u8| written.get(*k as usize % written.len().max(1)).cloned();
        let mut check_last = true;
        match op {
            POp::Reopen => {
                drop(s);
                sys::arm(plan);
                let r = open(f, c.page, &what);
                let (_, hits) = sys::disarm();
                s = match r {
                    Ok(s) => s,
                    Err(e) => {
                        ensure!(hits > 0, "{}", e);
                        failed += 1;
                        cx.label("opening failed");
                        open(f, c.page, &format!("again after {}", what))?
                    }
                };
                cx.label_if(failed > 0, "reopened after a failure");
            }
            POp::Sync => {
                let n = sys::log_len();
                sys::arm(plan);
                let r = s.sync();
                let (hit, hits) = sys::disarm();
                let flushed = sys::log_len() > n;
                match r {
                    Ok(()) => ensure!(hit & sys::FSYNC == 0 || flushed, "{}: sync returns although the flush failed", what),
                    Err(e) => {
                        ensure!(hits > 0, "{}: {:#}", what, e);
                        failed += 1;
                        cx.label("a sync failed");
                    }
                }
            }
            POp::Handle => {}
            POp::Read(k) | POp::Hold(k) => {
                if let Some((id, d)) = pick(k) {
                    sys::arm(plan);
                    let r = s.read(&id);
                    let (_, hits) = sys::disarm();
                    match r {
                        Ok(b) => {
                            ensure!(b[..] == d[..], "{}: id {:?} reads \"{}\" instead of \"{}\"", what, id, show(&b), show(&d));
                            if matches!(op, POp::Hold(_)) {
                                held.push((b, d));
                            }
                        }
                        Err(e) => {
                            ensure!(hits > 0, "{}: {:#}", what, e);
                            failed += 1;
                            cx.label("a read failed");
                        }
                    }
                }
            }
            POp::ReadAll => {
                for (id, d) in &written {
                    read_is(&s, id, d, &what)?;
                }
            }
            _ => {
                let Some(d) = blob_for(op, c.page, last, &written) else { continue };
                sys::arm(plan);
                let r = s.write(&d);
                let (_, hits) = sys::disarm();
                match r {
                    Ok(id) => {
                        ensure!(d.len() <= limit(c.page), "{}: too large, but accepted", what);
                        ensure!(ids.insert(id.clone()), "{}: the id {:?} was returned before", what, id);
                        cx.label_if(hits > 0, "a write completed in spite of a failing call");
                        written.push((id, d));
                        if failed > 0 {
                            after += 1;
                        }
                    }
                    Err(e) => {
                        if d.len() <= limit(c.page) {
                            ensure!(hits > 0, "{}: {:#}", what, e);
                            failed += 1;
                            cx.label("a write failed");
                        }
                    }
                }
                check_last = true;
            }
        }
        if check_last {
            ensure!(s.last_id().map(|x| x.to_vec()).as_ref() == written.last().map(|x| &x.0), "{}: last_id is {:?}, expected {:?}", what, s.last_id(), written.last().map(|x| &x.0));
        }
        if plan.is_some() {
            cx.inner += 1;
            for (id, d) in written.iter().rev().take(4) {
                read_is(&s, id, d, &format!("after {}", what))?;
            }
        }
    }
    for (id, d) in &written {
        read_is(&s, id, d, "at the end")?;
    }
    let d = content(3, 7.min(limit(c.page)));
    for what in ["at the end", "reopened at the end", "reopened twice at the end"] {
        let id = s.write(&d).map_err(|e| format!("{}: a write fails: {:#}", what, e))?;
        ensure!(ids.insert(id.clone()), "{}: the id {:?} was returned before", what, id);
        written.push((id, d.clone()));
        drop(s);
        s = open(f, c.page, what)?;
        ensure!(s.last_id().map(|x| x.to_vec()).as_ref() == written.last().map(|x| &x.0), "{}: last_id is {:?}", what, s.last_id());
        for (id, d) in written.iter().rev() {
            read_is(&s, id, d, what)?;
        }
    }
    for (b, d) in &held {
        ensure!(b[..] == d[..], "a blob that was kept changed its content");
    }
    if failed == 0 && c.ops.len() > 1_000_000 {
        fail!("unreachable");
    }
    cx.label_if(after > 0, "writes after a failure");
    cx.nt_if(failed > 0 && written.len() > 3);
    Ok(())
}

pub struct C26;
impl Property for C26 {
    type Case = FCase;
    const ID: &'static str = "C26";
    const LEVEL: &'static str = "fault_enumeration";
    const CASES: (u64, u64) = (40_000, 8_000_000);
    const RULE: &'static str = "A case is a page size and a sequence of writes, reads, syncs and reopens, some of them while system calls on the store's file fail: the calls are chosen by kind (data write, header write, set_len, flush, read, map), position (the 1st to the 9th) and number, and fail with EIO, ENOSPC, EINTR, EFBIG or EDQUOT or are short. After every failing step and at the end all acknowledged blobs read back, last_id names the last of them, writes work, and reopening (also directly after the failure) finds the same. Non-trivial: some operation failed and some blob was accepted.";
    const ASSUMPTIONS: &'static [&'static str] = &["a failing call has no effect on the file, a short one has exactly the part it reports", "seeking does not fail"];
    fn init() {
        sys::self_test();
    }
    fn gen(src: &mut Src) -> FCase {
        let page = src.pick(CRASH_PAGES);
        let ops = src.list(1, 30, 9, |src| {
            let p = gen_pop(src, false);
            if src.chance(90) {
                FOp::Faulty(p, gen_plan(src))
            } else {
                FOp::P(p)
            }
        });
        FCase { page, ops }
    }
    fn run(c: &FCase, cx: &mut Cx) -> Res {
        run26(c, cx)
    }
    // a small history in which each single call fails in each way
    fn enum_count() -> u64 {
        3 * 9 * 6 * 6 * 3
    }
    fn enum_case(i: u64) -> FCase {
        let page = [16u64, 64, 1024][(i % 3) as usize];
        let i = i / 3;
        let skip = i % 9;
        let i = i / 9;
        let kinds = 1u32 << (i % 6);
        let i = i / 6;
        let op = match i % 6 {
            0 => POp::Write(5, 2),
            1 => POp::Fill(3, 3),
            2 => POp::Max(0, 7),
            3 => POp::Read(0),
            4 => POp::Reopen,
            _ => POp::Sync,
        };
        let fail = [Fail::Errno(libc::EIO), Fail::Short(libc::ENOSPC), Fail::Errno(libc::EINTR)][(i / 6 % 3) as usize];
        let w = |n, t| FOp::P(POp::Write(n, t));
        FCase { page, ops: vec![w(4, 2), w(3, 3), w(700, 6), FOp::Faulty(op, Plan { kinds, skip, len: 1, fail }), FOp::P(POp::ReadAll), w(5, 7), FOp::P(POp::Reopen), w(2, 2)] }
    }
}
