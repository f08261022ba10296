//! Stores and trees used from several threads.
use super::paged::{content, limit, read_is};
use super::point::{gen_made, shape, Made};
use crate::alloc::set_chaos;
use crate::engine::{Cx, Property, Res};
use crate::gen::*;
use crate::model::{self, Map};
use crate::stores::*;
use crate::tape::Src;
use crate::tree::*;
use crate::{ensure, fail};
use radixdb::store::{Blob, BlobStore, PagedFileStore};
use radixdb::RadixTree;
use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Barrier, Mutex};

#[derive(Debug, Clone)]
pub enum SOp {
    Write(usize, u8),
    /// the same content from every thread
    Same(usize, u8),
    Max,
    /// one of the blobs any thread has written
    Read(u8),
    Newest,
    Bad(u8),
    Sync,
    Debug,
    Hold(u8),
    LastId,
}

#[derive(Debug, Clone)]
pub enum TOp {
    Op(Op),
    /// combine with the shared tree: kind, in place
    Combine(u8, Comb, bool),
    Prefix(bool, Pred),
    /// read the shared tree
    Iter,
    Lookup,
    Scan(B),
    Group,
    Fork,
    /// start again from the shared tree
    Restart,
    Reattach,
    Detach,
    Hold(B),
}

#[derive(Debug)]
pub enum TCase {
    Store { page: Option<u64>, spec: Spec, chaos: u8, ops: Vec<Vec<SOp>> },
    Tree { spec: Option<Spec>, made: Made, chaos: u8, reattached: bool, ops: Vec<Vec<TOp>> },
}

struct Rec {
    id: Vec<u8>,
    data: Vec<u8>,
    start: u64,
    end: u64,
}

fn each<T: Send>(n: usize, f: impl Fn(usize) -> Result<T, String> + Sync) -> Result<Vec<T>, String> {
    let gate = Barrier::new(n);
    let (f, gate) = (&f, &gate);
    let rs: Vec<Result<T, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        gate.wait();
                        match catch_unwind(AssertUnwindSafe(|| f(i))) {
                            Ok(r) => r.map_err(|e| format!("thread {}: {}", i, e)),
                            Err(_) => Err(format!("thread {} {}", i, crate::engine::last_panic())),
                        }
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    rs.into_iter().collect()
}

fn run_store(page: Option<u64>, spec: &Spec, chaos: u8, ops: &[Vec<SOp>], cx: &mut Cx) -> Res {
    let file = memfd();
    let mut paged = None;
    let store = match page {
        Some(p) => {
            let s = PagedFileStore::new(file.try_clone().unwrap(), p).map_err(|e| format!("open: {:#}", e))?;
            paged = Some(s.clone());
            cx.label("paged file store");
            AnyStore::Paged(s)
        }
        None => {
            cx.label(spec.name());
            spec.open().store
        }
    };
    let lim = page.map(limit).unwrap_or(100_000);
    let all: Mutex<Vec<(Vec<u8>, Vec<u8>)>> = Mutex::new(vec![]);
    let clock = AtomicU64::new(0);
    set_chaos(chaos as u32, 1 + chaos as u64);
    let r = each(ops.len(), |i| {
        let s = store.clone();
        let mut recs: Vec<Rec> = vec![];
        let mut held: Vec<(Blob<'static>, Vec<u8>)> = vec![];
        for (j, op) in ops[i].iter().enumerate() {
            let what = format!("op {} {:?}", j, op);
            let some = |k: usize| {
                let a = all.lock().unwrap();
                if a.is_empty() {
                    None
                } else {
                    Some(a[k % a.len()].clone())
                }
            };
            match op {
                SOp::Write(..) | SOp::Same(..) | SOp::Max => {
                    let d = match op {
                        SOp::Same(n, t) => content(*t, (*n).min(lim)),
                        SOp::Max => content(i as u8 * 4 + 2, lim.min(5000)),
                        SOp::Write(n, t) => {
                            let mut d = content(*t, (*n).min(lim));
                            for (x, y) in d.iter_mut().zip([i as u8, j as u8, 0xee]) {
                                *x = y;
                            }
                            d
                        }
                        _ => unreachable!(),
                    };
                    let start = clock.fetch_add(1, SeqCst);
                    let id = match s.write(&d) {
                        Ok(id) => id,
                        Err(e) if is_full(&e) => continue,
                        Err(e) => fail!("{}: {:#}", what, e),
                    };
                    let end = clock.fetch_add(1, SeqCst);
                    all.lock().unwrap().push((id.clone(), d.clone()));
                    read_is(&s, &id, &d, &what)?;
                    recs.push(Rec { id, data: d, start, end });
                }
                SOp::Read(k) => {
                    if let Some((id, d)) = some(*k as usize) {
                        read_is(&s, &id, &d, &what)?;
                    }
                }
                SOp::Newest => {
                    let x = all.lock().unwrap().last().cloned();
                    if let Some((id, d)) = x {
                        read_is(&s, &id, &d, &what)?;
                    }
                }
                SOp::Hold(k) => {
                    if let Some((id, d)) = some(*k as usize) {
                        let b = s.read(&id).map_err(|e| format!("{}: {:#}", what, e))?;
                        held.push((b, d));
                    }
                }
                SOp::Bad(k) => {
                    let _ = s.read(&[*k; 8]);
                    let _ = s.read(&[*k; 5]);
                }
                SOp::Sync => s.sync().map_err(|e| format!("{}: {:#}", what, e))?,
                SOp::Debug => {
                    std::hint::black_box(format!("{:?}", s));
                }
                SOp::LastId => {
                    if let (Some(p), Some(last)) = (&paged, recs.last()) {
                        let id = p.last_id().ok_or("no last id after a write")?;
                        ensure!(&id[..] >= &last.id[..], "{}: last_id {:?} is before this thread's last write {:?}", what, id, last.id);
                    }
                }
            }
        }
        for (b, d) in &held {
            ensure!(b[..] == d[..], "a blob that was kept changed");
        }
        Ok((recs, held))
    });
    set_chaos(0, 0);
    let rs = r?;
    let mut recs = vec![];
    let mut held = vec![];
    for (a, b) in rs {
        recs.extend(a);
        held.extend(b);
    }
    let mut ids = HashSet::new();
    let content_ids = matches!(spec, Spec::T { ids: crate::tstore::Ids::Content, .. }) && page.is_none();
    for r in &recs {
        ensure!(ids.insert(r.id.clone()) || content_ids, "the id {:?} was returned twice", r.id);
        read_is(&store, &r.id, &r.data, "after the threads have ended")?;
    }
    if let (Some(p), Some(page)) = (paged, page) {
        let last = p.last_id().map(|x| x.to_vec());
        match recs.iter().find(|r| Some(&r.id) == last.as_ref()) {
            Some(l) => {
                let late = recs.iter().find(|r| r.start > l.end);
                ensure!(late.is_none(), "last_id is {:?}, but {:?} was written later", l.id, late.unwrap().id);
            }
            None => ensure!(recs.is_empty() && last.is_none(), "last_id {:?} is no blob", last),
        }
        drop((p, store));
        let s = PagedFileStore::new(file.try_clone().unwrap(), page).map_err(|e| format!("reopen: {:#}", e))?;
        ensure!(s.last_id().map(|x| x.to_vec()) == last, "last_id is {:?} after reopening, it was {:?}", s.last_id(), last);
        for r in &recs {
            read_is(&s, &r.id, &r.data, "after reopening")?;
        }
    }
    for (b, d) in &held {
        ensure!(b[..] == d[..], "a blob that was kept changed");
    }
    cx.nt_if(recs.len() >= 4 && ops.len() > 1);
    Ok(())
}

fn run_tree<T: Tree + Send + Sync + 'static>(base: T, m: &Map, chaos: u8, ops: &[Vec<TOp>]) -> Result<usize, String>
where
    T::V: Send,
{
    let full = |e: anyhow::Error, what: &str| if is_full(&e) { "FULL".to_string() } else { format!("{}: {:#}", what, e) };
    set_chaos(chaos as u32, 1 + chaos as u64);
    let shared = &base;
    let r = each(ops.len(), |i| {
        let mut t = shared.clone();
        let mut mine = m.clone();
        let mut held: Vec<(T::V, Vec<u8>)> = vec![];
        let mut n = 0;
        for (j, op) in ops[i].iter().enumerate() {
            let what = format!("op {} {:?}", j, op);
            let e = |x: anyhow::Error| full(x, &what);
            let calls = RefCell::new(vec![]);
            match op {
                TOp::Op(op) => {
                    t.op(op).map_err(e)?;
                    mine = model::apply(&mine, op);
                    n += 1;
                }
                TOp::Combine(k, f, w) => {
                    let kd = [Kind::Outer, Kind::Left, Kind::Inner][*k as usize % 3];
                    t.combine_same(kd, shared, *f, *w, &calls).map_err(e)?;
                    mine = match kd {
                        Kind::Outer => model::outer(&mine, m, *f),
                        Kind::Inner => model::inner(&mine, m, *f),
                        Kind::Left => model::left(&mine, m, *f),
                    };
                    n += 1;
                }
                TOp::Prefix(r, p) => {
                    t.prefix_with_same(*r, shared, *p).map_err(e)?;
                    mine = if *r { model::retain(&mine, m, *p) } else { model::remove_with(&mine, m, *p) };
                    n += 1;
                }
                TOp::Iter => same_entries(shared, m, &format!("{}: the shared tree", what))?,
                TOp::Lookup => same_lookups(shared, m, &probes(m, 6), &format!("{}: the shared tree", what))?,
                TOp::Scan(p) => same_prefix(shared, m, &p.0, &format!("{}: the shared tree", what))?,
                TOp::Group => {
                    same_groups(shared, m, &|p| p.len() < 2, &format!("{}: the shared tree", what))?;
                }
                TOp::Fork => {
                    let c = t.clone();
                    same_entries(&c, &mine, &what)?;
                }
                TOp::Restart => {
                    t = shared.clone();
                    mine = m.clone();
                }
                TOp::Reattach => t.reattach().map_err(e)?,
                TOp::Detach => {
                    let d = shared.detach().map_err(e)?;
                    ensure!(d == from_map(m), "{}: the shared tree differs after detaching", what);
                }
                TOp::Hold(k) => {
                    if let Some(v) = shared.get_hold(&k.0).map_err(e)? {
                        held.push((v, m[&k.0].clone()));
                    }
                    if let Some(v) = t.get_hold(&k.0).map_err(e)? {
                        held.push((v, mine.get(&k.0).ok_or("a key that is not there")?.clone()));
                    }
                }
            }
            same_entries(&t, &mine, &format!("{}: own tree", what))?;
        }
        Ok((t, mine, held, n))
    });
    set_chaos(0, 0);
    let rs = match r {
        Err(e) if e.contains("FULL") => return Ok(0),
        r => r?,
    };
    same_entries(&base, m, "the shared tree at the end")?;
    let mut n = 0;
    for (i, (t, mine, held, k)) in rs.iter().enumerate() {
        same_entries(t, mine, &format!("tree of thread {} at the end", i))?;
        for (v, w) in held {
            let b = base.bytes(v).map_err(|e| format!("a kept value: {:#}", e))?;
            ensure!(b == *w, "a value that was kept changed");
        }
        n += k;
    }
    // dropped by other threads
    let slots: Vec<Mutex<Option<_>>> = rs.into_iter().map(|x| Mutex::new(Some(x))).collect();
    each(slots.len(), |i| {
        drop(slots[(i + 1) % slots.len()].lock().unwrap().take());
        Ok(())
    })?;
    same_entries(&base, m, "the shared tree after the others are gone")?;
    Ok(n)
}

pub struct C20;
impl Property for C20 {
    type Case = TCase;
    const ID: &'static str = "C20";
    const CASES: (u64, u64) = (1_200, 240_000);
    const RULE: &'static str = "A case is two to four threads that start together, each with its own list of operations: on clones of one store (writes, reads of blobs of any thread, syncs, invalid reads, held blobs), or on trees cloned from one shared tree, detached or attached, which they read, change, combine with the shared one, reattach and hold values of. Threads are delayed at random memory allocations and file operations. Every read and every tree is compared with what it must be alone, ids are distinct, the last id is of a last write, everything reads back after the threads ended and after reopening. Non-trivial: two threads or more with at least four blobs, or two changes.";
    const ASSUMPTIONS: &'static [&'static str] = &["schedules are those the operating system and the random delays produce; they are not enumerated"];
    fn gen(src: &mut Src) -> TCase {
        let chaos = src.pick(&[0u8, 8, 40, 120]);
        let n = src.range(1, 3) + 1;
        if src.chance(140) {
            let keys = gen_keys(src);
            let made = gen_made(src, &keys, MEDIUM, 1);
            let spec = if src.chance(128) { Some(gen_spec(src)) } else { None };
            let ops = (0..n)
                .map(|_| {
                    src.list(1, 20, 6, |src| match src.weighted(&[20, 5, 3, 3, 3, 2, 1, 2, 2, 3, 1, 3]) {
                        0 => TOp::Op(gen_op(src, &keys, &made.start)),
                        1 => TOp::Combine(src.u8(), gen_comb(src), src.chance(200)),
                        2 => TOp::Prefix(src.chance(128), gen_pred(src)),
                        3 => TOp::Iter,
                        4 => TOp::Lookup,
                        5 => TOp::Scan(B(keys.key(src))),
                        6 => TOp::Group,
                        7 => TOp::Fork,
                        8 => TOp::Restart,
                        9 => TOp::Reattach,
                        10 => TOp::Detach,
                        _ => TOp::Hold(B(keys.key(src))),
                    })
                })
                .collect();
            TCase::Tree { spec, made, chaos, reattached: src.chance(128), ops }
        } else {
            let page = if src.chance(60) { None } else { Some(src.pick(&[1024u64, 64, 128, 4096, 32])) };
            let spec = gen_spec(src);
            let ops = (0..n)
                .map(|_| {
                    src.list(2, 40, 12, |src| match src.weighted(&[16, 3, 2, 12, 4, 1, 2, 1, 3, 2]) {
                        0 => SOp::Write(src.below(200), src.u8()),
                        1 => SOp::Same(src.below(100), src.u8()),
                        2 => SOp::Max,
                        3 => SOp::Read(src.u8()),
                        4 => SOp::Newest,
                        5 => SOp::Bad(src.u8()),
                        6 => SOp::Sync,
                        7 => SOp::Debug,
                        8 => SOp::Hold(src.u8()),
                        _ => SOp::LastId,
                    })
                })
                .collect();
            TCase::Store { page, spec, chaos, ops }
        }
    }
    fn run(c: &TCase, cx: &mut Cx) -> Res {
        match c {
            TCase::Store { page, spec, chaos, ops } => run_store(*page, spec, *chaos, ops, cx),
            TCase::Tree { spec, made, chaos, reattached, ops } => {
                let m = made.map();
                let n = match spec {
                    None => {
                        cx.label("detached trees");
                        run_tree(made.det(), &m, *chaos, ops)?
                    }
                    Some(s) => {
                        let o = s.open();
                        let Ok(mut t) = made.det().0.try_attached(o.store.clone()) else { return Ok(()) };
                        if *reattached {
                            let Ok(id) = t.try_reattach() else { return Ok(()) };
                            t = RadixTree::try_load(o.store.clone(), Some(id)).map_err(|e| format!("load: {:#}", e))?;
                        }
                        cx.label("attached trees");
                        run_tree(Att(t), &m, *chaos, ops)?
                    }
                };
                shape(&m, cx);
                cx.nt_if(n >= 2);
                Ok(())
            }
        }
    }
}
