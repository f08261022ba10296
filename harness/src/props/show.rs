//! What the crate prints: `Debug` of everything, and the dump of a tree.
use super::attached::go;
use super::point::{gen_made, Made};
use crate::engine::{Cx, Property, Res};
use crate::ensure;
use crate::gen::*;
use crate::model::{self, Map};
use crate::stores::*;
use crate::sys::memfd;
use crate::tape::Src;
use crate::tree::*;
use crate::tstore::TStore;
use radixdb::store::{BlobStore, MemStore, PagedFileStore};
use radixdb::RadixTree;
use std::fmt::Debug;
use std::io::Write;
use std::os::fd::{AsRawFd, FromRawFd};

/// run f and return what it prints to standard output
pub fn captured<T>(f: impl FnOnce() -> T) -> (T, Vec<u8>) {
    struct Back(std::fs::File);
    impl Drop for Back {
        fn drop(&mut self) {
            let _ = std::io::stdout().flush();
            unsafe { libc::dup2(self.0.as_raw_fd(), 1) };
        }
    }
    let file = memfd();
    let _ = std::io::stdout().flush();
    let r = unsafe {
        let old = libc::dup(1);
        assert!(old >= 0, "harness: dup");
        let back = Back(std::fs::File::from_raw_fd(old));
        libc::dup2(file.as_raw_fd(), 1);
        let r = f();
        drop(back);
        r
    };
    let n = file.metadata().unwrap().len() as usize;
    let mut v = vec![0; n];
    std::os::unix::fs::FileExt::read_exact_at(&file, &mut v, 0).unwrap();
    (r, v)
}

/// `Data[6162]`, `Id[0001]` or `None`
fn field(s: &str, store: &dyn Fn(&[u8]) -> Option<Vec<u8>>, prefix: bool) -> Result<Option<Vec<u8>>, String> {
    if s.starts_with("None") {
        return Ok(None);
    }
    let (kind, rest) = s.split_once('[').ok_or(format!("cannot read {:?}", s))?;
    let hex = rest.split_once(']').ok_or(format!("cannot read {:?}", s))?.0;
    ensure!(hex.len() % 2 == 0, "cannot read {:?}", s);
    let b: Option<Vec<u8>> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).ok()).collect();
    let b = b.ok_or(format!("cannot read {:?}", s))?;
    match kind {
        "Data" => Ok(Some(b)),
        "Id" => {
            let id = if prefix { b.get(1..).ok_or("an id of a prefix without the first byte")? } else { &b[..] };
            let d = store(id).ok_or(format!("an unknown id {:?}", id))?;
            ensure!(!prefix || d.first() == Some(&b[0]), "the first byte of a prefix is wrong");
            Ok(Some(d))
        }
        _ => Err(format!("cannot read {:?}", s)),
    }
}

/// the nodes of a dump, as (path, value)
fn parse(text: &[u8], store: &dyn Fn(&[u8]) -> Option<Vec<u8>>) -> Result<Vec<(Vec<u8>, Option<Vec<u8>>)>, String> {
    let text = std::str::from_utf8(text).map_err(|_| "the dump is no text")?;
    let mut res: Vec<(Vec<u8>, Option<Vec<u8>>)> = vec![];
    // indentation and path of the nodes above
    let mut up: Vec<(usize, Vec<u8>)> = vec![];
    let mut indent = 0;
    for l in text.lines() {
        let t = l.trim_start();
        if t.starts_with("TreeNode") {
            indent = l.len() - t.len();
            up.retain(|x| x.0 < indent);
        } else if let Some(p) = t.strip_prefix("prefix=") {
            let p = field(p, store, true)?.ok_or("a node without a prefix")?;
            let path = [up.last().map_or(&[][..], |x| &x.1), &p].concat();
            up.push((indent, path.clone()));
            res.push((path, None));
        } else if let Some(v) = t.strip_prefix("value=") {
            let v = field(v, store, false)?;
            res.last_mut().ok_or("a value before the first prefix")?.1 = v;
        }
    }
    Ok(res)
}

fn nodes(n: &model::RNode, path: &[u8], out: &mut Vec<(Vec<u8>, Option<Vec<u8>>)>) {
    let p = [path, &n.prefix].concat();
    out.push((p.clone(), n.value.clone()));
    n.children.iter().for_each(|c| nodes(c, &p, out));
}

fn same_dump(text: &[u8], store: &dyn Fn(&[u8]) -> Option<Vec<u8>>, m: &Map, what: &str) -> Res {
    let got = parse(text, store).map_err(|e| format!("{}: {}", what, e))?;
    let mut want = vec![];
    nodes(&model::radix(m), &[], &mut want);
    if got != want {
        let i = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
        let s = |x: Option<&(Vec<u8>, Option<Vec<u8>>)>| x.map_or("nothing".into(), |x| format!("node \"{}\" with {}", show(&x.0), x.1.as_ref().map_or("no value".into(), |v| format!("value \"{}\"", show(v)))));
        return Err(format!("{}: at place {} the dump has {}, the tree has {}", what, i, s(got.get(i)), s(want.get(i))));
    }
    Ok(())
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// both forms, twice
fn debug(x: &dyn Debug, what: &str) -> Result<String, String> {
    let (a, b) = (format!("{:?}", x), format!("{:#?}", x));
    ensure!(!a.is_empty() && !b.is_empty(), "{}: nothing is shown", what);
    ensure!(a == format!("{:?}", x) && b == format!("{:#?}", x), "{}: shown differently the second time", what);
    Ok(a)
}

#[derive(Debug, Clone)]
pub enum SStep {
    Op(Op),
    Reattach,
    Reload,
    Clone,
    Show,
    /// a dump while the store fails after so many calls
    Failing(u8, u8),
}

#[derive(Debug)]
pub struct SCase {
    pub spec: Spec,
    pub made: Made,
    pub steps: Vec<SStep>,
}

type A = Att<TStore>;

fn show_tree(t: &A, s: &TStore, m: &Map, what: &str, cx: &mut Cx) -> Res {
    // Debug gets along without the store
    s.set_fault(0, u64::MAX, true, true);
    let before = s.counts();
    let text = debug(&t.0, what)?;
    ensure!(text == debug(&t.0.clone(), what)?, "{}: a clone is shown differently", what);
    ensure!(s.counts() == before, "{}: Debug used the store", what);
    s.clear_fault();
    for k in m.keys().take(3) {
        let v = t.0.try_get(k).map_err(|e| format!("{}: get: {:#}", what, e))?.ok_or(format!("{}: no value for \"{}\"", what, show(k)))?;
        let before = s.counts();
        let r = debug(&v, what)?;
        ensure!(s.counts() == before, "{}: Debug of a value used the store", what);
        let h = hex(&m[k]);
        ensure!(!r.starts_with("Data") || r.contains(&h), "{}: the value \"{}\" is shown as {}", what, show(&m[k]), r);
    }
    if let Some(x) = t.0.try_iter().next() {
        debug(&x.map_err(|e| format!("{}: {:#}", what, e))?, what)?;
    }
    let before = s.counts();
    let (r, text) = captured(|| t.0.try_dump());
    r.map_err(|e| format!("{}: dump: {:#}", what, e))?;
    ensure!(s.counts().1 == before.1, "{}: dump wrote to the store", what);
    cx.label_if(s.counts().0 > before.0, "dump read from the store");
    let st = s.st();
    let get = |id: &[u8]| st.blobs.get(id).map(|d| d.to_vec());
    same_dump(&text, &get, m, what)?;
    cx.inner += 1;
    Ok(())
}

fn run33(c: &SCase, cx: &mut Cx) -> Res {
    let mut m = c.made.map();
    // in memory
    let mut det = c.made.det();
    let old = det.clone();
    let text = debug(&det.0, "detached")?;
    ensure!(debug(&det.0.clone(), "detached")? == text, "a clone is shown differently");
    for (k, v) in m.iter().take(3) {
        let got = det.0.get(k).ok_or("a value is missing")?;
        let r = debug(&got, "a value")?;
        ensure!(r.contains(&hex(v)), "the value \"{}\" is shown as {}", show(v), r);
    }
    if let Some((k, v)) = det.0.iter().next() {
        debug(&(k, v), "an entry")?;
    }
    let none = |_: &[u8]| None;
    let (_, text) = captured(|| det.0.dump());
    same_dump(&text, &none, &m, "in memory")?;
    same_entries(&det, &m, "after the dump")?;
    drop(old);
    // on stores of the crate
    let p = PagedFileStore::new(memfd(), 131072).map_err(|e| format!("{:#}", e))?;
    debug(&p, "paged store")?;
    debug(&MemStore::default(), "memory store")?;
    debug(&radixdb::store::Detached, "no store")?;
    let t = go!(det.0.try_attached(p.clone()), "attach to a paged store");
    debug(&t, "tree in a paged store")?;
    debug(&p, "paged store")?;
    if let Some(b) = p.last_id().map(|id| p.read(&id)) {
        debug(&b.map_err(|e| format!("{:#}", e))?, "blob")?;
    }
    let (r, text) = captured(|| t.try_dump());
    r.map_err(|e| format!("dump from a paged store: {:#}", e))?;
    same_dump(&text, &|id| p.read(id).ok().map(|b| b.to_vec()), &m, "in a paged store")?;
    // on a store that counts
    let o = c.spec.open();
    let s = o.t.clone().unwrap();
    s.st().budget = Some(3_000_000);
    let mut t: A = Att(go!(det.0.try_attached(s.clone()), "attach"));
    let mut last = None;
    let mut faults = 0;
    let mut clones: Vec<(A, Map)> = vec![];
    for (i, step) in c.steps.iter().chain([&SStep::Show]).enumerate() {
        let what = format!("step {} {:?}", i, step);
        match step {
            SStep::Op(op) => {
                go!(t.op(op), "{}", what);
                det.op(op).map_err(|e| format!("{}: in memory: {:#}", what, e))?;
                m = model::apply(&m, op);
                cx.label(op.name());
            }
            SStep::Reattach => last = Some((go!(t.0.try_reattach(), "{}", what), m.clone())),
            SStep::Reload => {
                let Some((id, rm)) = last.clone() else { continue };
                t = Att(go!(RadixTree::try_load(s.clone(), Some(&id)), "{}", what));
                m = rm;
                det = Det(from_map(&m));
            }
            SStep::Clone => clones.push((t.clone(), m.clone())),
            SStep::Show => {
                show_tree(&t, &s, &m, &what, cx)?;
                let (_, text) = captured(|| det.0.dump());
                same_dump(&text, &none, &m, &format!("{}, in memory", what))?;
            }
            SStep::Failing(after, n) => {
                s.set_fault(*after as u64, *n as u64 + 1, true, true);
                let (r, text) = captured(|| t.0.try_dump());
                let hit = s.clear_fault();
                ensure!(r.is_err() == (hit > 0), "{}: dump gave {:?} after {} failures of the store", what, r.map_err(|e| e.to_string()), hit);
                let st = s.st();
                let get = |id: &[u8]| st.blobs.get(id).map(|d| d.to_vec());
                if hit == 0 {
                    same_dump(&text, &get, &m, &what)?;
                } else {
                    parse(&text, &get).map_err(|e| format!("{}: {}", what, e))?;
                    faults += 1;
                }
            }
        }
    }
    same_entries(&t, &m, "at the end")?;
    for (t, m) in &clones {
        show_tree(t, &s, m, "a clone at the end", cx)?;
    }
    cx.label_if(faults > 0, "dump met a failure");
    cx.label_if(m.keys().any(|k| k.len() > 127) || m.values().any(|v| v.len() > 127), "prefix or value stored indirectly");
    cx.nt_if(model::radix(&m).count() >= 3 && m.len() >= 2);
    Ok(())
}

pub struct C33;
impl Property for C33 {
    type Case = SCase;
    const ID: &'static str = "C33";
    const CASES: (u64, u64) = (12_000, 2_000_000);
    const RULE: &'static str = "A case is a tree built by a history, in memory, in a paged file store and in a counting store, then changed, reattached, loaded and cloned there. At points of the history the tree, its values and entries are formatted with {:?} and {:#?} (with a store that fails whenever it is used) and dumped, also while the store fails after some calls; what a dump prints is parsed back and compared with the nodes of the compressed tree of a sorted map. Non-trivial: at least two entries and three nodes.";
    fn gen(src: &mut Src) -> SCase {
        let spec = gen_tspec(src);
        let keys = gen_keys(src);
        let made = gen_made(src, &keys, SMALL, 1);
        let steps = src.list(0, 16, 5, |src| match src.weighted(&[8, 4, 3, 1, 2, 4]) {
            0 => SStep::Op(if src.chance(128) { gen_op(src, &keys, &made.start) } else { gen_point_op(src, &keys) }),
            1 => SStep::Reattach,
            2 => SStep::Reload,
            3 => SStep::Clone,
            4 => SStep::Show,
            _ => SStep::Failing(src.below(12) as u8, src.below(3) as u8),
        });
        SCase { spec, made, steps }
    }
    fn run(c: &SCase, cx: &mut Cx) -> Res {
        run33(c, cx)
    }
}
