//! The serialized format, malformed data, and how much of a store an operation touches.
use super::attached::{gen_acase, go, run_acase, same_all, ACase};
use super::point::{gen_descend, gen_made, Descend, Made};
use crate::codec::{self, EncOpt, Field, Reader, Writer};
use crate::engine::{Cx, Property, Res};
use crate::ensure;
use crate::gen::*;
use crate::model::{self, Map, RNode};
use crate::stores::*;
use crate::tape::{Rng, Src};
use crate::tree::*;
use crate::tstore::{Ids, TStore};
use radixdb::store::BlobStore;
use radixdb::RadixTree;
use std::collections::{HashMap, HashSet};

fn decode(store: &dyn Fn(&[u8]) -> Result<Vec<u8>, String>, id: &[u8], m: &Map, cx: &mut Cx) -> Res {
    let mut r = Reader { read: store, indirect: 0, record_sizes: 0, varying: 0 };
    let t = r.root(id).map_err(|e| format!("the stored tree does not follow the format: {}", e))?;
    cx.label_if(r.indirect > 0, "indirect data");
    cx.label_if(r.record_sizes > 0, "record size set");
    cx.label_if(r.varying > 0, "record size zero");
    let want = model::radix(m);
    if t != want {
        let got = t.to_map();
        if got != *m {
            let g: Vec<_> = got.into_iter().collect();
            return Err(format!("the stored tree decodes to other entries: {}", diff(&g, m).unwrap_or_default()));
        }
        return Err(format!("the stored tree has the right entries but is not in compressed form: {:?} instead of {:?}", t, want));
    }
    Ok(())
}

#[derive(Debug)]
pub enum Fmt {
    Write(ACase),
    Read { made: Made, opt: EncOpt, ops: Vec<Op>, descend: Descend },
}

pub struct C14;
impl Property for C14 {
    type Case = Fmt;
    const ID: &'static str = "C14";
    const CASES: (u64, u64) = (4_500, 900_000);
    const RULE: &'static str = "A case is either a history of changes and reattaches, every root of which is read back by an independent reader of the documented format and compared with the compressed radix form of the contents (sorted children, first bytes, sizes over 127 by id, first byte of an indirect prefix, record sizes), or a tree written by an independent writer (id length 1 to 126, record sizes set or zero, blobs shared or not, short data inline or by id), loaded and compared in all queries, changed, reattached and read back. Non-trivial: at least three nodes, or indirect data.";
    fn gen(src: &mut Src) -> Fmt {
        if src.chance(128) {
            Fmt::Write(gen_acase(src, 5, true))
        } else {
            let keys = gen_keys(src);
            let made = gen_made(src, &keys, MEDIUM, 0);
            let opt = EncOpt {
                id_len: gen_id_len(src),
                sizes: src.chance(128),
                share: src.chance(100),
                short_by_id: src.pick(&[0u64, 0, 30, 128, 255]),
                seed: src.u8() as u64,
            };
            let ops = src.list(0, 10, 3, |src| gen_op(src, &keys, &made.start));
            Fmt::Read { made, opt, ops, descend: gen_descend(src) }
        }
    }
    fn run(c: &Fmt, cx: &mut Cx) -> Res {
        match c {
            Fmt::Write(a) => {
                cx.label("written by the crate");
                let mut ctx = Cx::default();
                let mut roots = 0;
                let mut big = false;
                let mut inner = Cx::default();
                run_acase(a, &mut inner, false, &mut |s, id, m| {
                    roots += 1;
                    big |= model::radix(m).count() >= 3 || m.values().any(|v| v.len() > 127);
                    decode(&|id| s.read(id).map(|b| b.to_vec()).map_err(|e| format!("{:#}", e)), id, m, &mut ctx)
                })?;
                for l in ctx.labels.keys() {
                    cx.label(l);
                }
                cx.inner += roots;
                cx.nt_if(big && roots > 0);
                Ok(())
            }
            Fmt::Read { made, opt, ops, descend } => {
                cx.label("written by the independent writer");
                let mut m = made.map();
                let store = TStore::new(opt.id_len, Ids::Seq, 0);
                store.st().budget = Some(3_000_000);
                let (id, full) = {
                    let mut put = |id: Vec<u8>, d: Vec<u8>| store.put(id, d);
                    let mut w = Writer::new(*opt, &mut put);
                    let id = w.root(&model::radix(&m));
                    (id, w.full)
                };
                if full {
                    return Ok(());
                }
                let read = |id: &[u8]| store.read(id).map(|b| b.to_vec()).map_err(|e| format!("{:#}", e));
                decode(&read, &id, &m, &mut Cx::default()).map_err(|e| format!("harness: {}", e))?;
                // the crate writes to another store with the same contents, so that its ids are free
                let st2 = store.beside();
                let load = || RadixTree::try_load(st2.clone(), Some(&id));
                let mut t = Att(go!(load(), "load"));
                same_all(&t, &m, descend, "loaded")?;
                let d = go!(t.0.try_detached(), "detach");
                ensure!(d == from_map(&m), "loaded and detached differs from a tree built from the same entries");
                cx.nt_if(model::radix(&m).count() >= 3 || m.values().any(|v| v.len() > 127));
                cx.label_if(opt.short_by_id > 0, "short data by id");
                for (i, op) in ops.iter().enumerate() {
                    let what = format!("step {} {:?}", i, op);
                    go!(t.op(op), "{}", what);
                    m = model::apply(&m, op);
                    same_entries(&t, &m, &what)?;
                }
                let id2 = go!(t.0.try_reattach(), "reattach");
                let read2 = |id: &[u8]| st2.read(id).map(|b| b.to_vec()).map_err(|e| format!("{:#}", e));
                decode(&read2, &id2, &m, cx)?;
                let l = Att(go!(RadixTree::try_load(st2.clone(), Some(&id2)), "load again"));
                same_all(&l, &m, descend, "loaded again")?;
                let u = st2.st().unknown.clone();
                ensure!(u.is_empty(), "an unknown id was read: {:?}", u[0]);
                Ok(())
            }
        }
    }
}

/// root bytes: well-formed, damaged, or random
#[derive(Debug)]
pub struct Raw {
    pub root: B,
    /// blobs the store knows (well-formed children and data)
    pub made: Made,
    pub opt: EncOpt,
    pub probes: Vec<B>,
}

fn gen_field(src: &mut Src, ids: &[Vec<u8>], kind: usize) -> Vec<u8> {
    let len = match src.weighted(&[8, 4, 2]) {
        0 => src.below(5),
        1 => src.below(20),
        _ => src.pick(&[8usize, 9, 126, 127, 120, 64]),
    };
    let data = |src: &mut Src, n: usize| -> Vec<u8> { (0..n).map(|_| if src.chance(180) { b'a' + (src.u8() & 3) } else { src.u8() }).collect() };
    match src.weighted(&[[8, 3, 3, 1], [6, 4, 3, 6], [1, 5, 5, 6]][kind]) {
        0 => {
            let mut f = vec![len as u8];
            f.extend(data(src, len));
            f
        }
        1 => {
            let mut f = vec![0x80 | len as u8];
            f.extend(data(src, len));
            f
        }
        2 => {
            let mut id = if ids.is_empty() { vec![1] } else { ids[src.below(ids.len())].clone() };
            if kind != 1 {
                id.insert(0, if src.chance(128) { b'a' + (src.u8() & 3) } else { 0 });
            }
            id.truncate(127);
            let mut f = vec![0x80 | id.len() as u8];
            f.extend(id);
            f
        }
        _ => vec![0x80],
    }
}

pub struct C24;
impl Property for C24 {
    type Case = Raw;
    const ID: &'static str = "C24";
    const CASES: (u64, u64) = (100_000, 20_000_000);
    const RULE: &'static str = "A case is the bytes of a root blob: random, assembled from random header-plus-data fields (data, unknown ids, known ids, none), or a well-formed node damaged by flips, cuts, insertions and extensions; it is loaded over a store that knows the blobs of some well-formed tree and answers everything else with an error. An independent parser decides whether the bytes are one well-formed node; if not, loading must fail, if so, loading must succeed and prefix, value, lookups and the first entries must be those of the node; no query, change or reattach on it may panic or run on without end. Short byte strings over the interesting header bytes are enumerated. Non-trivial: the bytes parse as a node, or fail to only after the first field.";
    fn gen(src: &mut Src) -> Raw {
        let keys = gen_keys(src);
        let made = gen_made(src, &keys, SMALL, 0);
        let opt = EncOpt { id_len: src.pick(&[8usize, 1, 4, 20, 126]), sizes: src.chance(128), share: false, short_by_id: src.pick(&[0u64, 60, 255]), seed: src.u8() as u64 };
        let mut blobs: Vec<(Vec<u8>, Vec<u8>)> = vec![];
        let root = {
            let mut put = |id, d| blobs.push((id, d));
            Writer::new(opt, &mut put).node(&model::radix(&made.map()))
        };
        let ids: Vec<Vec<u8>> = blobs.iter().map(|x| x.0.clone()).collect();
        let mut b = match src.weighted(&[5, 5, 2]) {
            0 => root,
            1 => {
                let mut b = vec![];
                for k in 0..3 {
                    b.extend(gen_field(src, &ids, k));
                }
                b
            }
            _ => {
                let n = src.below(40);
                (0..n).map(|_| src.u8()).collect()
            }
        };
        let n = src.weighted(&[5, 5, 2, 1]);
        for _ in 0..n {
            let l = b.len().max(1);
            match src.below(5) {
                0 if !b.is_empty() => {
                    let i = src.below(l);
                    b[i] ^= 1 << src.below(8);
                }
                1 => b.truncate(src.below(l)),
                2 => b.insert(src.below(l).min(b.len()), src.u8()),
                3 if !b.is_empty() => {
                    b.remove(src.below(l));
                }
                _ => b.push(src.pick(&[0x80, 0, 1, 0x81, 0xff])),
            }
        }
        Raw { root: B(b), made, opt, probes: src.list(0, 4, 2, |src| B(keys.key(src))) }
    }
    fn enum_count() -> u64 {
        let k = HDRS.len() as u64;
        1 + k + k * k + k * k * k + k * k * k * k + k * k * k * k * k
    }
    fn enum_case(mut i: u64) -> Raw {
        let k = HDRS.len() as u64;
        let (mut n, mut len) = (1, 0);
        while i >= n {
            i -= n;
            n *= k;
            len += 1;
        }
        let b = (0..len)
            .map(|_| {
                let x = HDRS[(i % k) as usize];
                i /= k;
                x
            })
            .collect();
        Raw {
            root: B(b),
            made: Made { start: Contents::default(), ops: vec![] },
            opt: EncOpt { id_len: 1, sizes: true, share: false, short_by_id: 0, seed: 0 },
            probes: vec![],
        }
    }
    fn run(c: &Raw, cx: &mut Cx) -> Res {
        let store = TStore::new(c.opt.id_len, Ids::Seq, 0);
        let mut known = 0;
        {
            let mut put = |id: Vec<u8>, d: Vec<u8>| {
                known += 1;
                store.put(id, d)
            };
            let mut w = Writer::new(c.opt, &mut put);
            w.node(&model::radix(&c.made.map()));
            if w.full {
                return Ok(());
            }
        }
        let root_id = b"the root of the case".to_vec();
        store.put(root_id.clone(), c.root.0.clone());
        store.st().budget = Some(300_000);
        let parsed = codec::node(&c.root.0).and_then(|(n, rest)| if rest.is_empty() { Ok(n) } else { Err("trailing bytes".into()) });
        let loaded = RadixTree::try_load(store.beside(), Some(&root_id));
        cx.nt_if(c.root.0.len() > 1 && c.root.0.len() > (c.root.0[0] & 0x7f) as usize + 1);
        let n = match (parsed, &loaded) {
            (Err(_), Err(_)) => {
                cx.label("rejected");
                return Ok(());
            }
            (Err(why), Ok(_)) => return Err(format!("loading malformed bytes succeeded ({})", why)),
            (Ok(_), Err(e)) => return Err(format!("loading a well-formed node failed: {:#}", e)),
            (Ok(n), Ok(_)) => n,
        };
        cx.label("accepted");
        let mut t = Att(loaded.unwrap());
        t.0.is_empty();
        t.0.is_leaf();
        ensure!(t.0.is_leaf() == n.children.is_none(), "is_leaf is {}", t.0.is_leaf());
        ensure!(t.0.value().is_some() == n.value.is_some(), "value is {:?}, the node has {:?}", t.0.value(), n.value);
        let read = |f: &Field, skip: usize| -> Option<Vec<u8>> {
            match f {
                Field::Data(d) => Some(d.clone()),
                Field::Id(i) => store.read(&i[skip..]).ok().map(|b| b.to_vec()),
            }
        };
        let prefix = read(&n.prefix, 1);
        let value = n.value.as_ref().map(|f| read(f, 0));
        cx.label_if(matches!(n.prefix, Field::Id(_)), "prefix by id");
        cx.label_if(matches!(n.value, Some(Field::Id(_))), "value by id");
        cx.label_if(n.children.is_some(), "children by id");
        // a short first byte in the prefix field that contradicts the stored prefix is not
        // something a lookup has to notice
        match &prefix {
            Some(p) => {
                let got = t.get(p);
                match &value {
                    None => ensure!(matches!(&got, Ok(None)), "get of the root's own key: {:?}, the node has no value", got),
                    Some(None) => ensure!(got.is_err(), "get of a value that cannot be read: {:?}", got),
                    Some(Some(v)) => ensure!(got.as_ref().ok() == Some(&Some(v.clone())), "get of the root's own key: {:?}, expected {:?}", got, v),
                }
                let has = t.contains(p).map_err(|e| e.to_string())?;
                ensure!(has == value.is_some(), "contains_key of the root's own key is {}", has);
                if let Some(Some(v)) = &value {
                    let it = t.entries(1);
                    let readable = n.children.as_ref().is_none_or(|(_, id)| store.read(id).is_ok());
                    ensure!(!readable || it.as_ref().ok() == Some(&vec![(p.clone(), v.clone())]), "the first entry is {:?}", it);
                    let f = t.first_entry(b"x");
                    ensure!(f.as_ref().ok() == Some(&Some(([b"x", &p[..]].concat(), v.clone()))), "first_entry is {:?}", f);
                }
                if n.children.is_none() {
                    let want: Map = match &value {
                        Some(Some(v)) => [(p.clone(), v.clone())].into_iter().collect(),
                        _ => Map::new(),
                    };
                    if value.as_ref().is_some_and(|v| v.is_some()) || (n.value.is_none() && p.is_empty()) {
                        same_all(&t, &want, &Descend::Always, "a leaf")?;
                    }
                }
            }
            None => {
                ensure!(t.get(b"abc").is_err(), "lookup works though the prefix cannot be read");
                ensure!(t.entries(5).is_err(), "iteration works though the prefix cannot be read");
            }
        }
        if let Some((_, id)) = &n.children {
            if prefix.is_some() && store.read(id).is_err() {
                cx.label("children cannot be read");
                let k = [&prefix.clone().unwrap()[..], b"zz"].concat();
                ensure!(t.get(&k).is_err(), "lookup below children that cannot be read: {:?}", t.get(&k));
                ensure!(t.entries(5).is_err(), "iteration over children that cannot be read ends without an error");
                ensure!(t.0.try_detached().is_err(), "detaching children that cannot be read works");
            }
        }
        // nothing may panic or hang
        let mut ks: Vec<Vec<u8>> = c.probes.iter().map(|p| p.0.clone()).collect();
        ks.extend([vec![], b"a".to_vec(), b"ab".to_vec()]);
        if let Some(p) = prefix {
            ks.push(p.clone());
            ks.push([&p[..], b"a"].concat());
            ks.push(p[..p.len() / 2].to_vec());
        }
        for k in &ks {
            let _ = t.get(k);
            let _ = t.contains(k);
            let _ = t.has_prefix(k);
            let _ = t.scan(k, 1000);
            let _ = t.filter_prefix(k, b"x").map(|f| f.entries(1000));
        }
        let _ = t.values(1000);
        let _ = t.first_value();
        let _ = t.last_value();
        let _ = t.first_entry(b"");
        let _ = t.last_entry(b"");
        let _ = t.group_by(&|_| true, 1000).map(|gs| gs.into_iter().map(|g| g.entries(100)).count());
        let _ = format!("{:?}", t);
        let (r, _) = super::show::captured(|| t.0.try_dump());
        ensure!(r.is_ok() || n.children.is_some(), "dump of a leaf fails: {:?}", r.map_err(|e| e.to_string()));
        for k in &ks {
            let mut u = t.clone();
            let _ = u.insert(k, b"v");
            let _ = u.remove(k);
            let mut u = t.clone();
            let _ = u.remove_prefix(k);
            let _ = u.entries(1000);
            let _ = u.0.try_reattach();
        }
        let _ = t.0.try_reattach();
        Ok(())
    }
}
const HDRS: [u8; 9] = [0x00, 0x01, 0x02, 0x61, 0x80, 0x81, 0x82, 0x7f, 0xff];

#[derive(Debug)]
pub struct Touch {
    pub made: Made,
    pub big: usize,
    pub spread: u8,
    pub seed: u64,
    pub keys: Vec<B>,
    pub updates: Vec<Op>,
}

pub struct C25;
impl C25 {
    fn contents(c: &Touch) -> Map {
        let mut m = c.made.map();
        let mut r = Rng::new(c.seed);
        for _ in 0..c.big {
            let l = 1 + r.below(6) as usize;
            let k: Vec<u8> = (0..l).map(|_| b'a' + r.below(c.spread as u64 + 2) as u8).collect();
            let v = vec![r.next() as u8; [0, 3, 20, 140][r.below(4) as usize]];
            m.insert(k, v);
        }
        m
    }
}

/// what a blob is to the tree it belongs to
enum Role {
    Root,
    /// of the node between these two paths
    Prefix(Vec<u8>, Vec<u8>),
    /// of the node at this path
    Children(Vec<u8>),
    Value(Vec<u8>),
}
impl std::fmt::Display for Role {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Role::Root => write!(f, "the root"),
            Role::Prefix(s, e) => write!(f, "the prefix of the node from \"{}\" to \"{}\"", show(s), show(e)),
            Role::Children(p) => write!(f, "the children of the node at \"{}\"", show(p)),
            Role::Value(p) => write!(f, "the value of the node at \"{}\"", show(p)),
        }
    }
}
#[derive(Default)]
struct Roles {
    of: HashMap<Vec<u8>, Role>,
    /// number of children of the node at a path
    fan: HashMap<Vec<u8>, usize>,
}
impl Roles {
    /// of the blobs of a stored tree, by an independent reader
    fn new(store: &TStore, root: &[u8]) -> Result<Roles, String> {
        let mut r = Roles::default();
        r.of.insert(root.to_vec(), Role::Root);
        let d = Self::read(store, root)?;
        let (n, _) = codec::node(&d)?;
        r.walk(store, &n, &[])?;
        Ok(r)
    }
    fn read(store: &TStore, id: &[u8]) -> Result<Vec<u8>, String> {
        store.st().blobs.get(id).map(|d| d.to_vec()).ok_or("a tree refers to a blob that was never written".to_string())
    }
    fn walk(&mut self, store: &TStore, n: &codec::Node, start: &[u8]) -> Result<(), String> {
        let end = match &n.prefix {
            Field::Data(d) => [start, d].concat(),
            Field::Id(i) => {
                let end = [start, &Self::read(store, &i[1..])?].concat();
                self.of.insert(i[1..].to_vec(), Role::Prefix(start.to_vec(), end.clone()));
                end
            }
        };
        if let Some(Field::Id(i)) = &n.value {
            self.of.insert(i.clone(), Role::Value(end.clone()));
        }
        if let Some((_, id)) = &n.children {
            self.of.insert(id.clone(), Role::Children(end.clone()));
            let d = Self::read(store, id)?;
            let mut rest = &d[..];
            let mut fan = 0;
            while !rest.is_empty() {
                let (c, r) = codec::node(rest)?;
                rest = r;
                fan += 1;
                self.walk(store, &c, &end)?;
            }
            self.fan.insert(end, fan);
        }
        Ok(())
    }
    /// whether looking for this key has to look at the blob
    fn on_path(&self, id: &[u8], k: &[u8]) -> bool {
        match self.of.get(id) {
            Some(Role::Root) => true,
            Some(Role::Prefix(s, e)) => visits(k, s, e),
            Some(Role::Children(p)) => k.len() > p.len() && k.starts_with(p),
            Some(Role::Value(_)) | None => false,
        }
    }
    /// ... or removing it, when nodes are merged; also for removing all keys with this prefix
    fn merged(&self, id: &[u8], k: &[u8]) -> bool {
        match self.of.get(id) {
            // an only sibling that stays, or an only child
            Some(Role::Prefix(s, _)) => k.starts_with(s) && self.fan.get(s).is_some_and(|n| *n <= if k == &s[..] { 1 } else { 2 }),
            Some(Role::Children(p)) => p == k,
            _ => false,
        }
    }
    fn name(&self, id: &[u8]) -> String {
        self.of.get(id).map(|r| r.to_string()).unwrap_or("a blob the tree does not refer to".into())
    }
}
/// whether looking for the key looks at the node between these paths
fn visits(k: &[u8], start: &[u8], end: &[u8]) -> bool {
    k.starts_with(start) && (start == end || start.is_empty() || k.len() > start.len() && k[start.len()] == end[start.len()])
}
/// all nodes, by where they start and end
fn node_set(r: &RNode, start: &[u8], out: &mut HashSet<(Vec<u8>, Vec<u8>)>) {
    let end = [start, &r.prefix].concat();
    for c in &r.children {
        node_set(c, &end, out);
    }
    out.insert((start.to_vec(), end));
}

/// nodes on the way to a key, plus one sibling that may have to be merged
fn path(r: &RNode, k: &[u8]) -> u64 {
    r.path_nodes(k) as u64
}

impl Property for C25 {
    type Case = Touch;
    const ID: &'static str = "C25";
    const CASES: (u64, u64) = (1_200, 240_000);
    const RULE: &'static str = "A case is a tree of up to some hundred entries in a store that counts calls, keys (present, near, absent) and a few updates. Each lookup, prefix query and single-key change on a freshly loaded tree may only read blobs of nodes on the path to the key (what each blob is to the tree is found out by an independent reader), and no more than a few per node; the first and last entry, the first entries of iterations and scans, and groups only those of what they go to, loading reads one blob, reattaching without changes reads and writes a constant number of blobs, and reattaching after updates writes only prefixes, values and children of nodes on the updated paths or split or merged by the updates. Non-trivial: the tree has at least four times as many blobs as the bound allows.";
    const ASSUMPTIONS: &'static [&'static str] = &["bounds are a small multiple of the path length, not the exact number of blobs the current code reads"];
    fn gen(src: &mut Src) -> Touch {
        let keys = gen_keys(src);
        let made = gen_made(src, &keys, MEDIUM, 0);
        let big = src.pick(&[0usize, 100, 300, 1000, 3000]);
        let spread = src.pick(&[4u8, 1, 10, 24]);
        let seed = src.u8() as u64;
        let mut ks = src.list(0, 8, 4, |src| B(keys.key(src)));
        for _ in 0..6 {
            let l = src.below(7);
            ks.push(B((0..l).map(|_| b'a' + src.below(spread as usize + 2) as u8).collect()));
        }
        let updates = src.list(1, 8, 2, |src| {
            if src.chance(128) {
                gen_point_op(src, &keys)
            } else {
                let k = ks[src.below(ks.len())].0.clone();
                if src.chance(128) { Op::Insert(k, gen_val(src)) } else { Op::Remove(k) }
            }
        });
        Touch { made, big, spread, seed, keys: ks, updates }
    }
    fn run(c: &Touch, cx: &mut Cx) -> Res {
        let m = C25::contents(c);
        let r = model::radix(&m);
        let store = TStore::new(8, Ids::Seq, 0);
        let mut t = from_map(&m).try_attached(store.clone()).map_err(|e| format!("attach: {:#}", e))?;
        let id = t.try_reattach().map_err(|e| format!("reattach: {:#}", e))?;
        let blobs = store.st().blobs.len() as u64;
        let roles = Roles::new(&store, &id)?;
        let count = |what: &str, f: &mut dyn FnMut() -> Res| -> Result<(u64, u64), String> {
            let (r0, w0) = store.counts();
            store.st().trace = Some(vec![]);
            f().map_err(|e| format!("{}: {}", what, e))?;
            let (r1, w1) = store.counts();
            Ok((r1 - r0, w1 - w0))
        };
        // every blob that was read is allowed
        let reads = |what: &str, k: &[u8], ok: &dyn Fn(&[u8]) -> bool| -> Res {
            for id in store.st().trace.take().unwrap_or_default() {
                ensure!(ok(&id), "{}(\"{}\") read {}", what, show(k), roles.name(&id));
            }
            Ok(())
        };
        let mut l = None;
        let (rd, wr) = count("load", &mut || {
            l = Some(RadixTree::try_load(store.clone(), Some(&id)).map_err(|e| e.to_string())?);
            Ok(())
        })?;
        ensure!(rd <= 1 && wr == 0, "load read {} and wrote {} blobs", rd, wr);
        let fresh = l.unwrap();
        let (rd, wr) = count("empty", &mut || {
            let _ = RadixTree::empty(store.clone());
            let _ = fresh.clone();
            Ok(())
        })?;
        ensure!(rd == 0 && wr == 0, "making a handle read {} and wrote {} blobs", rd, wr);
        let mut max_bound = 0;
        let mut ks: Vec<Vec<u8>> = c.keys.iter().map(|k| k.0.clone()).collect();
        for (i, k) in m.keys().enumerate() {
            if i % (m.len() / 6 + 1) == 0 {
                ks.push(k.clone());
            }
        }
        for k in &ks {
            let p = path(&r, k);
            let t = Att(fresh.clone());
            let bound = 4 * p + 4;
            max_bound = max_bound.max(6 * p + 8);
            let (rd, wr) = count("get", &mut || {
                t.get(k).map_err(|e| e.to_string())?;
                Ok(())
            })?;
            ensure!(rd <= bound && wr == 0, "get(\"{}\") read {} and wrote {} blobs; {} nodes are on the path, the store has {} blobs", show(k), rd, wr, p, blobs);
            reads("get", k, &|id| roles.on_path(id, k) || matches!(roles.of.get(id), Some(Role::Value(p)) if p == k))?;
            let (rd, _) = count("contains", &mut || {
                t.contains(k).map_err(|e| e.to_string())?;
                Ok(())
            })?;
            ensure!(rd <= bound, "contains_key(\"{}\") read {} blobs; {} nodes are on the path, the store has {} blobs", show(k), rd, p, blobs);
            reads("contains_key", k, &|id| roles.on_path(id, k))?;
            let (_, wr) = count("has_prefix", &mut || t.has_prefix(k).map(|_| ()).map_err(|e| e.to_string()))?;
            reads("has_prefix", k, &|id| roles.on_path(id, k))?;
            let (_, wr2) = count("filter_prefix", &mut || t.filter_prefix(k, b"x").map(|_| ()).map_err(|e| e.to_string()))?;
            reads("filter_prefix", k, &|id| roles.on_path(id, k))?;
            let (_, wr3) = count("remove_prefix", &mut || t.clone().remove_prefix(k).map_err(|e| e.to_string()))?;
            reads("remove_prefix", k, &|id| roles.on_path(id, k) || roles.merged(id, k))?;
            ensure!(wr + wr2 + wr3 == 0, "a query or removal by prefix wrote to the store");
            let bound = 6 * p + 8;
            let mut u = t.clone();
            let (rd, wr) = count("insert", &mut || u.insert(k, b"new").map_err(|e| e.to_string()))?;
            ensure!(rd <= bound && wr == 0, "insert(\"{}\") read {} and wrote {} blobs; {} nodes are on the path, the store has {} blobs", show(k), rd, wr, p, blobs);
            // that of the node at the key itself may be read as well
            reads("insert", k, &|id| roles.on_path(id, k) || matches!(roles.of.get(id), Some(Role::Children(p)) if p == k))?;
            let mut u = t.clone();
            let (rd, wr) = count("remove", &mut || u.remove(k).map_err(|e| e.to_string()))?;
            ensure!(rd <= bound && wr == 0, "remove(\"{}\") read {} and wrote {} blobs; {} nodes are on the path, the store has {} blobs", show(k), rd, wr, p, blobs);
            reads("remove", k, &|id| roles.on_path(id, k) || roles.merged(id, k))?;
            // now reattach: only the path is written
            let (rd, wr) = count("reattach", &mut || u.0.try_reattach().map(|_| ()).map_err(|e| e.to_string()))?;
            let mut m2 = m.clone();
            m2.remove(k);
            let (wb, rb) = (self_writes(&r, k, b""), 2);
            ensure!(wr <= wb && rd <= rb, "reattach after removing \"{}\" read {} and wrote {} blobs (allowed {} writes); {} nodes are on the path, the store has {} blobs", show(k), rd, wr, wb, p, blobs);
            max_bound = max_bound.max(wb);
        }
        // ends, the beginning of iterations, and groups read what they go to
        let end = |id: &[u8]| match roles.of.get(id) {
            Some(Role::Root) => Some(vec![]),
            Some(Role::Prefix(_, p)) | Some(Role::Children(p)) | Some(Role::Value(p)) => Some(p.clone()),
            None => None,
        };
        let t = Att(fresh.clone());
        let mut wrote = 0;
        let mut look = |what: &str, k: &[u8], ok: &dyn Fn(&[u8]) -> bool, f: &mut dyn FnMut() -> AR<()>| -> Res {
            wrote += count(what, &mut || f().map_err(|e| e.to_string()))?.1;
            reads(what, k, ok)
        };
        for (what, k) in [("first", m.keys().next()), ("last", m.keys().next_back())] {
            let Some(k) = k else { continue };
            let ok = |id: &[u8]| end(id).is_some_and(|e| k.starts_with(&e));
            if what == "first" {
                look("first_value", k, &ok, &mut || t.first_value().map(drop))?;
                look("first_entry", k, &ok, &mut || t.first_entry(b"x").map(drop))?;
            } else {
                look("last_value", k, &ok, &mut || t.last_value().map(drop))?;
                look("last_entry", k, &ok, &mut || t.last_entry(b"x").map(drop))?;
            }
        }
        for (i, p) in ks.iter().enumerate() {
            let n = 1 + i % 3;
            // one entry more may have been looked at already
            let upto = |from: &[u8]| m.range(from.to_vec()..).map(|x| x.0).filter(|k| k.starts_with(from)).nth(n).cloned();
            if let Some(k) = upto(b"") {
                let ok = |id: &[u8]| end(id).is_some_and(|e| e <= k);
                look("the beginning of an iteration", &k, &ok, &mut || t.0.try_iter().take(n).try_for_each(|r| r.map(drop)))?;
                look("the beginning of an iteration of the values", &k, &ok, &mut || t.0.try_values().take(n).try_for_each(|r| r.map(drop)))?;
                cx.label("the beginning of an iteration");
            }
            if let Some(k) = upto(p) {
                // not what comes before the prefix either
                let ok = |id: &[u8]| roles.on_path(id, p) || end(id).is_some_and(|e| e <= k && e.starts_with(p));
                look("the beginning of a scan", &k, &ok, &mut || t.0.try_scan_prefix(p)?.take(n).try_for_each(|r| r.map(drop)))?;
                cx.label("the beginning of a scan");
            }
            let ok = |id: &[u8]| match roles.of.get(id) {
                Some(Role::Root) => true,
                Some(Role::Prefix(s, _)) => p.starts_with(s),
                Some(Role::Children(e)) => p.starts_with(e),
                _ => false,
            };
            look("group_by", p, &ok, &mut || t.0.try_group_by(|path: &[u8], _: &_| Ok(p.starts_with(path))).try_for_each(|r| r.map(drop)))?;
        }
        ensure!(wrote == 0, "reading wrote {} blobs", wrote);
        let mut u = fresh.clone();
        let (rd, wr) = count("reattach", &mut || u.try_reattach().map(|_| ()).map_err(|e| e.to_string()))?;
        ensure!(rd <= 2 && wr <= 2, "reattaching an unchanged tree read {} and wrote {} blobs", rd, wr);
        // several updates, then reattach
        let mut u = Att(fresh.clone());
        let mut m2 = m.clone();
        let mut bound = 2;
        let mut nodes = HashSet::new();
        let mut touched = HashSet::new();
        node_set(&r, &[], &mut nodes);
        for op in &c.updates {
            let (k, v) = match op {
                Op::Insert(k, v) => (k, v.bytes()),
                Op::Remove(k) => (k, vec![]),
                _ => unreachable!(),
            };
            bound += self_writes(&model::radix(&m2), k, &v);
            u.op(op).map_err(|e| e.to_string())?;
            m2 = model::apply(&m2, op);
            let mut after = HashSet::new();
            node_set(&model::radix(&m2), &[], &mut after);
            touched.extend(after.difference(&nodes).cloned());
            nodes = after;
        }
        let w0 = store.st().log.len();
        let mut id2 = vec![];
        let (rd, wr) = count("reattach", &mut || {
            id2 = u.0.try_reattach().map_err(|e| e.to_string())?;
            Ok(())
        })?;
        let keys: Vec<&[u8]> = c.updates.iter().map(|o| if let Op::Insert(k, _) | Op::Remove(k) = o { &k[..] } else { unreachable!() }).collect();
        let after = Roles::new(&store, &id2)?;
        for id in store.st().trace.take().unwrap_or_default() {
            ensure!(keys.iter().any(|k| roles.on_path(&id, k)), "reattach after {:?} read {}", c.updates, roles.name(&id));
        }
        let written: Vec<Vec<u8>> = store.st().log[w0..].iter().map(|x| x.0.clone()).collect();
        for id in &written {
            let ok = match after.of.get(id) {
                None => false,
                Some(Role::Root) => true,
                Some(Role::Prefix(s, e)) => keys.iter().any(|k| visits(k, s, e)) || touched.contains(&(s.clone(), e.clone())),
                Some(Role::Children(p)) => keys.iter().any(|k| k.starts_with(p)),
                Some(Role::Value(p)) => keys.contains(&&p[..]),
            };
            ensure!(ok, "reattach after {:?} wrote {}", c.updates, after.name(id));
        }
        ensure!(rd <= 2 && wr <= bound, "reattach after {:?} read {} and wrote {} blobs (allowed {} writes), the store has {} blobs", c.updates, rd, wr, bound, blobs);
        same_entries(&u, &m2, "after the updates")?;
        // once reattached, nothing is in memory any more: reattaching again is free
        let (rd, wr) = count("reattach again", &mut || u.0.try_reattach().map(|_| ()).map_err(|e| e.to_string()))?;
        ensure!(rd <= 2 && wr <= 2, "reattaching again read {} and wrote {} blobs", rd, wr);
        cx.label_if(blobs >= 100, "over 100 blobs");
        cx.nt_if(blobs >= 4 * max_bound.max(bound));
        Ok(())
    }
}

/// blobs a change of one key may write: per node on the path its children list, prefix and
/// value, plus a split or merged node, plus the root
fn self_writes(r: &RNode, k: &[u8], _v: &[u8]) -> u64 {
    3 * path(r, k) + 8
}
