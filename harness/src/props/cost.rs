//! What operations cost, measured as allocated bytes and (in instrumented builds) executed
//! comparisons: the same operation on two trees that differ only in parts it does not concern.
use super::attached::go;
use super::cross::{entries, T};
use crate::alloc;
use crate::engine::{Cx, Property, Res};
use crate::gen::*;
use crate::model::{radix, Map, RNode};
use crate::stores::*;
use crate::tape::{hash, Src};
use crate::tree::*;
use crate::ensure;
use radixdb::node::{DowncastConverter, Value, ValueRef};
use radixdb::store::BlobStore;
use radixdb::RadixTree;

/// what one of the two trees has more of
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Ballast {
    /// keys directly below
    Fan,
    /// keys below each other
    Chain,
    /// keys in a wide and deep subtree
    Wide,
    /// longer values
    Values,
    /// longer prefixes
    Prefixes,
    /// a longer prefix of a single entry
    Leaf,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum What {
    Keep,
    Take,
    Drop,
}

#[derive(Debug, Clone)]
pub enum CQ {
    Clone,
    Get(B),
    Contains(B),
    HasPrefix(B),
    First,
    Last,
    Insert(B, Val),
    Remove(B),
    RemovePrefix(B),
    Filter(B, B),
    Scan(B),
    Groups,
    /// the first entries of an iteration over keys and values, values, or a scan
    Begin(u8, u8, B),
    With(Kind, What),
    Func(Kind, What),
    Prefix(bool, bool),
    PredQ(Kind, bool),
    /// versions, all kept
    Versions(Vec<Op>),
    /// the memory of a tree whose keys all start alike
    SharedPrefix(Vec<Op>),
}

#[derive(Debug)]
pub struct Case {
    pub base: Contents,
    pub right: Contents,
    /// which of the keys get ballast
    pub roots: u8,
    pub ballast: Ballast,
    pub n: usize,
    /// in a store
    pub attached: bool,
    /// loaded from it anew
    pub reload: bool,
    pub own: u8,
    pub qs: Vec<CQ>,
}

const SMALL_N: usize = 2;

fn ballast(kind: Ballast, root: &[u8], n: usize, out: &mut Map) {
    let mut put = |k: Vec<u8>, len: usize| {
        let v = Val { tag: k.len() as u8, len };
        out.insert(k, v.bytes());
    };
    match kind {
        Ballast::Fan => (0..n.min(256)).for_each(|i| put([root, &[i as u8]].concat(), 20)),
        Ballast::Chain => (1..=n).for_each(|i| put([root, &vec![b'c'; i]].concat(), 20)),
        Ballast::Wide => {
            // the same two keys first, so that the node at the root looks alike
            for i in 0..n {
                let h = hash(&(i as u64).to_le_bytes());
                let first = if i < 2 { i as u8 } else { (h >> 8) as u8 & 1 };
                put([root, &[first, h as u8 & 7, (h >> 16) as u8, (h >> 24) as u8]].concat(), 20);
            }
        }
        Ballast::Values => {
            put(root.to_vec(), 150 + 100 * (n - 2));
            (0..2).for_each(|i| put([root, &[i]].concat(), 150 + 100 * (n - 2)))
        }
        Ballast::Prefixes => (0..2).for_each(|i| put([root, &[i], &vec![b'p'; 150 + 100 * (n - 2)][..]].concat(), 20)),
        Ballast::Leaf => {
            put([root, &vec![b'p'; 150 + 100 * (n - 2)][..]].concat(), 20);
            out.remove(root);
        }
    }
}

fn build(m: &Map, c: &Case) -> AR<T> {
    let d = from_map(m);
    if !c.attached {
        return Ok(T::D(d));
    }
    let st = Spec::Mem.open().store;
    let mut t = d.try_attached(st.clone())?;
    if c.reload {
        let id = t.try_reattach()?;
        t = RadixTree::try_load(st, Some(id))?;
    }
    Ok(T::A(t))
}

#[derive(Clone, Copy, Debug)]
pub struct Cost {
    pub bytes: u64,
    pub work: u64,
}

pub fn measure<R>(f: impl FnOnce() -> R) -> (R, Cost) {
    let (b, w) = (alloc::total(), crate::work());
    let r = f();
    (r, Cost { bytes: alloc::total() - b, work: crate::work() - w })
}

fn change<S: BlobStore + Clone>(w: What, x: &mut Value<S>, y: &ValueRef) {
    match w {
        What::Keep => {}
        What::Take => x.set(Some(y.downcast::<S>())),
        What::Drop => x.set(None),
    }
}
fn pick<S: BlobStore + Clone>(w: What, x: &ValueRef<S>, y: &ValueRef) -> Option<Value>
where
    anyhow::Error: From<S::Error>,
{
    let _ = x;
    match w {
        What::Keep | What::Take => Some(y.to_owned()),
        What::Drop => None,
    }
}

macro_rules! ok {
    ($e:expr) => {
        $e.map_err(|e| format!("{:?}", e))?
    };
}

/// Run the operation on x; what it made is dropped here as well.
fn exec<S>(q: &CQ, x: &mut RadixTree<S>, b: &RadixTree, touched: &[Vec<u8>]) -> Result<(), String>
where
    S: BlobStore + Clone,
    S::Error: From<radixdb::store::NoError>,
    anyhow::Error: From<S::Error>,
    DowncastConverter: radixdb::node::NodeConverter<radixdb::store::Detached, S>,
{
    match q {
        CQ::Clone => drop(x.clone()),
        CQ::Get(k) => drop(ok!(x.try_get(&k.0))),
        CQ::Contains(k) => drop(ok!(x.try_contains_key(&k.0))),
        CQ::HasPrefix(k) => drop(ok!(x.try_has_prefix(&k.0))),
        CQ::First => drop((ok!(x.try_first_value()), ok!(x.try_first_entry(vec![])))),
        CQ::Last => drop((ok!(x.try_last_value()), ok!(x.try_last_entry(vec![])))),
        CQ::Insert(k, v) => ok!(x.try_insert(&k.0, v.bytes())),
        CQ::Remove(k) => ok!(x.try_remove(&k.0)),
        CQ::RemovePrefix(k) => ok!(x.try_remove_prefix(&k.0)),
        CQ::Filter(k, s) => drop(ok!(x.try_filter_prefix(&k.0, &s.0))),
        CQ::Scan(p) => {
            for r in ok!(x.try_scan_prefix(&p.0)) {
                ok!(r);
            }
        }
        CQ::Groups => {
            for r in x.try_group_by(|p: &[u8], _: &_| Ok(touched.iter().any(|t| t.starts_with(p)))) {
                ok!(r);
            }
        }
        CQ::Begin(how, n, p) => {
            let n = *n as usize;
            match how {
                0 => ok!(x.try_iter().take(n).try_for_each(|r| r.map(drop))),
                1 => ok!(x.try_values().take(n).try_for_each(|r| r.map(drop))),
                2 => ok!(ok!(x.try_scan_prefix(&p.0)).take(n).try_for_each(|r| r.map(drop))),
                _ => ok!(x.try_group_by(|_: &[u8], _: &_| Ok(true)).take(n).try_for_each(|r| r.map(drop))),
            }
        }
        CQ::With(kind, w) => {
            let f = |a: &mut Value<S>, b: &ValueRef| -> Result<(), S::Error> {
                change(*w, a, b);
                Ok(())
            };
            match kind {
                Kind::Outer => ok!(x.try_outer_combine_with(b, DowncastConverter, f)),
                Kind::Inner => ok!(x.try_inner_combine_with(b, DowncastConverter, f)),
                Kind::Left => ok!(x.try_left_combine_with(b, DowncastConverter, f)),
            }
        }
        CQ::Func(kind, w) => {
            let f = |a: &ValueRef<S>, b: &ValueRef| -> AR<Option<Value>> { Ok(pick(*w, a, b)) };
            drop(match kind {
                Kind::Outer => ok!(x.try_outer_combine(b, f)),
                Kind::Inner => ok!(x.try_inner_combine(b, f)),
                Kind::Left => ok!(x.try_left_combine(b, f)),
            })
        }
        CQ::Prefix(true, p) => ok!(x.try_retain_prefix_with(b, |_: &ValueRef| Ok(*p))),
        CQ::Prefix(false, p) => ok!(x.try_remove_prefix_with(b, |_: &ValueRef| Ok(*p))),
        CQ::PredQ(Kind::Left, p) => drop(ok!(x.try_left_combine_pred(b, |_: &ValueRef<S>, _: &ValueRef| AR::Ok(*p)))),
        CQ::PredQ(_, p) => drop(ok!(x.try_inner_combine_pred(b, |_: &ValueRef<S>, _: &ValueRef| AR::Ok(*p)))),
        CQ::Versions(ops) => {
            let mut kept = Vec::with_capacity(ops.len());
            for op in ops {
                match op {
                    Op::Insert(k, v) => ok!(x.try_insert(k, v.bytes())),
                    Op::Remove(k) => ok!(x.try_remove(k)),
                    _ => unreachable!(),
                }
                kept.push(x.clone());
            }
        }
        CQ::SharedPrefix(_) => unreachable!(),
    }
    Ok(())
}

fn cost(q: &CQ, t: &T, b: &RadixTree, touched: &[Vec<u8>]) -> Result<Cost, String> {
    let (r, c) = match t {
        T::D(x) => measure(|| {
            let mut x = x.clone();
            exec(q, &mut x, b, touched)
        }),
        T::A(x) => measure(|| {
            let mut x = x.clone();
            exec(q, &mut x, b, touched)
        }),
    };
    r?;
    Ok(c)
}

fn all(t: &T) -> Cost {
    match t {
        T::D(x) => measure(|| x.try_iter().for_each(drop)).1,
        T::A(x) => measure(|| x.try_iter().for_each(drop)).1,
    }
}

/// the paths of the nodes of a tree with these keys, and the empty one
fn nodes(m: &Map) -> Vec<Vec<u8>> {
    fn rec(n: &RNode, path: &[u8], out: &mut Vec<Vec<u8>>) {
        let p = [path, &n.prefix].concat();
        n.children.iter().for_each(|c| rec(c, &p, out));
        out.push(p);
    }
    let mut out = vec![vec![]];
    rec(&radix(m), b"", &mut out);
    out
}

impl CQ {
    fn name(&self) -> &'static str {
        match self {
            CQ::Clone => "clone",
            CQ::Get(_) => "get",
            CQ::Contains(_) => "contains_key",
            CQ::HasPrefix(_) => "has_prefix",
            CQ::First => "first value and entry",
            CQ::Last => "last value and entry",
            CQ::Insert(..) => "insert",
            CQ::Remove(_) => "remove",
            CQ::RemovePrefix(_) => "remove_prefix",
            CQ::Filter(..) => "filter_prefix",
            CQ::Scan(_) => "scan_prefix",
            CQ::Groups => "group_by",
            CQ::Begin(..) => "the first entries",
            CQ::With(Kind::Outer, _) => "outer_combine_with",
            CQ::With(Kind::Inner, _) => "inner_combine_with",
            CQ::With(Kind::Left, _) => "left_combine_with",
            CQ::Func(..) => "functional combine",
            CQ::Prefix(true, _) => "retain_prefix_with",
            CQ::Prefix(false, _) => "remove_prefix_with",
            CQ::PredQ(..) => "combine_pred",
            CQ::Versions(_) => "versions",
            CQ::SharedPrefix(_) => "memory for a shared prefix",
        }
    }
    /// the keys the operation goes to; None: any
    fn touched(&self, base: &Map, right: &Map) -> Vec<Vec<u8>> {
        match self {
            CQ::Clone => vec![],
            CQ::Get(k) | CQ::Contains(k) | CQ::HasPrefix(k) | CQ::Insert(k, _) | CQ::Remove(k) | CQ::RemovePrefix(k) | CQ::Filter(k, _) | CQ::Scan(k) => vec![k.0.clone()],
            CQ::First => base.keys().next().cloned().into_iter().collect(),
            CQ::Last => base.keys().next_back().cloned().into_iter().collect(),
            // the one after them may have been looked at already
            CQ::Begin(how, n, p) => {
                let p = if *how == 2 { &p.0[..] } else { b"" };
                base.keys().filter(|k| k.starts_with(p)).take(*n as usize + 1).cloned().chain([p.to_vec()]).collect()
            }
            CQ::Groups | CQ::With(..) | CQ::Func(..) | CQ::Prefix(..) | CQ::PredQ(..) => nodes(right),
            CQ::Versions(ops) | CQ::SharedPrefix(ops) => ops
                .iter()
                .map(|o| match o {
                    Op::Insert(k, _) | Op::Remove(k) => k.clone(),
                    _ => unreachable!(),
                })
                .collect(),
        }
    }
    /// may there be ballast below this key?
    fn spares(&self, root: &[u8], base: &Map, right: &Map, kind: Ballast) -> bool {
        let t = self.touched(base, right);
        if kind == Ballast::Leaf {
            // nothing ends in the prefix, and it does not become part of another one
            let common = |a: &[u8]| a.iter().zip(root).take_while(|(x, y)| x == y).count();
            let parent = base.keys().filter(|k| !k.starts_with(root)).map(|k| common(k)).max();
            let keeps = matches!(
                self,
                CQ::Clone | CQ::Get(_) | CQ::Contains(_) | CQ::HasPrefix(_) | CQ::First | CQ::Last | CQ::Insert(..) | CQ::Filter(..) | CQ::Scan(_)
            );
            if !keeps || parent.is_none_or(|p| t.iter().any(|t| common(t) > p)) {
                return false;
            }
        }
        // the path to a touched key must not enter the ballast
        if t.iter().any(|t| t.starts_with(root)) {
            return false;
        }
        match self {
            // what is below the key is yielded
            CQ::Scan(p) => !root.starts_with(&p.0),
            // it has to come after them
            CQ::Begin(_, n, p) => t.len() == *n as usize + 2 && t.iter().all(|t| &t[..] < root || *t == p.0),
            // leftmost and rightmost are decided below their common ancestors only
            CQ::Last => base.keys().next_back().is_none_or(|k| !root.starts_with(k)),
            _ => true,
        }
    }
}

fn run(c: &Case, cx: &mut Cx) -> Res {
    let mut base = c.base.map();
    // a subtree of its own is always there to carry ballast
    base.insert([&[c.own][..], b"own"].concat(), b"own value".to_vec());
    let right = c.right.map();
    let b = from_map(&right);
    let keys: Vec<Vec<u8>> = base.keys().cloned().collect();
    for q in &c.qs {
        if let CQ::SharedPrefix(ops) = q {
            shared_prefix(c, ops, cx)?;
            continue;
        }
        let mut roots: Vec<&Vec<u8>> = keys
            .iter()
            .enumerate()
            .filter(|(i, _)| c.roots >> (i % 8) & 1 == 1)
            .map(|(_, k)| k)
            .filter(|k| q.spares(k, &base, &right, c.ballast))
            .collect();
        if roots.is_empty() {
            roots.extend(keys.iter().find(|k| q.spares(k, &base, &right, c.ballast)));
        }
        roots.truncate(3);
        // none below another
        let r2 = roots.clone();
        roots.retain(|r| !r2.iter().any(|s| s != r && r.starts_with(s)));
        if roots.is_empty() {
            continue;
        }
        let (mut ms, mut ml) = (base.clone(), base.clone());
        for r in &roots {
            // nothing else below, so that the small and the large tree look alike there
            for m in [&mut ms, &mut ml] {
                m.retain(|k, _| k == *r || !k.starts_with(r));
            }
            ballast(c.ballast, r, SMALL_N, &mut ms);
            ballast(c.ballast, r, c.n, &mut ml);
        }
        let touched = q.touched(&base, &right);
        let what = format!("{:?}", q);
        let s = go!(build(&ms, c), "building the small tree");
        let l = go!(build(&ml, c), "building the large tree");
        entries(&s, &ms, "small tree")?;
        entries(&l, &ml, "large tree")?;
        let cs = cost(q, &s, &b, &touched)?;
        let cl = cost(q, &l, &b, &touched)?;
        let most = all(&l);
        if std::env::var_os("RV_COST").is_some() {
            eprintln!("COST {} {:?} att={} {} {} {} {} all {} {}", q.name(), c.ballast, c.attached, cs.bytes, cl.bytes, cs.work, cl.work, most.bytes, most.work);
        }
        cx.inner += 1;
        cx.label(q.name());
        cx.label(match c.ballast {
            Ballast::Fan => "more keys directly below",
            Ballast::Chain => "more nested keys",
            Ballast::Wide => "more keys in a subtree",
            Ballast::Values => "longer values",
            Ballast::Prefixes => "longer prefixes",
            Ballast::Leaf => "a longer prefix of an entry",
        });
        cx.label(if c.attached { "in a store" } else { "detached" });
        let (bb, bw) = (2 * cs.bytes + 512, 2 * cs.work + 256);
        ensure!(
            cl.bytes <= bb,
            "{}: {} bytes are allocated with {} entries, {} bytes with {} entries, though it concerns none of those under {:?}",
            what,
            cs.bytes,
            ms.len(),
            cl.bytes,
            ml.len(),
            roots.iter().map(|r| show(r)).collect::<Vec<_>>()
        );
        ensure!(
            cl.work <= bw,
            "{}: {} comparisons with {} entries, {} with {} entries, though it concerns none of those under {:?}",
            what,
            cs.work,
            ms.len(),
            cl.work,
            ml.len(),
            roots.iter().map(|r| show(r)).collect::<Vec<_>>()
        );
        // copying the ballast would be noticed
        let extra: usize = ml.iter().filter(|(k, v)| ms.get(*k) != Some(*v)).map(|(k, v)| 40 + v.len() + if c.ballast == Ballast::Leaf { k.len() } else { 0 }).sum();
        cx.nt_if(extra as u64 > bb);
    }
    Ok(())
}

/// live bytes of a tree built from the base and changed, all keys with a prefix of this length
fn memory(c: &Case, ops: &[Op], len: usize) -> Result<(i64, usize), String> {
    let pre = |k: &[u8]| [&vec![b'/'; len][..], k].concat();
    let pairs: Vec<_> = c.base.pairs().into_iter().map(|(k, v)| (pre(&k), v)).collect();
    let (before, _) = alloc::live();
    let mut t = from_pairs(&pairs);
    for op in ops {
        match op {
            Op::Insert(k, v) => t.insert(pre(k), v.bytes()),
            Op::Remove(k) => t.remove(pre(k)),
            _ => unreachable!(),
        }
    }
    let n = alloc::live().0 - before;
    Ok((n, t.iter().count()))
}

fn shared_prefix(c: &Case, ops: &[Op], cx: &mut Cx) -> Res {
    let d = 10 * c.n;
    let (s, n) = memory(c, ops, 10)?;
    let (l, _) = memory(c, ops, 10 + d)?;
    let bound = s + 3 * d as i64 + 512;
    cx.inner += 1;
    cx.label("memory for a shared prefix");
    ensure!(l <= bound, "{} entries with a common prefix of 10 bytes take {} bytes, with one of {} bytes {}", n, s, 10 + d, l);
    cx.nt_if(n >= 5);
    Ok(())
}

fn gen_case(src: &mut Src) -> Case {
    let mut keys = gen_keys(src);
    for k in &mut keys.pool {
        k.truncate(300);
    }
    let sz = Sizes { items: 5, fans: 6, chains: 10 };
    let base = gen_contents(src, &keys, sz);
    let right = if src.chance(128) { gen_related(src, &keys, &base, SMALL) } else { gen_contents(src, &keys, SMALL) };
    let ballast = src.pick(&[Ballast::Wide, Ballast::Fan, Ballast::Chain, Ballast::Values, Ballast::Prefixes, Ballast::Leaf, Ballast::Values]);
    let n = src.pick(&[200usize, 100, 256, 300]);
    let qs = src.list(1, 6, 3, |src| gen_cq(src, &keys));
    Case { base, right, roots: src.u8(), ballast, n, attached: src.chance(90), reload: src.chance(128), own: src.pick(&[b'o', 0, 255, b'Z']), qs }
}

fn gen_cq(src: &mut Src, keys: &Keys) -> CQ {
    let k = |src: &mut Src| B(keys.key(src));
    let kinds = [Kind::Outer, Kind::Inner, Kind::Left];
    let whats = [What::Keep, What::Take, What::Drop];
    match src.weighted(&[4, 4, 2, 3, 2, 2, 6, 6, 4, 4, 3, 3, 8, 5, 5, 3, 4, 3, 4]) {
        0 => CQ::Clone,
        1 => CQ::Get(k(src)),
        2 => CQ::Contains(k(src)),
        3 => CQ::HasPrefix(k(src)),
        4 => CQ::First,
        5 => CQ::Last,
        6 => CQ::Insert(k(src), gen_val(src)),
        7 => CQ::Remove(k(src)),
        8 => CQ::RemovePrefix(k(src)),
        9 => CQ::Filter(k(src), k(src)),
        10 => CQ::Scan(k(src)),
        11 => CQ::Groups,
        12 => CQ::With(src.pick(&kinds), src.pick(&whats)),
        // the other functional combines copy what they take over
        13 => CQ::Func(Kind::Inner, src.pick(&whats)),
        14 => CQ::Prefix(src.chance(128), src.chance(128)),
        15 => CQ::PredQ(src.pick(&[Kind::Inner, Kind::Left]), src.chance(128)),
        16 => CQ::SharedPrefix(src.list(0, 12, 3, |src| gen_point_op(src, keys))),
        18 => CQ::Begin(src.below(4) as u8, src.range(0, 4) as u8, k(src)),
        _ => CQ::Versions(src.list(1, 12, 5, |src| gen_point_op(src, keys))),
    }
}

pub struct C28;
impl Property for C28 {
    type Case = Case;
    const ID: &'static str = "C28";
    const CASES: (u64, u64) = (2_000, 400_000);
    const RULE: &'static str = "A case is a set of entries, operations, and a kind of ballast. For each operation two trees are built that differ only below keys the operation does not go to: one has hundreds of entries more there (directly below, nested, in a wide subtree) or values or prefixes of tens of kilobytes. The operation is run on a copy of each, and the bytes it allocates and the comparisons it executes (counted by compiler instrumentation in the guided workers) are counted, dropping included: the large tree may cost twice as much plus a constant. Also the memory a tree takes is compared with that of the same tree under a common prefix kilobytes longer. Non-trivial: copying the ballast would exceed that bound.";
    fn gen(src: &mut Src) -> Case {
        gen_case(src)
    }
    fn run(c: &Case, cx: &mut Cx) -> Res {
        run(c, cx)
    }
}
