//! Detached trees: point operations, iteration, prefixes, equality, snapshots.
use crate::engine::{Cx, Property, Res};
use crate::gen::*;
use crate::model::{self, Map};
use crate::tape::Src;
use crate::tree::*;
use crate::ensure;
use crate::tape::hash;
use super::attached::go;
use crate::stores::*;
use crate::tstore::{Ids, TStore};
use radixdb::node::IterKey;
use radixdb::RadixTree;

/// labels describing the shape of a key set
pub fn shape(m: &Map, cx: &mut Cx) {
    let r = model::radix(m);
    let fan = r.max_fan();
    cx.label_if(fan >= 256, "node with 256 children");
    cx.label_if((17..256).contains(&fan), "node with 17..255 children");
    cx.label_if(r.max_prefix() >= 128, "prefix of 128 bytes or more");
    cx.label_if(r.max_prefix() >= 65535, "prefix of 65535 bytes or more");
    cx.label_if((9..128).contains(&r.max_prefix()), "prefix of 9..127 bytes");
    cx.label_if(m.contains_key(&vec![]), "empty key present");
    cx.label_if(m.is_empty(), "ends empty");
    cx.label_if(m.values().any(|v| v.is_empty()), "empty value");
    cx.label_if(m.values().any(|v| v.len() > 127), "value over 127 bytes");
    cx.label_if(m.keys().zip(m.keys().skip(1)).any(|(a, b)| b.starts_with(a)), "key that is a prefix of another");
}

#[derive(Debug)]
pub struct History {
    pub start: Contents,
    pub ops: Vec<Op>,
    pub probes: Vec<B>,
}

pub struct C01;
impl Property for C01 {
    type Case = History;
    const ID: &'static str = "C01";
    const CASES: (u64, u64) = (14_000, 2_800_000);
    const RULE: &'static str = "A case is a list of pairs to collect (single keys, fans of up to 256 siblings, chains of nested keys) and a sequence of inserts and removes over a pool of keys that share prefixes; after each step the touched key and its neighbours, and at the end every key, are looked up and compared with a sorted map. Non-trivial: at least one remove of a present key or one overwrite, with at least three distinct keys ever present.";
    fn gen(src: &mut Src) -> History {
        let keys = gen_keys_huge(src);
        let start = gen_contents(src, &keys, keys.medium());
        let ops = src.list(0, 60, 12, |src| gen_point_op(src, &keys));
        let probes = src.list(0, 6, 3, |src| B(keys.key(src)));
        History { start, ops, probes }
    }
    fn run(case: &History, cx: &mut Cx) -> Res {
        let pairs = case.start.pairs();
        let mut m: Map = pairs.iter().cloned().collect();
        let mut t = Det(match &pairs[..] {
            [] if case.ops.len() % 2 == 0 => RadixTree::default(),
            [(k, v)] if k.is_empty() && v.len() % 2 == 0 => RadixTree::leaf(v),
            [(k, v)] if v.len() % 3 < 2 => RadixTree::single(k, v),
            _ => from_pairs(&pairs),
        });
        let extra: Vec<Vec<u8>> = case.probes.iter().map(|p| p.0.clone()).collect();
        same_lookups(&t, &m, &probes(&m, 60), "after collecting")?;
        let mut interesting = false;
        let mut distinct = m.len();
        for (i, op) in case.ops.iter().enumerate() {
            let (k, present) = match op {
                Op::Insert(k, _) | Op::Remove(k) => (k.clone(), m.contains_key(k)),
                _ => unreachable!(),
            };
            interesting |= present;
            distinct += !present as usize;
            cx.label(op.name());
            cx.label_if(present && matches!(op, Op::Remove(_)), "remove of a present key");
            cx.label_if(present && matches!(op, Op::Insert(..)), "overwrite");
            cx.label_if(!present && matches!(op, Op::Remove(_)), "remove of an absent key");
            t.op(op).unwrap();
            m = model::apply(&m, op);
            let mut near = vec![k.clone(), vec![]];
            if let Some(x) = m.range::<Vec<u8>, _>((std::ops::Bound::Excluded(&k), std::ops::Bound::Unbounded)).next() {
                near.push(x.0.clone());
            }
            if let Some(x) = m.range::<Vec<u8>, _>(..&k).next_back() {
                near.push(x.0.clone());
            }
            near.push([&k[..], b"a"].concat());
            near.push(k[..k.len().saturating_sub(1)].to_vec());
            near.extend(extra.iter().cloned());
            same_lookups(&t, &m, &near, &format!("after step {} {:?}", i, op))?;
            if m.len() < 50 {
                let all: Vec<Vec<u8>> = m.keys().cloned().collect();
                same_lookups(&t, &m, &all, &format!("after step {} {:?}", i, op))?;
            }
        }
        let all: Vec<Vec<u8>> = m.keys().cloned().collect();
        same_lookups(&t, &m, &all, "at the end")?;
        same_lookups(&t, &m, &probes(&m, 60), "at the end")?;
        same_entries(&t, &m, "at the end")?;
        shape(&m, cx);
        cx.nt_if(interesting && distinct >= 3);
        Ok(())
    }
    fn enum_count() -> u64 {
        // every list of up to 4 inserts/removes over a 6-key universe
        12 + 12 * 12 + 12 * 12 * 12 + 12 * 12 * 12 * 12
    }
    fn enum_case(mut i: u64) -> History {
        let uni: [&[u8]; 6] = [b"", b"a", b"ab", b"b", b"aaaaaaaaa", b"aaaaaaaab"];
        let mut len = 1;
        let mut n = 12u64;
        while i >= n {
            i -= n;
            n *= 12;
            len += 1;
        }
        let ops = (0..len)
            .map(|p| {
                let c = (i % 12) as usize;
                i /= 12;
                let k = uni[c % 6].to_vec();
                if c < 6 {
                    Op::Insert(k, Val { tag: p as u8 + 1, len: [0, 1, 8, 9][p % 4] })
                } else {
                    Op::Remove(k)
                }
            })
            .collect();
        History { start: Contents::default(), ops, probes: vec![] }
    }
}


/// A tree with a history: contents collected, then operations of any kind applied
#[derive(Debug, Clone)]
pub struct Made {
    pub start: Contents,
    pub ops: Vec<Op>,
}
pub fn gen_made(src: &mut Src, keys: &Keys, sz: Sizes, ops: usize) -> Made {
    let start = gen_contents(src, keys, sz);
    let ops = if ops == 0 { vec![] } else { src.list(0, 30, ops, |src| gen_op(src, keys, &start)) };
    Made { start, ops }
}
impl Made {
    pub fn map(&self) -> Map {
        let mut m = self.start.map();
        for op in &self.ops {
            m = model::apply(&m, op);
        }
        m
    }
    pub fn det(&self) -> Det {
        let mut t = Det(from_pairs(&self.start.pairs()));
        for op in &self.ops {
            t.op(op).unwrap();
        }
        t
    }
}

/// A tree in a store: from which step of its history on, and whether it is loaded from there
#[derive(Debug, Clone)]
pub struct Place {
    pub spec: Spec,
    pub at: usize,
    pub reload: bool,
}
pub fn gen_place(src: &mut Src, p: u32) -> Option<Place> {
    src.chance(p).then(|| Place { spec: gen_spec(src), at: src.below(4), reload: src.chance(100) })
}
impl Place {
    /// the tree, in a store
    pub fn build(&self, made: &Made, store: &AnyStore) -> AR<Att<AnyStore>> {
        let mut t = Det(from_pairs(&made.start.pairs()));
        let at = self.at.min(made.ops.len());
        for op in &made.ops[..at] {
            t.op(op).unwrap();
        }
        let mut t = Att(t.0.try_attached(store.clone())?);
        if self.reload {
            t = t.reloaded()?.unwrap();
        }
        for op in &made.ops[at..] {
            t.op(op)?;
        }
        Ok(t)
    }
    pub fn open(&self, cx: &mut Cx) -> Opened {
        let o = self.spec.open();
        if let Some(t) = &o.t {
            t.st().budget = Some(3_000_000);
        }
        cx.label("in a store");
        cx.label(self.spec.name());
        o
    }
}

// ------------------------------------------------------------------------------------------

#[derive(Debug)]
pub struct IterCase {
    pub place: Option<Place>,
    pub made: Made,
    pub prefix: B,
    /// which keys to keep while the iterator advances
    pub keep: u8,
    /// change the tree while the iterator runs
    pub mutate: Vec<Op>,
}

pub struct C02;
impl Property for C02 {
    type Case = IterCase;
    const ID: &'static str = "C02";
    const CASES: (u64, u64) = (20_000, 4_000_000);
    const RULE: &'static str = "A case is a tree (collected from single keys, fans of up to 256 siblings and chains, then changed by up to a few operations of any kind; in a third of the cases attached to a store at some point of this, or loaded from there); its iteration, values, first and last are compared with a sorted map; keys are held while the iterator advances, and looked at again at the end. Non-trivial: at least three entries and at least one key that is a proper prefix of another or a branch with three or more children.";
    fn gen(src: &mut Src) -> IterCase {
        let keys = gen_keys_huge(src);
        let made = gen_made(src, &keys, keys.medium(), 3);
        let prefix = B(keys.key(src));
        let keep = src.u8();
        let mutate = src.list(0, 5, 1, |src| gen_point_op(src, &keys));
        let place = gen_place(src, if keys.huge { 0 } else { 80 });
        IterCase { place, made, prefix, keep, mutate }
    }
    fn run(c: &IterCase, cx: &mut Cx) -> Res {
        match &c.place {
            None => run02(c.made.det(), c, cx),
            Some(p) => {
                let o = p.open(cx);
                run02(go!(p.build(&c.made, &o.store), "building the tree"), c, cx)
            }
        }
    }
}

fn run02<T: Tree>(mut t: T, c: &IterCase, cx: &mut Cx) -> Res {
    let m = c.made.map();
    same_entries(&t, &m, "iter")?;
    same_ends(&t, &m, &c.prefix.0, "ends")?;
    same_ends(&t, &m, b"", "ends")?;
    // keep keys and values, change the tree meanwhile
    let mut it = t.iter_hold();
    let mut held: Vec<(IterKey, Vec<u8>, T::V, Vec<u8>)> = vec![];
    let mut blobs = vec![];
    let mut want = m.iter();
    let mut muts = c.mutate.iter();
    let mut n = 0u8;
    while let Some(r) = it.next() {
        let (k, v) = r.map_err(|e| format!("iteration fails: {:#}", e))?;
        let vb = t.bytes(&v).map_err(|e| format!("loading a value fails: {:#}", e))?;
        let Some((wk, wv)) = want.next() else { return Err("iteration yields more after the tree was changed".into()) };
        ensure!(k.as_ref() == &wk[..] && vb == *wv, "entry \"{}\" became \"{}\" while the tree was changed or keys were held", show(wk), show(k.as_ref()));
        n = n.wrapping_add(1);
        if c.keep >> (n % 8) & 1 == 1 {
            blobs.push((k.to_owned_blob(), wk.clone()));
            held.push((k, wk.clone(), v, wv.clone()));
        }
        if n % 3 == 2 {
            if let Some(op) = muts.next() {
                go!(t.op(op), "{:?}", op);
            }
        }
    }
    ensure!(want.next().is_none(), "iteration ends early when keys are held");
    drop(it);
    for (k, wk, v, wv) in &held {
        ensure!(k.as_ref() == &wk[..], "a held key \"{}\" changed to \"{}\"", show(wk), show(k.as_ref()));
        let b: &[u8] = std::borrow::Borrow::borrow(k);
        ensure!(b == &wk[..] && &k[..] == b, "a held key \"{}\" is \"{}\" when borrowed, \"{}\" when dereferenced", show(wk), show(b), show(k));
        let v = t.bytes(v).map_err(|e| format!("loading a held value fails: {:#}", e))?;
        ensure!(v == *wv, "a held value of \"{}\" changed", show(wk));
    }
    for (b, wk) in &blobs {
        ensure!(b.as_ref() == &wk[..], "a blob of key \"{}\" changed to \"{}\"", show(wk), show(b));
    }
    cx.label_if(!held.is_empty() && held.len() < m.len(), "some keys held, some not");
    cx.label_if(!c.made.ops.is_empty(), "tree with a history");
    shape(&m, cx);
    let nested = m.keys().zip(m.keys().skip(1)).any(|(a, b)| b.starts_with(a));
    cx.nt_if(m.len() >= 3 && (nested || model::radix(&m).max_fan() >= 3));
    Ok(())
}

// ------------------------------------------------------------------------------------------

#[derive(Debug)]
pub struct PrefixCase {
    pub place: Option<Place>,
    pub made: Made,
    pub queries: Vec<(B, B)>,
    pub then: Vec<Op>,
}

pub struct C03;
impl Property for C03 {
    type Case = PrefixCase;
    const ID: &'static str = "C03";
    const CASES: (u64, u64) = (3_000, 600_000);
    const RULE: &'static str = "A case is a tree with a history (in a third of the cases attached to a store on the way) and several (prefix, substitution) pairs: prefixes at, inside, just above and below its keys, and unrelated ones. has_prefix, scan_prefix, remove_prefix and filter_prefix are compared with the same selection from a sorted map; the filtered tree is compared with one built from those entries, and both are changed further. Non-trivial: some prefix selects at least one and not all entries.";
    fn gen(src: &mut Src) -> PrefixCase {
        let keys = gen_keys_huge(src);
        let made = gen_made(src, &keys, keys.medium(), 2);
        let queries = src.list(1, 8, 4, |src| {
            let mut p = keys.key(src);
            if src.chance(80) {
                p.truncate(p.len() / 2);
            }
            (B(p), B(if src.chance(160) { keys.key(src) } else { vec![] }))
        });
        let then = src.list(0, 4, 1, |src| gen_point_op(src, &keys));
        let place = gen_place(src, if keys.huge { 0 } else { 80 });
        PrefixCase { place, made, queries, then }
    }
    fn run(c: &PrefixCase, cx: &mut Cx) -> Res {
        match &c.place {
            None => run03(c.made.det(), c, cx),
            Some(p) => {
                let o = p.open(cx);
                run03(go!(p.build(&c.made, &o.store), "building the tree"), c, cx)
            }
        }
    }
}

fn run03<T: Tree>(t: T, c: &PrefixCase, cx: &mut Cx) -> Res {
    let m = c.made.map();
    let mut qs: Vec<(Vec<u8>, Vec<u8>)> = c.queries.iter().map(|(a, b)| (a.0.clone(), b.0.clone())).collect();
    // prefixes cut from actual keys
    let n = m.len();
    for (i, k) in m.keys().enumerate() {
        if i < 3 || i + 3 > n || i % (n / 8 + 1) == 0 {
            for cut in [k.len(), k.len().saturating_sub(1), k.len() / 2, 1.min(k.len()), 0] {
                qs.push((k[..cut].to_vec(), k[cut..].to_vec()));
            }
            qs.push(([&k[..], &[0]].concat(), b"x".to_vec()));
        }
    }
    // fewer queries on large trees: every one of them looks at all entries
    let cost = 40 + m.iter().map(|(k, v)| 8 + (k.len() + v.len()) / 16).sum::<usize>();
    let max = (12_000 / cost).clamp(6, 60);
    let own = c.queries.len().min(max / 2 + 1);
    qs[..].sort_unstable_by_key(|q| hash(&q.0));
    let step = (qs.len() - own).div_ceil(max).max(1);
    let mut qs: Vec<_> = c.queries.iter().take(own).map(|(a, b)| (a.0.clone(), b.0.clone())).chain(qs.into_iter().step_by(step)).collect();
    if c.queries.len() % 2 == 0 {
        qs.push((vec![], vec![]));
    }
    qs.push((vec![], b"sub".to_vec()));
    qs.sort();
    qs.dedup();
    let pairs: Vec<(Vec<u8>, Vec<u8>)> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    for (p, s) in &qs {
        let what = format!("prefix \"{}\"", show(p));
        same_prefix(&t, &m, p, "tree")?;
        // keys held during the scan
        let held: Vec<(IterKey, T::V)> = go!(t.scan_hold(p).and_then(|i| i.take(n + 1).collect::<AR<Vec<_>>>()), "{}: scan", what);
        let lo = m.range(p.clone()..).take_while(|(k, _)| k.starts_with(p));
        for ((k, v), (wk, wv)) in held.iter().zip(lo) {
            let vb = t.bytes(v).map_err(|e| format!("loading a value fails: {:#}", e))?;
            ensure!(k.as_ref() == &wk[..] && vb == *wv, "{}: held scan key \"{}\" is \"{}\"", what, show(wk), show(k.as_ref()));
        }
        let mut r = t.clone();
        go!(r.remove_prefix(p), "{}: remove_prefix", what);
        let wm = model::remove_prefix(&m, p);
        same_entries(&r, &wm, &format!("after remove_prefix(\"{}\")", show(p)))?;
        let mut f = go!(t.filter_prefix(p, s), "{}: filter_prefix", what);
        let mut wf = model::filter_prefix(&m, p, s);
        let what = format!("filter_prefix(\"{}\", \"{}\")", show(p), show(s));
        same_entries(&f, &wf, &what)?;
        let rebuilt = from_map(&wf);
        ensure!(go!(f.same_as(&rebuilt), "{}: detach", what), "{}: differs from the tree built from its entries", what);
        ensure!(f.is_empty() == wf.is_empty(), "{}: is_empty is {}", what, f.is_empty());
        same_ends(&f, &wf, b"", &what)?;
        if let Some(l) = go!(f.reloaded(), "{}: reattach and load", what) {
            same_entries(&l, &wf, &format!("{}, reattached and loaded", what))?;
        }
        if let Some(l) = go!(r.reloaded(), "remove_prefix, reattach and load") {
            same_entries(&l, &wm, &format!("after remove_prefix(\"{}\"), reattached and loaded", show(p)))?;
        }
        let ks: Vec<Vec<u8>> = vec![s.clone(), vec![], p.clone(), wf.keys().next().cloned().unwrap_or_default()];
        same_lookups(&f, &wf, &ks, &what)?;
        for k in &ks {
            same_prefix(&f, &wf, k, &what)?;
        }
        if !c.then.is_empty() {
            for op in &c.then {
                go!(f.op(op), "{} then {:?}", what, op);
                wf = model::apply(&wf, op);
            }
            same_entries(&f, &wf, &format!("{} then {:?}", what, c.then))?;
        }
        let some = wm.len() < n && !wm.is_empty();
        cx.nt_if(some);
        cx.label_if(some, "prefix selects some entries");
        cx.label_if(wm.is_empty() && n > 0, "prefix selects all entries");
        cx.label_if(wm.len() == n, "prefix selects nothing");
        cx.label_if(m.contains_key(p), "prefix is a key");
        cx.inner += 1;
    }
    let same: Vec<(Vec<u8>, Vec<u8>)> = go!(t.entries(n + 2), "iterating at the end");
    ensure!(same == pairs, "the queried tree itself changed");
    shape(&m, cx);
    Ok(())
}

// ------------------------------------------------------------------------------------------

/// how far group_by descends
#[derive(Debug, Clone, Copy)]
pub enum Descend {
    Always,
    Never,
    UpTo(usize),
    Longer(usize),
    ByHash(u8, u8),
}
pub fn gen_descend(src: &mut Src) -> Descend {
    match src.weighted(&[2, 1, 4, 1, 6]) {
        0 => Descend::Always,
        1 => Descend::Never,
        2 => Descend::UpTo(src.below(12)),
        3 => Descend::Longer(src.below(4)),
        _ => Descend::ByHash(src.u8(), src.pick(&[1, 2, 3, 3])),
    }
}
impl Descend {
    pub fn eval(&self, p: &[u8]) -> bool {
        match self {
            Descend::Always => true,
            Descend::Never => false,
            Descend::UpTo(n) => p.len() <= *n,
            Descend::Longer(n) => p.len() > *n,
            Descend::ByHash(s, n) => hash(&[&[*s], p].concat()) % 4 < *n as u64,
        }
    }
}

#[derive(Debug)]
pub struct GroupCase {
    pub place: Option<Place>,
    pub made: Made,
    pub descend: Vec<Descend>,
}

pub struct C08;
impl Property for C08 {
    type Case = GroupCase;
    const ID: &'static str = "C08";
    const CASES: (u64, u64) = (9_000, 1_800_000);
    const RULE: &'static str = "A case is a tree with a history (in a third of the cases attached to a store on the way) and several descend functions (always, never, by path length, by hash of the path). The groups and the sequence of paths descend is asked about are compared with a recursion over the compressed radix structure computed from a sorted map. Non-trivial: at least two groups, and descend answered both ways.";
    fn gen(src: &mut Src) -> GroupCase {
        let keys = gen_keys_huge(src);
        let made = gen_made(src, &keys, keys.medium(), 2);
        let descend = src.list(1, 4, 2, gen_descend);
        let place = gen_place(src, if keys.huge { 0 } else { 80 });
        GroupCase { place, made, descend }
    }
    fn run(c: &GroupCase, cx: &mut Cx) -> Res {
        match &c.place {
            None => run08(c.made.det(), c, cx),
            Some(p) => {
                let o = p.open(cx);
                run08(go!(p.build(&c.made, &o.store), "building the tree"), c, cx)
            }
        }
    }
}

fn run08<T: Tree>(t: T, c: &GroupCase, cx: &mut Cx) -> Res {
    let m = c.made.map();
    for d in &c.descend {
        let (yes, no) = (std::cell::Cell::new(0), std::cell::Cell::new(0));
        let f = |p: &[u8]| {
            let r = d.eval(p);
            let c = if r { &yes } else { &no };
            c.set(c.get() + 1);
            r
        };
        let n = same_groups(&t, &m, &f, &format!("{:?}", d))?;
        // the groups are ordinary trees
        let mut all = Map::new();
        for g in go!(t.group_by(&|p| d.eval(p), m.len() + 2), "{:?}", d) {
            let gm: Map = go!(g.entries(m.len() + 2), "{:?}: iterating a group", d).into_iter().collect();
            if m.is_empty() {
                continue;
            }
            let r = from_map(&gm);
            ensure!(go!(g.same_as(&r), "{:?}: detaching a group", d), "{:?}: group {} differs from the tree built from its entries", d, m_show(&gm));
            let mut g2 = g.clone();
            go!(g2.insert(b"new", b"1"), "{:?}: insert into a group", d);
            let mut gm2 = gm.clone();
            gm2.insert(b"new".to_vec(), b"1".to_vec());
            same_entries(&g2, &gm2, "group after an insert")?;
            if let Some(l) = go!(g2.reloaded(), "{:?}: reattaching a group", d) {
                same_entries(&l, &gm2, "group after an insert, reattached and loaded")?;
            }
            if let Some(l) = go!(g.reloaded(), "{:?}: reattaching a group", d) {
                same_entries(&l, &gm, "group reattached and loaded")?;
            }
            all.extend(gm);
        }
        ensure!(all == m, "{:?}: the groups together are not the tree", d);
        cx.nt_if(n >= 2 && yes.get() > 0 && no.get() > 0);
        cx.label_if(n >= 10, "ten groups or more");
    }
    same_entries(&t, &m, "the tree itself")?;
    shape(&m, cx);
    Ok(())
}

// ------------------------------------------------------------------------------------------

#[derive(Debug, Clone)]
pub enum Step {
    Op(Op),
    /// replace the tree by one of its groups
    Group(Descend, u8),
    /// attach to a fresh store, change there, and detach
    Through(u8, Vec<Op>),
    /// collect again from its own iterator
    Collect,
}

#[derive(Debug)]
pub struct EqCase {
    pub start: Contents,
    pub steps: Vec<Step>,
    pub order: u64,
    pub extra: Vec<B>,
    pub pick: u8,
}

pub struct C09;
impl Property for C09 {
    type Case = EqCase;
    const ID: &'static str = "C09";
    const CASES: (u64, u64) = (7_000, 1_400_000);
    const RULE: &'static str = "A case is a tree made by collecting and then operations of any kind (point, prefix, bulk in both forms, taking one group, going through a store), compared with == and its root accessors against a tree collected from the same entries in another order (with further keys inserted and removed on the way), and with != against the same entries with one value changed, one value emptied, one key removed, added or moved. Non-trivial: at least two entries at the end and at least one step that removed or combined entries.";
    fn gen(src: &mut Src) -> EqCase {
        let keys = gen_keys_huge(src);
        let start = gen_contents(src, &keys, keys.medium());
        let steps = src.list(0, 25, 6, |src| match src.weighted(&[40, 2, 3, 2]) {
            0 => Step::Op(gen_op(src, &keys, &start)),
            1 => Step::Group(gen_descend(src), src.u8()),
            2 => Step::Through(src.u8(), src.list(0, 4, 1, |src| gen_point_op(src, &keys))),
            _ => Step::Collect,
        });
        let extra = src.list(0, 5, 2, |src| B(keys.key(src)));
        EqCase { start, steps, order: src.u64(), extra, pick: src.u8() }
    }
    fn run(c: &EqCase, cx: &mut Cx) -> Res {
        let mut m = c.start.map();
        let mut t = Det(from_pairs(&c.start.pairs()));
        let mut shrunk = false;
        for s in &c.steps {
            let before = m.len();
            match s {
                Step::Op(op) => {
                    t.op(op).unwrap();
                    m = model::apply(&m, op);
                    cx.label(op.name());
                    shrunk |= !matches!(op, Op::Insert(..));
                }
                Step::Group(d, i) => {
                    if m.is_empty() {
                        continue;
                    }
                    let gs = t.group_by(&|p| d.eval(p), m.len() + 2).unwrap();
                    if !gs.is_empty() {
                        t = gs[*i as usize % gs.len()].clone();
                        m = t.entries(m.len() + 2).unwrap().into_iter().collect();
                    }
                    cx.label("group");
                }
                Step::Through(x, ops) => {
                    let st = TStore::new(*x as usize % 126 + 1, if x % 2 == 0 { Ids::Seq } else { Ids::Mixed }, 7);
                    let Ok(a) = t.0.try_attached(st) else { continue };
                    let mut a = Att(a);
                    for op in ops {
                        a.op(op).map_err(|e| format!("{:?} on the attached tree: {:#}", op, e))?;
                        m = model::apply(&m, op);
                    }
                    t = Det(a.0.try_detached().map_err(|e| format!("detach: {:#}", e))?);
                    cx.label("through a store");
                }
                Step::Collect => t = Det(t.0.iter().collect()),
            }
            shrunk |= m.len() < before;
        }
        same_entries(&t, &m, "at the end")?;
        let r = model::radix(&m);
        ensure!(t.0.is_empty() == m.is_empty(), "is_empty is {} with {} entries", t.0.is_empty(), m.len());
        ensure!(t.0.is_leaf() == r.children.is_empty(), "is_leaf is {} for {}", t.0.is_leaf(), m_show(&m));
        let v = t.0.value().map(|v| v.data().expect("value").to_vec());
        ensure!(v == r.value, "value() is {:?}, expected {:?}", v.map(|x| show(&x)), r.value.map(|x| show(&x)));
        let p = t.0.prefix().data().expect("prefix").to_vec();
        ensure!(p == r.prefix, "prefix() is \"{}\", expected \"{}\"", show(&p), show(&r.prefix));
        // another order, with detours
        let mut e: Vec<(&Vec<u8>, &Vec<u8>)> = m.iter().collect();
        let mut rng = crate::tape::Rng::new(c.order);
        for i in (1..e.len()).rev() {
            e.swap(i, rng.below(i as u64 + 1) as usize);
        }
        let mut b = RadixTree::default();
        for (i, (k, v)) in e.iter().enumerate() {
            if let Some(x) = c.extra.get(i) {
                b.insert(&x.0, b"detour");
            }
            b.insert(k, v);
        }
        for x in &c.extra {
            match m.get(&x.0) {
                None => b.remove(&x.0),
                Some(v) => b.insert(&x.0, v),
            }
        }
        ensure!(t.0 == b && b == t.0, "two trees with the same entries {} are not equal", m_show(&m));
        let plain = from_map(&m);
        ensure!(t.0 == plain && plain == t.0, "not equal to the tree collected from its entries {}", m_show(&m));
        // near misses
        if !m.is_empty() {
            let i = c.pick as usize % m.len();
            let (k, v) = m.iter().nth(i).map(|(k, v)| (k.clone(), v.clone())).unwrap();
            let mut near: Vec<(Map, &str)> = vec![];
            let mut x = m.clone();
            let mut v2 = v.clone();
            v2.push(1);
            x.insert(k.clone(), v2);
            near.push((x, "a longer value"));
            let mut x = m.clone();
            x.remove(&k);
            near.push((x.clone(), "a missing key"));
            let mut k2 = k.clone();
            k2.push(0);
            if !m.contains_key(&k2) {
                x.insert(k2, v.clone());
                near.push((x, "a moved key"));
            }
            if !v.is_empty() {
                let mut x = m.clone();
                x.insert(k.clone(), vec![]);
                near.push((x, "an emptied value"));
                let mut x = m.clone();
                let mut v2 = v.clone();
                let n = v2.len() - 1;
                v2[n] ^= 1;
                x.insert(k.clone(), v2);
                near.push((x, "another value of that length"));
            }
            // a valueless branch point with an empty value
            for q in m.keys().filter(|q| q.len() < 2000).take(20) {
                for n in 0..q.len() {
                    if !m.contains_key(&q[..n]) && m.keys().filter(|y| y.starts_with(&q[..n])).count() > 1 {
                        let mut x = m.clone();
                        x.insert(q[..n].to_vec(), vec![]);
                        near.push((x, "an empty value at a branch point"));
                        break;
                    }
                }
                if near.len() > 8 {
                    break;
                }
            }
            for (x, why) in near {
                let y = from_map(&x);
                ensure!(t.0 != y && y != t.0, "equal to a tree with {}: {} and {}", why, m_show(&m), m_show(&x));
            }
        } else {
            let mut x = RadixTree::default();
            x.insert("", "");
            ensure!(t.0 != x && x != t.0, "the empty tree equals one with the empty key");
            ensure!(t.0 == RadixTree::default(), "the emptied tree is not equal to the empty tree");
        }
        shape(&m, cx);
        cx.nt_if(m.len() >= 2 && shrunk);
        Ok(())
    }
}
