//! What operations on whole trees cost, measured as in [super::cost]: the same operation on a
//! tree, and on one of the same kind several times as large.
use super::cost::{measure, Cost};
use crate::engine::{Cx, Property, Res};
use crate::gen::Val;
use crate::model::Map;
use crate::stores::*;
use crate::tape::Src;
use crate::tree::*;
use crate::ensure;
use radixdb::node::{DowncastConverter, IdentityConverter, NodeConverter, Value, ValueRef};
use radixdb::store::BlobStore;
use radixdb::RadixTree;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Shape {
    /// all strings of some length over this many letters
    Digits(u8),
    /// keys each longer by this many bytes
    Chain(usize),
    /// such a chain, with another key branching off at every step
    Comb(usize),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Other {
    Same,
    /// every second entry
    Half,
    /// without a common first byte
    Disjoint,
    /// the same with everything below a longer prefix
    Below,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum What {
    Keep,
    Take,
    Drop,
}

#[derive(Debug, Clone, Copy)]
pub enum LQ {
    Collect,
    Iter,
    Values,
    Scan,
    Groups(bool),
    Equal,
    Detach,
    Attach,
    /// load and read everything
    Load,
    /// put into a store once more, after every second entry has been changed in place
    Reattach,
    With(Kind, What),
    Func(Kind, What),
    Prefix(bool, bool),
    Pred(Kind),
    /// remove all entries one by one
    Clear,
    /// a copy after every change of a single entry
    Versions,
}

#[derive(Debug)]
pub struct Case {
    pub shape: Shape,
    pub small: usize,
    pub large: usize,
    pub value: usize,
    /// have inner keys a value as well?
    pub inner: bool,
    pub attached: bool,
    pub other: Other,
    pub qs: Vec<LQ>,
}

/// the tree of this size
fn map(c: &Case, n: usize) -> Map {
    let mut m = Map::new();
    let mut put = |k: Vec<u8>| {
        let v = Val { tag: k.len() as u8, len: c.value }.bytes();
        m.insert([b"k", &k[..]].concat(), v);
    };
    match c.shape {
        Shape::Digits(r) => {
            let r = r as usize;
            let mut all = vec![vec![]];
            for i in 0..n {
                if c.inner {
                    all.iter().for_each(|k: &Vec<u8>| put(k.clone()));
                }
                all = all.iter().flat_map(|k| (0..r).map(move |d| [&k[..], &[(d * 37 + i) as u8]].concat())).collect();
            }
            all.into_iter().for_each(put);
        }
        Shape::Chain(step) => (1..=n).for_each(|i| put(vec![b'c'; i * step])),
        Shape::Comb(step) => (1..=n).for_each(|i| {
            let k = vec![b'c'; i * step];
            put([&k[..], b"x"].concat());
            if c.inner {
                put(k);
            }
        }),
    }
    m
}

fn other(c: &Case, m: &Map) -> Map {
    let under = |p: &[u8]| m.iter().map(|(k, v)| ([p, k].concat(), v.clone())).collect();
    match c.other {
        Other::Same => m.clone(),
        Other::Half => m.iter().step_by(2).map(|(k, v)| (k.clone(), v.clone())).collect(),
        Other::Disjoint => under(b"a"),
        Other::Below => under(b"kcc"),
    }
}

fn change<S: BlobStore>(w: What, x: &mut Value<S>, y: &ValueRef) {
    match w {
        What::Keep => {}
        What::Take => x.set(Some(y.downcast::<S>())),
        What::Drop => x.set(None),
    }
}

macro_rules! ok {
    ($e:expr) => {
        $e.map_err(|e| format!("{:?}", e))?
    };
}

fn exec<S>(q: LQ, x: &mut RadixTree<S>, y: &RadixTree<S>, b: &RadixTree, m: &Map) -> Result<(), String>
where
    S: BlobStore + Clone,
    S::Error: From<radixdb::store::NoError>,
    anyhow::Error: From<S::Error>,
    DowncastConverter: NodeConverter<radixdb::store::Detached, S>,
    IdentityConverter: NodeConverter<S, S>,
{
    match q {
        LQ::Iter => ok!(x.try_iter().try_for_each(|r| r.map(drop))),
        LQ::Values => ok!(x.try_values().try_for_each(|r| r.map(drop))),
        LQ::Scan => ok!(ok!(x.try_scan_prefix("k")).try_for_each(|r| r.map(drop))),
        LQ::Groups(deep) => ok!(x.try_group_by(|p: &[u8], _: &_| Ok(deep || p.is_empty())).try_for_each(|r| r.map(drop))),
        LQ::Detach => drop(ok!(x.try_detached())),
        LQ::With(kind, w) => {
            let f = |a: &mut Value<S>, b: &ValueRef| -> Result<(), S::Error> {
                change(w, a, b);
                Ok(())
            };
            match kind {
                Kind::Outer => ok!(x.try_outer_combine_with(b, DowncastConverter, f)),
                Kind::Inner => ok!(x.try_inner_combine_with(b, DowncastConverter, f)),
                Kind::Left => ok!(x.try_left_combine_with(b, DowncastConverter, f)),
            }
        }
        LQ::Func(kind, w) => {
            // any value, the one given may be in a store
            let f = |_: &ValueRef<S>, _: &ValueRef<S>| -> AR<Option<Value>> { Ok((w != What::Drop).then(|| mkval(b"chosen"))) };
            drop(match kind {
                Kind::Outer => ok!(x.try_outer_combine(y, f)),
                Kind::Inner => ok!(x.try_inner_combine(y, f)),
                Kind::Left => ok!(x.try_left_combine(y, f)),
            })
        }
        LQ::Prefix(true, p) => ok!(x.try_retain_prefix_with(b, |_: &ValueRef| Ok(p))),
        LQ::Prefix(false, p) => ok!(x.try_remove_prefix_with(b, |_: &ValueRef| Ok(p))),
        LQ::Pred(Kind::Left) => drop(ok!(x.try_left_combine_pred(b, |_: &ValueRef<S>, _: &ValueRef| AR::Ok(false)))),
        LQ::Pred(_) => drop(ok!(x.try_inner_combine_pred(b, |_: &ValueRef<S>, _: &ValueRef| AR::Ok(false)))),
        LQ::Clear => {
            for k in m.keys() {
                ok!(x.try_remove(k));
            }
        }
        LQ::Versions => {
            let mut kept = Vec::with_capacity(m.len());
            for k in m.keys() {
                ok!(x.try_insert(k, b"other"));
                kept.push(x.clone());
            }
        }
        LQ::Collect | LQ::Equal | LQ::Attach | LQ::Load | LQ::Reattach => unreachable!(),
    }
    Ok(())
}

/// what the operation costs on the tree of these entries
fn cost(c: &Case, q: LQ, m: &Map) -> Result<Cost, String> {
    let (d, b) = (from_map(m), from_map(&other(c, m)));
    let (r, cost) = match q {
        LQ::Collect => measure(|| Ok(drop(from_map(m)))),
        LQ::Equal => {
            let e = from_map(m);
            let (r, k) = measure(|| d == e);
            ensure!(r, "a tree is not equal to itself");
            (Ok(()), k)
        }
        LQ::Attach => {
            let st = Spec::Mem.open().store;
            measure(|| d.try_attached(st.clone()).map(drop).map_err(|e| e.to_string()))
        }
        LQ::Load | LQ::Reattach => {
            let st = Spec::Mem.open().store;
            let e = |e: anyhow::Error| e.to_string();
            let mut t = d.try_attached(st.clone()).map_err(e)?;
            let id = t.try_reattach().map_err(e)?;
            if let LQ::Load = q {
                measure(|| RadixTree::try_load(st.clone(), Some(id)).and_then(|t| t.try_iter().try_for_each(|r| r.map(drop))).map_err(e))
            } else {
                for k in m.keys().step_by(2) {
                    t.try_insert(k, b"other").map_err(e)?;
                }
                measure(|| t.try_reattach().map(drop).map_err(e))
            }
        }
        _ if c.attached => {
            let st = Spec::Mem.open().store;
            let e = |e: anyhow::Error| e.to_string();
            let mut t = d.try_attached(st.clone()).map_err(e)?;
            let y = b.try_attached(st.clone()).map_err(e)?;
            measure(|| exec(q, &mut t, &y, &b, m))
        }
        _ => {
            let mut t = d.clone();
            measure(|| exec(q, &mut t, &b, &b, m))
        }
    };
    r?;
    Ok(cost)
}

impl LQ {
    fn name(&self) -> &'static str {
        match self {
            LQ::Collect => "collect",
            LQ::Iter => "iter",
            LQ::Values => "values",
            LQ::Scan => "scan_prefix",
            LQ::Groups(_) => "group_by",
            LQ::Equal => "equality",
            LQ::Detach => "detach",
            LQ::Attach => "attach",
            LQ::Load => "load and read",
            LQ::Reattach => "reattach",
            LQ::With(Kind::Outer, _) => "outer_combine_with",
            LQ::With(Kind::Inner, _) => "inner_combine_with",
            LQ::With(Kind::Left, _) => "left_combine_with",
            LQ::Func(..) => "functional combine",
            LQ::Prefix(true, _) => "retain_prefix_with",
            LQ::Prefix(false, _) => "remove_prefix_with",
            LQ::Pred(_) => "combine_pred",
            LQ::Clear => "removing all entries",
            LQ::Versions => "a copy after every change",
        }
    }
    /// goes down to every entry by itself
    fn each(&self) -> bool {
        matches!(self, LQ::Collect | LQ::Clear | LQ::Versions)
    }
    /// is given or hands out whole keys
    fn keys(&self) -> bool {
        self.each() || matches!(self, LQ::Groups(_))
    }
}

fn run(c: &Case, cx: &mut Cx) -> Res {
    let (ms, ml) = (map(c, c.small), map(c, c.large));
    let size = |m: &Map, each: bool| if each {
        m.keys().map(|k| 8 + k.len()).sum::<usize>() as u64
    } else {
        m.iter().map(|(_, v)| 8 + v.len()).sum::<usize>() as u64
    };
    for &q in &c.qs {
        // going down a chain copies the rest of the key at every node
        if q.each() && !matches!(c.shape, Shape::Digits(_)) {
            continue;
        }
        let (s, l) = (cost(c, q, &ms)?, cost(c, q, &ml)?);
        let (a, b) = (size(&ms, q.keys()), size(&ml, q.keys()));
        // the memory of what has been shared does not come again
        let bound = |x: u64| 4 * x * b / a + 4096;
        if std::env::var_os("RV_COST").is_some() {
            eprintln!("LIN {} {:?} {:?} att={} size {} {} bytes {} {} ({:.2}) work {} {} ({:.2})", q.name(), c.shape, c.other, c.attached, a, b, s.bytes, l.bytes, l.bytes as f64 / bound(s.bytes) as f64, s.work, l.work, l.work as f64 / bound(s.work) as f64);
        }
        cx.inner += 1;
        cx.label(q.name());
        cx.label(match c.shape {
            Shape::Digits(_) => "branching",
            Shape::Chain(_) => "nested keys",
            Shape::Comb(_) => "a long branch",
        });
        cx.label(if c.attached { "in a store" } else { "detached" });
        ensure!(l.bytes <= bound(s.bytes), "{:?}: {} bytes are allocated for {} entries, {} bytes for {} entries", q, s.bytes, ms.len(), l.bytes, ml.len());
        ensure!(l.work <= bound(s.work), "{:?}: {} comparisons for {} entries, {} for {} entries", q, s.work, ms.len(), l.work, ml.len());
        // if the cost grew with the square it would be noticed
        cx.nt_if(b / a >= 5);
    }
    Ok(())
}

fn gen_case(src: &mut Src) -> Case {
    let (shape, small, large) = match src.below(3) {
        0 => {
            let (r, s, l) = src.pick(&[(2u8, 5, 8), (3, 3, 5), (4, 3, 5), (6, 2, 4), (16, 1, 2), (20, 1, 2), (2, 4, 9)]);
            (Shape::Digits(r), s, l)
        }
        1 => (Shape::Chain(src.pick(&[1usize, 2, 3, 7, 20])), src.range(20, 40), src.range(260, 400)),
        _ => (Shape::Comb(src.pick(&[1usize, 2, 3, 7, 20])), src.range(20, 40), src.range(260, 400)),
    };
    let kinds = [Kind::Outer, Kind::Inner, Kind::Left];
    let whats = [What::Keep, What::Take, What::Drop];
    let qs = src.list(1, 6, 3, |src| match src.weighted(&[2, 3, 2, 2, 3, 2, 3, 3, 3, 3, 8, 5, 5, 3, 2, 2]) {
        0 => LQ::Collect,
        1 => LQ::Iter,
        2 => LQ::Values,
        3 => LQ::Scan,
        4 => LQ::Groups(src.chance(200)),
        5 => LQ::Equal,
        6 => LQ::Detach,
        7 => LQ::Attach,
        8 => LQ::Load,
        9 => LQ::Reattach,
        10 => LQ::With(src.pick(&kinds), src.pick(&whats)),
        11 => LQ::Func(src.pick(&kinds), src.pick(&whats)),
        12 => LQ::Prefix(src.chance(128), src.chance(128)),
        13 => LQ::Pred(src.pick(&kinds)),
        14 => LQ::Clear,
        _ => LQ::Versions,
    });
    Case {
        shape,
        small,
        large,
        value: src.pick(&[5usize, 0, 1, 20, 130]),
        inner: src.chance(128),
        attached: src.chance(100),
        other: src.pick(&[Other::Same, Other::Half, Other::Disjoint, Other::Below]),
        qs,
    }
}

pub struct C34;
impl Property for C34 {
    type Case = Case;
    const ID: &'static str = "C34";
    const CASES: (u64, u64) = (300, 200_000);
    const RULE: &'static str = "A case is a kind of tree (all strings of some length over 2 to 20 letters, nested keys, a long branch with a key beside every step; inner nodes with values or not; values of 0 to 130 bytes; in memory or in a store), a second tree related to it (the same, every second entry, disjoint, below a longer prefix), and operations that go through whole trees. Each is run on a small tree of the kind and on one several times as large, and the bytes it allocates and the comparisons it executes (counted by compiler instrumentation in the guided workers) are counted: the large one may cost at most four times what is in proportion, plus a constant. Sizes are counted in entries and bytes of values; for operations that are given or hand out whole keys, in entries and bytes of keys. Non-trivial: the large tree is at least five times the size.";
    fn gen(src: &mut Src) -> Case {
        gen_case(src)
    }
    fn run(c: &Case, cx: &mut Cx) -> Res {
        run(c, cx)
    }
}
