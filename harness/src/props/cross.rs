//! Bulk operations between trees on different kinds of storage.
use super::attached::go;
use super::bulk::{calls_ok, calls_within};
use super::point::{gen_made, shape, Made};
use crate::engine::{Cx, Property, Res};
use crate::ensure;
use crate::gen::*;
use crate::model::{self, Map};
use crate::stores::*;
use crate::tape::Src;
use crate::tree::*;
use crate::tstore::TStore;
use radixdb::node::{DetachConverter, DowncastConverter, IdentityConverter};
use radixdb::store::BlobStore;
use radixdb::RadixTree;
use std::cell::RefCell;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Conv {
    Downcast,
    Identity,
    Detach,
}

#[derive(Debug)]
pub struct Side {
    /// None: detached. The flag: on the same store as the other side.
    pub spec: Option<Spec>,
    pub made: Made,
    /// changes made after attaching, so that parts are in memory only
    pub after: Vec<Op>,
    pub reattach: bool,
    /// drop everything that is loaded by loading the root again
    pub reload: bool,
}

#[derive(Debug)]
pub struct Cross {
    pub a: Side,
    pub b: Side,
    pub same_store: bool,
    pub conv: Conv,
    pub f: Comb,
    pub p: Pred,
    pub then: Vec<Op>,
}

#[derive(Clone)]
pub enum T {
    D(RadixTree),
    A(RadixTree<AnyStore>),
}

pub fn gen_side(src: &mut Src, keys: &Keys, start: Contents, det: u32) -> Side {
    let spec = if src.chance(det) { None } else { Some(gen_spec(src)) };
    let ops = if src.chance(80) { src.list(0, 6, 1, |src| gen_op(src, keys, &start)) } else { vec![] };
    let after = if src.chance(110) { src.list(0, 6, 2, |src| gen_op(src, keys, &start)) } else { vec![] };
    Side { spec, made: Made { start, ops }, after, reattach: src.chance(60), reload: src.chance(40) }
}

pub fn gen_cross(src: &mut Src) -> Cross {
    let keys = gen_keys(src);
    let sz = if src.chance(140) { MEDIUM } else { SMALL };
    let start = gen_made(src, &keys, sz, 0).start;
    let a = gen_side(src, &keys, start, 70);
    let rel = gen_related(src, &keys, &a.made.start, sz);
    let b = gen_side(src, &keys, rel, if a.spec.is_none() { 20 } else { 90 });
    let same_store = src.chance(128);
    let conv = src.pick(&[Conv::Identity, Conv::Detach, Conv::Downcast]);
    let then = src.list(0, 4, 1, |src| gen_point_op(src, &keys));
    Cross { a, b, same_store, conv, f: gen_comb(src), p: gen_pred(src), then }
}

impl Side {
    pub fn map(&self) -> Map {
        self.after.iter().fold(self.made.map(), |m, op| model::apply(&m, op))
    }
    pub fn build(&self, store: Option<&AnyStore>) -> AR<T> {
        let det = self.made.det();
        Ok(match store {
            None => {
                let mut t = det;
                for op in &self.after {
                    t.op(op)?;
                }
                T::D(t.0)
            }
            Some(s) => {
                let mut t: Att<AnyStore> = Att(det.0.try_attached(s.clone())?);
                if self.reload && self.after.is_empty() {
                    let id = t.0.try_reattach()?;
                    t = Att(RadixTree::try_load(s.clone(), Some(id))?);
                }
                let n = self.after.len() / 2;
                for (i, op) in self.after.iter().enumerate() {
                    if i == n && self.reattach {
                        let id = t.0.try_reattach()?;
                        if self.reload {
                            t = Att(RadixTree::try_load(s.clone(), Some(id))?);
                        }
                    }
                    t.op(op)?;
                }
                T::A(t.0)
            }
        })
    }
}

pub fn tstore(s: &AnyStore, o: &Opened) -> Option<TStore> {
    match s {
        AnyStore::T(t) => Some(t.clone()),
        _ => o.t.clone(),
    }
}

macro_rules! with {
    ($t:expr, $x:ident => $e:expr) => {
        match $t {
            T::D($x) => $e,
            T::A($x) => $e,
        }
    };
}

pub fn entries(t: &T, m: &Map, what: &str) -> Res {
    match t {
        T::D(x) => same_entries(&Det(x.clone()), m, what),
        T::A(x) => same_entries(&Att(x.clone()), m, what),
    }
}

/// the tree has these entries, also after detaching, after more operations, and after
/// reattaching and loading
fn sound(t: T, m: &Map, then: &[Op], what: &str) -> Res {
    entries(&t, m, what)?;
    let want = from_map(m);
    let d = match &t {
        T::D(x) => x.clone(),
        T::A(x) => go!(x.try_detached(), "{}: detach", what),
    };
    ensure!(d == want && want == d, "{}: the detached result differs from a tree built from its entries {}", what, m_show(m));
    let w2 = format!("{} then {:?}", what, then);
    let mut m2 = m.clone();
    for op in then {
        m2 = model::apply(&m2, op);
    }
    match t {
        T::D(x) => {
            let mut x = Det(x);
            for op in then {
                go!(x.op(op), "{}", w2);
            }
            same_entries(&x, &m2, &w2)
        }
        T::A(x) => {
            let mut x = Att(x);
            let first = go!(x.clone().0.try_reattach(), "{}: reattach", what);
            let store = RadixTree::store(&x.0).clone();
            let l = Att(go!(RadixTree::try_load(store.clone(), Some(&first)), "{}: load", what));
            same_entries(&l, m, &format!("{}: reattached and loaded", what))?;
            for op in then {
                go!(x.op(op), "{}", w2);
            }
            same_entries(&x, &m2, &w2)?;
            let id = go!(x.0.try_reattach(), "{}: reattach", w2);
            same_entries(&x, &m2, &format!("{}: reattached", w2))?;
            let l = Att(go!(RadixTree::try_load(store, Some(&id)), "{}: load", w2));
            same_entries(&l, &m2, &format!("{}: reattached and loaded", w2))?;
            let d = go!(l.0.try_detached(), "{}: detach", w2);
            ensure!(d == from_map(&m2), "{}: differs after detaching", w2);
            Ok(())
        }
    }
}

/// which operations to look at
#[derive(Clone, Copy)]
pub struct Only {
    pub kinds: &'static [Kind],
    pub prefixes: bool,
}
const ALL: Only = Only { kinds: &[Kind::Outer, Kind::Inner, Kind::Left], prefixes: true };

pub fn run_cross(c: &Cross, only: Only, cx: &mut Cx) -> Res {
    let (ma, mb) = (c.a.map(), c.b.map());
    let oa = c.a.spec.map(|s| s.open());
    let same = c.same_store && oa.is_some() && c.b.spec.is_some();
    let ob = if same { None } else { c.b.spec.map(|s| s.open()) };
    let sa = oa.as_ref().map(|o| o.store.clone());
    let sb = if same { sa.clone() } else { ob.as_ref().map(|o| o.store.clone()) };
    let mut counters: Vec<TStore> = vec![];
    for (s, o) in [(&sa, &oa), (&sb, if same { &oa } else { &ob })] {
        if let (Some(s), Some(o)) = (s, o) {
            if let Some(t) = tstore(s, o) {
                t.st().budget = Some(5_000_000);
                counters.push(t);
            }
        }
    }
    let a = go!(c.a.build(sa.as_ref()), "building the left tree");
    let b = go!(c.b.build(sb.as_ref()), "building the right tree");
    entries(&a, &ma, "left tree")?;
    entries(&b, &mb, "right tree")?;
    cx.label(match (&a, &b, same) {
        (T::D(_), T::D(_), _) => "detached / detached",
        (T::D(_), T::A(_), _) => "detached / attached",
        (T::A(_), T::D(_), _) => "attached / detached",
        (T::A(_), T::A(_), true) => "attached / same store",
        (T::A(_), T::A(_), false) => "attached / other store",
    });
    cx.label_if(!c.a.after.is_empty() && c.a.spec.is_some(), "left partly modified");
    cx.label_if(!c.b.after.is_empty() && c.b.spec.is_some(), "right partly modified");
    let common = model::common(&ma, &mb);
    let writes = |x: &[TStore]| x.iter().map(|t| t.counts().1).collect::<Vec<_>>();
    let w0 = writes(&counters);
    // results are reattached only after all checks that nothing was written
    let mut pending: Vec<(T, Map, String)> = vec![];
    for kind in only.kinds.iter().copied() {
        let want = match kind {
            Kind::Outer => model::outer(&ma, &mb, c.f),
            Kind::Inner => model::inner(&ma, &mb, c.f),
            Kind::Left => model::left(&ma, &mb, c.f),
        };
        let what = format!("{:?}", kind);
        let calls = RefCell::new(vec![]);
        let r = with!(&a, x => with!(&b, y => combine(kind, x, y, c.f, &calls)));
        let r = go!(r, "{}", what);
        calls_ok(calls.into_inner(), &common, &what)?;
        sound(T::D(r), &want, &[], &what)?;
        // in place
        let convs: Vec<Conv> = match (&a, &b) {
            (T::D(_), T::D(_)) => vec![Conv::Downcast, Conv::Identity, Conv::Detach],
            (T::D(_), T::A(_)) => vec![Conv::Detach],
            (T::A(_), T::D(_)) => vec![Conv::Downcast, Conv::Detach],
            (T::A(_), T::A(_)) => if same { vec![Conv::Identity, Conv::Detach] } else { vec![Conv::Detach] },
        };
        let conv = if convs.contains(&c.conv) { c.conv } else { convs[0] };
        cx.label(match conv {
            Conv::Downcast => "downcast converter",
            Conv::Identity => "identity converter",
            Conv::Detach => "detach converter",
        });
        let what = format!("{:?}_with and the {:?} converter", kind, conv);
        let calls = RefCell::new(vec![]);
        let mut r = a.clone();
        let res: AR<()> = match (&mut r, &b) {
            (T::D(x), T::D(y)) => match conv {
                Conv::Downcast => combine_with(kind, x, y, DowncastConverter, c.f, &calls),
                Conv::Identity => combine_with(kind, x, y, IdentityConverter, c.f, &calls),
                Conv::Detach => combine_with(kind, x, y, DetachConverter, c.f, &calls),
            }
            .map_err(|e| e.into()),
            (T::D(x), T::A(y)) => combine_with(kind, x, y, DetachConverter, c.f, &calls).map_err(|e| e.into()),
            (T::A(x), T::D(y)) => match conv {
                Conv::Downcast => combine_with(kind, x, y, DowncastConverter, c.f, &calls),
                _ => combine_with(kind, x, y, DetachConverter, c.f, &calls),
            },
            (T::A(x), T::A(y)) => match conv {
                Conv::Identity => combine_with(kind, x, y, IdentityConverter, c.f, &calls),
                _ => combine_with(kind, x, y, DetachConverter, c.f, &calls),
            },
        };
        go!(res, "{}", what);
        calls_ok(calls.into_inner(), &common, &what)?;
        ensure!(writes(&counters) == w0, "{}: a combine wrote to a store", what);
        entries(&b, &mb, &format!("{}: right tree afterwards", what))?;
        entries(&a, &ma, &format!("{}: copy of the left tree afterwards", what))?;
        entries(&r, &want, &what)?;
        pending.push((r, want, what));
    }
    for retain in [true, false].into_iter().filter(|_| only.prefixes) {
        let what = format!("{} by prefix with {:?}", if retain { "retain" } else { "remove" }, c.p);
        let want = if retain { model::retain(&ma, &mb, c.p) } else { model::remove_with(&ma, &mb, c.p) };
        let mut r = a.clone();
        let res: AR<()> = match (&mut r, &b) {
            (T::D(x), T::D(y)) => prefix_with(retain, x, y, c.p).map_err(|e| e.into()),
            (T::D(x), T::A(y)) => prefix_with(retain, x, y, c.p).map_err(|e| e.into()),
            (T::A(x), T::D(y)) => prefix_with(retain, x, y, c.p),
            (T::A(x), T::A(y)) => prefix_with(retain, x, y, c.p),
        };
        go!(res, "{}", what);
        entries(&r, &want, &what)?;
        pending.push((r, want, what));
    }
    for p in [c.p, Pred::False] {
        for kind in [Kind::Inner, Kind::Left].into_iter().filter(|k| only.kinds.contains(k)) {
            let calls = RefCell::new(vec![]);
            let got = with!(&a, x => with!(&b, y => combine_pred(kind, x, y, p, &calls)));
            let got = go!(got, "{:?} pred", kind);
            let want = if kind == Kind::Inner { model::inner_pred(&ma, &mb, p) } else { model::left_pred(&ma, &mb, p) };
            ensure!(got == want, "{:?}_combine_pred with {:?} is {}, expected {}", kind, p, got, want);
            calls_within(calls.into_inner(), &common, "predicate")?;
        }
    }
    ensure!(writes(&counters) == w0, "an operation wrote to a store before reattach");
    // the stores and the right tree are untouched; now build on the results
    for (r, want, what) in pending {
        sound(r, &want, &c.then, &what)?;
    }
    if !same {
        if let Some(t) = ob.as_ref().and_then(|o| o.t.clone()) {
            let w = t.counts().1;
            let i = counters.len() - 1;
            ensure!(w == w0[i], "the right store was written to");
        }
    }
    entries(&b, &mb, "right tree at the end")?;
    if let T::A(y) = &b {
        let d = go!(y.try_detached(), "detach the right tree");
        ensure!(d == from_map(&mb), "the right tree changed");
    }
    for t in &counters {
        ensure!(t.st().unknown.is_empty(), "an id was read that this store never returned: {:?}", t.st().unknown[0]);
    }
    if let (Some(s), T::A(x)) = (&sb, &b) {
        let mut x = x.clone();
        let id = go!(x.try_reattach(), "reattach the right tree");
        let l = Att(go!(RadixTree::try_load(s.clone(), Some(&id)), "load the right tree"));
        same_entries(&l, &mb, "right tree reattached and loaded")?;
        let _ = s.needs_deep_detach();
    }
    let n = common.len();
    shape(&ma, cx);
    cx.nt_if(n > 0 && (ma.len() > n || mb.len() > n) && (c.a.spec.is_some() || c.b.spec.is_some()));
    Ok(())
}

pub struct C13;
impl Property for C13 {
    type Case = Cross;
    const ID: &'static str = "C13";
    const CASES: (u64, u64) = (5_000, 1_000_000);
    const RULE: &'static str = "A case is two trees with related keys, each detached or attached (test, memory, paged-file, dynamic store; same or different store), possibly changed after attaching so that part of it is in memory only; all combines (functional, in place with every applicable converter over the cases), predicates, retain and remove are compared with sorted maps, no operation may write to a store, results are changed further, reattached, loaded and detached, the right tree is compared again. Non-trivial: a common key, an uncommon key and at least one attached side.";
    fn gen(src: &mut Src) -> Cross {
        gen_cross(src)
    }
    fn run(c: &Cross, cx: &mut Cx) -> Res {
        run_cross(c, ALL, cx)
    }
}
