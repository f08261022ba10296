//! A store that fails at any of its calls.
use super::attached::go;
use super::point::{gen_descend, gen_made, shape, Descend, Made};
use crate::engine::{Cx, Property, Res};
use crate::gen::*;
use crate::model::{self, Map};
use crate::stores::*;
use crate::tape::Src;
use crate::tree::*;
use crate::tstore::{TStore, FAULT};
use crate::{ensure, fail};
use radixdb::node::{DetachConverter, DowncastConverter, IdentityConverter};
use radixdb::RadixTree;
use std::cell::RefCell;
use std::collections::BTreeSet;

type At = Att<TStore>;

#[derive(Debug, Clone)]
pub enum Q {
    Get(B),
    Contains(B),
    HasPrefix(B),
    Scan(B),
    Iter,
    Values,
    FirstValue,
    LastValue,
    FirstEntry,
    LastEntry,
    Filter(B, B),
    Groups(Descend),
    Detach,
    Load,
    Func(Kind, Comb),
    FuncRev(Kind, Comb),
    PredQ(Kind, Pred),
    // these change the tree
    Reattach,
    Attach,
    Insert(B, Val),
    Remove(B),
    RemovePrefix(B),
    With(Kind, Comb),
    PrefixWith(bool, Pred),
}

impl Q {
    fn name(&self) -> &'static str {
        match self {
            Q::Get(_) => "get",
            Q::Contains(_) => "contains_key",
            Q::HasPrefix(_) => "has_prefix",
            Q::Scan(_) => "scan_prefix",
            Q::Iter => "iter",
            Q::Values => "values",
            Q::FirstValue => "first_value",
            Q::LastValue => "last_value",
            Q::FirstEntry => "first_entry",
            Q::LastEntry => "last_entry",
            Q::Filter(..) => "filter_prefix",
            Q::Groups(_) => "group_by",
            Q::Detach => "detached",
            Q::Load => "load",
            Q::Func(Kind::Outer, _) => "outer_combine",
            Q::Func(Kind::Inner, _) => "inner_combine",
            Q::Func(Kind::Left, _) => "left_combine",
            Q::FuncRev(..) => "combine with the failing tree on the right",
            Q::PredQ(Kind::Left, _) => "left_combine_pred",
            Q::PredQ(..) => "inner_combine_pred",
            Q::Reattach => "reattach",
            Q::Attach => "attach",
            Q::Insert(..) => "insert",
            Q::Remove(_) => "remove",
            Q::RemovePrefix(_) => "remove_prefix",
            Q::With(Kind::Outer, _) => "outer_combine_with",
            Q::With(Kind::Inner, _) => "inner_combine_with",
            Q::With(Kind::Left, _) => "left_combine_with",
            Q::PrefixWith(true, _) => "retain_prefix_with",
            Q::PrefixWith(false, _) => "remove_prefix_with",
        }
    }
    fn in_place(&self) -> bool {
        matches!(self, Q::Insert(..) | Q::Remove(_) | Q::RemovePrefix(_) | Q::With(..) | Q::PrefixWith(..))
    }
    fn want(&self, m: &Map, b: &Map) -> Map {
        match self {
            Q::Insert(k, v) => model::apply(m, &Op::Insert(k.0.clone(), v.clone())),
            Q::Remove(k) => model::apply(m, &Op::Remove(k.0.clone())),
            Q::RemovePrefix(k) => model::remove_prefix(m, &k.0),
            Q::With(Kind::Outer, f) => model::outer(m, b, *f),
            Q::With(Kind::Inner, f) => model::inner(m, b, *f),
            Q::With(Kind::Left, f) => model::left(m, b, *f),
            Q::PrefixWith(true, p) => model::retain(m, b, *p),
            Q::PrefixWith(false, p) => model::remove_with(m, b, *p),
            _ => m.clone(),
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Where {
    Detached,
    Same,
    Other,
}

#[derive(Debug)]
pub struct Case {
    pub spec: Spec,
    pub made: Made,
    pub reload: bool,
    pub after: Vec<Op>,
    pub b: Contents,
    pub b_where: Where,
    pub qs: Vec<Q>,
    /// fault for good, or one call only
    pub lasting: bool,
    pub offset: u8,
}

enum Right {
    D(RadixTree),
    A(At, TStore),
    Same(At),
}

fn gen_q(src: &mut Src, keys: &Keys) -> Q {
    let k = |src: &mut Src| B(keys.key(src));
    let kinds = [Kind::Outer, Kind::Inner, Kind::Left];
    match src.weighted(&[6, 2, 3, 4, 5, 4, 1, 1, 1, 1, 4, 5, 4, 1, 10, 5, 6, 8, 4, 10, 12, 5, 24, 14]) {
        0 => Q::Get(k(src)),
        1 => Q::Contains(k(src)),
        2 => Q::HasPrefix(k(src)),
        3 => Q::Scan(k(src)),
        4 => Q::Iter,
        5 => Q::Values,
        6 => Q::FirstValue,
        7 => Q::LastValue,
        8 => Q::FirstEntry,
        9 => Q::LastEntry,
        10 => Q::Filter(k(src), k(src)),
        11 => Q::Groups(gen_descend(src)),
        12 => Q::Detach,
        13 => Q::Load,
        14 => Q::Func(src.pick(&kinds), gen_comb(src)),
        15 => Q::FuncRev(src.pick(&kinds), gen_comb(src)),
        16 => Q::PredQ(src.pick(&[Kind::Inner, Kind::Left]), gen_pred(src)),
        17 => Q::Reattach,
        18 => Q::Attach,
        19 => Q::Insert(k(src), gen_val(src)),
        20 => Q::Remove(k(src)),
        21 => Q::RemovePrefix(k(src)),
        22 => Q::With(src.pick(&kinds), gen_comb(src)),
        _ => Q::PrefixWith(src.chance(128), gen_pred(src)),
    }
}

fn gen_case(src: &mut Src) -> Case {
    let spec = loop {
        let s = gen_tspec(src);
        if matches!(s, Spec::T { len, .. } if len >= 2) {
            break s;
        }
    };
    let keys = gen_keys(src);
    let sz = if src.chance(100) { Sizes { items: 7, fans: 8, chains: 10 } } else { Sizes { items: 5, fans: 0, chains: 3 } };
    let made = gen_made(src, &keys, sz, 0);
    let reload = src.chance(170);
    let after = if src.chance(110) { src.list(0, 6, 2, |src| gen_op(src, &keys, &made.start)) } else { vec![] };
    let b = gen_related(src, &keys, &made.start, SMALL);
    let b_where = src.pick(&[Where::Detached, Where::Other, Where::Same]);
    let qs = src.list(1, 4, 2, |src| gen_q(src, &keys));
    Case { spec, made, reload, after, b, b_where, qs, lasting: src.chance(90), offset: src.u8() }
}

type Kv = Vec<(Vec<u8>, Vec<u8>)>;

/// what an operation gives: a result to compare, and for iterators the items before an error
enum Out {
    Done(String),
    Items(Kv, Option<anyhow::Error>),
    Groups(Vec<At>, Option<anyhow::Error>),
}

/// items up to the first error; afterwards the iterator has to be at its end
fn drain<X>(it: &mut dyn Iterator<Item = AR<X>>) -> Result<(Vec<X>, Option<anyhow::Error>), String> {
    let mut v = vec![];
    for _ in 0..100_000 {
        match it.next() {
            None => return Ok((v, None)),
            Some(Ok(x)) => v.push(x),
            Some(Err(e)) => {
                for _ in 0..2 {
                    match it.next() {
                        None => {}
                        Some(Ok(_)) => return Err("the iterator yields an item after an error".into()),
                        Some(Err(e)) => return Err(format!("the iterator yields another error after an error: {:#}", e)),
                    }
                }
                return Ok((v, Some(e)));
            }
        }
    }
    Err("the iterator does not end".into())
}

struct World {
    st: TStore,
    t: At,
    det: RadixTree,
    root: Option<Vec<u8>>,
    b: Right,
    calls: RefCell<model::Calls>,
}

impl World {
    /// run the operation on x (a clone of t); faults end when this function says so
    fn exec(&self, q: &Q, x: &mut At, settle: &dyn Fn()) -> Result<AR<Out>, String> {
        macro_rules! done {
            ($e:expr) => {
                match $e {
                    Ok(r) => Ok(Ok(Out::Done(format!("{:?}", r)))),
                    Err(e) => Ok(Err(e)),
                }
            };
        }
        self.calls.borrow_mut().clear();
        let calls = &self.calls;
        match q {
            Q::Get(k) => done!(x.get(&k.0)),
            Q::Contains(k) => done!(x.contains(&k.0)),
            Q::HasPrefix(k) => done!(x.has_prefix(&k.0)),
            Q::FirstValue => done!(x.first_value()),
            Q::LastValue => done!(x.last_value()),
            Q::FirstEntry => done!(x.first_entry(b"p")),
            Q::LastEntry => done!(x.last_entry(b"p")),
            Q::Scan(_) | Q::Iter => {
                let mut it = match q {
                    Q::Scan(p) => match x.scan_hold(&p.0) {
                        Ok(it) => it,
                        Err(e) => return Ok(Err(e)),
                    },
                    _ => x.iter_hold(),
                };
                let (v, e) = drain(&mut it)?;
                settle();
                let v: AR<Kv> = v.into_iter().map(|(k, v)| Ok((k.to_vec(), x.bytes(&v)?))).collect();
                Ok(Ok(Out::Items(v.map_err(|e| format!("loading a yielded value: {:#}", e))?, e)))
            }
            Q::Values => {
                let (v, e) = drain(&mut x.values_hold())?;
                settle();
                let v: AR<Kv> = v.into_iter().map(|v| Ok((vec![], x.bytes(&v)?))).collect();
                Ok(Ok(Out::Items(v.map_err(|e| format!("loading a yielded value: {:#}", e))?, e)))
            }
            Q::Groups(d) => {
                let (v, e) = drain(&mut x.0.try_group_by(|p, _| Ok(d.eval(p))))?;
                settle();
                Ok(Ok(Out::Groups(v.into_iter().map(Att).collect(), e)))
            }
            Q::Filter(p, s) => match x.filter_prefix(&p.0, &s.0) {
                Ok(t) => {
                    settle();
                    done!(t.entries(100_000))
                }
                Err(e) => Ok(Err(e)),
            },
            Q::Detach => done!(x.0.try_detached().map(|d| Det(d).entries(100_000).unwrap())),
            Q::Load => match RadixTree::try_load(self.st.clone(), self.root.clone()) {
                Ok(t) => {
                    settle();
                    done!(Att(t).entries(100_000))
                }
                Err(e) => Ok(Err(e)),
            },
            Q::Func(kind, f) => {
                let r = match &self.b {
                    Right::D(b) => combine(*kind, &x.0, b, *f, calls),
                    Right::A(b, _) | Right::Same(b) => combine(*kind, &x.0, &b.0, *f, calls),
                };
                done!(r.map(|d| Det(d).entries(100_000).unwrap()))
            }
            Q::FuncRev(kind, f) => {
                let r = match &self.b {
                    Right::D(b) => combine(*kind, b, &x.0, *f, calls),
                    Right::A(b, _) | Right::Same(b) => combine(*kind, &b.0, &x.0, *f, calls),
                };
                done!(r.map(|d| Det(d).entries(100_000).unwrap()))
            }
            Q::PredQ(kind, p) => match &self.b {
                Right::D(b) => done!(combine_pred(*kind, &x.0, b, *p, calls)),
                Right::A(b, _) | Right::Same(b) => done!(combine_pred(*kind, &x.0, &b.0, *p, calls)),
            },
            Q::Reattach => done!(x.0.try_reattach().map(|_| ())),
            Q::Attach => match self.det.try_attached(self.st.clone()) {
                Ok(t) => {
                    settle();
                    done!(Att(t).entries(100_000))
                }
                Err(e) => Ok(Err(e)),
            },
            Q::Insert(k, v) => done!(x.insert(&k.0, &v.bytes())),
            Q::Remove(k) => done!(x.remove(&k.0)),
            Q::RemovePrefix(k) => done!(x.remove_prefix(&k.0)),
            Q::With(kind, f) => match &self.b {
                Right::D(b) => done!(combine_with(*kind, &mut x.0, b, DowncastConverter, *f, calls)),
                Right::A(b, _) => done!(combine_with(*kind, &mut x.0, &b.0, DetachConverter, *f, calls)),
                Right::Same(b) => done!(combine_with(*kind, &mut x.0, &b.0, IdentityConverter, *f, calls)),
            },
            Q::PrefixWith(r, p) => match &self.b {
                Right::D(b) => done!(prefix_with(*r, &mut x.0, b, *p)),
                Right::A(b, _) | Right::Same(b) => done!(prefix_with(*r, &mut x.0, &b.0, *p)),
            },
        }
    }
}

fn err_of(r: AR<Out>) -> (Option<anyhow::Error>, Option<Out>) {
    match r {
        Err(e) => (Some(e), None),
        Ok(Out::Items(v, e)) => (e, Some(Out::Items(v, None))),
        Ok(Out::Groups(v, e)) => (e, Some(Out::Groups(v, None))),
        Ok(x) => (None, Some(x)),
    }
}

fn run(c: &Case, cx: &mut Cx) -> Res {
    let st = c.spec.open().t.unwrap();
    st.st().budget = Some(20_000_000);
    let det = c.made.det();
    let mut m = c.made.map();
    let mut t: At = Att(go!(det.0.try_attached(st.clone()), "attach"));
    let mut root = None;
    if c.reload {
        let id = go!(t.0.try_reattach(), "reattach");
        t = Att(go!(RadixTree::try_load(st.clone(), Some(&id)), "load"));
        root = Some((id, m.clone()));
    }
    for op in &c.after {
        go!(t.op(op), "{:?}", op);
        m = model::apply(&m, op);
    }
    let mb = c.b.map();
    let bd = from_pairs(&c.b.pairs());
    let b = match c.b_where {
        Where::Detached => Right::D(bd),
        Where::Same => Right::Same(Att(go!(bd.try_attached(st.clone()), "attach the right tree"))),
        Where::Other => {
            let s2 = TStore::new(9, crate::tstore::Ids::Seq, 0);
            Right::A(Att(go!(bd.try_attached(s2.clone()), "attach the right tree")), s2)
        }
    };
    same_entries(&t, &m, "before")?;
    let w = World { st: st.clone(), t, det: det.0, root: root.as_ref().map(|x| x.0.clone()), b, calls: RefCell::default() };
    shape(&m, cx);
    let mut deep = 0u64;
    for q in &c.qs {
        let mut stores = vec![("left", st.clone())];
        if let Right::A(_, s2) = &w.b {
            stores.push(("right", s2.clone()));
        }
        // how many calls it makes, and what it gives without faults
        let count = || stores.iter().map(|(_, s)| s.counts().0 + s.counts().1).collect::<Vec<_>>();
        let before = count();
        let after = RefCell::new(None);
        let mut x = w.t.clone();
        let base = w.exec(q, &mut x, &|| *after.borrow_mut() = Some(count()))?;
        let after = after.into_inner().unwrap_or_else(count);
        let (e, base) = err_of(base);
        if let Some(e) = e {
            if is_full(&e) {
                return Ok(());
            }
            fail!("{:?} failed without a fault: {:#}", q, e);
        }
        let base = base.unwrap();
        let want = q.want(&m, &mb);
        if q.in_place() {
            same_entries(&x, &want, &format!("{:?} without a fault", q))?;
        }
        drop(x);
        for (i, (side, s)) in stores.iter().enumerate() {
            let n = after[i] - before[i];
            if n == 0 {
                continue;
            }
            cx.label(q.name());
            // all positions if they are few, otherwise some with both ends
            let ks: Vec<u64> = if n <= 12 {
                (0..n).collect()
            } else {
                let step = n.div_ceil(8);
                let mut v: Vec<u64> = (0..n).skip((c.offset as u64 % step) as usize).step_by(step as usize).collect();
                v.extend([0, 1, n - 2, n - 1]);
                v.sort();
                v.dedup();
                v
            };
            for k in ks {
                let what = format!("{:?} with call {} of {} to the {} store failing{}", q, k, n, side, if c.lasting { " and all after it" } else { "" });
                cx.inner += 1;
                let nblobs = st.st().log.len();
                let mut x = w.t.clone();
                s.set_fault(k, if c.lasting { u64::MAX } else { 1 }, true, true);
                let hit = RefCell::new(None);
                let r = w.exec(q, &mut x, &|| *hit.borrow_mut() = Some(s.clear_fault())).map_err(|e| format!("{}: {}", what, e))?;
                let hit = hit.into_inner().unwrap_or_else(|| s.clear_fault());
                ensure!(hit > 0, "{}: the failing call was never made (the calls are not repeatable)", what);
                let (e, out) = err_of(r);
                match &e {
                    None => fail!("{}: the operation reports success", what),
                    Some(e) => ensure!(format!("{:#}", e).contains(FAULT), "{}: another error than that of the store is reported: {:#}", what, e),
                }
                deep = deep.max(k);
                match (&base, &out) {
                    (Out::Items(all, _), Some(Out::Items(v, _))) => {
                        ensure!(v.len() <= all.len() && v[..] == all[..v.len()], "{}: the items yielded before the error are not the first ones of the tree", what)
                    }
                    (Out::Groups(all, _), Some(Out::Groups(v, _))) => {
                        ensure!(v.len() <= all.len(), "{}: too many groups", what);
                        for (g, f) in v.iter().zip(all) {
                            let f: Map = f.entries(100_000).map_err(|e| e.to_string())?.into_iter().collect();
                            same_entries(g, &f, &format!("{}: a group yielded before the error", what))?;
                        }
                    }
                    _ => {}
                }
                if q.in_place() {
                    partial(&w, q, x, &m, &mb, &want, &what)?;
                } else {
                    same_entries(&x, &m, &format!("{}: the tree afterwards", what))?;
                    if matches!(q, Q::Reattach) {
                        let id = x.0.try_reattach().map_err(|e| format!("{}: again: {:#}", what, e))?;
                        let l = Att(RadixTree::try_load(st.clone(), Some(id)).map_err(|e| format!("{}: load: {:#}", what, e))?);
                        same_entries(&l, &m, &format!("{}: reattached again and loaded", what))?;
                        same_entries(&x, &m, &format!("{}: reattached again", what))?;
                    }
                    if matches!(q, Q::Attach) {
                        ensure!(w.det == from_map(&c.made.map()), "{}: the detached tree changed", what);
                        let t2 = Att(w.det.try_attached(st.clone()).map_err(|e| format!("{}: again: {:#}", what, e))?);
                        same_entries(&t2, &c.made.map(), &format!("{}: attached again", what))?;
                    }
                }
                // other handles, earlier versions and the right tree are as before
                same_entries(&w.t, &m, &format!("{}: another handle of the tree", what))?;
                if let Some((id, rm)) = &root {
                    let l = Att(RadixTree::try_load(st.clone(), Some(id)).map_err(|e| format!("{}: load of the earlier root: {:#}", what, e))?);
                    same_entries(&l, rm, &format!("{}: the earlier root", what))?;
                }
                match &w.b {
                    Right::D(b) => same_entries(&Det(b.clone()), &mb, &format!("{}: the right tree", what))?,
                    Right::A(b, _) | Right::Same(b) => same_entries(b, &mb, &format!("{}: the right tree", what))?,
                }
                // forget what this attempt wrote, so that small id spaces last
                let _ = nblobs;
            }
        }
    }
    cx.label_if(deep >= 3, "fault after three calls or more");
    cx.nt_if(deep >= 1);
    Ok(())
}

/// the tree after a failed in-place operation
fn partial(w: &World, q: &Q, mut x: At, m: &Map, mb: &Map, want: &Map, what: &str) -> Res {
    let e = x.entries(m.len() + want.len() + 4).map_err(|e| format!("{}: the tree can not be read afterwards: {:#}", what, e))?;
    let now: Map = e.iter().cloned().collect();
    ensure!(now.len() == e.len() && e.windows(2).all(|p| p[0].0 < p[1].0), "{}: the tree has keys twice or out of order afterwards", what);
    let keys: BTreeSet<&Vec<u8>> = m.keys().chain(want.keys()).chain(now.keys()).collect();
    for k in keys {
        let (a, b, n) = (m.get(k), want.get(k), now.get(k));
        ensure!(
            n == a || n == b,
            "{}: afterwards \"{}\" is {:?}, before it was {:?}, the complete operation gives {:?}",
            what,
            show(k),
            n.map(|x| show(x)),
            a.map(|x| show(x)),
            b.map(|x| show(x))
        );
    }
    same_lookups(&x, &now, &probes(&now, 4), &format!("{}: afterwards", what))?;
    // a tree with the same contents, once it is written out
    let mut y = x.clone();
    let id = match x.0.try_reattach() {
        Ok(id) => id,
        Err(e) if is_full(&e) => return Ok(()),
        Err(e) => fail!("{}: reattach afterwards: {:#}", what, e),
    };
    let l = Att(RadixTree::try_load(w.st.clone(), Some(id)).map_err(|e| format!("{}: load afterwards: {:#}", what, e))?);
    same_entries(&l, &now, &format!("{}: reattached and loaded", what))?;
    // and again, now to the end
    let r = w.exec(q, &mut y, &|| {}).map_err(|e| format!("{}: repeated: {}", what, e))?;
    if let (Some(e), _) = err_of(r) {
        if is_full(&e) {
            return Ok(());
        }
        fail!("{}: repeating the operation: {:#}", what, e);
    }
    let again = q.want(&now, mb);
    same_entries(&y, &again, &format!("{}: repeated", what))?;
    let d = y.0.try_detached().map_err(|e| format!("{}: detach: {:#}", what, e))?;
    ensure!(d == from_map(&again), "{}: repeated and detached, the tree differs from one built from its entries", what);
    let id = match y.0.try_reattach() {
        Ok(id) => id,
        Err(e) if is_full(&e) => return Ok(()),
        Err(e) => fail!("{}: reattach after repeating: {:#}", what, e),
    };
    let l = Att(RadixTree::try_load(w.st.clone(), Some(id)).map_err(|e| format!("{}: load after repeating: {:#}", what, e))?);
    same_entries(&l, &again, &format!("{}: repeated, reattached and loaded", what))
}

pub struct C15;
impl Property for C15 {
    type Case = Case;
    const ID: &'static str = "C15";
    const LEVEL: &'static str = "fault_enumeration";
    const CASES: (u64, u64) = (7_000, 1_400_000);
    const RULE: &'static str = "A case is a tree in a test store (partly changed in memory, or loaded anew), a right tree (detached, same store, other store) and operations out of all queries, iterators, functional and in-place operations, attach, reattach, load and detach. For each operation the calls it makes to each store are counted, then it is repeated on a fresh handle with every call in turn failing (twelve or fewer calls: all of them; otherwise about twelve positions with both ends), once or from then on. The error must be reported, iterators must end after it, the tree must hold every key's old or new value, other handles, old roots and the right tree must be unchanged, and repeating and reattaching must complete. Non-trivial: some fault position after the first call.";
    fn gen(src: &mut Src) -> Case {
        gen_case(src)
    }
    fn run(c: &Case, cx: &mut Cx) -> Res {
        run(c, cx)
    }
}
