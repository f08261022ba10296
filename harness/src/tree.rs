//! The tree under test behind one interface, for detached and attached trees.
use crate::gen::{show, Comb, Op, Pred};
use crate::model::{Calls, Map, RNode};
use radixdb::node::{DowncastConverter, IdentityConverter, IterKey, NodeConverter, Value, ValueRef};
use radixdb::store::{BlobStore, Detached, NoError};
use radixdb::RadixTree;
use std::cell::RefCell;

pub type AR<T> = anyhow::Result<T>;

#[derive(Clone, Debug)]
pub struct Det(pub RadixTree);
#[derive(Clone, Debug)]
pub struct Att<S: BlobStore>(pub RadixTree<S>);

pub fn from_pairs(p: &[(Vec<u8>, Vec<u8>)]) -> RadixTree {
    p.iter().map(|(k, v)| (k, v)).collect()
}
pub fn from_map(m: &Map) -> RadixTree {
    m.iter().collect()
}
/// a detached value with the given bytes
pub fn mkval(b: &[u8]) -> Value {
    RadixTree::single("", b).get("").unwrap()
}
pub fn vbytes<S: BlobStore>(v: &ValueRef<S>, st: &S) -> Result<Vec<u8>, S::Error> {
    v.to_owned().load(st).map(|b| b.to_vec())
}
pub fn vb<S: BlobStore>(v: &Value<S>, st: &S) -> Result<Vec<u8>, S::Error> {
    v.load(st).map(|b| b.to_vec())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Outer,
    Inner,
    Left,
}

/// functional combine over any two stores
pub fn combine<S, S2>(kind: Kind, a: &RadixTree<S>, b: &RadixTree<S2>, f: Comb, calls: &RefCell<Calls>) -> AR<RadixTree>
where
    S: BlobStore + Clone,
    S2: BlobStore + Clone,
    anyhow::Error: From<S::Error> + From<S2::Error>,
{
    let (sa, sb) = (RadixTree::store(a), RadixTree::store(b));
    let g = |x: &ValueRef<S>, y: &ValueRef<S2>| -> AR<Option<Value>> {
        let (x, y) = (vbytes(x, sa)?, vbytes(y, sb)?);
        let r = f.eval(&x, &y).map(|r| mkval(&r));
        calls.borrow_mut().push((x, y));
        Ok(r)
    };
    match kind {
        Kind::Outer => a.try_outer_combine(b, g),
        Kind::Inner => a.try_inner_combine(b, g),
        Kind::Left => a.try_left_combine(b, g),
    }
}

/// in-place combine over any two stores
pub fn combine_with<S, S2, C>(kind: Kind, a: &mut RadixTree<S>, b: &RadixTree<S2>, c: C, f: Comb, calls: &RefCell<Calls>) -> Result<(), S::Error>
where
    S: BlobStore + Clone,
    S2: BlobStore + Clone,
    C: NodeConverter<S2, S> + Clone + 'static,
    S::Error: From<S2::Error> + From<NoError>,
{
    use std::any::TypeId;
    let (sa, sb) = (RadixTree::store(a).clone(), RadixTree::store(b).clone());
    let (sa, sb) = (&sa, &sb);
    // the identity converter is used between trees on one store only, so that a value of the
    // right tree can be taken over as it is; values of detached trees can always be
    let same = TypeId::of::<S>() == TypeId::of::<S2>() && TypeId::of::<C>() == TypeId::of::<IdentityConverter>();
    let take = same || TypeId::of::<S2>() == TypeId::of::<Detached>();
    let g = |x: &mut Value<S>, y: &ValueRef<S2>| -> Result<(), S::Error> {
        let (xv, yv) = (vb(x, sa)?, vbytes(y, sb)?);
        match f.eval(&xv, &yv) {
            None => x.set(None),
            // the cast is the identity, or what ValueRef::downcast does
            Some(r) if r == yv && take => x.set(Some(unsafe { &*(y as *const ValueRef<S2> as *const ValueRef<S>) })),
            Some(r) if r == xv => {}
            Some(r) => {
                let t = RadixTree::single("", &r);
                x.set(Some(t.value().unwrap().downcast::<S>()));
            }
        }
        calls.borrow_mut().push((xv, yv));
        Ok(())
    };
    match kind {
        Kind::Outer => a.try_outer_combine_with(b, c, g),
        Kind::Inner => a.try_inner_combine_with(b, c, g),
        Kind::Left => a.try_left_combine_with(b, c, g),
    }
}

pub fn combine_pred<S, S2>(kind: Kind, a: &RadixTree<S>, b: &RadixTree<S2>, f: Pred, calls: &RefCell<Calls>) -> AR<bool>
where
    S: BlobStore + Clone,
    S2: BlobStore + Clone,
    anyhow::Error: From<S::Error> + From<S2::Error>,
{
    let (sa, sb) = (RadixTree::store(a), RadixTree::store(b));
    let g = |x: &ValueRef<S>, y: &ValueRef<S2>| -> AR<bool> {
        let (x, y) = (vbytes(x, sa)?, vbytes(y, sb)?);
        let r = f.eval(&x, &y);
        calls.borrow_mut().push((x, y));
        Ok(r)
    };
    match kind {
        Kind::Inner => a.try_inner_combine_pred(b, g),
        Kind::Left => a.try_left_combine_pred(b, g),
        Kind::Outer => unreachable!(),
    }
}

/// retain (true) or remove (false) by prefix set
pub fn prefix_with<S, S2>(retain: bool, a: &mut RadixTree<S>, b: &RadixTree<S2>, f: Pred) -> Result<(), S::Error>
where
    S: BlobStore + Clone,
    S2: BlobStore + Clone,
    S::Error: From<S2::Error> + From<NoError>,
{
    let sb = RadixTree::store(b).clone();
    let sb = &sb;
    let g = |y: &ValueRef<S2>| -> Result<bool, S::Error> { Ok(f.eval(&vbytes(y, sb)?, b"")) };
    if retain {
        a.try_retain_prefix_with(b, g)
    } else {
        a.try_remove_prefix_with(b, g)
    }
}

pub type Held<V> = Box<dyn Iterator<Item = AR<(IterKey, V)>>>;

pub trait Tree: Clone {
    /// a value as the tree hands it out
    type V: 'static;
    fn iter_hold(&self) -> Held<Self::V>;
    fn scan_hold(&self, p: &[u8]) -> AR<Held<Self::V>>;
    fn values_hold(&self) -> Box<dyn Iterator<Item = AR<Self::V>>>;
    fn get_hold(&self, k: &[u8]) -> AR<Option<Self::V>>;
    fn bytes(&self, v: &Self::V) -> AR<Vec<u8>>;
    /// the other side is a tree of the same kind (for attached trees: on the same store)
    fn combine_same(&mut self, kind: Kind, b: &Self, f: Comb, in_place: bool, calls: &RefCell<Calls>) -> AR<()>;
    fn prefix_with_same(&mut self, retain: bool, b: &Self, f: Pred) -> AR<()>;
    fn get(&self, k: &[u8]) -> AR<Option<Vec<u8>>>;
    fn contains(&self, k: &[u8]) -> AR<bool>;
    fn has_prefix(&self, k: &[u8]) -> AR<bool>;
    fn insert(&mut self, k: &[u8], v: &[u8]) -> AR<()>;
    fn remove(&mut self, k: &[u8]) -> AR<()>;
    fn remove_prefix(&mut self, k: &[u8]) -> AR<()>;
    fn filter_prefix(&self, k: &[u8], s: &[u8]) -> AR<Self>;
    fn entries(&self, limit: usize) -> AR<Vec<(Vec<u8>, Vec<u8>)>>;
    fn values(&self, limit: usize) -> AR<Vec<Vec<u8>>>;
    fn scan(&self, p: &[u8], limit: usize) -> AR<Vec<(Vec<u8>, Vec<u8>)>>;
    fn first_value(&self) -> AR<Option<Vec<u8>>>;
    fn last_value(&self) -> AR<Option<Vec<u8>>>;
    fn first_entry(&self, p: &[u8]) -> AR<Option<(Vec<u8>, Vec<u8>)>>;
    fn last_entry(&self, p: &[u8]) -> AR<Option<(Vec<u8>, Vec<u8>)>>;
    /// groups as (entries), and the calls of the descend function
    fn group_by(&self, descend: &dyn Fn(&[u8]) -> bool, limit: usize) -> AR<Vec<Self>>;
    fn combine_det(&mut self, kind: Kind, b: &RadixTree, f: Comb, in_place: bool, calls: &RefCell<Calls>) -> AR<()>;
    fn prefix_with_det(&mut self, retain: bool, b: &RadixTree, f: Pred) -> AR<()>;
    fn is_empty(&self) -> bool;
    /// write what changed (attached trees only)
    fn reattach(&mut self) -> AR<()>;
    fn detach(&self) -> AR<RadixTree>;
    /// equal to this detached tree, and the other way round
    fn same_as(&self, t: &RadixTree) -> AR<bool>;
    /// stored and loaded again (attached trees only)
    fn reloaded(&self) -> AR<Option<Self>>;

    fn op(&mut self, op: &Op) -> AR<()> {
        let calls = RefCell::new(vec![]);
        match op {
            Op::Insert(k, v) => self.insert(k, &v.bytes()),
            Op::Remove(k) => self.remove(k),
            Op::RemovePrefix(k) => self.remove_prefix(k),
            Op::FilterPrefix(k, s) => {
                let t = self.filter_prefix(k, s)?;
                *self = t;
                Ok(())
            }
            Op::Outer(c, f, w) => self.combine_det(Kind::Outer, &from_pairs(&c.pairs()), *f, *w, &calls),
            Op::Inner(c, f, w) => self.combine_det(Kind::Inner, &from_pairs(&c.pairs()), *f, *w, &calls),
            Op::Left(c, f, w) => self.combine_det(Kind::Left, &from_pairs(&c.pairs()), *f, *w, &calls),
            Op::Retain(c, f) => self.prefix_with_det(true, &from_pairs(&c.pairs()), *f),
            Op::RemoveWith(c, f) => self.prefix_with_det(false, &from_pairs(&c.pairs()), *f),
        }
    }
}

/// take at most `limit` items so that an endless iterator becomes a finding
impl Tree for Det {
    type V = Value;
    fn iter_hold(&self) -> Held<Value> {
        Box::new(self.0.try_iter().map(|r| Ok(r.unwrap())))
    }
    fn scan_hold(&self, p: &[u8]) -> AR<Held<Value>> {
        Ok(Box::new(self.0.try_scan_prefix(p).unwrap().map(|r| Ok(r.unwrap()))))
    }
    fn values_hold(&self) -> Box<dyn Iterator<Item = AR<Value>>> {
        Box::new(self.0.try_values().map(|r| Ok(r.unwrap())))
    }
    fn get_hold(&self, k: &[u8]) -> AR<Option<Value>> {
        Ok(self.0.get(k))
    }
    fn bytes(&self, v: &Value) -> AR<Vec<u8>> {
        Ok(v.to_vec())
    }
    fn combine_same(&mut self, kind: Kind, b: &Self, f: Comb, in_place: bool, calls: &RefCell<Calls>) -> AR<()> {
        self.combine_det(kind, &b.0, f, in_place, calls)
    }
    fn prefix_with_same(&mut self, retain: bool, b: &Self, f: Pred) -> AR<()> {
        self.prefix_with_det(retain, &b.0, f)
    }
    fn get(&self, k: &[u8]) -> AR<Option<Vec<u8>>> {
        Ok(self.0.get(k).map(|v| v.to_vec()))
    }
    fn contains(&self, k: &[u8]) -> AR<bool> {
        Ok(self.0.contains_key(k))
    }
    fn has_prefix(&self, k: &[u8]) -> AR<bool> {
        Ok(self.0.has_prefix(k))
    }
    fn insert(&mut self, k: &[u8], v: &[u8]) -> AR<()> {
        self.0.insert(k, v);
        Ok(())
    }
    fn remove(&mut self, k: &[u8]) -> AR<()> {
        self.0.remove(k);
        Ok(())
    }
    fn remove_prefix(&mut self, k: &[u8]) -> AR<()> {
        self.0.remove_prefix(k);
        Ok(())
    }
    fn filter_prefix(&self, k: &[u8], s: &[u8]) -> AR<Self> {
        Ok(Det(self.0.filter_prefix(k, s)))
    }
    fn entries(&self, limit: usize) -> AR<Vec<(Vec<u8>, Vec<u8>)>> {
        Ok(self.0.iter().take(limit).map(|(k, v)| (k.to_vec(), v.to_vec())).collect())
    }
    fn values(&self, limit: usize) -> AR<Vec<Vec<u8>>> {
        Ok(self.0.values().take(limit).map(|v| v.to_vec()).collect())
    }
    fn scan(&self, p: &[u8], limit: usize) -> AR<Vec<(Vec<u8>, Vec<u8>)>> {
        Ok(self.0.scan_prefix(p).take(limit).map(|(k, v)| (k.to_vec(), v.to_vec())).collect())
    }
    fn first_value(&self) -> AR<Option<Vec<u8>>> {
        Ok(self.0.first_value().map(|v| v.to_vec()))
    }
    fn last_value(&self) -> AR<Option<Vec<u8>>> {
        Ok(self.0.last_value().map(|v| v.to_vec()))
    }
    fn first_entry(&self, p: &[u8]) -> AR<Option<(Vec<u8>, Vec<u8>)>> {
        Ok(self.0.first_entry(p.to_vec()).map(|(k, v)| (k, v.to_vec())))
    }
    fn last_entry(&self, p: &[u8]) -> AR<Option<(Vec<u8>, Vec<u8>)>> {
        Ok(self.0.last_entry(p.to_vec()).map(|(k, v)| (k, v.to_vec())))
    }
    fn group_by(&self, descend: &dyn Fn(&[u8]) -> bool, limit: usize) -> AR<Vec<Self>> {
        Ok(self.0.group_by(|p, _| descend(p)).take(limit).map(Det).collect())
    }
    fn combine_det(&mut self, kind: Kind, b: &RadixTree, f: Comb, in_place: bool, calls: &RefCell<Calls>) -> AR<()> {
        if in_place {
            let g = |x: &mut Value, y: &ValueRef| {
                let (xv, yv) = (x.to_vec(), y.data().expect("value").to_vec());
                match f.eval(&xv, &yv) {
                    None => x.set(None),
                    Some(r) if r == yv => x.set(Some(y.downcast())),
                    Some(r) if r == xv => {}
                    Some(r) => x.set(Some(&RadixTree::single("", &r).value().unwrap())),
                }
                calls.borrow_mut().push((xv, yv));
            };
            match kind {
                Kind::Outer => self.0.outer_combine_with(b, g),
                Kind::Inner => self.0.inner_combine_with(b, g),
                Kind::Left => self.0.left_combine_with(b, g),
            }
        } else {
            let g = |x: &ValueRef, y: &ValueRef| {
                let (xv, yv) = (x.data().expect("value").to_vec(), y.data().expect("value").to_vec());
                let r = match f.eval(&xv, &yv) {
                    None => None,
                    Some(r) if r == yv => Some(y.to_owned()),
                    Some(r) if r == xv => Some(x.to_owned()),
                    Some(r) => Some(mkval(&r)),
                };
                calls.borrow_mut().push((xv, yv));
                r
            };
            self.0 = match kind {
                Kind::Outer => self.0.outer_combine(b, g),
                Kind::Inner => self.0.inner_combine(b, g),
                Kind::Left => self.0.left_combine(b, g),
            };
        }
        Ok(())
    }
    fn prefix_with_det(&mut self, retain: bool, b: &RadixTree, f: Pred) -> AR<()> {
        let g = |y: &ValueRef| f.eval(y.data().expect("value"), b"");
        if retain {
            self.0.retain_prefix_with(b, g)
        } else {
            self.0.remove_prefix_with(b, g)
        }
        Ok(())
    }
    fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    fn reattach(&mut self) -> AR<()> {
        Ok(())
    }
    fn detach(&self) -> AR<RadixTree> {
        Ok(self.0.try_detached()?)
    }
    fn same_as(&self, t: &RadixTree) -> AR<bool> {
        Ok(self.0 == *t && *t == self.0)
    }
    fn reloaded(&self) -> AR<Option<Self>> {
        Ok(None)
    }
}

impl<S: BlobStore<Error = anyhow::Error> + Clone> Tree for Att<S> {
    type V = Value<S>;
    fn iter_hold(&self) -> Held<Value<S>> {
        Box::new(self.0.try_iter())
    }
    fn scan_hold(&self, p: &[u8]) -> AR<Held<Value<S>>> {
        Ok(Box::new(self.0.try_scan_prefix(p)?))
    }
    fn values_hold(&self) -> Box<dyn Iterator<Item = AR<Value<S>>>> {
        Box::new(self.0.try_values())
    }
    fn get_hold(&self, k: &[u8]) -> AR<Option<Value<S>>> {
        self.0.try_get(k)
    }
    fn bytes(&self, v: &Value<S>) -> AR<Vec<u8>> {
        vb(v, RadixTree::store(&self.0))
    }
    fn combine_same(&mut self, kind: Kind, b: &Self, f: Comb, in_place: bool, calls: &RefCell<Calls>) -> AR<()> {
        if in_place {
            combine_with(kind, &mut self.0, &b.0, IdentityConverter, f, calls)
        } else {
            let r = combine(kind, &self.0, &b.0, f, calls)?;
            self.0 = r.try_attached(RadixTree::store(&self.0).clone())?;
            Ok(())
        }
    }
    fn prefix_with_same(&mut self, retain: bool, b: &Self, f: Pred) -> AR<()> {
        prefix_with(retain, &mut self.0, &b.0, f)
    }
    fn get(&self, k: &[u8]) -> AR<Option<Vec<u8>>> {
        let st = RadixTree::store(&self.0);
        self.0.try_get(k)?.map(|v| vb(&v, st)).transpose()
    }
    fn contains(&self, k: &[u8]) -> AR<bool> {
        self.0.try_contains_key(k)
    }
    fn has_prefix(&self, k: &[u8]) -> AR<bool> {
        self.0.try_has_prefix(k)
    }
    fn insert(&mut self, k: &[u8], v: &[u8]) -> AR<()> {
        self.0.try_insert(k, v)
    }
    fn remove(&mut self, k: &[u8]) -> AR<()> {
        self.0.try_remove(k)
    }
    fn remove_prefix(&mut self, k: &[u8]) -> AR<()> {
        self.0.try_remove_prefix(k)
    }
    fn filter_prefix(&self, k: &[u8], s: &[u8]) -> AR<Self> {
        Ok(Att(self.0.try_filter_prefix(k, s)?))
    }
    fn entries(&self, limit: usize) -> AR<Vec<(Vec<u8>, Vec<u8>)>> {
        let st = RadixTree::store(&self.0);
        self.0
            .try_iter()
            .take(limit)
            .map(|r| {
                let (k, v) = r?;
                Ok((k.to_vec(), vb(&v, st)?))
            })
            .collect()
    }
    fn values(&self, limit: usize) -> AR<Vec<Vec<u8>>> {
        let st = RadixTree::store(&self.0);
        self.0.try_values().take(limit).map(|v| vb(&v?, st)).collect()
    }
    fn scan(&self, p: &[u8], limit: usize) -> AR<Vec<(Vec<u8>, Vec<u8>)>> {
        let st = RadixTree::store(&self.0);
        self.0
            .try_scan_prefix(p)?
            .take(limit)
            .map(|r| {
                let (k, v) = r?;
                Ok((k.to_vec(), vb(&v, st)?))
            })
            .collect()
    }
    fn first_value(&self) -> AR<Option<Vec<u8>>> {
        let st = RadixTree::store(&self.0);
        self.0.try_first_value()?.map(|v| vb(&v, st)).transpose()
    }
    fn last_value(&self) -> AR<Option<Vec<u8>>> {
        let st = RadixTree::store(&self.0);
        self.0.try_last_value()?.map(|v| vb(&v, st)).transpose()
    }
    fn first_entry(&self, p: &[u8]) -> AR<Option<(Vec<u8>, Vec<u8>)>> {
        let st = RadixTree::store(&self.0);
        self.0.try_first_entry(p.to_vec())?.map(|(k, v)| Ok((k, vb(&v, st)?))).transpose()
    }
    fn last_entry(&self, p: &[u8]) -> AR<Option<(Vec<u8>, Vec<u8>)>> {
        let st = RadixTree::store(&self.0);
        self.0.try_last_entry(p.to_vec())?.map(|(k, v)| Ok((k, vb(&v, st)?))).transpose()
    }
    fn group_by(&self, descend: &dyn Fn(&[u8]) -> bool, limit: usize) -> AR<Vec<Self>> {
        self.0.try_group_by(|p, _| Ok(descend(p))).take(limit).map(|t| Ok(Att(t?))).collect()
    }
    fn combine_det(&mut self, kind: Kind, b: &RadixTree, f: Comb, in_place: bool, calls: &RefCell<Calls>) -> AR<()> {
        if in_place {
            combine_with(kind, &mut self.0, b, DowncastConverter, f, calls)
        } else {
            let r = combine(kind, &self.0, b, f, calls)?;
            self.0 = r.try_attached(RadixTree::store(&self.0).clone())?;
            Ok(())
        }
    }
    fn prefix_with_det(&mut self, retain: bool, b: &RadixTree, f: Pred) -> AR<()> {
        prefix_with(retain, &mut self.0, b, f)
    }
    fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    fn reattach(&mut self) -> AR<()> {
        self.0.try_reattach()?;
        Ok(())
    }
    fn detach(&self) -> AR<RadixTree> {
        self.0.try_detached()
    }
    fn same_as(&self, t: &RadixTree) -> AR<bool> {
        let d = self.0.try_detached()?;
        Ok(d == *t && *t == d)
    }
    fn reloaded(&self) -> AR<Option<Self>> {
        let id = self.0.clone().try_reattach()?;
        Ok(Some(Att(RadixTree::try_load(RadixTree::store(&self.0).clone(), Some(id))?)))
    }
}

pub fn diff(got: &[(Vec<u8>, Vec<u8>)], want: &Map) -> Option<String> {
    let w: Vec<(&Vec<u8>, &Vec<u8>)> = want.iter().collect();
    for (i, (k, v)) in got.iter().enumerate() {
        match w.get(i) {
            None => return Some(format!("entry {} is \"{}\"=\"{}\", expected the end after {} entries", i, show(k), show(v), w.len())),
            Some((wk, wv)) => {
                if *wk != k || *wv != v {
                    return Some(format!("entry {} is \"{}\"=\"{}\", expected \"{}\"=\"{}\"", i, show(k), show(v), show(wk), show(wv)));
                }
            }
        }
    }
    if got.len() < w.len() {
        let (k, v) = w[got.len()];
        return Some(format!("the entries end after {}, expected \"{}\"=\"{}\" next ({} in all)", got.len(), show(k), show(v), w.len()));
    }
    None
}

/// entries as iterated equal the model
pub fn same_entries<T: Tree>(t: &T, want: &Map, what: &str) -> Result<(), String> {
    let got = t.entries(want.len() + 2).map_err(|e| format!("{}: iteration failed: {:#}", what, e))?;
    match diff(&got, want) {
        None => Ok(()),
        Some(d) => Err(format!("{}: {}", what, d)),
    }
}

/// every lookup of `probes` agrees with the model
pub fn same_lookups<T: Tree>(t: &T, want: &Map, probes: &[Vec<u8>], what: &str) -> Result<(), String> {
    for k in probes {
        let g = t.get(k).map_err(|e| format!("{}: get(\"{}\") failed: {:#}", what, show(k), e))?;
        let w = want.get(k);
        if g.as_ref() != w {
            return Err(format!("{}: get(\"{}\") is {:?}, expected {:?}", what, show(k), g.map(|x| show(&x)), w.map(|x| show(x))));
        }
        let c = t.contains(k).map_err(|e| format!("{}: contains(\"{}\") failed: {:#}", what, show(k), e))?;
        if c != w.is_some() {
            return Err(format!("{}: contains_key(\"{}\") is {}", what, show(k), c));
        }
    }
    Ok(())
}

/// keys at, just above and just below every key of the model (bounded)
pub fn probes(m: &Map, cap: usize) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![vec![]];
    let step = (m.len() / cap).max(1);
    for k in m.keys().step_by(step) {
        out.push(k.clone());
        if !k.is_empty() {
            out.push(k[..k.len() - 1].to_vec());
            out.push(k[..k.len() / 2].to_vec());
            let mut x = k.clone();
            let n = x.len();
            x[n - 1] = x[n - 1].wrapping_add(1);
            out.push(x.clone());
            x[n - 1] = x[n - 1].wrapping_sub(2);
            out.push(x);
        }
        let mut x = k.clone();
        x.push(0);
        out.push(x.clone());
        *x.last_mut().unwrap() = b'a';
        out.push(x);
    }
    out.sort();
    out.dedup();
    out
}

#[allow(unused)]
pub fn detached(_: &RadixTree<Detached>) {}

pub fn m_show(m: &Map) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("\"{}\"=\"{}\"", show(k), show(v))).collect();
    format!("{{{}}}", v.join(", "))
}

fn opt(x: &Option<(Vec<u8>, Vec<u8>)>) -> String {
    match x {
        None => "None".into(),
        Some((k, v)) => format!("\"{}\"=\"{}\"", show(k), show(v)),
    }
}

/// values, first and last agree with the model (entries: see `same_entries`)
pub fn same_ends<T: Tree>(t: &T, m: &Map, prefix: &[u8], what: &str) -> Result<(), String> {
    let e = |e: anyhow::Error| format!("{}: failed: {:#}", what, e);
    let vals = t.values(m.len() + 2).map_err(e)?;
    let want: Vec<Vec<u8>> = m.values().cloned().collect();
    crate::ensure!(vals == want, "{}: values() yields {} values, expected {} (or another order or content)", what, vals.len(), want.len());
    let (f, l) = (m.iter().next(), m.iter().next_back());
    let fv = t.first_value().map_err(e)?;
    crate::ensure!(fv.as_ref() == f.map(|x| x.1), "{}: first_value is {:?}", what, fv.map(|x| show(&x)));
    let lv = t.last_value().map_err(e)?;
    crate::ensure!(lv.as_ref() == l.map(|x| x.1), "{}: last_value is {:?}", what, lv.map(|x| show(&x)));
    let cat = |x: Option<(&Vec<u8>, &Vec<u8>)>| x.map(|(k, v)| ([prefix, k].concat(), v.clone()));
    let fe = t.first_entry(prefix).map_err(e)?;
    crate::ensure!(fe == cat(f), "{}: first_entry is {}, expected {}", what, opt(&fe), opt(&cat(f)));
    let le = t.last_entry(prefix).map_err(e)?;
    crate::ensure!(le == cat(l), "{}: last_entry is {}, expected {}", what, opt(&le), opt(&cat(l)));
    Ok(())
}

/// has_prefix and scan_prefix agree with the model
pub fn same_prefix<T: Tree>(t: &T, m: &Map, p: &[u8], what: &str) -> Result<(), String> {
    let want: Map = m.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (k.clone(), v.clone())).collect();
    let h = t.has_prefix(p).map_err(|e| format!("{}: has_prefix failed: {:#}", what, e))?;
    crate::ensure!(h != want.is_empty(), "{}: has_prefix(\"{}\") is {}, {} keys have it", what, show(p), h, want.len());
    let got = t.scan(p, want.len() + 2).map_err(|e| format!("{}: scan_prefix failed: {:#}", what, e))?;
    if let Some(d) = diff(&got, &want) {
        return Err(format!("{}: scan_prefix(\"{}\"): {}", what, show(p), d));
    }
    Ok(())
}

/// group_by with the given descend function agrees with the radix structure of the model
pub fn same_groups<T: Tree>(t: &T, m: &Map, descend: &dyn Fn(&[u8]) -> bool, what: &str) -> Result<usize, String> {
    let mut want: Vec<Map> = vec![];
    let mut calls: Vec<Vec<u8>> = vec![];
    fn rec(n: &RNode, path: &[u8], d: &dyn Fn(&[u8]) -> bool, out: &mut Vec<Map>, calls: &mut Vec<Vec<u8>>) {
        let p = [path, &n.prefix].concat();
        calls.push(p.clone());
        if d(&p) {
            if let Some(v) = &n.value {
                out.push([(p.clone(), v.clone())].into_iter().collect());
            }
            for c in &n.children {
                rec(c, &p, d, out, calls);
            }
        } else {
            let mut g = Map::new();
            n.entries(path, &mut g);
            out.push(g);
        }
    }
    let r = crate::model::radix(m);
    rec(&r, b"", descend, &mut want, &mut calls);
    let asked = RefCell::new(vec![]);
    let got = t
        .group_by(
            &|p| {
                asked.borrow_mut().push(p.to_vec());
                descend(p)
            },
            want.len() + 2,
        )
        .map_err(|e| format!("{}: group_by failed: {:#}", what, e))?;
    let asked = asked.into_inner();
    if m.is_empty() {
        for g in &got {
            same_entries(g, m, "group of an empty tree")?;
        }
        return Ok(0);
    }
    crate::ensure!(got.len() == want.len(), "{}: group_by yields {} trees, expected {}", what, got.len(), want.len());
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        same_entries(g, w, &format!("{}: group {}", what, i))?;
        let ks: Vec<Vec<u8>> = w.keys().take(3).cloned().collect();
        same_lookups(g, w, &ks, &format!("{}: group {}", what, i))?;
    }
    crate::ensure!(
        asked == calls,
        "{}: descend was asked about {:?}, expected {:?}",
        what,
        asked.iter().map(|x| show(x)).collect::<Vec<_>>(),
        calls.iter().map(|x| show(x)).collect::<Vec<_>>()
    );
    Ok(want.len())
}
