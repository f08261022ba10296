//! Handles, iterators, keys and values are isolated from each other.
use super::attached::go;
use super::point::{gen_descend, gen_made, shape, Descend, Made};
use crate::engine::{Cx, Property, Res};
use crate::ensure;
use crate::gen::*;
use crate::model::{self, Map};
use crate::stores::*;
use crate::tape::Src;
use crate::tree::*;
use radixdb::node::IterKey;
use radixdb::RadixTree;
use std::cell::RefCell;
use std::collections::VecDeque;

#[derive(Debug, Clone)]
pub enum HStep {
    Clone(u8),
    Op(u8, Op),
    /// combine two handles: kind, in place
    Combine(u8, u8, u8, Comb, bool),
    Prefix(u8, u8, bool, Pred),
    /// derive a new handle
    Filter(u8, B, B),
    Group(u8, Descend),
    Detach(u8),
    /// combine with a detached tree taken earlier
    WithDetached(u8, u8, u8, Comb, bool),
    Reattach(u8),
    Iter(u8),
    Scan(u8, B),
    Values(u8),
    /// go on with an iterator; keep what it yields?
    Next(u8, u8, bool),
    Get(u8, B),
    DropHandle(u8),
    DropIter(u8),
    DropHeld(u8),
}

#[derive(Debug)]
pub struct HCase {
    pub spec: Option<Spec>,
    pub made: Made,
    pub steps: Vec<HStep>,
}

enum It<V> {
    Pairs(Held<V>, VecDeque<(Vec<u8>, Vec<u8>)>),
    Values(Box<dyn Iterator<Item = AR<V>>>, VecDeque<Vec<u8>>),
}

fn kind(n: u8) -> Kind {
    [Kind::Outer, Kind::Left, Kind::Inner][n as usize % 3]
}
fn comb(k: Kind, a: &Map, b: &Map, f: Comb) -> Map {
    match k {
        Kind::Outer => model::outer(a, b, f),
        Kind::Inner => model::inner(a, b, f),
        Kind::Left => model::left(a, b, f),
    }
}

fn run<T: Tree + 'static>(c: &HCase, first: T, cx: &mut Cx) -> Res {
    let m0 = c.made.map();
    same_entries(&first, &m0, "at the start")?;
    // one that is never touched
    let (keep, keep_m) = (first.clone(), m0.clone());
    let mut hs: Vec<(T, Map)> = vec![(first, m0)];
    let mut dets: Vec<(RadixTree, Map)> = vec![];
    let mut its: Vec<It<T::V>> = vec![];
    let mut vals: Vec<(T::V, Vec<u8>)> = vec![];
    let mut keys: Vec<(IterKey, Vec<u8>)> = vec![];
    let (mut mutated, mut shared, mut live_it) = (0, 0, 0);
    for (i, s) in c.steps.iter().enumerate() {
        let what = format!("step {} {:?}", i, s);
        let n = hs.len();
        let at = |k: &u8| *k as usize % n;
        let room = n < 7;
        match s {
            HStep::Clone(k) => {
                if room {
                    let x = hs[at(k)].clone();
                    hs.push(x);
                }
            }
            HStep::Op(k, op) => {
                let h = &mut hs[at(k)];
                go!(h.0.op(op), "{}", what);
                h.1 = model::apply(&h.1, op);
                mutated += 1;
                if !its.is_empty() {
                    live_it += 1;
                }
            }
            HStep::Combine(a, b, kd, f, w) => {
                // the right side may be the same tree
                let (b, bm) = hs[at(b)].clone();
                let h = &mut hs[at(a)];
                let calls = RefCell::new(vec![]);
                let want = comb(kind(*kd), &h.1, &bm, *f);
                go!(h.0.combine_same(kind(*kd), &b, *f, *w, &calls), "{}", what);
                h.1 = want;
                same_entries(&b, &bm, &format!("{}: right side", what))?;
                mutated += 1;
                shared += 1;
            }
            HStep::Prefix(a, b, retain, p) => {
                let (b, bm) = hs[at(b)].clone();
                let h = &mut hs[at(a)];
                let want = if *retain { model::retain(&h.1, &bm, *p) } else { model::remove_with(&h.1, &bm, *p) };
                go!(h.0.prefix_with_same(*retain, &b, *p), "{}", what);
                h.1 = want;
                same_entries(&b, &bm, &format!("{}: right side", what))?;
                mutated += 1;
            }
            HStep::Filter(k, p, s) => {
                let h = &hs[at(k)];
                let t = go!(h.0.filter_prefix(&p.0, &s.0), "{}", what);
                let m = model::filter_prefix(&h.1, &p.0, &s.0);
                if room {
                    hs.push((t, m));
                    shared += 1;
                }
            }
            HStep::Group(k, d) => {
                let h = &hs[at(k)];
                let gs = go!(h.0.group_by(&|p| d.eval(p), h.1.len() + 2), "{}", what);
                let mut new = vec![];
                for g in gs.into_iter().take(3) {
                    let m: Map = go!(g.entries(h.1.len() + 2), "{}", what).into_iter().collect();
                    ensure!(m.iter().all(|(k, v)| h.1.get(k) == Some(v)), "{}: a group has other entries", what);
                    new.push((g, m));
                }
                if room {
                    hs.extend(new);
                    shared += 1;
                }
            }
            HStep::Detach(k) => {
                let h = &hs[at(k)];
                let d = go!(h.0.detach(), "{}", what);
                dets.push((d, h.1.clone()));
                if dets.len() > 3 {
                    dets.remove(0);
                }
            }
            HStep::WithDetached(k, l, kd, f, w) => {
                if dets.is_empty() {
                    continue;
                }
                let j = *l as usize % dets.len();
                let h = &mut hs[at(k)];
                let calls = RefCell::new(vec![]);
                let want = comb(kind(*kd), &h.1, &dets[j].1, *f);
                go!(h.0.combine_det(kind(*kd), &dets[j].0, *f, *w, &calls), "{}", what);
                h.1 = want;
                shared += 1;
                mutated += 1;
                // and the detached one changes afterwards
                if l % 2 == 0 {
                    let d = &mut dets[j];
                    d.0.insert(b"zz", b"detached");
                    d.1.insert(b"zz".to_vec(), b"detached".to_vec());
                }
            }
            HStep::Reattach(k) => go!(hs[at(k)].0.reattach(), "{}", what),
            HStep::Iter(k) => {
                if its.len() < 5 {
                    let h = &hs[at(k)];
                    its.push(It::Pairs(h.0.iter_hold(), h.1.clone().into_iter().collect()));
                }
            }
            HStep::Scan(k, p) => {
                if its.len() < 5 {
                    let h = &hs[at(k)];
                    let it = go!(h.0.scan_hold(&p.0), "{}", what);
                    its.push(It::Pairs(it, h.1.iter().filter(|(k, _)| k.starts_with(&p.0)).map(|(k, v)| (k.clone(), v.clone())).collect()));
                }
            }
            HStep::Values(k) => {
                if its.len() < 5 {
                    let h = &hs[at(k)];
                    its.push(It::Values(h.0.values_hold(), h.1.values().cloned().collect()));
                }
            }
            HStep::Next(k, n, hold) => {
                if its.is_empty() {
                    continue;
                }
                let j = *k as usize % its.len();
                for _ in 0..=*n {
                    match &mut its[j] {
                        It::Pairs(it, want) => match (it.next(), want.pop_front()) {
                            (None, None) => break,
                            (Some(Ok((k, v))), Some((wk, wv))) => {
                                let b = go!(keep.bytes(&v), "{}", what);
                                ensure!(k.as_ref() == &wk[..] && b == wv, "{}: an iterator yields \"{}\"=\"{}\", at its start the tree had \"{}\"=\"{}\"", what, show(&k), show(&b), show(&wk), show(&wv));
                                if *hold && keys.len() < 20 {
                                    keys.push((k, wk));
                                    vals.push((v, wv));
                                }
                            }
                            (a, b) => {
                                let a = a.map(|r| r.map(|x| show(&x.0)));
                                return Err(format!("{}: an iterator yields {:?}, at its start the tree had {:?}", what, a, b.map(|x| show(&x.0))));
                            }
                        },
                        It::Values(it, want) => match (it.next(), want.pop_front()) {
                            (None, None) => break,
                            (Some(Ok(v)), Some(wv)) => {
                                let b = go!(keep.bytes(&v), "{}", what);
                                ensure!(b == wv, "{}: a value iterator yields \"{}\" instead of \"{}\"", what, show(&b), show(&wv));
                                if *hold && vals.len() < 40 {
                                    vals.push((v, wv));
                                }
                            }
                            (a, b) => return Err(format!("{}: a value iterator yields {} value, expected {}", what, if a.is_some() { "a" } else { "no" }, if b.is_some() { "one" } else { "none" })),
                        },
                    }
                }
            }
            HStep::Get(k, key) => {
                let h = &hs[at(k)];
                let v = go!(h.0.get_hold(&key.0), "{}", what);
                match (v, h.1.get(&key.0)) {
                    (None, None) => {}
                    (Some(v), Some(w)) => vals.push((v, w.clone())),
                    (v, _) => return Err(format!("{}: the key is {}", what, if v.is_some() { "there" } else { "missing" })),
                }
            }
            HStep::DropHandle(k) => {
                if n > 1 {
                    let j = at(k);
                    hs.remove(j);
                }
            }
            HStep::DropIter(k) => {
                if !its.is_empty() {
                    let j = *k as usize % its.len();
                    its.remove(j);
                }
            }
            HStep::DropHeld(k) => {
                if !vals.is_empty() {
                    let j = *k as usize % vals.len();
                    vals.remove(j);
                }
                if !keys.is_empty() {
                    let j = *k as usize % keys.len();
                    keys.remove(j);
                }
            }
        }
        // everybody has exactly their own contents
        let size: usize = hs.iter().map(|h| h.1.len()).sum();
        if size < 250 {
            for (j, (t, m)) in hs.iter().enumerate() {
                same_entries(t, m, &format!("{}: handle {}", what, j))?;
            }
        }
        for (v, w) in &vals {
            ensure!(go!(keep.bytes(v), "{}", what) == *w, "{}: a value that was kept changed", what);
        }
        for (k, w) in &keys {
            ensure!(k.as_ref() == &w[..], "{}: a key that was kept is now \"{}\" instead of \"{}\"", what, show(k), show(w));
        }
    }
    for (j, (t, m)) in hs.iter().enumerate() {
        same_entries(t, m, &format!("at the end: handle {}", j))?;
        same_lookups(t, m, &probes(m, 4), &format!("at the end: handle {}", j))?;
    }
    for (d, m) in &dets {
        same_entries(&Det(d.clone()), m, "at the end: a detached tree")?;
    }
    same_entries(&keep, &keep_m, "at the end: the untouched clone")?;
    let handles = hs.len();
    drop(hs);
    for it in its {
        match it {
            It::Pairs(it, want) => {
                let rest: Vec<_> = go!(it.map(|r| r.and_then(|(k, v)| Ok((k.to_vec(), keep.bytes(&v)?)))).take(want.len() + 2).collect::<AR<Vec<_>>>(), "rest of an iterator");
                ensure!(rest.iter().eq(want.iter()), "an iterator whose tree is gone yields {} entries, expected {}", rest.len(), want.len());
            }
            It::Values(it, want) => {
                let rest: Vec<_> = go!(it.map(|r| r.and_then(|v| keep.bytes(&v))).take(want.len() + 2).collect::<AR<Vec<_>>>(), "rest of an iterator");
                ensure!(rest.iter().eq(want.iter()), "a value iterator whose tree is gone yields {} values, expected {}", rest.len(), want.len());
            }
        }
    }
    for (v, w) in &vals {
        ensure!(go!(keep.bytes(v), "a kept value") == *w, "a value that was kept changed when the trees were dropped");
    }
    cx.label_if(shared > 0 && mutated > shared, "handles sharing structure after bulk operations");
    cx.label_if(live_it > 0, "mutated while an iterator is alive");
    cx.label_if(handles > 2, "three handles or more");
    shape(&keep_m, cx);
    cx.nt_if(mutated >= 2 && c.steps.len() >= 4);
    Ok(())
}

pub fn run_hcase(c: &HCase, cx: &mut Cx) -> Res {
    match &c.spec {
        None => {
            cx.label("detached");
            run(c, c.made.det(), cx)
        }
        Some(s) => {
            let o = s.open();
            cx.label(s.name());
            if let Some(t) = &o.t {
                t.st().budget = Some(5_000_000);
            }
            let t = Att(go!(c.made.det().0.try_attached(o.store.clone()), "attach"));
            run(c, t, cx)
        }
    }
}

pub struct C10;
impl Property for C10 {
    type Case = HCase;
    const ID: &'static str = "C10";
    const CASES: (u64, u64) = (10_000, 2_000_000);
    const RULE: &'static str = "A case is a family of up to nine handles on a detached tree or on one attached to a store, made by cloning, filtering, grouping, detaching and combining handles with each other, with iterators, keys and values taken from them and kept; handles are mutated, reattached and dropped in any order. After every step every handle is compared with its own sorted map, every kept key and value with its bytes; iterators must yield what their tree held when they were made, also after the tree is gone. Non-trivial: at least two mutations and four steps.";
    fn gen(src: &mut Src) -> HCase {
        let spec = if src.chance(110) { Some(gen_spec(src)) } else { None };
        let keys = if spec.is_none() { gen_keys_huge(src) } else { gen_keys(src) };
        let made = gen_made(src, &keys, keys.medium(), 1);
        let steps = src.list(1, 40, 11, |src| match src.weighted(&[10, 30, 8, 4, 4, 2, 2, 3, 5, 5, 3, 3, 12, 4, 3, 1, 2]) {
            0 => HStep::Clone(src.u8()),
            1 => HStep::Op(src.u8(), gen_op(src, &keys, &made.start)),
            2 => HStep::Combine(src.u8(), src.u8(), src.u8(), gen_comb(src), src.chance(190)),
            3 => HStep::Prefix(src.u8(), src.u8(), src.chance(128), gen_pred(src)),
            4 => HStep::Filter(src.u8(), B(keys.key(src)), B(keys.key(src))),
            5 => HStep::Group(src.u8(), gen_descend(src)),
            6 => HStep::Detach(src.u8()),
            7 => HStep::WithDetached(src.u8(), src.u8(), src.u8(), gen_comb(src), src.chance(190)),
            8 => HStep::Reattach(src.u8()),
            9 => HStep::Iter(src.u8()),
            10 => HStep::Scan(src.u8(), B(keys.key(src))),
            11 => HStep::Values(src.u8()),
            12 => HStep::Next(src.u8(), src.below(6) as u8, src.chance(128)),
            13 => HStep::Get(src.u8(), B(keys.key(src))),
            14 => HStep::DropHandle(src.u8()),
            15 => HStep::DropIter(src.u8()),
            _ => HStep::DropHeld(src.u8()),
        });
        HCase { spec, made, steps }
    }
    fn run(c: &HCase, cx: &mut Cx) -> Res {
        run_hcase(c, cx)
    }
}
