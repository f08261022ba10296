//! Trees whose nodes, prefixes and values live in a store.
use super::point::{gen_descend, gen_made, shape, Descend, Made};
use crate::engine::{Cx, Property, Res};
use crate::ensure;
use crate::gen::*;
use crate::model::{self, Map};
use crate::stores::*;
use crate::tape::Src;
use crate::tree::*;
use radixdb::RadixTree;

pub type A = Att<AnyStore>;

/// turn an error into a failure, or leave the case if the store ran out of ids
macro_rules! go {
    ($e:expr, $($t:tt)*) => {
        match $e {
            Ok(x) => x,
            Err(e) if is_full(&e) => return Ok(()),
            Err(e) => return Err(format!("{}: {:#}", format!($($t)*), e)),
        }
    };
}
pub(crate) use go;

/// everything about the tree agrees with the model
pub fn same_all<T: Tree>(t: &T, m: &Map, d: &Descend, what: &str) -> Res {
    same_entries(t, m, what)?;
    same_ends(t, m, b"pre", what)?;
    same_lookups(t, m, &probes(m, 8), what)?;
    let mut ps: Vec<Vec<u8>> = vec![vec![]];
    for k in [m.keys().next(), m.keys().nth(m.len() / 2), m.keys().next_back()].into_iter().flatten() {
        ps.extend([k.clone(), k[..k.len() / 2].to_vec(), k[..k.len().saturating_sub(1)].to_vec(), [&k[..], b"x"].concat()]);
    }
    for p in &ps {
        same_prefix(t, m, p, what)?;
        let f = t.filter_prefix(p, b"s").map_err(|e| format!("{}: filter_prefix: {:#}", what, e))?;
        same_entries(&f, &model::filter_prefix(m, p, b"s"), &format!("{}: filter_prefix(\"{}\")", what, show(p)))?;
    }
    same_groups(t, m, &|p| d.eval(p), what)?;
    ensure!(t.is_empty() == m.is_empty(), "{}: is_empty is {} with {} entries", what, t.is_empty(), m.len());
    Ok(())
}

#[derive(Debug, Clone)]
pub enum AStep {
    Op(Op),
    Reattach,
    /// load the newest root again
    Reload,
    /// load an old root and continue from there
    Back(u8),
    /// query everything
    Look,
    Filter(B, B),
    Group(Descend, u8),
    /// detach and attach again to the same store
    Detach,
    /// a store handle opened anew
    Fresh,
}

#[derive(Debug)]
pub struct ACase {
    pub spec: Spec,
    pub made: Made,
    pub steps: Vec<AStep>,
    pub descend: Descend,
}

pub fn gen_acase(src: &mut Src, n: usize, versions: bool) -> ACase {
    let spec = gen_spec(src);
    // no limit on the length of a blob
    let keys = if matches!(spec, Spec::Mem | Spec::DynMem) { gen_keys_huge(src) } else { gen_keys(src) };
    let made = gen_made(src, &keys, keys.medium(), 1);
    let w = if versions { [24, 12, 5, 6, 1, 1, 1, 2, 3] } else { [40, 5, 4, 1, 4, 3, 2, 1, 1] };
    let steps = src.list(0, 30, n, |src| match src.weighted(&w) {
        0 => AStep::Op(if src.chance(180) { gen_op(src, &keys, &made.start) } else { gen_point_op(src, &keys) }),
        1 => AStep::Reattach,
        2 => AStep::Reload,
        3 => AStep::Back(src.u8()),
        4 => AStep::Look,
        5 => AStep::Filter(B(keys.key(src)), B(keys.key(src))),
        6 => AStep::Group(gen_descend(src), src.u8()),
        7 => AStep::Detach,
        _ => AStep::Fresh,
    });
    ACase { spec, made, steps, descend: gen_descend(src) }
}

pub fn run_acase(c: &ACase, cx: &mut Cx, check_each: bool, on_root: &mut dyn FnMut(&AnyStore, &[u8], &Map) -> Res) -> Res {
    let mut m = c.made.map();
    let mut o = c.spec.open();
    cx.label(c.spec.name());
    if let Some(t) = &o.t {
        t.st().budget = Some(3_000_000);
    }
    let det = c.made.det();
    let mut t: A = Att(go!(det.0.try_attached(o.store.clone()), "attach"));
    ensure!(det.0 == from_map(&m), "attaching changed the in-memory tree");
    same_entries(&t, &m, "after attach")?;
    let mut roots: Vec<(Vec<u8>, Map)> = vec![];
    let mut changed = 0;
    let mut indirect = m.keys().any(|k| k.len() > 127) || m.values().any(|v| v.len() > 127);
    for (i, s) in c.steps.iter().enumerate() {
        let what = format!("step {} {:?}", i, s);
        match s {
            AStep::Op(op) => {
                go!(t.op(op), "{}", what);
                m = model::apply(&m, op);
                cx.label(op.name());
                changed += 1;
                if check_each {
                    if m.len() < 40 {
                        same_entries(&t, &m, &what)?;
                    }
                    same_lookups(&t, &m, &probes(&m, 4), &what)?;
                }
            }
            AStep::Reattach => {
                let id = go!(t.0.try_reattach(), "{}", what);
                on_root(&o.store, &id, &m)?;
                roots.push((id, m.clone()));
                if check_each {
                    same_entries(&t, &m, &what)?;
                }
            }
            AStep::Reload | AStep::Back(_) => {
                if roots.is_empty() {
                    continue;
                }
                let n = if let AStep::Back(x) = s { *x as usize % roots.len() } else { roots.len() - 1 };
                let (id, rm) = roots[n].clone();
                t = Att(go!(RadixTree::try_load(o.store.clone(), Some(&id)), "{}", what));
                m = rm;
                same_entries(&t, &m, &what)?;
                cx.label("loaded a root");
            }
            AStep::Look => same_all(&t, &m, &c.descend, &what)?,
            AStep::Filter(p, s) => {
                t = go!(t.filter_prefix(&p.0, &s.0), "{}", what);
                m = model::filter_prefix(&m, &p.0, &s.0);
                same_entries(&t, &m, &what)?;
                changed += 1;
            }
            AStep::Group(d, n) => {
                if m.is_empty() {
                    continue;
                }
                let gs = go!(t.group_by(&|p| d.eval(p), m.len() + 2), "{}", what);
                ensure!(!gs.is_empty(), "{}: no groups", what);
                t = gs[*n as usize % gs.len()].clone();
                m = go!(t.entries(m.len() + 2), "{}", what).into_iter().collect();
                changed += 1;
            }
            AStep::Detach => {
                let d = go!(t.0.try_detached(), "{}", what);
                ensure!(d == from_map(&m), "{}: the detached tree differs from one built from {}", what, m_show(&m));
                t = Att(go!(d.try_attached(o.store.clone()), "{}", what));
                same_entries(&t, &m, &what)?;
            }
            AStep::Fresh => {
                // the tree itself keeps its old handle on purpose only if it is the same store
                let Some((id, rm)) = roots.last().cloned() else { continue };
                drop(t);
                let st = o.reopen();
                t = Att(go!(RadixTree::try_load(st, Some(&id)), "{}", what));
                m = rm;
                same_entries(&t, &m, &what)?;
                cx.label("fresh handle");
            }
        }
        indirect |= m.keys().any(|k| k.len() > 127) || m.values().any(|v| v.len() > 127);
    }
    same_all(&t, &m, &c.descend, "at the end")?;
    let d = go!(t.0.try_detached(), "detach at the end");
    let r = from_map(&m);
    ensure!(d == r && r == d, "the detached tree differs from one built from its entries {}", m_show(&m));
    same_entries(&Det(d), &m, "detached at the end")?;
    // one more version, then every root ever returned
    let id = go!(t.0.try_reattach(), "reattach at the end");
    on_root(&o.store, &id, &m)?;
    roots.push((id, m.clone()));
    same_entries(&t, &m, "after the last reattach")?;
    let st = o.reopen();
    for (i, (id, rm)) in roots.iter().enumerate() {
        let what = format!("root {} of {} loaded at the end", i + 1, roots.len());
        let l: A = Att(go!(RadixTree::try_load(st.clone(), Some(id)), "{}", what));
        if i + 1 == roots.len() || check_each {
            same_all(&l, rm, &c.descend, &what)?;
        } else {
            same_entries(&l, rm, &what)?;
        }
        let d = go!(l.0.try_detached(), "{}", what);
        ensure!(d == from_map(rm), "{}: differs after detaching", what);
    }
    let e: A = Att(RadixTree::try_load(st, None::<Vec<u8>>).map_err(|e| format!("load of no root: {:#}", e))?);
    same_entries(&e, &Map::new(), "load of no root")?;
    if let Some(t) = &o.t {
        let s = t.st();
        ensure!(s.unknown.is_empty(), "an id was read that was never written: {:?}", s.unknown[0]);
    }
    cx.label_if(indirect, "prefix or value stored indirectly");
    cx.label_if(roots.len() > 2, "three roots or more");
    shape(&m, cx);
    let fan = model::radix(&m);
    cx.nt_if(changed >= 1 && fan.count() >= 3 && (!check_each || m.len() >= 2) && (check_each || roots.len() >= 2));
    Ok(())
}

pub struct C11;
impl Property for C11 {
    type Case = ACase;
    const ID: &'static str = "C11";
    const CASES: (u64, u64) = (4_500, 900_000);
    const RULE: &'static str = "A case is a tree attached to a test store (id lengths 1 to 126, several id assignments), a memory, paged-file or dynamic store, then changed and reattached several times, continuing from old roots, through detach and fresh handles. At the end every root id ever returned is loaded through a fresh handle and compared with the contents it was returned for, also after detaching. Non-trivial: at least two roots, at least one change and at least three nodes.";
    fn gen(src: &mut Src) -> ACase {
        gen_acase(src, 7, true)
    }
    fn run(c: &ACase, cx: &mut Cx) -> Res {
        run_acase(c, cx, false, &mut |_, _, _| Ok(()))
    }
}

pub struct C12;
impl Property for C12 {
    type Case = ACase;
    const ID: &'static str = "C12";
    const CASES: (u64, u64) = (4_500, 900_000);
    const RULE: &'static str = "A case is a tree attached to a store as for C11, then a history of single-tree and bulk operations, queries, filters, groups and reattaches on it, so that parts are loaded, modified or still only in the store; every step is compared with a sorted map, the final tree in all queries and after detaching with a tree built from its entries. Non-trivial: at least one change, two entries and three nodes.";
    fn gen(src: &mut Src) -> ACase {
        gen_acase(src, 8, false)
    }
    fn run(c: &ACase, cx: &mut Cx) -> Res {
        run_acase(c, cx, true, &mut |_, _, _| Ok(()))
    }
}
