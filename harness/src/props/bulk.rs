//! Operations on two detached trees.
use super::cross::{gen_cross, run_cross, Cross, Only};
use super::point::{gen_made, shape, Made};
use crate::engine::{Cx, Property, Res};
use crate::{ensure, fail};
use crate::gen::*;
use crate::model::{self, Calls, Map};
use crate::tape::Src;
use crate::tree::*;
use std::cell::RefCell;

#[derive(Debug)]
pub struct Pair {
    pub a: Made,
    pub b: Made,
    pub f: Comb,
    pub p: Pred,
    pub then: Vec<Op>,
}

pub fn gen_pair(src: &mut Src) -> Pair {
    let keys = gen_keys_huge(src);
    let sz = if src.chance(200) { keys.medium() } else { SMALL };
    let n_ops = if src.chance(60) { 2 } else { 0 };
    let a = gen_made(src, &keys, sz, n_ops);
    let start = gen_related(src, &keys, &a.start, sz);
    let ops = if src.chance(60) { src.list(0, 10, 2, |src| gen_op(src, &keys, &start)) } else { vec![] };
    let b = Made { start, ops };
    let (a, b) = if src.chance(40) { (b, a) } else { (a, b) };
    let then = src.list(0, 4, 1, |src| gen_point_op(src, &keys));
    Pair { a, b, f: gen_comb(src), p: gen_pred(src), then }
}

/// two detached trees, or at least one of them in a store
#[derive(Debug)]
pub enum Two {
    Det(Pair),
    Stored(Box<Cross>),
}
fn gen_two(src: &mut Src) -> Two {
    if src.chance(70) {
        Two::Stored(Box::new(gen_cross(src)))
    } else {
        Two::Det(gen_pair(src))
    }
}

/// universe for exhaustive enumeration: all pairs of key sets over it
const UNI: [&[u8]; 6] = [b"", b"a", b"ab", b"b", b"abc", b"ad"];
const ENUM_F: [Comb; 5] = [Comb::Right, Comb::Left, Comb::Drop, Comb::Cat, Comb::ByHash(3)];

fn set_case(bits: u64, tag: u8) -> Made {
    let items = (0..6)
        .filter(|i| bits >> i & 1 == 1)
        .map(|i| Item::One(UNI[i as usize].to_vec(), Val { tag: tag + i as u8, len: [0, 1, 9][i as usize % 3] }))
        .collect();
    Made { start: Contents(items), ops: vec![] }
}
pub fn enum_pair(i: u64, fs: u64) -> Pair {
    let f = i % fs;
    let i = i / fs;
    Pair {
        a: set_case(i % 64, 10),
        b: set_case(i / 64, 80),
        f: ENUM_F[f as usize % 5],
        p: [Pred::True, Pred::False, Pred::ByHash(1), Pred::ByHash(2)][f as usize % 4],
        then: vec![],
    }
}

pub fn sorted(mut c: Calls) -> Calls {
    c.sort();
    c
}

pub fn calls_ok(got: Calls, want: &Calls, what: &str) -> Res {
    let (g, w) = (sorted(got), sorted(want.clone()));
    if g != w {
        let extra = g.iter().find(|x| g.iter().filter(|y| y == x).count() > w.iter().filter(|y| y == x).count());
        let missing = w.iter().find(|x| w.iter().filter(|y| y == x).count() > g.iter().filter(|y| y == x).count());
        let s = |x: Option<&(Vec<u8>, Vec<u8>)>| x.map(|(a, b)| format!("(\"{}\",\"{}\")", show(a), show(b)));
        return Err(format!(
            "{}: f was called {} times for {} common keys; called too often with {:?}, not called enough with {:?}",
            what,
            g.len(),
            w.len(),
            s(extra),
            s(missing)
        ));
    }
    Ok(())
}

/// calls of a predicate must be for common keys, each at most once
pub fn calls_within(got: Calls, want: &Calls, what: &str) -> Res {
    let (g, w) = (sorted(got), sorted(want.clone()));
    // both sorted: every call must find its own common key
    let mut left = w.iter();
    for x in &g {
        if !left.by_ref().any(|y| y == x) {
            let (n, k) = (g.iter().filter(|y| *y == x).count(), w.iter().filter(|y| *y == x).count());
            fail!("{}: the predicate was called {} times with (\"{}\",\"{}\"), which {} common keys have", what, n, show(&x.0), show(&x.1), k);
        }
    }
    Ok(())
}

/// a result is an ordinary tree with these entries
fn good(t: &Det, m: &Map, then: &[Op], what: &str) -> Res {
    same_entries(t, m, what)?;
    let ks = probes(m, 12);
    same_lookups(t, m, &ks, what)?;
    let r = from_map(m);
    ensure!(t.0 == r && r == t.0, "{}: the result differs from a tree built from its entries {}", what, m_show(m));
    if !then.is_empty() {
        let (mut t, mut m) = (t.clone(), m.clone());
        for op in then {
            t.op(op).unwrap();
            m = model::apply(&m, op);
        }
        same_entries(&t, &m, &format!("{} then {:?}", what, then))?;
    }
    Ok(())
}

fn labels(a: &Map, b: &Map, cx: &mut Cx) -> usize {
    let common = model::common(a, b).len();
    cx.label_if(common > 0, "common keys");
    cx.label_if(common > 10, "more than ten common keys");
    cx.label_if(!a.is_empty() && !b.is_empty() && common == 0, "disjoint");
    cx.label_if(a.is_empty() || b.is_empty(), "one side empty");
    let (ra, rb) = (model::radix(a), model::radix(b));
    let (pa, pb) = (&ra.prefix, &rb.prefix);
    cx.label_if(pa != pb && pb.starts_with(pa), "left root prefix shorter");
    cx.label_if(pa != pb && pa.starts_with(pb), "right root prefix shorter");
    cx.label_if(pa == pb, "same root prefix");
    cx.label_if(!pa.starts_with(pb) && !pb.starts_with(pa), "root prefixes diverge");
    cx.label_if(ra.max_fan() >= 256 || rb.max_fan() >= 256, "a node with 256 children");
    shape(a, cx);
    common
}

fn run_combine(kind: Kind, c: &Pair, cx: &mut Cx) -> Res {
    let (ma, mb) = (c.a.map(), c.b.map());
    let (a, b) = (c.a.det(), c.b.det());
    let common = model::common(&ma, &mb);
    let want = match kind {
        Kind::Outer => model::outer(&ma, &mb, c.f),
        Kind::Inner => model::inner(&ma, &mb, c.f),
        Kind::Left => model::left(&ma, &mb, c.f),
    };
    for in_place in [false, true] {
        let what = format!("{:?}{}", kind, if in_place { "_with" } else { "" });
        let calls = RefCell::new(vec![]);
        let mut r = a.clone();
        r.combine_det(kind, &b.0, c.f, in_place, &calls).unwrap();
        same_entries(&r, &want, &what)?;
        calls_ok(calls.into_inner(), &common, &what)?;
        good(&r, &want, &c.then, &what)?;
        same_entries(&b, &mb, &format!("{}: the right tree afterwards", what))?;
        same_entries(&a, &ma, &format!("{}: a copy of the left tree afterwards", what))?;
        // with no other owner of the left tree
        let calls = RefCell::new(vec![]);
        let mut r = c.a.det();
        r.combine_det(kind, &b.0, c.f, in_place, &calls).unwrap();
        same_entries(&r, &want, &format!("{} on an unshared tree", what))?;
    }
    // a tree combined with itself
    let want = match kind {
        Kind::Outer => model::outer(&ma, &ma, c.f),
        Kind::Inner => model::inner(&ma, &ma, c.f),
        Kind::Left => model::left(&ma, &ma, c.f),
    };
    let mut r = a.clone();
    r.combine_det(kind, &a.0, c.f, true, &RefCell::new(vec![])).unwrap();
    same_entries(&r, &want, "combined with itself in place")?;
    ensure!(a.0 == from_map(&ma), "the left tree changed");
    ensure!(b.0 == from_map(&mb), "the right tree changed");
    let n = labels(&ma, &mb, cx);
    let left_only = ma.len() > n;
    let right_only = mb.len() > n;
    cx.nt_if(n > 0 && left_only && right_only);
    Ok(())
}

fn run_pred(kind: Kind, c: &Pair) -> Res {
    let (ma, mb) = (c.a.map(), c.b.map());
    let (a, b) = (c.a.det(), c.b.det());
    let common = model::common(&ma, &mb);
    for p in [c.p, Pred::True, Pred::False] {
        let calls = RefCell::new(vec![]);
        let got = match kind {
            Kind::Inner => a.0.inner_combine_pred(&b.0, |x, y| {
                let (x, y) = (x.data().expect("value").to_vec(), y.data().expect("value").to_vec());
                let r = p.eval(&x, &y);
                calls.borrow_mut().push((x, y));
                r
            }),
            _ => a.0.left_combine_pred(&b.0, |x, y| {
                let (x, y) = (x.data().expect("value").to_vec(), y.data().expect("value").to_vec());
                let r = p.eval(&x, &y);
                calls.borrow_mut().push((x, y));
                r
            }),
        };
        let want = if kind == Kind::Inner { model::inner_pred(&ma, &mb, p) } else { model::left_pred(&ma, &mb, p) };
        ensure!(got == want, "{:?}_combine_pred with {:?} is {}, expected {}", kind, p, got, want);
        calls_within(calls.into_inner(), &common, "predicate")?;
    }
    Ok(())
}

macro_rules! combine_prop {
    ($name:ident, $id:expr, $kind:expr, $pred:expr, $rule:expr) => {
        pub struct $name;
        impl Property for $name {
            type Case = Two;
            const ID: &'static str = $id;
            const CASES: (u64, u64) = (6_000, 1_200_000);
            const RULE: &'static str = $rule;
            fn gen(src: &mut Src) -> Two {
                gen_two(src)
            }
            fn run(c: &Two, cx: &mut Cx) -> Res {
                let c = match c {
                    Two::Det(c) => c,
                    Two::Stored(c) => return run_cross(c, Only { kinds: &[$kind], prefixes: false }, cx),
                };
                run_combine($kind, c, cx)?;
                if $pred {
                    run_pred($kind, c)?;
                }
                Ok(())
            }
            fn enum_count() -> u64 {
                64 * 64 * 5
            }
            fn enum_case(i: u64) -> Two {
                Two::Det(enum_pair(i, 5))
            }
        }
    };
}

combine_prop!(C04, "C04", Kind::Outer, false, "A case is two trees (in a quarter of the cases one or both attached to stores and partly changed there, see C13) that share part of their keys (equal, cut, extended, other values) and a combining function on the value bytes; the functional and the in-place form, on shared and unshared trees and with the tree itself, are compared with the union of two sorted maps, the calls of f with the common keys, the results with rebuilt trees. All pairs of key sets over six nested keys are enumerated with five functions. Non-trivial: a common key, a key only left and a key only right.");
combine_prop!(C05, "C05", Kind::Inner, true, "As for C04, against the intersection of two sorted maps; inner_combine_pred is compared too, its calls must be for common keys, each at most once. Non-trivial: a common key, a key only left and a key only right.");
combine_prop!(C06, "C06", Kind::Left, true, "As for C04, against the left map with f applied to common keys; left_combine_pred is compared too, its calls must be for common keys, each at most once. Non-trivial: a common key, a key only left and a key only right.");

pub struct C07;
impl Property for C07 {
    type Case = Two;
    const ID: &'static str = "C07";
    const CASES: (u64, u64) = (4_500, 900_000);
    const RULE: &'static str = "A case is a left tree (in a quarter of the cases one or both trees attached to stores, see C13), a right tree of prefixes (its own keys, cut, extended, unrelated) and a predicate on the right values; retain_prefix_with and remove_prefix_with are compared with a filter of a sorted map, the results with rebuilt trees. All pairs of key sets over six nested keys are enumerated with four predicates. Non-trivial: some but not all left keys are covered.";
    fn gen(src: &mut Src) -> Two {
        gen_two(src)
    }
    fn run(c: &Two, cx: &mut Cx) -> Res {
        let c = match c {
            Two::Det(c) => c,
            Two::Stored(c) => return run_cross(c, Only { kinds: &[], prefixes: true }, cx),
        };
        let (ma, mb) = (c.a.map(), c.b.map());
        let (a, b) = (c.a.det(), c.b.det());
        for p in [c.p, Pred::True, Pred::False] {
            for retain in [true, false] {
                let what = format!("{} with {:?}", if retain { "retain_prefix_with" } else { "remove_prefix_with" }, p);
                let want = if retain { model::retain(&ma, &mb, p) } else { model::remove_with(&ma, &mb, p) };
                let mut r = a.clone();
                r.prefix_with_det(retain, &b.0, p).unwrap();
                good(&r, &want, &c.then, &what)?;
                let mut r = c.a.det();
                r.prefix_with_det(retain, &b.0, p).unwrap();
                same_entries(&r, &want, &format!("{} on an unshared tree", what))?;
                same_entries(&b, &mb, &format!("{}: the right tree afterwards", what))?;
                same_entries(&a, &ma, &format!("{}: a copy of the left tree afterwards", what))?;
                if p == c.p {
                    cx.nt_if(!want.is_empty() && want.len() < ma.len());
                    cx.label_if(!want.is_empty() && want.len() < ma.len(), "some kept, some dropped");
                }
            }
        }
        labels(&ma, &mb, cx);
        let blocked = mb.iter().any(|(k, v)| !c.p.eval(v, b"") && ma.keys().any(|x| x.starts_with(k) && model::covered(x, &mb, c.p)));
        cx.label_if(blocked, "a refused prefix above an accepted one");
        Ok(())
    }
    fn enum_count() -> u64 {
        64 * 64 * 4
    }
    fn enum_case(i: u64) -> Two {
        Two::Det(enum_pair(i, 4))
    }
}
