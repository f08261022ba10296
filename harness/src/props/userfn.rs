//! Functions given to an operation that fail, panic, or use other handles of the same trees.
use super::attached::go;
use super::cross::{entries, gen_side, tstore, Conv, Side, T};
use super::point::{gen_descend, gen_made, shape, Descend};
use crate::engine::{Cx, Property, Res};
use crate::gen::*;
use crate::model::{self, Map};
use crate::stores::*;
use crate::tape::Src;
use crate::tree::*;
use crate::{ensure, fail};
use radixdb::node::{DetachConverter, DowncastConverter, IdentityConverter, NodeConverter, Value, ValueRef};
use radixdb::store::{BlobStore, NoError};
use radixdb::RadixTree;
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct UserErr(u64);
impl std::fmt::Display for UserErr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "user function failed at call {}", self.0)
    }
}
impl std::error::Error for UserErr {}
struct UserPanic(u64);

/// what a function of the user can return for an error
pub trait Fail: Sized {
    fn fail(e: UserErr) -> Self;
}
impl Fail for anyhow::Error {
    fn fail(e: UserErr) -> Self {
        e.into()
    }
}
impl Fail for NoError {
    fn fail(e: UserErr) -> Self {
        resume_unwind(Box::new(UserPanic(e.0)))
    }
}

/// at which point of the failing call
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum When {
    Before,
    /// in-place: the value has been set already
    After,
    /// in-place: the value has been set to something else
    Mark,
}
const MARK: &[u8] = b"<half done>";

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Mode {
    when: When,
    panic: bool,
}

#[derive(Debug, Clone, Copy)]
pub enum UQ {
    Func(Kind, Comb),
    With(Kind, Comb),
    Pred(Kind, Pred),
    Prefix(bool, Pred),
    Groups(Descend),
}

impl UQ {
    fn in_place(&self) -> bool {
        matches!(self, UQ::With(..) | UQ::Prefix(..))
    }
    fn name(&self) -> &'static str {
        match self {
            UQ::Func(Kind::Outer, _) => "outer_combine",
            UQ::Func(Kind::Inner, _) => "inner_combine",
            UQ::Func(Kind::Left, _) => "left_combine",
            UQ::With(Kind::Outer, _) => "outer_combine_with",
            UQ::With(Kind::Inner, _) => "inner_combine_with",
            UQ::With(Kind::Left, _) => "left_combine_with",
            UQ::Pred(Kind::Left, _) => "left_combine_pred",
            UQ::Pred(..) => "inner_combine_pred",
            UQ::Prefix(true, _) => "retain_prefix_with",
            UQ::Prefix(false, _) => "remove_prefix_with",
            UQ::Groups(_) => "group_by",
        }
    }
    fn want(&self, a: &Map, b: &Map) -> Map {
        match self {
            UQ::Func(k, f) | UQ::With(k, f) => match k {
                Kind::Outer => model::outer(a, b, *f),
                Kind::Inner => model::inner(a, b, *f),
                Kind::Left => model::left(a, b, *f),
            },
            UQ::Prefix(true, p) => model::retain(a, b, *p),
            UQ::Prefix(false, p) => model::remove_with(a, b, *p),
            _ => a.clone(),
        }
    }
}

#[derive(Debug)]
pub struct Case {
    pub a: Side,
    pub b: Side,
    pub same_store: bool,
    pub conv: Conv,
    pub qs: Vec<(UQ, Mode)>,
    pub then: Vec<Op>,
    pub offset: u8,
}

/// which call fails, and what else the function does
struct Plan<'a> {
    n: Cell<u64>,
    at: Option<u64>,
    mode: Mode,
    look: u64,
    inside: &'a dyn Fn() -> Res,
    seen: RefCell<Res>,
}

impl<'a> Plan<'a> {
    fn new(at: Option<u64>, mode: Mode, look: u64, inside: &'a dyn Fn() -> Res) -> Self {
        Plan { n: Cell::new(0), at, mode, look, inside, seen: RefCell::new(Ok(())) }
    }
    /// true: this is the failing call
    fn enter(&self) -> bool {
        let k = self.n.get();
        self.n.set(k + 1);
        if k == self.look {
            let r = (self.inside)();
            if r.is_err() {
                *self.seen.borrow_mut() = r;
            }
        }
        self.at == Some(k)
    }
    fn fail<E: Fail>(&self) -> E {
        let k = self.at.unwrap();
        if self.mode.panic {
            resume_unwind(Box::new(UserPanic(k)))
        }
        E::fail(UserErr(k))
    }
}

fn ufunc<S, S2>(kind: Kind, a: &RadixTree<S>, b: &RadixTree<S2>, f: Comb, p: &Plan) -> AR<RadixTree>
where
    S: BlobStore + Clone,
    S2: BlobStore + Clone,
    anyhow::Error: From<S::Error> + From<S2::Error>,
{
    let (sa, sb) = (RadixTree::store(a), RadixTree::store(b));
    let g = |x: &ValueRef<S>, y: &ValueRef<S2>| -> AR<Option<Value>> {
        let bad = p.enter();
        if bad {
            return Err(p.fail());
        }
        let (x, y) = (vbytes(x, sa)?, vbytes(y, sb)?);
        Ok(f.eval(&x, &y).map(|r| mkval(&r)))
    };
    match kind {
        Kind::Outer => a.try_outer_combine(b, g),
        Kind::Inner => a.try_inner_combine(b, g),
        Kind::Left => a.try_left_combine(b, g),
    }
}

fn uwith<S, S2, C>(kind: Kind, a: &mut RadixTree<S>, b: &RadixTree<S2>, c: C, f: Comb, p: &Plan) -> Result<(), S::Error>
where
    S: BlobStore + Clone,
    S2: BlobStore + Clone,
    C: NodeConverter<S2, S> + Clone + 'static,
    S::Error: From<S2::Error> + From<NoError> + Fail,
{
    let (sa, sb) = (RadixTree::store(a).clone(), RadixTree::store(b).clone());
    let (sa, sb) = (&sa, &sb);
    let set = |x: &mut Value<S>, r: &[u8]| {
        let t = RadixTree::single("", r);
        x.set(Some(t.value().unwrap().downcast::<S>()));
    };
    let g = |x: &mut Value<S>, y: &ValueRef<S2>| -> Result<(), S::Error> {
        let bad = p.enter();
        if bad && p.mode.when == When::Before {
            return Err(p.fail());
        }
        if bad && p.mode.when == When::Mark {
            set(x, MARK);
            return Err(p.fail());
        }
        let (xv, yv) = (vb(x, sa)?, vbytes(y, sb)?);
        match f.eval(&xv, &yv) {
            None => x.set(None),
            Some(r) => set(x, &r),
        }
        if bad {
            return Err(p.fail());
        }
        Ok(())
    };
    match kind {
        Kind::Outer => a.try_outer_combine_with(b, c, g),
        Kind::Inner => a.try_inner_combine_with(b, c, g),
        Kind::Left => a.try_left_combine_with(b, c, g),
    }
}

fn upred<S, S2>(kind: Kind, a: &RadixTree<S>, b: &RadixTree<S2>, f: Pred, p: &Plan) -> AR<bool>
where
    S: BlobStore + Clone,
    S2: BlobStore + Clone,
    anyhow::Error: From<S::Error> + From<S2::Error>,
{
    let (sa, sb) = (RadixTree::store(a), RadixTree::store(b));
    let g = |x: &ValueRef<S>, y: &ValueRef<S2>| -> AR<bool> {
        if p.enter() {
            return Err(p.fail());
        }
        Ok(f.eval(&vbytes(x, sa)?, &vbytes(y, sb)?))
    };
    match kind {
        Kind::Left => a.try_left_combine_pred(b, g),
        _ => a.try_inner_combine_pred(b, g),
    }
}

fn uprefix<S, S2>(retain: bool, a: &mut RadixTree<S>, b: &RadixTree<S2>, f: Pred, p: &Plan) -> Result<(), S::Error>
where
    S: BlobStore + Clone,
    S2: BlobStore + Clone,
    S::Error: From<S2::Error> + From<NoError> + Fail,
{
    let sb = RadixTree::store(b).clone();
    let sb = &sb;
    let g = |y: &ValueRef<S2>| -> Result<bool, S::Error> {
        if p.enter() {
            return Err(p.fail());
        }
        Ok(f.eval(&vbytes(y, sb)?, b""))
    };
    if retain {
        a.try_retain_prefix_with(b, g)
    } else {
        a.try_remove_prefix_with(b, g)
    }
}

fn ugroups<S>(a: &RadixTree<S>, d: Descend, p: &Plan) -> Result<(Vec<Kv>, Option<S::Error>), String>
where
    S: BlobStore + Clone,
    S::Error: Fail,
{
    let st = RadixTree::store(a);
    let kv = |t: RadixTree<S>| -> Result<Kv, String> {
        t.try_iter()
            .map(|r| {
                let (k, v) = r?;
                Ok((k.to_vec(), vb(&v, st)?))
            })
            .collect::<Result<Kv, S::Error>>()
            .map_err(|e| format!("reading a group: {:?}", e))
    };
    let mut it = a.try_group_by(|x: &[u8], _: &_| if p.enter() { Err(p.fail()) } else { Ok(d.eval(x)) });
    let mut v = vec![];
    for _ in 0..100_000 {
        match it.next() {
            None => return Ok((v, None)),
            Some(Ok(t)) => v.push(kv(t)?),
            Some(Err(e)) => {
                ensure!(it.next().is_none() && it.next().is_none(), "group_by does not end after the error");
                return Ok((v, Some(e)));
            }
        }
    }
    Err("group_by does not end".into())
}

type Kv = Vec<(Vec<u8>, Vec<u8>)>;

#[derive(PartialEq, Debug)]
enum Out {
    None,
    Kv(Kv),
    Bool(bool),
    Groups(Vec<Kv>),
}

fn conv_of(a: &T, b: &T, same: bool, want: Conv) -> Conv {
    let convs: &[Conv] = match (a, b) {
        (T::D(_), T::D(_)) => &[Conv::Downcast, Conv::Identity, Conv::Detach],
        (T::D(_), T::A(_)) => &[Conv::Detach],
        (T::A(_), T::D(_)) => &[Conv::Downcast, Conv::Detach],
        (T::A(_), T::A(_)) if same => &[Conv::Identity, Conv::Detach],
        (T::A(_), T::A(_)) => &[Conv::Detach],
    };
    if convs.contains(&want) {
        want
    } else {
        convs[0]
    }
}

/// run the operation on x; an error of the function is returned, a panic passes through
fn exec(q: &UQ, x: &mut T, b: &T, conv: Conv, p: &Plan) -> Result<(Out, Option<anyhow::Error>), String> {
    let r: AR<Out> = match q {
        UQ::Func(kind, f) => match (&*x, b) {
            (T::D(x), T::D(y)) => ufunc(*kind, x, y, *f, p),
            (T::D(x), T::A(y)) => ufunc(*kind, x, y, *f, p),
            (T::A(x), T::D(y)) => ufunc(*kind, x, y, *f, p),
            (T::A(x), T::A(y)) => ufunc(*kind, x, y, *f, p),
        }
        .map(|t| Out::Kv(Det(t).entries(1_000_000).unwrap())),
        UQ::Pred(kind, f) => match (&*x, b) {
            (T::D(x), T::D(y)) => upred(*kind, x, y, *f, p),
            (T::D(x), T::A(y)) => upred(*kind, x, y, *f, p),
            (T::A(x), T::D(y)) => upred(*kind, x, y, *f, p),
            (T::A(x), T::A(y)) => upred(*kind, x, y, *f, p),
        }
        .map(Out::Bool),
        UQ::Groups(d) => {
            let (g, e) = match &*x {
                T::D(x) => {
                    let (g, e) = ugroups(x, *d, p)?;
                    (g, e.map(|e| e.into()))
                }
                T::A(x) => ugroups(x, *d, p)?,
            };
            return Ok((Out::Groups(g), e));
        }
        UQ::With(kind, f) => match (x, b) {
            (T::D(x), T::D(y)) => match conv {
                Conv::Downcast => uwith(*kind, x, y, DowncastConverter, *f, p),
                Conv::Identity => uwith(*kind, x, y, IdentityConverter, *f, p),
                Conv::Detach => uwith(*kind, x, y, DetachConverter, *f, p),
            }
            .map_err(|e| e.into()),
            (T::D(x), T::A(y)) => uwith(*kind, x, y, DetachConverter, *f, p).map_err(|e| e.into()),
            (T::A(x), T::D(y)) => match conv {
                Conv::Downcast => uwith(*kind, x, y, DowncastConverter, *f, p),
                _ => uwith(*kind, x, y, DetachConverter, *f, p),
            },
            (T::A(x), T::A(y)) => match conv {
                Conv::Identity => uwith(*kind, x, y, IdentityConverter, *f, p),
                _ => uwith(*kind, x, y, DetachConverter, *f, p),
            },
        }
        .map(|_| Out::None),
        UQ::Prefix(r, f) => match (x, b) {
            (T::D(x), T::D(y)) => uprefix(*r, x, y, *f, p).map_err(|e| e.into()),
            (T::D(x), T::A(y)) => uprefix(*r, x, y, *f, p).map_err(|e| e.into()),
            (T::A(x), T::D(y)) => uprefix(*r, x, y, *f, p),
            (T::A(x), T::A(y)) => uprefix(*r, x, y, *f, p),
        }
        .map(|_| Out::None),
    };
    Ok(match r {
        Ok(o) => (o, None),
        Err(e) => (Out::None, Some(e)),
    })
}

fn list(t: &T, limit: usize) -> AR<Kv> {
    match t {
        T::D(x) => Det(x.clone()).entries(limit),
        T::A(x) => Att(x.clone()).entries(limit),
    }
}
fn look(t: &T, m: &Map, what: &str) -> Res {
    let ps = probes(m, 6);
    match t {
        T::D(x) => same_lookups(&Det(x.clone()), m, &ps, what),
        T::A(x) => same_lookups(&Att(x.clone()), m, &ps, what),
    }
}
fn apply(t: &mut T, op: &Op) -> AR<()> {
    match t {
        T::D(x) => {
            let mut d = Det(std::mem::take(x));
            let r = d.op(op);
            *x = d.0;
            r
        }
        T::A(x) => {
            let mut d = Att(x.clone());
            let r = d.op(op);
            *x = d.0;
            r
        }
    }
}
fn detach(t: &T) -> AR<RadixTree> {
    match t {
        T::D(x) => Ok(x.clone()),
        T::A(x) => x.try_detached(),
    }
}
/// written out and loaded again, it has these entries (false: the store is full)
fn reload(t: &mut T, m: &Map, what: &str) -> Result<bool, String> {
    if let T::A(x) = t {
        let id = match x.try_reattach() {
            Ok(id) => id,
            Err(e) if is_full(&e) => return Ok(false),
            Err(e) => fail!("{}: reattach: {:#}", what, e),
        };
        let st = RadixTree::store(x).clone();
        let l = RadixTree::try_load(st, Some(id)).map_err(|e| format!("{}: load: {:#}", what, e))?;
        entries(&T::A(l), m, &format!("{}: reattached and loaded", what))?;
        entries(t, m, &format!("{}: reattached", what))?;
    }
    Ok(true)
}

fn run(c: &Case, cx: &mut Cx) -> Res {
    let (ma, mb) = (c.a.map(), c.b.map());
    let oa = c.a.spec.map(|s| s.open());
    let same = c.same_store && oa.is_some() && c.b.spec.is_some();
    let ob = if same { None } else { c.b.spec.map(|s| s.open()) };
    let sa = oa.as_ref().map(|o| o.store.clone());
    let sb = if same { sa.clone() } else { ob.as_ref().map(|o| o.store.clone()) };
    for (s, o) in [(&sa, &oa), (&sb, if same { &oa } else { &ob })] {
        if let (Some(s), Some(o)) = (s, o) {
            if let Some(t) = tstore(s, o) {
                t.st().budget = Some(20_000_000);
            }
        }
    }
    let a = go!(c.a.build(sa.as_ref()), "building the left tree");
    let b = go!(c.b.build(sb.as_ref()), "building the right tree");
    entries(&a, &ma, "left tree")?;
    entries(&b, &mb, "right tree")?;
    cx.label(match (&a, &b, same) {
        (T::D(_), T::D(_), _) => "detached / detached",
        (T::D(_), T::A(_), _) => "detached / attached",
        (T::A(_), T::D(_), _) => "attached / detached",
        (T::A(_), T::A(_), true) => "attached / same store",
        (T::A(_), T::A(_), false) => "attached / other store",
    });
    let conv = conv_of(&a, &b, same, c.conv);
    // what the function does besides: read both trees, change copies of them, write them out
    let (a2, b2) = (a.clone(), b.clone());
    let inside = || -> Res {
        entries(&a2, &ma, "another handle of the left tree, inside the function")?;
        entries(&b2, &mb, "another handle of the right tree, inside the function")?;
        for (t, m) in [(&a2, &ma), (&b2, &mb)] {
            let (mut t, mut m) = (t.clone(), m.clone());
            for op in &c.then {
                match apply(&mut t, op) {
                    Ok(()) => m = model::apply(&m, op),
                    Err(e) if is_full(&e) => return Ok(()),
                    Err(e) => fail!("{:?} inside the function: {:#}", op, e),
                }
            }
            entries(&t, &m, "a copy changed inside the function")?;
            if !reload(&mut t, &m, "a copy changed inside the function")? {
                return Ok(());
            }
        }
        Ok(())
    };
    let mut deep = 0;
    for (q, mode) in &c.qs {
        let mut mode = *mode;
        // detached trees know no errors
        if matches!(a, T::D(_)) && !matches!(q, UQ::Func(..) | UQ::Pred(..)) {
            mode.panic = true;
        }
        let want = q.want(&ma, &mb);
        let what = format!("{:?}", q);
        let mut x = a.clone();
        let plan = Plan::new(None, mode, u64::MAX, &inside);
        let (base, e) = exec(q, &mut x, &b, conv, &plan)?;
        if let Some(e) = e {
            if is_full(&e) {
                return Ok(());
            }
            fail!("{} failed: {:#}", what, e);
        }
        if q.in_place() {
            entries(&x, &want, &what)?;
        }
        if let (Out::Kv(kv), true) = (&base, matches!(q, UQ::Func(..))) {
            if let Some(d) = diff(kv, &want) {
                fail!("{}: {}", what, d);
            }
        }
        let n = plan.n.get();
        if n == 0 {
            continue;
        }
        cx.label(q.name());
        // the function uses the trees, and gives what it gives otherwise
        let mut y = a.clone();
        let plan = Plan::new(None, mode, c.offset as u64 % n, &inside);
        let (out, e) = exec(q, &mut y, &b, conv, &plan)?;
        plan.seen.into_inner().map_err(|e| format!("{}: {}", what, e))?;
        if let Some(e) = e {
            if is_full(&e) {
                return Ok(());
            }
            fail!("{} with a function using the trees failed: {:#}", what, e);
        }
        ensure!(out == base && plan.n.get() == n, "{}: differs when the function uses the trees", what);
        if q.in_place() {
            entries(&y, &want, &format!("{} with a function using the trees", what))?;
        }
        let ks: Vec<u64> = if n <= 6 {
            (0..n).collect()
        } else {
            let mut v = vec![0, 1, c.offset as u64 % n, n / 2, n - 1];
            v.sort();
            v.dedup();
            v
        };
        for k in ks {
            let what = format!("{:?} with a function that {} at call {} of {} ({:?})", q, if mode.panic { "panics" } else { "fails" }, k, n, mode.when);
            cx.inner += 1;
            deep = deep.max(k);
            let mut x = a.clone();
            let plan = Plan::new(Some(k), mode, k, &inside);
            let r = catch_unwind(AssertUnwindSafe(|| exec(q, &mut x, &b, conv, &plan)));
            std::mem::replace(&mut *plan.seen.borrow_mut(), Ok(())).map_err(|e| format!("{}: {}", what, e))?;
            match r {
                Err(p) => match p.downcast::<UserPanic>() {
                    Ok(p) if mode.panic => ensure!(p.0 == k, "{}: another panic arrives: that of call {}", what, p.0),
                    Ok(_) => fail!("{}: a panic arrives", what),
                    Err(p) => resume_unwind(p),
                },
                Ok(r) => {
                    let (out, e) = r.map_err(|e| format!("{}: {}", what, e))?;
                    if let Some(e) = &e {
                        if is_full(e) {
                            return Ok(());
                        }
                    }
                    ensure!(!mode.panic, "{}: the panic does not arrive", what);
                    match &e {
                        None => fail!("{}: success is reported", what),
                        Some(e) => {
                            ensure!(e.downcast_ref::<UserErr>() == Some(&UserErr(k)), "{}: another error is reported: {:#}", what, e)
                        }
                    }
                    if let (Out::Groups(g), Out::Groups(all)) = (&out, &base) {
                        ensure!(g.len() <= all.len() && g[..] == all[..g.len()], "{}: the groups before the error are not the first ones", what);
                    }
                }
            }
            ensure!(plan.n.get() == k + 1, "{}: the function is called {} more times after it failed", what, plan.n.get() - k - 1);
            // everything else is as before
            entries(&a, &ma, &format!("{}: another handle of the left tree", what))?;
            entries(&b, &mb, &format!("{}: the right tree", what))?;
            if !q.in_place() {
                entries(&x, &ma, &format!("{}: the left tree", what))?;
            } else if !partial(c, q, &mut x, &b, conv, (&ma, &mb, &want), mode, &what)? {
                return Ok(());
            }
        }
    }
    ensure!(go!(detach(&a), "detach the left tree") == from_map(&ma), "the left tree changed");
    ensure!(go!(detach(&b), "detach the right tree") == from_map(&mb), "the right tree changed");
    shape(&ma, cx);
    cx.label_if(deep >= 3, "failing after three calls or more");
    cx.nt_if(deep >= 1);
    Ok(())
}

/// the tree after an in-place operation whose function failed (false: a store is full)
#[allow(clippy::too_many_arguments)]
fn partial(c: &Case, q: &UQ, x: &mut T, b: &T, conv: Conv, m: (&Map, &Map, &Map), mode: Mode, what: &str) -> Result<bool, String> {
    let (ma, mb, want) = m;
    macro_rules! go {
        ($e:expr, $w:expr) => {
            match $e {
                Ok(x) => x,
                Err(e) if is_full(&e) => return Ok(false),
                Err(e) => fail!("{}: {}: {:#}", what, $w, e),
            }
        };
    }
    let e = go!(list(x, ma.len() + want.len() + 4), "the tree can not be read afterwards");
    let now: Map = e.iter().cloned().collect();
    ensure!(now.len() == e.len() && e.windows(2).all(|p| p[0].0 < p[1].0), "{}: the tree has keys twice or out of order afterwards", what);
    let keys: BTreeSet<&Vec<u8>> = ma.keys().chain(want.keys()).chain(now.keys()).collect();
    let mut marks = 0;
    for k in keys {
        let (o, w, n) = (ma.get(k), want.get(k), now.get(k));
        let common = o.is_some() && mb.contains_key(k);
        if mode.when == When::Mark && common && n.map(|v| &v[..]) == Some(MARK) && o != n && w != n {
            marks += 1;
            continue;
        }
        // after a panic, entries may be missing
        ensure!(
            n == o || n == w || mode.panic && n.is_none(),
            "{}: afterwards \"{}\" is {:?}, before it was {:?}, the complete operation gives {:?}",
            what,
            show(k),
            n.map(|x| show(x)),
            o.map(|x| show(x)),
            w.map(|x| show(x))
        );
    }
    ensure!(marks <= 1, "{}: the value left by the failing call is at {} keys", what, marks);
    look(x, &now, &format!("{}: afterwards", what))?;
    if !mode.panic {
        let d = go!(detach(x), "detach");
        let w = from_map(&now);
        ensure!(d == w && w == d, "{}: afterwards the tree differs from one built from its entries {}", what, m_show(&now));
        let mut y = x.clone();
        let never = || Ok(());
        let (_, e) = exec(q, &mut y, b, conv, &Plan::new(None, mode, u64::MAX, &never))?;
        if let Some(e) = e {
            go!(Err(e), "repeating the operation");
        }
        let again = q.want(&now, mb);
        entries(&y, &again, &format!("{}: repeated", what))?;
        ensure!(go!(detach(&y), "detach") == from_map(&again), "{}: repeated, it differs from a tree built from its entries", what);
    }
    if !reload(x, &now, &format!("{}: afterwards", what))? {
        return Ok(false);
    }
    let mut m2 = now;
    for op in &c.then {
        // a tree left by a panic can be read and written to
        if mode.panic && !matches!(op, Op::Insert(..) | Op::Remove(_)) {
            continue;
        }
        go!(apply(x, op), format!("then {:?}", op));
        m2 = model::apply(&m2, op);
    }
    entries(x, &m2, &format!("{}: then {:?}", what, c.then))?;
    reload(x, &m2, &format!("{}: then {:?}", what, c.then))
}

fn gen_uq(src: &mut Src) -> UQ {
    let kinds = [Kind::Outer, Kind::Inner, Kind::Left];
    match src.weighted(&[4, 12, 3, 8, 3]) {
        0 => UQ::Func(src.pick(&kinds), gen_comb(src)),
        1 => UQ::With(src.pick(&kinds), gen_comb(src)),
        2 => UQ::Pred(src.pick(&[Kind::Inner, Kind::Left]), gen_pred(src)),
        3 => UQ::Prefix(src.chance(128), gen_pred(src)),
        _ => UQ::Groups(gen_descend(src)),
    }
}

pub struct C27;
impl Property for C27 {
    type Case = Case;
    const ID: &'static str = "C27";
    const LEVEL: &'static str = "fault_enumeration";
    const CASES: (u64, u64) = (3_000, 600_000);
    const RULE: &'static str = "A case is two related trees, each detached or attached (any store, partly changed in memory), and operations taking a function: combines (functional, in place with every converter), predicates, retain and remove by prefix, group_by. The calls each makes to its function are counted, then it is repeated on a fresh handle with the function failing in turn at every call (six or fewer: all; otherwise five positions with both ends), by error or panic, before or after setting the value; at that call the function also reads, changes and writes out other handles of both trees. Error or panic must arrive as it is, without further calls; other handles and the right tree are unchanged; after an error every key has its old or new value, the shape is that of a tree built from its entries, repeating completes; after a panic the tree can be read, changed, written out and dropped. Non-trivial: a failing call after the first.";
    fn gen(src: &mut Src) -> Case {
        let keys = gen_keys(src);
        let sz = if src.chance(90) { MEDIUM } else { SMALL };
        let start = gen_made(src, &keys, sz, 0).start;
        let a = gen_side(src, &keys, start, 60);
        let rel = gen_related(src, &keys, &a.made.start, sz);
        let b = gen_side(src, &keys, rel, if a.spec.is_none() { 40 } else { 110 });
        let same_store = src.chance(128);
        let conv = src.pick(&[Conv::Identity, Conv::Detach, Conv::Downcast]);
        let qs = src.list(1, 3, 2, |src| {
            let q = gen_uq(src);
            let when = src.pick(&[When::Before, When::After, When::Mark]);
            (q, Mode { when, panic: src.chance(80) })
        });
        let then = src.list(0, 4, 2, |src| gen_point_op(src, &keys));
        Case { a, b, same_store, conv, qs, then, offset: src.u8() }
    }
    fn run(c: &Case, cx: &mut Cx) -> Res {
        run(c, cx)
    }
}
