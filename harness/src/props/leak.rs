//! Every case of the other properties, watched for memory that is not released, released
//! twice, or used after its release.
use super::*;
use crate::alloc;
use crate::engine::{forget_panic, guarded, Cx, Property, Res};
use crate::fail;
use crate::tape::Src;
use std::fmt::Debug;

pub trait Erased {
    fn run(&self, cx: &mut Cx) -> Res;
    fn show(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result;
    fn id(&self) -> &'static str;
}
struct E<P: Property>(P::Case);
impl<P: Property> Erased for E<P> {
    fn run(&self, cx: &mut Cx) -> Res {
        P::run(&self.0, cx)
    }
    fn show(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}: {:?}", P::ID, self.0)
    }
    fn id(&self) -> &'static str {
        P::ID
    }
}
pub struct LCase {
    inner: Box<dyn Erased>,
    files: bool,
}
impl Debug for LCase {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.inner.show(f)
    }
}

fn mk<P: Property>(src: &mut Src) -> Box<dyn Erased> {
    Box::new(E::<P>(P::gen(src)))
}

type Mk = fn(&mut Src) -> Box<dyn Erased>;
/// weight, generator, uses files
const KINDS: &[(u32, Mk, bool)] = &[
    (20, mk::<snapshot::C10>, false),
    (8, mk::<point::C01>, false),
    (4, mk::<point::C02>, false),
    (2, mk::<point::C03>, false),
    (6, mk::<bulk::C04>, false),
    (6, mk::<bulk::C05>, false),
    (6, mk::<bulk::C06>, false),
    (4, mk::<bulk::C07>, false),
    (4, mk::<point::C08>, false),
    (10, mk::<point::C09>, false),
    (10, mk::<attached::C11>, false),
    (12, mk::<attached::C12>, false),
    (12, mk::<cross::C13>, false),
    (8, mk::<stored::C14>, false),
    (12, mk::<fault::C15>, false),
    (4, mk::<paged::C16>, true),
    (2, mk::<crash::C17>, true),
    (2, mk::<paged::C19>, true),
    (30, mk::<blob::C21>, true),
    (10, mk::<blob::C22>, true),
    (20, mk::<stored::C24>, false),
    (2, mk::<stored::C25>, false),
    (8, mk::<crash::C26>, true),
    (10, mk::<userfn::C27>, false),
    (3, mk::<paged::C32>, true),
    (4, mk::<show::C33>, true),
];

fn files() -> (usize, usize) {
    let maps = std::fs::read_to_string("/proc/self/maps").map(|s| s.matches("memfd:rv").count()).unwrap_or(0);
    let fds = std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0);
    (maps, fds)
}

struct Seen {
    r: Res,
    blocks: i64,
    bytes: i64,
    maps: i64,
    fds: i64,
}

fn once(c: &LCase, nontrivial: &mut bool) -> Seen {
    forget_panic();
    let f0 = if c.files { files() } else { (0, 0) };
    let a0 = alloc::live();
    // what is dropped in here is the program; only the verdict stays
    let r = guarded(|| {
        let mut cx = Cx::default();
        let r = c.inner.run(&mut cx);
        *nontrivial = cx.nontrivial;
        r
    });
    forget_panic();
    let a1 = alloc::live();
    let own = match &r {
        Err(m) => m.capacity() as i64,
        Ok(()) => 0,
    };
    let f1 = if c.files { files() } else { (0, 0) };
    Seen {
        blocks: a1.1 - a0.1 - (own > 0) as i64,
        bytes: a1.0 - a0.0 - own,
        maps: f1.0 as i64 - f0.0 as i64,
        fds: f1.1 as i64 - f0.1 as i64,
        r,
    }
}

pub struct C23;
impl Property for C23 {
    type Case = LCase;
    const ID: &'static str = "C23";
    const RULE: &'static str = "a generated program of one of the other properties ran and was not trivial by that property's rule (so it shared, mutated, failed or abandoned something), and the memory it left behind was counted";
    const CASES: (u64, u64) = (5_000, 1_000_000);
    const ASSUMPTIONS: &'static [&'static str] = &[
        "the counting allocator of the harness is the global allocator: every block carries a header, freed blocks are poisoned and quarantined, so a double free, a free with another layout and a write after free end the process, and a read after free sees poison",
        "a case counts as leaking when it leaves memory, mappings or file descriptors behind on three runs in a row (the first run may set up lazy statics)",
    ];
    fn init() {
        attached::C11::init();
        crash::C17::init();
        crash::C26::init();
        fault::C15::init();
        paged::C16::init();
        blob::C21::init();
    }
    fn gen(src: &mut Src) -> LCase {
        let w: Vec<u32> = KINDS.iter().map(|k| k.0).collect();
        let k = src.weighted(&w);
        LCase { inner: KINDS[k].1(src), files: KINDS[k].2 }
    }
    fn run(c: &LCase, cx: &mut Cx) -> Res {
        let mut own = false;
        alloc::set_poison(0xdd);
        let first = once(c, &mut own);
        cx.nt_if(own);
        cx.label(c.inner.id());
        let leaks = |s: &Seen| s.blocks != 0 || s.bytes != 0 || s.maps > 0 || s.fds > 0;
        if first.r.is_err() {
            // not for this property to judge, unless it depends on what freed memory holds
            let m = |r: &Res| r.clone().err().unwrap_or_default();
            let again = once(c, &mut own);
            alloc::set_poison(0x11);
            let (b1, b2) = (once(c, &mut own), once(c, &mut own));
            alloc::set_poison(0xdd);
            if m(&first.r) == m(&again.r) && m(&b1.r) == m(&b2.r) && m(&first.r) != m(&b1.r) {
                fail!("freed memory was read: {} — with other contents in freed blocks: {}", m(&first.r), m(&b1.r));
            }
            cx.label("inner case failed");
            return Ok(());
        }
        if leaks(&first) {
            let (b, c2) = (once(c, &mut own), once(c, &mut own));
            if leaks(&b) && leaks(&c2) && b.r.is_ok() && c2.r.is_ok() {
                fail!(
                    "everything was dropped, but {} blocks with {} bytes, {} mappings and {} file descriptors were left",
                    c2.blocks,
                    c2.bytes,
                    c2.maps,
                    c2.fds
                );
            }
            cx.label("only the first run left memory");
        }
        Ok(())
    }
}
