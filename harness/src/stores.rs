//! One type over all the stores, so that a case can choose.
pub use crate::sys::memfd;
use crate::tape::Src;
use crate::tstore::{Ids, TStore};
use radixdb::store::{Blob, BlobStore, DynBlobStore, MemStore, PagedFileStore};
use std::fs::File;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum AnyStore {
    T(TStore),
    Mem(MemStore),
    Paged(PagedFileStore),
    Dyn(DynBlobStore),
}

impl BlobStore for AnyStore {
    type Error = anyhow::Error;
    fn read(&self, id: &[u8]) -> anyhow::Result<Blob<'static>> {
        match self {
            AnyStore::T(s) => s.read(id),
            AnyStore::Mem(s) => s.read(id),
            AnyStore::Paged(s) => s.read(id),
            AnyStore::Dyn(s) => s.read(id),
        }
    }
    fn write(&self, data: &[u8]) -> anyhow::Result<Vec<u8>> {
        match self {
            AnyStore::T(s) => s.write(data),
            AnyStore::Mem(s) => s.write(data),
            AnyStore::Paged(s) => s.write(data),
            AnyStore::Dyn(s) => s.write(data),
        }
    }
    fn sync(&self) -> anyhow::Result<()> {
        match self {
            AnyStore::T(s) => s.sync(),
            AnyStore::Mem(s) => s.sync(),
            AnyStore::Paged(s) => s.sync(),
            AnyStore::Dyn(s) => s.sync(),
        }
    }
    fn needs_deep_detach(&self) -> bool {
        match self {
            AnyStore::T(s) => s.needs_deep_detach(),
            AnyStore::Mem(s) => s.needs_deep_detach(),
            AnyStore::Paged(s) => s.needs_deep_detach(),
            AnyStore::Dyn(s) => s.needs_deep_detach(),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Spec {
    T { len: usize, ids: Ids, salt: u64 },
    Mem,
    Paged(u64),
    DynT { len: usize, salt: u64 },
    DynMem,
    DynPaged(u64),
}

pub fn gen_id_len(src: &mut Src) -> usize {
    src.pick(&[8usize, 8, 7, 9, 1, 2, 4, 16, 20, 32, 125, 126])
}

pub fn gen_tspec(src: &mut Src) -> Spec {
    let ids = [Ids::Seq, Ids::Mixed, Ids::Content][src.weighted(&[5, 4, 2])];
    let mut len = gen_id_len(src);
    if ids == Ids::Content {
        len = len.max(8);
    }
    Spec::T { len, ids, salt: src.u8() as u64 }
}

pub fn gen_spec(src: &mut Src) -> Spec {
    match src.weighted(&[12, 3, 3, 2, 1, 1]) {
        0 => gen_tspec(src),
        1 => Spec::Mem,
        2 => Spec::Paged(src.pick(&[131072, 262144])),
        3 => Spec::DynT { len: gen_id_len(src), salt: src.u8() as u64 },
        4 => Spec::DynMem,
        _ => Spec::DynPaged(131072),
    }
}

/// a store, and a function that opens a fresh handle on the same data
pub struct Opened {
    pub store: AnyStore,
    pub t: Option<TStore>,
    file: Option<(File, u64)>,
    dynamic: bool,
}

impl Spec {
    pub fn open(&self) -> Opened {
        let mut o = Opened { store: AnyStore::Mem(MemStore::default()), t: None, file: None, dynamic: false };
        match self {
            Spec::T { len, ids, salt } => {
                let t = TStore::new(*len, *ids, *salt);
                o.t = Some(t.clone());
                o.store = AnyStore::T(t);
            }
            Spec::DynT { len, salt } => {
                let t = TStore::new(*len, Ids::Mixed, *salt);
                o.t = Some(t.clone());
                o.store = AnyStore::Dyn(Arc::new(t));
            }
            Spec::Mem => {}
            Spec::DynMem => o.store = AnyStore::Dyn(Arc::new(MemStore::default())),
            Spec::Paged(p) | Spec::DynPaged(p) => {
                let f = memfd();
                let s = PagedFileStore::new(f.try_clone().unwrap(), *p).expect("open paged store");
                o.file = Some((f, *p));
                o.dynamic = matches!(self, Spec::DynPaged(_));
                o.store = if o.dynamic { AnyStore::Dyn(Arc::new(s)) } else { AnyStore::Paged(s) };
            }
        }
        o
    }
    pub fn name(&self) -> &'static str {
        match self {
            Spec::T { .. } => "store: test store",
            Spec::Mem => "store: memory",
            Spec::Paged(_) => "store: paged file",
            Spec::DynT { .. } => "store: dynamic test store",
            Spec::DynMem => "store: dynamic memory",
            Spec::DynPaged(_) => "store: dynamic paged file",
        }
    }
}

impl Opened {
    /// Another handle on the same data. For a paged file this closes the current handle and
    /// opens the file again.
    pub fn reopen(&mut self) -> AnyStore {
        if let Some((f, p)) = &self.file {
            let s = PagedFileStore::new(f.try_clone().unwrap(), *p).expect("reopen paged store");
            self.store = if self.dynamic { AnyStore::Dyn(Arc::new(s)) } else { AnyStore::Paged(s) };
        }
        self.store.clone()
    }
}

/// running out of ids is not a failure of the tree
pub fn is_full(e: &anyhow::Error) -> bool {
    e.to_string().contains("store full")
}
