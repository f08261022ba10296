//! A conforming blob store for tests: configurable id length and id assignment, read and
//! write counters, injected faults.
use radixdb::store::{Blob, BlobStore};
use std::collections::HashMap;
use std::fmt;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ids {
    /// increasing numbers
    Seq,
    /// numbers spread over the id space
    Mixed,
    /// same content, same id
    Content,
}

#[derive(Default)]
pub struct State {
    pub blobs: HashMap<Vec<u8>, Arc<Vec<u8>>>,
    pub log: Vec<(Vec<u8>, Arc<Vec<u8>>)>,
    pub reads: u64,
    pub writes: u64,
    pub syncs: u64,
    pub unknown: Vec<Vec<u8>>,
    /// ids read, when wanted
    pub trace: Option<Vec<Vec<u8>>>,
    /// calls (reads and writes) left before the fault window, and its length
    pub fault: Option<(u64, u64)>,
    pub fault_reads: bool,
    pub fault_writes: bool,
    pub faults_hit: u64,
    /// ops after which the store panics (turns endless loops into failures)
    pub budget: Option<u64>,
    next: u64,
}

pub struct Inner {
    pub st: Mutex<State>,
    len: usize,
    ids: Ids,
    salt: u64,
}

#[derive(Clone)]
pub struct TStore(pub Arc<Inner>);

impl fmt::Debug for TStore {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "TStore")
    }
}

pub const FAULT: &str = "injected fault";

impl TStore {
    pub fn new(len: usize, ids: Ids, salt: u64) -> Self {
        assert!((1..=126).contains(&len));
        TStore(Arc::new(Inner { st: Mutex::new(State::default()), len, ids, salt }))
    }
    pub fn st(&self) -> std::sync::MutexGuard<'_, State> {
        match self.0.st.lock() {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        }
    }
    pub fn counts(&self) -> (u64, u64) {
        let s = self.st();
        (s.reads, s.writes)
    }
    pub fn set_fault(&self, after: u64, len: u64, reads: bool, writes: bool) {
        let mut s = self.st();
        s.fault = Some((after, len));
        s.fault_reads = reads;
        s.fault_writes = writes;
        s.faults_hit = 0;
    }
    pub fn clear_fault(&self) -> u64 {
        let mut s = self.st();
        s.fault = None;
        std::mem::take(&mut s.faults_hit)
    }
    pub fn put(&self, id: Vec<u8>, data: Vec<u8>) {
        self.st().blobs.insert(id, Arc::new(data));
    }
    /// A store with the same blobs, whose new ids are one byte longer (or shorter), so that they
    /// never collide with ids that were put there by hand.
    pub fn beside(&self) -> TStore {
        let len = if self.0.len < 126 { self.0.len + 1 } else { self.0.len - 1 };
        let s = self.st();
        let t = TStore::new(len.max(3), Ids::Seq, 0);
        t.st().blobs = s.blobs.clone();
        t.st().budget = s.budget;
        t
    }
    fn make_id(&self, n: u64, data: &[u8]) -> Vec<u8> {
        let len = self.0.len;
        let mut id = vec![0u8; len];
        match self.0.ids {
            Ids::Seq => {
                let b = (n + 1).to_be_bytes();
                for i in 0..len.min(8) {
                    id[len - 1 - i] = b[7 - i];
                }
            }
            Ids::Mixed => {
                // a bijection on the low 8*len bits, so ids stay distinct
                let bits = (len * 8).min(64) as u32;
                let mask = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
                let mut x = (n ^ self.0.salt) & mask;
                for r in 0..3u64 {
                    x = x.wrapping_mul(0x9E37_79B9_7F4A_7C15 | 1).wrapping_add(self.0.salt >> r) & mask;
                    x ^= x >> (bits / 2).max(1);
                }
                let b = x.to_be_bytes();
                for i in 0..len.min(8) {
                    id[i] = b[7 - i];
                }
                for i in 8..len {
                    id[i] = id[i - 8].wrapping_mul(5).wrapping_add(self.0.salt as u8);
                }
            }
            Ids::Content => {
                let h = crate::tape::hash(data) ^ self.0.salt;
                let h2 = crate::tape::hash(&[&h.to_be_bytes()[..], data].concat());
                let all = [h.to_be_bytes(), h2.to_be_bytes()].concat();
                for i in 0..len {
                    id[i] = all[i % 16] ^ (i / 16) as u8;
                }
            }
        }
        id
    }
}

fn tick(s: &mut State, kind: bool) -> anyhow::Result<()> {
    if let Some(b) = s.budget.as_mut() {
        if *b == 0 {
            panic!("the store was called far more often than any operation needs: endless loop");
        }
        *b -= 1;
    }
    if kind && !s.fault_reads || !kind && !s.fault_writes {
        return Ok(());
    }
    if let Some((after, len)) = s.fault.as_mut() {
        if *after > 0 {
            *after -= 1;
        } else if *len > 0 {
            *len -= 1;
            s.faults_hit += 1;
            anyhow::bail!(FAULT);
        }
    }
    Ok(())
}

impl BlobStore for TStore {
    type Error = anyhow::Error;

    fn read(&self, id: &[u8]) -> anyhow::Result<Blob<'static>> {
        let mut s = self.st();
        s.reads += 1;
        if let Some(t) = s.trace.as_mut() {
            t.push(id.to_vec());
        }
        tick(&mut s, true)?;
        match s.blobs.get(id) {
            Some(d) => Ok(Blob::from_arc_vec(d.clone())),
            None => {
                s.unknown.push(id.to_vec());
                anyhow::bail!("unknown id")
            }
        }
    }

    fn write(&self, data: &[u8]) -> anyhow::Result<Vec<u8>> {
        let mut s = self.st();
        s.writes += 1;
        tick(&mut s, false)?;
        let n = s.next;
        if self.0.len < 8 && self.0.ids != Ids::Content && n + 1 >= 1 << (8 * self.0.len) {
            anyhow::bail!("store full");
        }
        let id = self.make_id(n, data);
        if let Some(old) = s.blobs.get(&id) {
            if self.0.ids == Ids::Content {
                if **old == data {
                    return Ok(id);
                }
                anyhow::bail!("store full");
            }
            panic!("harness: id reused");
        }
        s.next += 1;
        let d = Arc::new(data.to_vec());
        s.blobs.insert(id.clone(), d.clone());
        s.log.push((id.clone(), d));
        Ok(id)
    }

    fn sync(&self) -> anyhow::Result<()> {
        self.st().syncs += 1;
        Ok(())
    }
}
