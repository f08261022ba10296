//! The documented serialized format, read and written independently of the crate.
use crate::model::RNode;
use crate::tape::Rng;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Field {
    Data(Vec<u8>),
    /// for a prefix: the first byte and the id
    Id(Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct Node {
    pub prefix: Field,
    pub value: Option<Field>,
    /// record size byte and id
    pub children: Option<(u8, Vec<u8>)>,
    pub len: usize,
}

fn field(d: &[u8]) -> Option<(bool, &[u8], &[u8])> {
    let h = *d.first()?;
    let n = (h & 0x7f) as usize;
    if d.len() < n + 1 {
        return None;
    }
    Some((h & 0x80 != 0, &d[1..n + 1], &d[n + 1..]))
}

/// one node, or what is wrong with it
pub fn node(d: &[u8]) -> Result<(Node, &[u8]), String> {
    let (pid, p, r) = field(d).ok_or("prefix field cut short")?;
    let (vid, v, r) = field(r).ok_or("value field cut short")?;
    let (cid, c, r) = field(r).ok_or("children field cut short")?;
    if pid && p.is_empty() {
        return Err("prefix is none".into());
    }
    if !cid {
        return Err("children field is data".into());
    }
    let f = |id: bool, x: &[u8]| if id { Field::Id(x.to_vec()) } else { Field::Data(x.to_vec()) };
    Ok((
        Node {
            prefix: f(pid, p),
            value: if vid && v.is_empty() { None } else { Some(f(vid, v)) },
            children: if c.is_empty() { None } else { Some((c[0], c[1..].to_vec())) },
            len: d.len() - r.len(),
        },
        r,
    ))
}

pub struct Reader<'a> {
    pub read: &'a dyn Fn(&[u8]) -> Result<Vec<u8>, String>,
    pub indirect: usize,
    pub record_sizes: usize,
    pub varying: usize,
}

impl Reader<'_> {
    pub fn root(&mut self, id: &[u8]) -> Result<RNode, String> {
        let d = (self.read)(id)?;
        let (n, rest) = node(&d)?;
        if !rest.is_empty() {
            return Err(format!("{} bytes after the root node", rest.len()));
        }
        self.tree(&n, true)
    }
    fn tree(&mut self, n: &Node, root: bool) -> Result<RNode, String> {
        let prefix = match &n.prefix {
            Field::Data(d) => d.clone(),
            Field::Id(i) => {
                self.indirect += 1;
                let d = (self.read)(&i[1..])?;
                if d.first() != Some(&i[0]) {
                    return Err(format!("an indirect prefix says its first byte is {:?}, it is {:?}", i[0], d.first()));
                }
                d
            }
        };
        let value = match &n.value {
            None => None,
            Some(Field::Data(d)) => Some(d.clone()),
            Some(Field::Id(i)) => {
                self.indirect += 1;
                Some((self.read)(i)?)
            }
        };
        if !root && prefix.is_empty() {
            return Err("empty prefix below the root".into());
        }
        let mut out = RNode { prefix, value, children: vec![] };
        if let Some((size, id)) = &n.children {
            let d = (self.read)(id)?;
            let mut rest = &d[..];
            let mut last: Option<u8> = None;
            let mut lens = vec![];
            while !rest.is_empty() {
                let (c, r) = node(rest)?;
                rest = r;
                lens.push(c.len);
                let t = self.tree(&c, false)?;
                if last.is_some_and(|l| l >= t.prefix[0]) {
                    return Err(format!("children out of order: {:?} then {:?}", last, t.prefix[0]));
                }
                last = Some(t.prefix[0]);
                out.children.push(t);
            }
            if lens.is_empty() {
                return Err("empty children blob".into());
            }
            if *size != 0 {
                self.record_sizes += 1;
                if lens.iter().any(|l| *l != *size as usize) {
                    return Err(format!("record size is {} but the children have sizes {:?}", size, lens));
                }
            } else {
                self.varying += 1;
            }
        } else if !root && out.value.is_none() {
            return Err("a node with neither value nor children".into());
        }
        Ok(out)
    }
}

#[derive(Clone, Copy, Debug)]
pub struct EncOpt {
    pub id_len: usize,
    /// write the record size where it applies
    pub sizes: bool,
    /// one blob per content
    pub share: bool,
    /// of 256: short data stored by id all the same
    pub short_by_id: u64,
    pub seed: u64,
}

pub struct Writer<'a> {
    opt: EncOpt,
    rng: Rng,
    put: &'a mut dyn FnMut(Vec<u8>, Vec<u8>),
    seen: HashMap<Vec<u8>, Vec<u8>>,
    n: u64,
    pub full: bool,
}

impl<'a> Writer<'a> {
    pub fn new(opt: EncOpt, put: &'a mut dyn FnMut(Vec<u8>, Vec<u8>)) -> Self {
        Writer { opt, rng: Rng::new(opt.seed), put, seen: HashMap::new(), n: 0, full: false }
    }
    fn blob(&mut self, d: Vec<u8>) -> Vec<u8> {
        if self.opt.share {
            if let Some(id) = self.seen.get(&d) {
                return id.clone();
            }
        }
        self.n += 1;
        let l = self.opt.id_len;
        if l < 8 && self.n >= 1 << (8 * l) {
            self.full = true;
        }
        // a number in the first bytes keeps ids distinct, the rest is noise
        let b = self.n.to_le_bytes();
        let id: Vec<u8> = (0..l).map(|i| if i < 8 { b[i] } else { self.rng.next() as u8 }).collect();
        (self.put)(id.clone(), d.clone());
        self.seen.insert(d, id.clone());
        id
    }
    fn field(&mut self, d: &[u8], prefix: bool, out: &mut Vec<u8>) {
        let by_id = d.len() > 127 || (!(prefix && d.is_empty()) && self.rng.below(256) < self.opt.short_by_id);
        if by_id {
            let id = self.blob(d.to_vec());
            let mut f = if prefix { vec![d[0]] } else { vec![] };
            f.extend(id);
            out.push(0x80 | f.len() as u8);
            out.extend(f);
        } else {
            out.push(d.len() as u8);
            out.extend(d);
        }
    }
    pub fn node(&mut self, n: &RNode) -> Vec<u8> {
        let mut out = vec![];
        self.field(&n.prefix, true, &mut out);
        match &n.value {
            None => out.push(0x80),
            Some(v) => self.field(v, false, &mut out),
        }
        if n.children.is_empty() {
            out.push(0x80);
        } else {
            let cs: Vec<Vec<u8>> = n.children.iter().map(|c| self.node(c)).collect();
            let l = cs[0].len();
            let size = if self.opt.sizes && l < 256 && cs.iter().all(|c| c.len() == l) { l as u8 } else { 0 };
            let id = self.blob(cs.concat());
            out.push(0x80 | (id.len() + 1) as u8);
            out.push(size);
            out.extend(id);
        }
        out
    }
    pub fn root(&mut self, n: &RNode) -> Vec<u8> {
        let d = self.node(n);
        self.blob(d)
    }
}
