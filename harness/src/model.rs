//! Reference models: a sorted map, the obvious set operations on it, and the compressed
//! radix structure of a key set.
use crate::gen::{Comb, Op, Pred};
use std::collections::BTreeMap;

pub type Map = BTreeMap<Vec<u8>, Vec<u8>>;
pub type Calls = Vec<(Vec<u8>, Vec<u8>)>;

pub fn filter_prefix(m: &Map, p: &[u8], s: &[u8]) -> Map {
    m.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| ([s, &k[p.len()..]].concat(), v.clone())).collect()
}
pub fn remove_prefix(m: &Map, p: &[u8]) -> Map {
    m.iter().filter(|(k, _)| !k.starts_with(p)).map(|(k, v)| (k.clone(), v.clone())).collect()
}
pub fn outer(a: &Map, b: &Map, f: Comb) -> Map {
    let mut r = Map::new();
    for (k, v) in a {
        match b.get(k) {
            None => {
                r.insert(k.clone(), v.clone());
            }
            Some(w) => {
                if let Some(x) = f.eval(v, w) {
                    r.insert(k.clone(), x);
                }
            }
        }
    }
    for (k, w) in b {
        if !a.contains_key(k) {
            r.insert(k.clone(), w.clone());
        }
    }
    r
}
pub fn inner(a: &Map, b: &Map, f: Comb) -> Map {
    a.iter().filter_map(|(k, v)| b.get(k).and_then(|w| f.eval(v, w)).map(|x| (k.clone(), x))).collect()
}
pub fn left(a: &Map, b: &Map, f: Comb) -> Map {
    a.iter()
        .filter_map(|(k, v)| {
            match b.get(k) {
                None => Some(v.clone()),
                Some(w) => f.eval(v, w),
            }
            .map(|x| (k.clone(), x))
        })
        .collect()
}
pub fn common(a: &Map, b: &Map) -> Calls {
    a.iter().filter_map(|(k, v)| b.get(k).map(|w| (v.clone(), w.clone()))).collect()
}
pub fn inner_pred(a: &Map, b: &Map, f: Pred) -> bool {
    a.iter().any(|(k, v)| b.get(k).is_some_and(|w| f.eval(v, w)))
}
pub fn left_pred(a: &Map, b: &Map, f: Pred) -> bool {
    a.iter().any(|(k, v)| b.get(k).is_none_or(|w| f.eval(v, w)))
}
pub fn covered(k: &[u8], b: &Map, f: Pred) -> bool {
    b.iter().any(|(q, w)| k.starts_with(q) && f.eval(w, b""))
}
pub fn retain(a: &Map, b: &Map, f: Pred) -> Map {
    a.iter().filter(|(k, _)| covered(k, b, f)).map(|(k, v)| (k.clone(), v.clone())).collect()
}
pub fn remove_with(a: &Map, b: &Map, f: Pred) -> Map {
    a.iter().filter(|(k, _)| !covered(k, b, f)).map(|(k, v)| (k.clone(), v.clone())).collect()
}

pub fn apply(m: &Map, op: &Op) -> Map {
    match op {
        Op::Insert(k, v) => {
            let mut m = m.clone();
            m.insert(k.clone(), v.bytes());
            m
        }
        Op::Remove(k) => {
            let mut m = m.clone();
            m.remove(k);
            m
        }
        Op::RemovePrefix(p) => remove_prefix(m, p),
        Op::FilterPrefix(p, s) => filter_prefix(m, p, s),
        Op::Outer(c, f, _) => outer(m, &c.map(), *f),
        Op::Inner(c, f, _) => inner(m, &c.map(), *f),
        Op::Left(c, f, _) => left(m, &c.map(), *f),
        Op::Retain(c, f) => retain(m, &c.map(), *f),
        Op::RemoveWith(c, f) => remove_with(m, &c.map(), *f),
    }
}

/// the compressed radix structure of a key set
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct RNode {
    pub prefix: Vec<u8>,
    pub value: Option<Vec<u8>>,
    pub children: Vec<RNode>,
}

pub fn radix(m: &Map) -> RNode {
    let e: Vec<(&[u8], &[u8])> = m.iter().map(|(k, v)| (k.as_slice(), v.as_slice())).collect();
    if e.is_empty() {
        return RNode::default();
    }
    build(&e, 0)
}

fn build(e: &[(&[u8], &[u8])], depth: usize) -> RNode {
    let first = e[0].0;
    let last = e[e.len() - 1].0;
    let n = first[depth..].iter().zip(&last[depth..]).take_while(|(a, b)| a == b).count();
    let end = depth + n;
    let mut node = RNode { prefix: first[depth..end].to_vec(), value: None, children: vec![] };
    let mut rest = e;
    if first.len() == end {
        node.value = Some(e[0].1.to_vec());
        rest = &e[1..];
    }
    let mut i = 0;
    while i < rest.len() {
        let b = rest[i].0[end];
        let mut j = i;
        while j < rest.len() && rest[j].0[end] == b {
            j += 1;
        }
        node.children.push(build(&rest[i..j], end));
        i = j;
    }
    node
}

impl RNode {
    pub fn entries(&self, path: &[u8], out: &mut Map) {
        let p = [path, &self.prefix].concat();
        if let Some(v) = &self.value {
            out.insert(p.clone(), v.clone());
        }
        for c in &self.children {
            c.entries(&p, out);
        }
    }
    pub fn to_map(&self) -> Map {
        let mut m = Map::new();
        self.entries(&[], &mut m);
        m
    }
    pub fn count(&self) -> usize {
        1 + self.children.iter().map(|c| c.count()).sum::<usize>()
    }
    pub fn max_fan(&self) -> usize {
        self.children.iter().map(|c| c.max_fan()).max().unwrap_or(0).max(self.children.len())
    }
    pub fn max_prefix(&self) -> usize {
        self.children.iter().map(|c| c.max_prefix()).max().unwrap_or(0).max(self.prefix.len())
    }
    /// number of nodes visited when walking towards the key
    pub fn path_nodes(&self, key: &[u8]) -> usize {
        if key.len() <= self.prefix.len() || !key.starts_with(&self.prefix) {
            return 1;
        }
        let rest = &key[self.prefix.len()..];
        match self.children.iter().find(|c| c.prefix[0] == rest[0]) {
            Some(c) => 1 + c.path_nodes(rest),
            None => 1,
        }
    }
}
