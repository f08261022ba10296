//! Generators for keys, values, tree contents and operations.
use crate::model::Map;
use crate::tape::{hash, Src};
use std::fmt;

pub type Key = Vec<u8>;

/// lengths at which the implementation changes representation
pub const MAGIC_LEN: &[usize] = &[1, 2, 7, 8, 9, 10, 15, 16, 17, 31, 33, 63, 64, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 300];

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Val {
    pub tag: u8,
    pub len: usize,
}
impl Val {
    pub fn bytes(&self) -> Vec<u8> {
        (0..self.len).map(|i| if i == 0 { self.tag } else { self.tag.wrapping_mul(31).wrapping_add((i as u8).wrapping_mul(7)) ^ (i >> 8) as u8 }).collect()
    }
}
impl fmt::Debug for Val {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "v{}x{}", self.tag, self.len)
    }
}

/// bytes printed compactly
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct B(pub Vec<u8>);
impl fmt::Debug for B {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "\"{}\"", show(&self.0))
    }
}
pub fn show(d: &[u8]) -> String {
    let mut o = String::new();
    let mut i = 0;
    while i < d.len() {
        let mut j = i;
        while j < d.len() && d[j] == d[i] {
            j += 1;
        }
        let c = if d[i].is_ascii_graphic() && d[i] != b'"' && d[i] != b'{' && d[i] != b'}' {
            (d[i] as char).to_string()
        } else {
            format!("\\x{:02x}", d[i])
        };
        if j - i > 3 {
            o.push_str(&format!("{{{}*{}}}", c, j - i));
        } else {
            for _ in i..j {
                o.push_str(&c);
            }
        }
        i = j;
        if o.len() > 400 && d.len() - i > 40 {
            o.push_str(&format!("..(len {}, hash {:x})", d.len(), hash(d)));
            break;
        }
    }
    o
}

pub fn gen_len(src: &mut Src) -> usize {
    match src.weighted(&[10, 6, 2]) {
        0 => src.below(10),
        1 => src.pick(MAGIC_LEN),
        _ => src.below(600),
    }
}

pub fn gen_val(src: &mut Src) -> Val {
    let len = match src.weighted(&[16, 40, 20, 20, 8, 6, 1]) {
        0 => 0,
        1 => src.range(1, 3),
        2 => src.range(7, 10),
        3 => src.pick(&[64, 126, 127, 128, 129, 130]),
        4 => src.pick(&[200, 255, 256, 257, 500, 1000]),
        5 => 11 + src.below(250),
        _ => src.pick(&[4095, 4096, 4097, 16383, 16384, 65534, 65535, 65536, 65537, 70000]),
    };
    Val { tag: src.u8(), len }
}

/// The key material of one case: a small alphabet and a pool of keys that share prefixes.
#[derive(Clone)]
pub struct Keys {
    pub alphabet: Vec<u8>,
    pub pool: Vec<Key>,
    pub long: bool,
    /// one key of the pool has a segment around 2^16 bytes; not for stores with a limit on blobs
    pub huge: bool,
}

pub fn gen_keys(src: &mut Src) -> Keys {
    gen_keys_with(src, true)
}

/// as gen_keys, now and then with a very long key
pub fn gen_keys_huge(src: &mut Src) -> Keys {
    let mut k = gen_keys(src);
    if src.chance(3) {
        k.huge = true;
        let n = src.pick(&[65536usize, 65535, 65537, 65534, 65792, 70000, 131072]);
        let i = src.below(k.pool.len());
        let (b, vary) = (src.pick(&k.alphabet), src.chance(60));
        let seg: Key = (0..n).map(|i| if vary { b.wrapping_add(i as u8) } else { b }).collect();
        let at = src.below(k.pool[i].len() + 1);
        k.pool[i].splice(at..at, seg);
    }
    k
}

pub fn gen_keys_with(src: &mut Src, allow_long: bool) -> Keys {
    let n = src.weighted(&[3, 6, 3, 2]) + 1;
    let alphabet: Vec<u8> = (0..n).map(|i| if src.chance(60) { src.pick(&[0x00, 0xff, 0x01, 0x7f, 0x80, 0xfe, 0x81]) } else { b'a' + i as u8 }).collect();
    let long = allow_long && src.chance(130);
    let mut k = Keys { alphabet, pool: vec![], long, huge: false };
    let pool = src.list(1, 12, 5, |src| fresh_key(src, &k.alphabet, k.long));
    k.pool = pool;
    k
}

fn fresh_key(src: &mut Src, alphabet: &[u8], long: bool) -> Key {
    let mut key = Vec::new();
    let segs = src.weighted(&[2, 6, 6, 4, 3, 2, 1]);
    for _ in 0..segs {
        if long && src.chance(90) {
            let b = src.pick(alphabet);
            let len = if src.chance(90) { 1 + src.below(200) } else { src.pick(MAGIC_LEN) };
            let vary = src.chance(128);
            for i in 0..len {
                key.push(if vary { b.wrapping_add(i as u8) } else { b });
            }
        } else {
            key.push(src.pick(alphabet));
        }
    }
    key
}

impl Keys {
    pub fn medium(&self) -> Sizes {
        if self.huge {
            SMALL
        } else {
            MEDIUM
        }
    }
    /// a key related to the pool: itself, truncated, extended, tweaked, or fresh
    pub fn key(&self, src: &mut Src) -> Key {
        let base = self.pool[src.below(self.pool.len())].clone();
        match src.weighted(&[9, 4, 5, 2, 3]) {
            0 => base,
            1 => {
                let n = src.below(base.len() + 1);
                // prefer cuts near the ends and near representation changes
                let n = if src.chance(128) { n } else { base.len().saturating_sub(src.below(3)) };
                base[..n.min(base.len())].to_vec()
            }
            2 => {
                let mut k = base;
                k.extend(fresh_key(src, &self.alphabet, self.long));
                k
            }
            3 => {
                let mut k = base;
                if let Some(x) = k.last_mut() {
                    *x = src.pick(&self.alphabet);
                }
                k
            }
            _ => fresh_key(src, &self.alphabet, self.long),
        }
    }
}

/// what a tree is filled with: single keys, wide fans, deep chains
#[derive(Clone)]
pub enum Item {
    One(Key, Val),
    Fan { prefix: Key, start: u8, count: usize, suffix: Key, val: Val },
    Chain { prefix: Key, step: Key, n: usize, val: Val },
}
impl fmt::Debug for Item {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Item::One(k, v) => write!(f, "\"{}\"={:?}", show(k), v),
            Item::Fan { prefix, start, count, suffix, val } => write!(f, "Fan(\"{}\"+[{}..+{}]+\"{}\"={:?})", show(prefix), start, count, show(suffix), val),
            Item::Chain { prefix, step, n, val } => write!(f, "Chain(\"{}\"+\"{}\"*0..{}={:?})", show(prefix), show(step), n, val),
        }
    }
}

#[derive(Clone, Default)]
pub struct Contents(pub Vec<Item>);
impl fmt::Debug for Contents {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
}

impl Contents {
    /// pairs in insertion order (later wins)
    pub fn pairs(&self) -> Vec<(Key, Vec<u8>)> {
        let mut out = Vec::new();
        for it in &self.0 {
            match it {
                Item::One(k, v) => out.push((k.clone(), v.bytes())),
                Item::Fan { prefix, start, count, suffix, val } => {
                    for i in 0..*count {
                        let b = start.wrapping_add(i as u8);
                        let mut k = prefix.clone();
                        k.push(b);
                        k.extend_from_slice(suffix);
                        let v = Val { tag: val.tag.wrapping_add(b), len: val.len };
                        out.push((k, v.bytes()));
                    }
                }
                Item::Chain { prefix, step, n, val } => {
                    let mut k = prefix.clone();
                    for i in 0..*n {
                        let v = Val { tag: val.tag.wrapping_add(i as u8), len: val.len };
                        out.push((k.clone(), v.bytes()));
                        k.extend_from_slice(step);
                    }
                }
            }
        }
        out
    }
    pub fn map(&self) -> Map {
        self.pairs().into_iter().collect()
    }
    pub fn is_big(&self) -> bool {
        self.0.iter().any(|i| !matches!(i, Item::One(..)))
    }
}

#[derive(Clone, Copy)]
pub struct Sizes {
    pub items: usize,
    pub fans: u32,
    pub chains: u32,
}
pub const SMALL: Sizes = Sizes { items: 4, fans: 0, chains: 0 };
pub const MEDIUM: Sizes = Sizes { items: 7, fans: 26, chains: 16 };

pub fn gen_item(src: &mut Src, keys: &Keys, sz: Sizes) -> Item {
    match src.weighted(&[256, sz.fans, sz.chains]) {
        0 => Item::One(keys.key(src), gen_val(src)),
        1 => {
            let count = src.pick(&[2usize, 3, 15, 16, 17, 48, 127, 128, 129, 254, 255, 256, 256, 0, 0]);
            let count = if count == 0 { 2 + src.below(255) } else { count };
            let suffix = if src.chance(60) { keys.key(src) } else { vec![] };
            let mut val = gen_val(src);
            if count > 20 {
                val.len = val.len.min(140);
            }
            let suffix = if suffix.len() > 140 { vec![] } else { suffix };
            let start = if src.chance(128) { src.u8() } else { 0 };
            Item::Fan { prefix: keys.key(src), start, count, suffix, val }
        }
        _ => {
            let step = if src.chance(100) { keys.key(src) } else { vec![src.pick(&keys.alphabet)] };
            let step = if step.is_empty() || step.len() > 140 { vec![b'a'] } else { step };
            let n = src.pick(&[2usize, 3, 5, 9, 17, 40, 130]);
            let n = if step.len() > 8 { n.min(9) } else { n };
            let mut val = gen_val(src);
            val.len = val.len.min(140);
            Item::Chain { prefix: keys.key(src), step, n, val }
        }
    }
}

pub fn gen_contents(src: &mut Src, keys: &Keys, sz: Sizes) -> Contents {
    Contents(src.list(0, 40, sz.items, |src| gen_item(src, keys, sz)))
}

/// contents related to another: part of its items, with keys cut or extended, plus new ones
pub fn gen_related(src: &mut Src, keys: &Keys, other: &Contents, sz: Sizes) -> Contents {
    let mut items = Vec::new();
    for it in &other.0 {
        match src.weighted(&[5, 4, 2, 2]) {
            0 => {}
            1 => items.push(it.clone()),
            2 => {
                // same keys, other values
                let mut it = it.clone();
                let v = gen_val(src);
                match &mut it {
                    Item::One(_, w) => *w = v,
                    Item::Fan { val, count, .. } => {
                        val.tag = v.tag;
                        if src.chance(100) {
                            *count = src.range(1, *count);
                        }
                    }
                    Item::Chain { val, n, .. } => {
                        val.tag = v.tag;
                        if src.chance(100) {
                            *n = src.range(1, *n);
                        }
                    }
                }
                items.push(it);
            }
            _ => {
                let mut it = it.clone();
                match &mut it {
                    Item::One(k, _) | Item::Fan { prefix: k, .. } | Item::Chain { prefix: k, .. } => {
                        if src.chance(128) {
                            let n = src.below(k.len() + 1);
                            k.truncate(n);
                        } else {
                            k.push(src.pick(&keys.alphabet));
                        }
                    }
                }
                items.push(it);
            }
        }
    }
    let more = gen_contents(src, keys, sz);
    if src.chance(100) {
        // put the new ones first
        let mut m = more.0;
        m.extend(items);
        Contents(m)
    } else {
        items.extend(more.0);
        Contents(items)
    }
}

/// how two values are combined
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Comb {
    Right,
    Left,
    Drop,
    Cat,
    Const(u8, u16),
    ByHash(u8),
}
pub fn gen_comb(src: &mut Src) -> Comb {
    match src.weighted(&[3, 2, 3, 3, 2, 8]) {
        0 => Comb::Right,
        1 => Comb::Left,
        2 => Comb::Drop,
        3 => Comb::Cat,
        4 => Comb::Const(src.u8(), src.pick(&[0u16, 1, 8, 9, 127, 128, 300])),
        _ => Comb::ByHash(src.u8()),
    }
}
fn h2(seed: u8, a: &[u8], b: &[u8]) -> u64 {
    hash(&[&[seed][..], a, b"/", b].concat())
}
impl Comb {
    pub fn eval(&self, a: &[u8], b: &[u8]) -> Option<Vec<u8>> {
        match self {
            Comb::Right => Some(b.to_vec()),
            Comb::Left => Some(a.to_vec()),
            Comb::Drop => None,
            // within what one block of the paged stores can hold
            Comb::Cat if a.len() + b.len() > 100_000 => Some(b.to_vec()),
            Comb::Cat => Some([a, b].concat()),
            Comb::Const(t, l) => Some(Val { tag: *t, len: *l as usize }.bytes()),
            Comb::ByHash(s) => match h2(*s, a, b) % 5 {
                0 => Some(b.to_vec()),
                1 => Some(a.to_vec()),
                2 | 3 => None,
                _ => Comb::Cat.eval(a, b),
            },
        }
    }
}

/// a predicate on one or two values
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    True,
    False,
    ByHash(u8),
    Rare(u8),
}
pub fn gen_pred(src: &mut Src) -> Pred {
    match src.weighted(&[3, 3, 8, 4]) {
        0 => Pred::True,
        1 => Pred::False,
        2 => Pred::ByHash(src.u8()),
        _ => Pred::Rare(src.u8()),
    }
}
impl Pred {
    pub fn eval(&self, a: &[u8], b: &[u8]) -> bool {
        match self {
            Pred::True => true,
            Pred::False => false,
            Pred::ByHash(s) => h2(*s, a, b) % 2 == 0,
            Pred::Rare(s) => h2(*s, a, b) % 8 == 0,
        }
    }
}

/// One mutation of a tree
#[derive(Clone)]
pub enum Op {
    Insert(Key, Val),
    Remove(Key),
    RemovePrefix(Key),
    FilterPrefix(Key, Key),
    /// functional forms replace the tree by the result
    Outer(Contents, Comb, bool),
    Inner(Contents, Comb, bool),
    Left(Contents, Comb, bool),
    Retain(Contents, Pred),
    RemoveWith(Contents, Pred),
}
impl fmt::Debug for Op {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let w = |b: &bool| if *b { "_with" } else { "" };
        match self {
            Op::Insert(k, v) => write!(f, "insert(\"{}\",{:?})", show(k), v),
            Op::Remove(k) => write!(f, "remove(\"{}\")", show(k)),
            Op::RemovePrefix(k) => write!(f, "remove_prefix(\"{}\")", show(k)),
            Op::FilterPrefix(k, s) => write!(f, "filter_prefix(\"{}\"->\"{}\")", show(k), show(s)),
            Op::Outer(c, g, i) => write!(f, "outer{}({:?},{:?})", w(i), c, g),
            Op::Inner(c, g, i) => write!(f, "inner{}({:?},{:?})", w(i), c, g),
            Op::Left(c, g, i) => write!(f, "left{}({:?},{:?})", w(i), c, g),
            Op::Retain(c, p) => write!(f, "retain({:?},{:?})", c, p),
            Op::RemoveWith(c, p) => write!(f, "remove_with({:?},{:?})", c, p),
        }
    }
}

pub fn gen_point_op(src: &mut Src, keys: &Keys) -> Op {
    if src.chance(110) {
        Op::Remove(keys.key(src))
    } else {
        Op::Insert(keys.key(src), gen_val(src))
    }
}

pub fn gen_op(src: &mut Src, keys: &Keys, base: &Contents) -> Op {
    match src.weighted(&[60, 40, 9, 7, 12, 5, 10, 6, 8]) {
        0 => Op::Insert(keys.key(src), gen_val(src)),
        1 => Op::Remove(keys.key(src)),
        2 => Op::RemovePrefix(keys.key(src)),
        3 => {
            let k = keys.key(src);
            let k = if src.chance(128) { k[..k.len() / 2].to_vec() } else { k };
            Op::FilterPrefix(k, keys.key(src))
        }
        4 => Op::Outer(gen_related(src, keys, base, SMALL), gen_comb(src), src.chance(170)),
        5 => Op::Inner(gen_related(src, keys, base, SMALL), gen_comb(src), src.chance(170)),
        6 => Op::Left(gen_related(src, keys, base, SMALL), gen_comb(src), src.chance(170)),
        7 => Op::Retain(gen_related(src, keys, base, SMALL), gen_pred(src)),
        _ => Op::RemoveWith(gen_related(src, keys, base, SMALL), gen_pred(src)),
    }
}

impl Op {
    pub fn name(&self) -> &'static str {
        match self {
            Op::Insert(..) => "op:insert",
            Op::Remove(..) => "op:remove",
            Op::RemovePrefix(..) => "op:remove_prefix",
            Op::FilterPrefix(..) => "op:filter_prefix",
            Op::Outer(_, _, false) => "op:outer_combine",
            Op::Outer(..) => "op:outer_combine_with",
            Op::Inner(_, _, false) => "op:inner_combine",
            Op::Inner(..) => "op:inner_combine_with",
            Op::Left(_, _, false) => "op:left_combine",
            Op::Left(..) => "op:left_combine_with",
            Op::Retain(..) => "op:retain_prefix_with",
            Op::RemoveWith(..) => "op:remove_prefix_with",
        }
    }
}
