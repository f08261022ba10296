//! What the browser crate uses of range-collections: sets of ranges of u64.
use std::ops::{Bound, Range};

pub trait AbstractRangeSet<T> {}

/// disjoint, not adjacent, not empty ranges in order
#[derive(Clone, Debug)]
pub struct RangeSet<A>(Vec<Range<u64>>, std::marker::PhantomData<A>);
pub type RangeSet2<T> = RangeSet<[T; 2]>;

impl<A> PartialEq for RangeSet<A> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<A> Eq for RangeSet<A> {}
impl<A> AbstractRangeSet<u64> for RangeSet<A> {}

impl<T: Into<u64>> From<Range<T>> for RangeSet<[T; 2]> {
    fn from(r: Range<T>) -> Self {
        Self::norm(vec![r.start.into()..r.end.into()])
    }
}

impl<A> RangeSet<A> {
    fn norm(mut v: Vec<Range<u64>>) -> Self {
        v.retain(|r| r.start < r.end);
        v.sort_by_key(|r| r.start);
        let mut out: Vec<Range<u64>> = Vec::new();
        for r in v {
            match out.last_mut() {
                Some(l) if r.start <= l.end => l.end = l.end.max(r.end),
                _ => out.push(r),
            }
        }
        Self(out, std::marker::PhantomData)
    }
    pub fn empty() -> Self {
        Self::norm(vec![])
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn union_with(&mut self, o: &Self) {
        *self = self.union(o);
    }
    pub fn union(&self, o: &Self) -> Self {
        Self::norm(self.0.iter().chain(&o.0).cloned().collect())
    }
    pub fn intersection(&self, o: &Self) -> Self {
        let mut v = vec![];
        for a in &self.0 {
            for b in &o.0 {
                v.push(a.start.max(b.start)..a.end.min(b.end));
            }
        }
        Self::norm(v)
    }
    pub fn difference(&self, o: &Self) -> Self {
        let mut v = self.0.clone();
        for b in &o.0 {
            v = v.into_iter().flat_map(|a| [a.start..a.end.min(b.start), a.start.max(b.end)..a.end]).filter(|r| r.start < r.end).collect();
        }
        Self::norm(v)
    }
    pub fn difference_with(&mut self, o: &Self) {
        *self = self.difference(o);
    }
    pub fn intersection_with(&mut self, o: &Self) {
        *self = self.intersection(o);
    }
    pub fn is_disjoint(&self, o: &Self) -> bool {
        self.intersection(o).is_empty()
    }
    pub fn is_subset(&self, o: &Self) -> bool {
        self.difference(o).is_empty()
    }
    pub fn contains(&self, x: &u64) -> bool {
        self.0.iter().any(|r| r.contains(x))
    }
    pub fn iter(&self) -> Iter<'_> {
        self.0.iter().map(|r| (Bound::Included(&r.start), Bound::Excluded(&r.end)))
    }
}
type Bounds<'a> = (Bound<&'a u64>, Bound<&'a u64>);
pub type Iter<'a> = std::iter::Map<std::slice::Iter<'a, Range<u64>>, fn(&'a Range<u64>) -> Bounds<'a>>;
