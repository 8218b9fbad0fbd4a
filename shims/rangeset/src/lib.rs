//! Stand-in for the `rangeset` crate (not in the offline cache): sets of ordered,
//! disjoint, non-adjacent ranges.
use std::ops::Range;

pub mod set {
    use super::*;
    use crate::iter::IntoRangeIterator;

    #[derive(Debug, Clone, PartialEq, Eq, Hash)]
    #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
    #[cfg_attr(feature = "serde", serde(from = "Raw<T>", into = "Raw<T>"))]
    #[cfg_attr(feature = "serde", serde(bound(serialize = "T: serde::Serialize + Clone", deserialize = "T: serde::Deserialize<'de> + Copy + Ord")))]
    pub struct RangeSet<T> {
        pub(crate) ranges: Vec<Range<T>>,
    }
    impl<T: PartialEq> PartialEq<Range<T>> for RangeSet<T> {
        fn eq(&self, o: &Range<T>) -> bool {
            self.ranges.len() == 1 && self.ranges[0] == *o
        }
    }
    impl<T: PartialEq> PartialEq<Range<T>> for &RangeSet<T> {
        fn eq(&self, o: &Range<T>) -> bool {
            **self == *o
        }
    }
    #[cfg(feature = "serde")]
    #[derive(serde::Serialize, serde::Deserialize)]
    struct Raw<T> {
        ranges: Vec<Range<T>>,
    }
    #[cfg(feature = "serde")]
    impl<T: Copy + Ord> From<Raw<T>> for RangeSet<T> {
        fn from(r: Raw<T>) -> Self {
            norm(r.ranges)
        }
    }
    #[cfg(feature = "serde")]
    impl<T: Clone> From<RangeSet<T>> for Raw<T> {
        fn from(r: RangeSet<T>) -> Self {
            Raw { ranges: r.ranges }
        }
    }
    pub(crate) fn norm<T: Copy + Ord>(mut v: Vec<Range<T>>) -> RangeSet<T> {
        v.retain(|r| r.start < r.end);
        v.sort_by_key(|r| r.start);
        let mut out: Vec<Range<T>> = Vec::with_capacity(v.len());
        for r in v {
            match out.last_mut() {
                Some(l) if r.start <= l.end => l.end = l.end.max(r.end),
                _ => out.push(r),
            }
        }
        RangeSet { ranges: out }
    }
    impl<T> Default for RangeSet<T> {
        fn default() -> Self {
            RangeSet { ranges: Vec::new() }
        }
    }
    impl<T: Copy + Ord> RangeSet<T> {
        pub fn empty() -> Self {
            Self::default()
        }
        pub fn iter(&self) -> crate::iter::Ranges<T> {
            crate::iter::Ranges(self.ranges.clone().into_iter())
        }
        pub fn len_ranges(&self) -> usize {
            self.ranges.len()
        }
        pub fn is_empty(&self) -> bool {
            self.ranges.is_empty()
        }
        pub fn end(&self) -> Option<T> {
            self.ranges.last().map(|r| r.end)
        }
        pub fn min(&self) -> Option<T> {
            self.ranges.first().map(|r| r.start)
        }
        pub fn start(&self) -> Option<T> {
            self.min()
        }
        pub fn as_slice(&self) -> &[Range<T>] {
            &self.ranges
        }
        pub fn into_inner(self) -> Vec<Range<T>> {
            self.ranges
        }
        pub fn contains(&self, v: &T) -> bool {
            self.ranges.iter().any(|r| r.contains(v))
        }
        pub fn union_mut(&mut self, o: impl IntoRangeIterator<T>) {
            let mut v = std::mem::take(&mut self.ranges);
            v.extend(o.into_ranges());
            *self = norm(v);
        }
        pub fn difference_mut(&mut self, o: impl IntoRangeIterator<T>) {
            *self = RangeSet { ranges: crate::ops::diff(&self.ranges, &norm(o.into_ranges()).ranges) };
        }
        pub fn clear(&mut self) {
            self.ranges.clear()
        }
    }
    impl RangeSet<usize> {
        pub fn len(&self) -> usize {
            self.ranges.iter().map(|r| r.end - r.start).sum()
        }
        pub fn iter_values(&self) -> impl Iterator<Item = usize> + '_ {
            self.ranges.iter().flat_map(|r| r.clone())
        }
    }
    impl<T: Copy + Ord> From<Range<T>> for RangeSet<T> {
        fn from(r: Range<T>) -> Self {
            norm(vec![r])
        }
    }
    impl<T: Copy + Ord> From<Vec<Range<T>>> for RangeSet<T> {
        fn from(r: Vec<Range<T>>) -> Self {
            norm(r)
        }
    }
    impl<T: Copy + Ord> From<&[Range<T>]> for RangeSet<T> {
        fn from(r: &[Range<T>]) -> Self {
            norm(r.to_vec())
        }
    }
    impl<T: Copy + Ord, const N: usize> From<[Range<T>; N]> for RangeSet<T> {
        fn from(r: [Range<T>; N]) -> Self {
            norm(r.to_vec())
        }
    }
    impl<T: Copy + Ord> FromIterator<Range<T>> for RangeSet<T> {
        fn from_iter<I: IntoIterator<Item = Range<T>>>(i: I) -> Self {
            norm(i.into_iter().collect())
        }
    }
    pub trait ToRangeSet<T> {
        fn to_range_set(&self) -> RangeSet<T>;
    }
    impl<T: Copy + Ord> ToRangeSet<T> for RangeSet<T> {
        fn to_range_set(&self) -> RangeSet<T> {
            self.clone()
        }
    }
    impl<T: Copy + Ord> ToRangeSet<T> for Range<T> {
        fn to_range_set(&self) -> RangeSet<T> {
            norm(vec![self.clone()])
        }
    }
}

pub mod iter {
    use super::*;
    use crate::set::RangeSet;
    #[derive(Debug, Clone)]
    pub struct Ranges<T>(pub(crate) std::vec::IntoIter<Range<T>>);
    impl<T> Iterator for Ranges<T> {
        type Item = Range<T>;
        fn next(&mut self) -> Option<Range<T>> {
            self.0.next()
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.0.size_hint()
        }
    }
    impl<T> DoubleEndedIterator for Ranges<T> {
        fn next_back(&mut self) -> Option<Range<T>> {
            self.0.next_back()
        }
    }
    impl<T> ExactSizeIterator for Ranges<T> {}
    pub trait IntoRangeIterator<T> {
        fn into_ranges(self) -> Vec<Range<T>>;
    }
    impl<T> IntoRangeIterator<T> for Range<T> {
        fn into_ranges(self) -> Vec<Range<T>> {
            vec![self]
        }
    }
    impl<T: Clone> IntoRangeIterator<T> for &Range<T> {
        fn into_ranges(self) -> Vec<Range<T>> {
            vec![self.clone()]
        }
    }
    impl<T> IntoRangeIterator<T> for RangeSet<T> {
        fn into_ranges(self) -> Vec<Range<T>> {
            self.ranges
        }
    }
    impl<T: Clone> IntoRangeIterator<T> for &RangeSet<T> {
        fn into_ranges(self) -> Vec<Range<T>> {
            self.ranges.clone()
        }
    }
    impl<T> IntoRangeIterator<T> for Vec<Range<T>> {
        fn into_ranges(self) -> Vec<Range<T>> {
            self
        }
    }
    impl<T: Clone> IntoRangeIterator<T> for &Vec<Range<T>> {
        fn into_ranges(self) -> Vec<Range<T>> {
            self.clone()
        }
    }
    impl<T: Clone> IntoRangeIterator<T> for &[Range<T>] {
        fn into_ranges(self) -> Vec<Range<T>> {
            self.to_vec()
        }
    }
    impl<T, const N: usize> IntoRangeIterator<T> for [Range<T>; N] {
        fn into_ranges(self) -> Vec<Range<T>> {
            self.into()
        }
    }
    impl<T> IntoRangeIterator<T> for Ranges<T> {
        fn into_ranges(self) -> Vec<Range<T>> {
            self.0.collect()
        }
    }
    pub trait FromRangeIterator<T> {
        fn from_range_iter<I: IntoRangeIterator<T>>(i: I) -> Self;
    }
    impl<T: Copy + Ord> FromRangeIterator<T> for RangeSet<T> {
        fn from_range_iter<I: IntoRangeIterator<T>>(i: I) -> Self {
            crate::set::norm(i.into_ranges())
        }
    }
    pub trait RangeIterator<T>: Sized {
        fn into_set(self) -> RangeSet<T>;
    }
    impl<T: Copy + Ord> RangeIterator<T> for Ranges<T> {
        fn into_set(self) -> RangeSet<T> {
            crate::set::norm(self.0.collect())
        }
    }
}

pub mod ops {
    use super::*;
    use crate::iter::{IntoRangeIterator, Ranges};
    use crate::set::{norm, RangeSet};

    pub(crate) fn diff<T: Copy + Ord>(a: &[Range<T>], b: &[Range<T>]) -> Vec<Range<T>> {
        let mut out = vec![];
        for r in a {
            let mut s = r.start;
            for q in b {
                if q.end <= s || q.start >= r.end {
                    continue;
                }
                if q.start > s {
                    out.push(s..q.start);
                }
                s = s.max(q.end);
            }
            if s < r.end {
                out.push(s..r.end);
            }
        }
        out
    }
    fn inter<T: Copy + Ord>(a: &[Range<T>], b: &[Range<T>]) -> Vec<Range<T>> {
        let mut out = vec![];
        for r in a {
            for q in b {
                let (s, e) = (r.start.max(q.start), r.end.min(q.end));
                if s < e {
                    out.push(s..e);
                }
            }
        }
        out
    }
    pub trait Set<T: Copy + Ord> {
        #[doc(hidden)]
        fn own(&self) -> RangeSet<T>;
        fn difference<R: IntoRangeIterator<T>>(&self, o: R) -> Ranges<T> {
            Ranges(diff(&self.own().ranges, &norm(o.into_ranges()).ranges).into_iter())
        }
        fn intersection<R: IntoRangeIterator<T>>(&self, o: R) -> Ranges<T> {
            Ranges(inter(&self.own().ranges, &norm(o.into_ranges()).ranges).into_iter())
        }
        fn union<R: IntoRangeIterator<T>>(&self, o: R) -> Ranges<T> {
            let mut v = self.own().ranges;
            v.extend(o.into_ranges());
            Ranges(norm(v).ranges.into_iter())
        }
        fn is_subset<R: IntoRangeIterator<T>>(&self, o: R) -> bool {
            diff(&self.own().ranges, &norm(o.into_ranges()).ranges).is_empty()
        }
        fn is_disjoint<R: IntoRangeIterator<T>>(&self, o: R) -> bool {
            inter(&self.own().ranges, &norm(o.into_ranges()).ranges).is_empty()
        }
    }
    impl<T: Copy + Ord> Set<T> for RangeSet<T> {
        fn own(&self) -> RangeSet<T> {
            self.clone()
        }
    }
    impl<T: Copy + Ord> Set<T> for Range<T> {
        fn own(&self) -> RangeSet<T> {
            norm(vec![self.clone()])
        }
    }
    impl<T: Copy + Ord> Set<T> for Ranges<T> {
        fn own(&self) -> RangeSet<T> {
            norm(self.0.clone().collect())
        }
    }
    /// Greedy cover: only members contained in the query may be used.
    pub trait Cover<T: Copy + Ord> {
        fn cover_by<'x, I: 'x, F>(&self, items: impl IntoIterator<Item = &'x I>, f: F) -> (Vec<&'x I>, RangeSet<T>)
        where
            T: 'x,
            F: Fn(&'x I) -> &'x RangeSet<T>;
    }
    impl Cover<usize> for RangeSet<usize> {
        fn cover_by<'x, I: 'x, F>(&self, items: impl IntoIterator<Item = &'x I>, f: F) -> (Vec<&'x I>, RangeSet<usize>)
        where
            F: Fn(&'x I) -> &'x RangeSet<usize>,
        {
            let mut left = self.clone();
            let mut items: Vec<&'x I> = items.into_iter().filter(|i| f(i).is_subset(self)).collect();
            let mut out = vec![];
            while !left.is_empty() {
                let mut best: Option<(usize, usize)> = None;
                for (n, i) in items.iter().enumerate() {
                    let gain = norm(inter(&left.ranges, &f(i).ranges)).len();
                    if gain > 0 && best.map_or(true, |b| gain > b.1) {
                        best = Some((n, gain));
                    }
                }
                let Some((n, _)) = best else { break };
                let i = items.remove(n);
                left.difference_mut(f(i));
                out.push(i);
            }
            (out, left)
        }
    }
    pub trait Index<I> {
        type Item;
        fn index<'a>(&'a self, i: &I) -> std::vec::IntoIter<&'a [Self::Item]>;
    }
    impl<E> Index<RangeSet<usize>> for [E] {
        type Item = E;
        fn index<'a>(&'a self, i: &RangeSet<usize>) -> std::vec::IntoIter<&'a [E]> {
            i.ranges.iter().map(|r| &self[r.clone()]).collect::<Vec<_>>().into_iter()
        }
    }
    impl<E> Index<RangeSet<usize>> for Vec<E> {
        type Item = E;
        fn index<'a>(&'a self, i: &RangeSet<usize>) -> std::vec::IntoIter<&'a [E]> {
            Index::index(self.as_slice(), i)
        }
    }
}
pub mod prelude {
    pub use crate::{iter::*, ops::*, set::*};
}
