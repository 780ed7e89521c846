use crate::*;
use std::marker::PhantomData;
use std::ops::{Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};

#[derive(Copy, Clone, Debug, PartialEq)]
pub struct Slice {
    pub start: isize,
    pub end: Option<isize>,
    pub step: isize,
}
impl Slice {
    pub fn new(start: isize, end: Option<isize>, step: isize) -> Slice {
        Slice { start, end, step }
    }
    pub fn step_by(self, step: isize) -> Self {
        Slice { step: self.step * step, ..self }
    }
    /// (first index, length, step) on an axis of length `len`
    pub(crate) fn resolve(&self, len: usize) -> (usize, usize, isize) {
        let n = len as isize;
        let abs = |i: isize| if i < 0 { n + i } else { i };
        let start = abs(self.start);
        let end = abs(self.end.unwrap_or(n));
        let end = if end < start { start } else { end };
        assert!(start >= 0 && start <= n, "slice begin {} is past end of axis of length {}", start, n);
        assert!(end >= 0 && end <= n, "slice end {} is past end of axis of length {}", end, n);
        assert!(self.step != 0);
        let m = end - start;
        let k = self.step.abs();
        let count = (m + k - 1) / k;
        let first = if self.step < 0 && m > 0 { end - 1 } else { start };
        (first as usize, count as usize, self.step)
    }
}
#[derive(Copy, Clone, Debug, PartialEq)]
pub enum SliceOrIndex {
    Slice { start: isize, end: Option<isize>, step: isize },
    Index(isize),
}
impl SliceOrIndex {
    pub fn step_by(self, by: isize) -> Self {
        match self {
            SliceOrIndex::Slice { start, end, step } => SliceOrIndex::Slice { start, end, step: step * by },
            x => x,
        }
    }
}

macro_rules! from_ranges {
    ($t:ty) => {
        from_ranges!(@ $t, Slice, Slice);
        from_ranges!(@ $t, SliceOrIndex, SliceOrIndex::Slice);
        impl From<$t> for SliceOrIndex {
            fn from(i: $t) -> Self {
                SliceOrIndex::Index(i as isize)
            }
        }
        impl SArg for $t {
            type Kind = Gone;
            fn arg(self) -> SliceOrIndex {
                SliceOrIndex::Index(self as isize)
            }
        }
        from_ranges!(# Range<$t>);
        from_ranges!(# RangeFrom<$t>);
        from_ranges!(# RangeTo<$t>);
        from_ranges!(# RangeInclusive<$t>);
        from_ranges!(# RangeToInclusive<$t>);
    };
    (# $r:ty) => {
        impl SArg for $r {
            type Kind = Kept;
            fn arg(self) -> SliceOrIndex {
                SliceOrIndex::from(self)
            }
        }
    };
    (@ $t:ty, $out:ident, $($ctor:tt)+) => {
        impl From<Range<$t>> for $out {
            fn from(r: Range<$t>) -> Self {
                $($ctor)+ { start: r.start as isize, end: Some(r.end as isize), step: 1 }
            }
        }
        impl From<RangeInclusive<$t>> for $out {
            fn from(r: RangeInclusive<$t>) -> Self {
                let e = *r.end() as isize;
                $($ctor)+ { start: *r.start() as isize, end: if e == -1 { None } else { Some(e + 1) }, step: 1 }
            }
        }
        impl From<RangeFrom<$t>> for $out {
            fn from(r: RangeFrom<$t>) -> Self {
                $($ctor)+ { start: r.start as isize, end: None, step: 1 }
            }
        }
        impl From<RangeTo<$t>> for $out {
            fn from(r: RangeTo<$t>) -> Self {
                $($ctor)+ { start: 0, end: Some(r.end as isize), step: 1 }
            }
        }
        impl From<RangeToInclusive<$t>> for $out {
            fn from(r: RangeToInclusive<$t>) -> Self {
                let e = r.end as isize;
                $($ctor)+ { start: 0, end: if e == -1 { None } else { Some(e + 1) }, step: 1 }
            }
        }
    };
}
from_ranges!(usize);
from_ranges!(isize);
from_ranges!(i32);
impl From<RangeFull> for Slice {
    fn from(_: RangeFull) -> Self {
        Slice { start: 0, end: None, step: 1 }
    }
}
impl From<RangeFull> for SliceOrIndex {
    fn from(_: RangeFull) -> Self {
        SliceOrIndex::Slice { start: 0, end: None, step: 1 }
    }
}
impl From<Slice> for SliceOrIndex {
    fn from(s: Slice) -> Self {
        SliceOrIndex::Slice { start: s.start, end: s.end, step: s.step }
    }
}

pub struct Kept;
pub struct Gone;
pub trait SArg {
    type Kind;
    fn arg(self) -> SliceOrIndex;
}
impl SArg for RangeFull {
    type Kind = Kept;
    fn arg(self) -> SliceOrIndex {
        SliceOrIndex::from(self)
    }
}
impl SArg for Slice {
    type Kind = Kept;
    fn arg(self) -> SliceOrIndex {
        SliceOrIndex::from(self)
    }
}
pub trait OutDim {
    type Out: Dimension;
}
impl OutDim for (Kept,) {
    type Out = Ix1;
}
impl OutDim for (Gone,) {
    type Out = Ix0;
}
impl OutDim for (Kept, Kept) {
    type Out = Ix2;
}
impl OutDim for (Kept, Gone) {
    type Out = Ix1;
}
impl OutDim for (Gone, Kept) {
    type Out = Ix1;
}
impl OutDim for (Gone, Gone) {
    type Out = Ix0;
}
pub struct SliceInfo<I, D> {
    pub(crate) args: Vec<SliceOrIndex>,
    pub(crate) m: PhantomData<(I, D)>,
}
impl<I, D> AsRef<SliceInfo<I, D>> for SliceInfo<I, D> {
    fn as_ref(&self) -> &Self {
        self
    }
}
#[doc(hidden)]
pub fn slice1<A: SArg>(a: A, st: isize) -> SliceInfo<Ix1, <(A::Kind,) as OutDim>::Out>
where
    (A::Kind,): OutDim,
{
    SliceInfo { args: vec![a.arg().step_by(st)], m: PhantomData }
}
#[doc(hidden)]
pub fn slice2<A: SArg, B: SArg>(
    a: A,
    sa: isize,
    b: B,
    sb: isize,
) -> SliceInfo<Ix2, <(A::Kind, B::Kind) as OutDim>::Out>
where
    (A::Kind, B::Kind): OutDim,
{
    SliceInfo { args: vec![a.arg().step_by(sa), b.arg().step_by(sb)], m: PhantomData }
}
#[macro_export]
macro_rules! s {
    ($a:expr $(,)?) => { &$crate::slice1($a, 1) };
    ($a:expr; $sa:expr $(,)?) => { &$crate::slice1($a, $sa) };
    ($a:expr, $b:expr $(,)?) => { &$crate::slice2($a, 1, $b, 1) };
    ($a:expr; $sa:expr, $b:expr $(,)?) => { &$crate::slice2($a, $sa, $b, 1) };
    ($a:expr, $b:expr; $sb:expr $(,)?) => { &$crate::slice2($a, 1, $b, $sb) };
    ($a:expr; $sa:expr, $b:expr; $sb:expr $(,)?) => { &$crate::slice2($a, $sa, $b, $sb) };
}
