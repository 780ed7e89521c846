use crate::*;
use std::marker::PhantomData;

/// Walks the multi-index of `dim` in row-major order and yields element offsets.
#[derive(Clone)]
pub struct Offsets<D> {
    dim: D,
    strides: D,
    index: D,
    left: usize,
}
impl<D: Dimension> Offsets<D> {
    pub(crate) fn new(dim: D, strides: D) -> Self {
        let n = dim.ndim();
        let left = dim.size();
        Offsets { dim, strides, index: D::zeros(n), left }
    }
    fn next_with_index(&mut self) -> Option<(D, isize)> {
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        let n = self.dim.ndim();
        let mut off = 0isize;
        for i in 0..n {
            off += self.index.slice()[i] as isize * self.strides.slice()[i] as isize;
        }
        let cur = self.index.clone();
        for i in (0..n).rev() {
            self.index.slice_mut()[i] += 1;
            if self.index.slice()[i] < self.dim.slice()[i] {
                break;
            }
            self.index.slice_mut()[i] = 0;
        }
        Some((cur, off))
    }
    /// the last remaining position (for reversed iteration)
    fn next_back_with_index(&mut self) -> Option<isize> {
        if self.left == 0 {
            return None;
        }
        // consumed from the front: total - left_front ... only used by DoubleEnded on fresh ranges
        let n = self.dim.ndim();
        let mut start = 0usize;
        for i in 0..n {
            start = start * self.dim.slice()[i] + self.index.slice()[i];
        }
        let mut pos = start + self.left - 1;
        self.left -= 1;
        let mut off = 0isize;
        for i in (0..n).rev() {
            let e = self.dim.slice()[i].max(1);
            off += (pos % e) as isize * self.strides.slice()[i] as isize;
            pos /= e;
        }
        Some(off)
    }
}
macro_rules! it {
    ($name:ident, $ref:ty, |$p:ident| $e:expr) => {
        pub struct $name<'a, A, D> {
            pub(crate) ptr: *mut A,
            pub(crate) o: Offsets<D>,
            pub(crate) m: PhantomData<$ref>,
        }
        impl<'a, A, D: Dimension> Iterator for $name<'a, A, D> {
            type Item = $ref;
            fn next(&mut self) -> Option<$ref> {
                self.o.next_with_index().map(|(_, o)| unsafe {
                    let $p = self.ptr.offset(o);
                    $e
                })
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                (self.o.left, Some(self.o.left))
            }
        }
        impl<'a, A, D: Dimension> ExactSizeIterator for $name<'a, A, D> {}
        impl<'a, A, D: Dimension> DoubleEndedIterator for $name<'a, A, D> {
            fn next_back(&mut self) -> Option<$ref> {
                self.o.next_back_with_index().map(|o| unsafe {
                    let $p = self.ptr.offset(o);
                    $e
                })
            }
        }
    };
}
it!(Iter, &'a A, |p| &*p);
it!(IterMut, &'a mut A, |p| &mut *p);
impl<'a, A, D: Clone> Clone for Iter<'a, A, D> {
    fn clone(&self) -> Self {
        Iter { ptr: self.ptr, o: self.o.clone(), m: PhantomData }
    }
}
pub struct IndexedIter<'a, A, D>(pub(crate) Iter<'a, A, D>);
impl<'a, A, D: Dimension> Iterator for IndexedIter<'a, A, D> {
    type Item = (D::Pattern, &'a A);
    fn next(&mut self) -> Option<Self::Item> {
        let p = self.0.ptr;
        self.0.o.next_with_index().map(|(i, o)| (i.into_pattern(), unsafe { &*p.offset(o) }))
    }
}
pub struct IndexedIterMut<'a, A, D>(pub(crate) IterMut<'a, A, D>);
impl<'a, A, D: Dimension> Iterator for IndexedIterMut<'a, A, D> {
    type Item = (D::Pattern, &'a mut A);
    fn next(&mut self) -> Option<Self::Item> {
        let p = self.0.ptr;
        self.0.o.next_with_index().map(|(i, o)| (i.into_pattern(), unsafe { &mut *p.offset(o) }))
    }
}

/// Lanes along one axis; iterates over the other axes.
pub struct Lanes<'a, A, D> {
    pub(crate) base: ArrayView<'a, A, D>,
    pub(crate) len: usize,
    pub(crate) stride: usize,
}
pub struct LanesMut<'a, A, D> {
    pub(crate) base: ArrayViewMut<'a, A, D>,
    pub(crate) len: usize,
    pub(crate) stride: usize,
}
pub struct LanesIter<'a, A, D> {
    ptr: *mut A,
    o: Offsets<D>,
    len: usize,
    stride: usize,
    m: PhantomData<&'a A>,
}
pub struct LanesIterMut<'a, A, D> {
    ptr: *mut A,
    o: Offsets<D>,
    len: usize,
    stride: usize,
    m: PhantomData<&'a mut A>,
}
impl<'a, A, D: Dimension> Iterator for LanesIter<'a, A, D> {
    type Item = ArrayView1<'a, A>;
    fn next(&mut self) -> Option<Self::Item> {
        let (len, stride) = (self.len, self.stride);
        self.o.next_with_index().map(|(_, o)| ArrayBase {
            data: ViewRepr(PhantomData),
            ptr: unsafe { self.ptr.offset(o) },
            dim: Ix1(len),
            strides: Ix1(stride),
        })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.o.left, Some(self.o.left))
    }
}
impl<'a, A, D: Dimension> ExactSizeIterator for LanesIter<'a, A, D> {}
impl<'a, A, D: Dimension> DoubleEndedIterator for LanesIter<'a, A, D> {
    fn next_back(&mut self) -> Option<Self::Item> {
        let (len, stride) = (self.len, self.stride);
        self.o.next_back_with_index().map(|o| ArrayBase {
            data: ViewRepr(PhantomData),
            ptr: unsafe { self.ptr.offset(o) },
            dim: Ix1(len),
            strides: Ix1(stride),
        })
    }
}
impl<'a, A, D: Dimension> Iterator for LanesIterMut<'a, A, D> {
    type Item = ArrayViewMut1<'a, A>;
    fn next(&mut self) -> Option<Self::Item> {
        let (len, stride) = (self.len, self.stride);
        self.o.next_with_index().map(|(_, o)| ArrayBase {
            data: ViewRepr(PhantomData),
            ptr: unsafe { self.ptr.offset(o) },
            dim: Ix1(len),
            strides: Ix1(stride),
        })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.o.left, Some(self.o.left))
    }
}
impl<'a, A, D: Dimension> ExactSizeIterator for LanesIterMut<'a, A, D> {}
impl<'a, A, D: Dimension> DoubleEndedIterator for LanesIterMut<'a, A, D> {
    fn next_back(&mut self) -> Option<Self::Item> {
        let (len, stride) = (self.len, self.stride);
        self.o.next_back_with_index().map(|o| ArrayBase {
            data: ViewRepr(PhantomData),
            ptr: unsafe { self.ptr.offset(o) },
            dim: Ix1(len),
            strides: Ix1(stride),
        })
    }
}
impl<'a, A, D: Dimension> IntoIterator for Lanes<'a, A, D> {
    type Item = ArrayView1<'a, A>;
    type IntoIter = LanesIter<'a, A, D>;
    fn into_iter(self) -> Self::IntoIter {
        LanesIter {
            ptr: self.base.ptr,
            o: Offsets::new(self.base.dim.clone(), self.base.strides.clone()),
            len: self.len,
            stride: self.stride,
            m: PhantomData,
        }
    }
}
impl<'a, A, D: Dimension> IntoIterator for LanesMut<'a, A, D> {
    type Item = ArrayViewMut1<'a, A>;
    type IntoIter = LanesIterMut<'a, A, D>;
    fn into_iter(self) -> Self::IntoIter {
        LanesIterMut {
            ptr: self.base.ptr,
            o: Offsets::new(self.base.dim.clone(), self.base.strides.clone()),
            len: self.len,
            stride: self.stride,
            m: PhantomData,
        }
    }
}

/// Iteration over the sub-arrays along one axis.
pub struct AxisIter<'a, A, D> {
    pub(crate) ptr: *mut A,
    pub(crate) dim: D,
    pub(crate) strides: D,
    pub(crate) i: usize,
    pub(crate) end: usize,
    pub(crate) step: isize,
    pub(crate) m: PhantomData<&'a A>,
}
pub struct AxisIterMut<'a, A, D> {
    pub(crate) ptr: *mut A,
    pub(crate) dim: D,
    pub(crate) strides: D,
    pub(crate) i: usize,
    pub(crate) end: usize,
    pub(crate) step: isize,
    pub(crate) m: PhantomData<&'a mut A>,
}
macro_rules! axit {
    ($name:ident, $view:ident) => {
        impl<'a, A, D: Dimension> $name<'a, A, D> {
            fn at(&self, i: usize) -> $view<'a, A, D> {
                ArrayBase {
                    data: ViewRepr(PhantomData),
                    ptr: unsafe { self.ptr.offset(i as isize * self.step) },
                    dim: self.dim.clone(),
                    strides: self.strides.clone(),
                }
            }
        }
        impl<'a, A, D: Dimension> Iterator for $name<'a, A, D> {
            type Item = $view<'a, A, D>;
            fn next(&mut self) -> Option<Self::Item> {
                if self.i >= self.end {
                    return None;
                }
                self.i += 1;
                Some(self.at(self.i - 1))
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                (self.end - self.i, Some(self.end - self.i))
            }
        }
        impl<'a, A, D: Dimension> ExactSizeIterator for $name<'a, A, D> {}
        impl<'a, A, D: Dimension> DoubleEndedIterator for $name<'a, A, D> {
            fn next_back(&mut self) -> Option<Self::Item> {
                if self.i >= self.end {
                    return None;
                }
                self.end -= 1;
                Some(self.at(self.end))
            }
        }
    };
}
axit!(AxisIter, ArrayView);
axit!(AxisIterMut, ArrayViewMut);
