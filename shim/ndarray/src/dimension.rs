use std::fmt::Debug;
use std::ops::{Index, IndexMut};

#[derive(Copy, Clone, PartialEq, Eq, Hash, Default)]
pub struct Dim<I: ?Sized> {
    pub(crate) index: I,
}
impl<I: Debug> Debug for Dim<I> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.index.fmt(f)
    }
}
pub type Ix0 = Dim<[usize; 0]>;
pub type Ix1 = Dim<[usize; 1]>;
pub type Ix2 = Dim<[usize; 2]>;
pub type Ix3 = Dim<[usize; 3]>;
pub type IxDyn = Dim<Vec<usize>>;

#[allow(non_snake_case)]
pub const fn Ix0() -> Ix0 {
    Dim { index: [] }
}
#[allow(non_snake_case)]
pub const fn Ix1(i: usize) -> Ix1 {
    Dim { index: [i] }
}
#[allow(non_snake_case)]
pub const fn Ix2(i: usize, j: usize) -> Ix2 {
    Dim { index: [i, j] }
}
#[allow(non_snake_case)]
pub const fn Ix3(i: usize, j: usize, k: usize) -> Ix3 {
    Dim { index: [i, j, k] }
}
#[allow(non_snake_case)]
pub fn IxDyn(ix: &[usize]) -> IxDyn {
    Dim { index: ix.to_vec() }
}
#[allow(non_snake_case)]
pub fn Dim<T: IntoDimension>(t: T) -> T::Dim {
    t.into_dimension()
}

pub trait Dimension:
    Clone + Eq + Debug + Default + Send + Sync + 'static + IntoDimension<Dim = Self> + Index<usize, Output = usize> + IndexMut<usize>
{
    const NDIM: Option<usize>;
    type Pattern: IntoDimension<Dim = Self> + Clone + Debug + PartialEq + Default;
    type Smaller: Dimension;
    type Larger: Dimension;
    fn ndim(&self) -> usize;
    fn slice(&self) -> &[usize];
    fn slice_mut(&mut self) -> &mut [usize];
    fn into_pattern(self) -> Self::Pattern;
    fn zeros(n: usize) -> Self;
    fn from_slice(s: &[usize]) -> Self {
        let mut d = Self::zeros(s.len());
        assert_eq!(d.ndim(), s.len(), "dimension mismatch");
        d.slice_mut().copy_from_slice(s);
        d
    }
    fn size(&self) -> usize {
        self.slice().iter().product()
    }
    fn as_array_view(&self) -> crate::ArrayView1<'_, usize> {
        crate::aview1(self.slice())
    }
    /// row-major strides
    fn default_strides(&self) -> Self {
        let n = self.ndim();
        let mut s = Self::zeros(n);
        let mut acc = 1usize;
        for i in (0..n).rev() {
            s.slice_mut()[i] = acc;
            acc *= self.slice()[i];
        }
        s
    }
    fn remove(&self, ax: usize) -> Self::Smaller {
        let v: Vec<usize> =
            self.slice().iter().enumerate().filter(|(i, _)| *i != ax).map(|(_, x)| *x).collect();
        <Self::Smaller as Dimension>::from_slice(&v)
    }
    fn insert(&self, ax: usize, x: usize) -> Self::Larger {
        let mut v = self.slice().to_vec();
        v.insert(ax, x);
        <Self::Larger as Dimension>::from_slice(&v)
    }
}
pub trait RemoveAxis: Dimension {
    fn remove_axis(&self, axis: crate::Axis) -> Self::Smaller {
        self.remove(axis.0)
    }
}
impl RemoveAxis for Ix1 {}
impl RemoveAxis for Ix2 {}
impl RemoveAxis for Ix3 {}
impl RemoveAxis for IxDyn {}

macro_rules! fixed {
    ($n:expr, $ty:ty, $pat:ty, $small:ty, $large:ty, |$s:ident| $e:expr) => {
        impl Dimension for $ty {
            const NDIM: Option<usize> = Some($n);
            type Pattern = $pat;
            type Smaller = $small;
            type Larger = $large;
            fn ndim(&self) -> usize {
                $n
            }
            fn slice(&self) -> &[usize] {
                &self.index
            }
            fn slice_mut(&mut self) -> &mut [usize] {
                &mut self.index
            }
            fn into_pattern(self) -> $pat {
                let $s = self.index;
                $e
            }
            fn zeros(_n: usize) -> Self {
                Dim { index: [0; $n] }
            }
        }
        impl Index<usize> for $ty {
            type Output = usize;
            fn index(&self, i: usize) -> &usize {
                &self.index[i]
            }
        }
        impl IndexMut<usize> for $ty {
            fn index_mut(&mut self, i: usize) -> &mut usize {
                &mut self.index[i]
            }
        }
        impl IntoDimension for [usize; $n] {
            type Dim = $ty;
            fn into_dimension(self) -> $ty {
                Dim { index: self }
            }
        }
    };
}
fixed!(0, Ix0, (), Ix0, Ix1, |_s| ());
fixed!(1, Ix1, usize, Ix0, Ix2, |s| s[0]);
fixed!(2, Ix2, (usize, usize), Ix1, Ix3, |s| (s[0], s[1]));
fixed!(3, Ix3, (usize, usize, usize), Ix2, IxDyn, |s| (s[0], s[1], s[2]));

impl Dimension for IxDyn {
    const NDIM: Option<usize> = None;
    type Pattern = IxDyn;
    type Smaller = IxDyn;
    type Larger = IxDyn;
    fn ndim(&self) -> usize {
        self.index.len()
    }
    fn slice(&self) -> &[usize] {
        &self.index
    }
    fn slice_mut(&mut self) -> &mut [usize] {
        &mut self.index
    }
    fn into_pattern(self) -> IxDyn {
        self
    }
    fn zeros(n: usize) -> Self {
        Dim { index: vec![0; n] }
    }
}
impl Index<usize> for IxDyn {
    type Output = usize;
    fn index(&self, i: usize) -> &usize {
        &self.index[i]
    }
}
impl IndexMut<usize> for IxDyn {
    fn index_mut(&mut self, i: usize) -> &mut usize {
        &mut self.index[i]
    }
}

pub trait IntoDimension {
    type Dim: Dimension;
    fn into_dimension(self) -> Self::Dim;
}
impl IntoDimension for usize {
    type Dim = Ix1;
    fn into_dimension(self) -> Ix1 {
        Ix1(self)
    }
}
impl IntoDimension for () {
    type Dim = Ix0;
    fn into_dimension(self) -> Ix0 {
        Ix0()
    }
}
impl IntoDimension for (usize,) {
    type Dim = Ix1;
    fn into_dimension(self) -> Ix1 {
        Ix1(self.0)
    }
}
impl IntoDimension for (usize, usize) {
    type Dim = Ix2;
    fn into_dimension(self) -> Ix2 {
        Ix2(self.0, self.1)
    }
}
impl IntoDimension for (usize, usize, usize) {
    type Dim = Ix3;
    fn into_dimension(self) -> Ix3 {
        Ix3(self.0, self.1, self.2)
    }
}
impl IntoDimension for Vec<usize> {
    type Dim = IxDyn;
    fn into_dimension(self) -> IxDyn {
        Dim { index: self }
    }
}
impl<'a> IntoDimension for &'a [usize] {
    type Dim = IxDyn;
    fn into_dimension(self) -> IxDyn {
        Dim { index: self.to_vec() }
    }
}
impl<D: Dimension> IntoDimension for D {
    type Dim = D;
    fn into_dimension(self) -> Self {
        self
    }
}

/// Shapes: a dimension plus (optionally) Fortran order.
#[derive(Clone, Debug)]
pub struct Shape<D> {
    pub(crate) dim: D,
    pub(crate) f: bool,
}
pub trait ShapeBuilder {
    type Dim: Dimension;
    fn into_shape_(self) -> Shape<Self::Dim>;
    fn f(self) -> Shape<Self::Dim>;
    fn set_f(self, is_f: bool) -> Shape<Self::Dim>;
}
impl<T: IntoDimension> ShapeBuilder for T {
    type Dim = T::Dim;
    fn into_shape_(self) -> Shape<T::Dim> {
        Shape { dim: self.into_dimension(), f: false }
    }
    fn f(self) -> Shape<T::Dim> {
        self.set_f(true)
    }
    fn set_f(self, f: bool) -> Shape<T::Dim> {
        Shape { dim: self.into_dimension(), f }
    }
}
impl<D: Dimension> ShapeBuilder for Shape<D> {
    type Dim = D;
    fn into_shape_(self) -> Shape<D> {
        self
    }
    fn f(self) -> Shape<D> {
        self.set_f(true)
    }
    fn set_f(mut self, f: bool) -> Shape<D> {
        self.f = f;
        self
    }
}

/// Index types
pub trait NdIndex<D> {
    fn index_slice(&self) -> Vec<usize>;
}
impl NdIndex<Ix0> for () {
    fn index_slice(&self) -> Vec<usize> {
        vec![]
    }
}
impl NdIndex<Ix1> for usize {
    fn index_slice(&self) -> Vec<usize> {
        vec![*self]
    }
}
impl NdIndex<Ix2> for (usize, usize) {
    fn index_slice(&self) -> Vec<usize> {
        vec![self.0, self.1]
    }
}
impl NdIndex<Ix3> for (usize, usize, usize) {
    fn index_slice(&self) -> Vec<usize> {
        vec![self.0, self.1, self.2]
    }
}
impl NdIndex<Ix1> for [usize; 1] {
    fn index_slice(&self) -> Vec<usize> {
        self.to_vec()
    }
}
impl NdIndex<Ix2> for [usize; 2] {
    fn index_slice(&self) -> Vec<usize> {
        self.to_vec()
    }
}
impl NdIndex<Ix3> for [usize; 3] {
    fn index_slice(&self) -> Vec<usize> {
        self.to_vec()
    }
}
impl<I> NdIndex<Dim<I>> for Dim<I>
where
    Dim<I>: Dimension,
{
    fn index_slice(&self) -> Vec<usize> {
        self.slice().to_vec()
    }
}
impl<const N: usize> NdIndex<IxDyn> for [usize; N] {
    fn index_slice(&self) -> Vec<usize> {
        self.to_vec()
    }
}
impl<'a> NdIndex<IxDyn> for &'a [usize] {
    fn index_slice(&self) -> Vec<usize> {
        self.to_vec()
    }
}
