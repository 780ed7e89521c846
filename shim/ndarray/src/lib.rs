//! A small stand-in for the part of `ndarray` 0.12 that the integrator sources of rust-ida use
//! (and a good deal around it).  The crate itself is not available offline.
#![allow(clippy::all)]
pub mod dimension;
mod impls;
mod iter;
pub mod linalg;
mod ops;
mod slice;
mod zip;

use std::marker::PhantomData;

pub use dimension::*;
pub use iter::*;
pub use ops::ScalarOperand;
pub use slice::*;
pub use zip::*;

pub type Ix = usize;
pub type Ixs = isize;

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Axis(pub usize);
impl Axis {
    pub fn index(&self) -> usize {
        self.0
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct ShapeError(pub &'static str);
impl std::fmt::Display for ShapeError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "ShapeError: {}", self.0)
    }
}
impl std::error::Error for ShapeError {}

// ---- storage -------------------------------------------------------------------------------

#[derive(Debug)]
pub struct OwnedRepr<A>(pub(crate) Vec<A>);
#[derive(Debug, Copy, Clone)]
pub struct ViewRepr<R>(pub(crate) PhantomData<R>);

pub unsafe trait RawData {
    type Elem;
}
pub unsafe trait RawDataMut: RawData {}
pub unsafe trait Data: RawData {}
pub unsafe trait DataMut: Data + RawDataMut {}
pub unsafe trait DataClone: Data {
    #[doc(hidden)]
    fn clone_with(&self, ptr: *mut Self::Elem) -> (Self, *mut Self::Elem)
    where
        Self: Sized;
}
pub unsafe trait DataOwned: Data {
    #[doc(hidden)]
    fn from_vec(v: Vec<Self::Elem>) -> Self;
    #[doc(hidden)]
    fn data_ptr(&self) -> *mut Self::Elem;
}

unsafe impl<A> RawData for OwnedRepr<A> {
    type Elem = A;
}
unsafe impl<A> RawDataMut for OwnedRepr<A> {}
unsafe impl<A> Data for OwnedRepr<A> {}
unsafe impl<A> DataMut for OwnedRepr<A> {}
unsafe impl<A> DataOwned for OwnedRepr<A> {
    fn from_vec(v: Vec<A>) -> Self {
        OwnedRepr(v)
    }
    fn data_ptr(&self) -> *mut A {
        self.0.as_ptr() as *mut A
    }
}
unsafe impl<A: Clone> DataClone for OwnedRepr<A> {
    fn clone_with(&self, ptr: *mut A) -> (Self, *mut A) {
        let off = (ptr as isize - self.0.as_ptr() as isize) / (std::mem::size_of::<A>().max(1) as isize);
        let mut v = self.0.clone();
        let p = v.as_mut_ptr();
        (OwnedRepr(v), unsafe { p.offset(off) })
    }
}
unsafe impl<'a, A> RawData for ViewRepr<&'a A> {
    type Elem = A;
}
unsafe impl<'a, A> Data for ViewRepr<&'a A> {}
unsafe impl<'a, A> DataClone for ViewRepr<&'a A> {
    fn clone_with(&self, ptr: *mut A) -> (Self, *mut A) {
        (ViewRepr(PhantomData), ptr)
    }
}
unsafe impl<'a, A> RawData for ViewRepr<&'a mut A> {
    type Elem = A;
}
unsafe impl<'a, A> RawDataMut for ViewRepr<&'a mut A> {}
unsafe impl<'a, A> Data for ViewRepr<&'a mut A> {}
unsafe impl<'a, A> DataMut for ViewRepr<&'a mut A> {}

/// `strides` holds signed strides in two's complement.
pub struct ArrayBase<S: RawData, D> {
    pub(crate) data: S,
    pub(crate) ptr: *mut S::Elem,
    pub(crate) dim: D,
    pub(crate) strides: D,
}
unsafe impl<S: RawData + Send, D: Send> Send for ArrayBase<S, D> where S::Elem: Send {}
unsafe impl<S: RawData + Sync, D: Sync> Sync for ArrayBase<S, D> where S::Elem: Sync {}

impl<S: DataClone, D: Clone> Clone for ArrayBase<S, D> {
    fn clone(&self) -> Self {
        let (data, ptr) = self.data.clone_with(self.ptr);
        ArrayBase { data, ptr, dim: self.dim.clone(), strides: self.strides.clone() }
    }
}
impl<S: DataClone + Copy, D: Copy> Copy for ArrayBase<S, D> {}

pub type Array<A, D> = ArrayBase<OwnedRepr<A>, D>;
pub type ArrayView<'a, A, D> = ArrayBase<ViewRepr<&'a A>, D>;
pub type ArrayViewMut<'a, A, D> = ArrayBase<ViewRepr<&'a mut A>, D>;
pub type Array0<A> = Array<A, Ix0>;
pub type Array1<A> = Array<A, Ix1>;
pub type Array2<A> = Array<A, Ix2>;
pub type Array3<A> = Array<A, Ix3>;
pub type ArrayD<A> = Array<A, IxDyn>;
pub type ArrayView0<'a, A> = ArrayView<'a, A, Ix0>;
pub type ArrayView1<'a, A> = ArrayView<'a, A, Ix1>;
pub type ArrayView2<'a, A> = ArrayView<'a, A, Ix2>;
pub type ArrayView3<'a, A> = ArrayView<'a, A, Ix3>;
pub type ArrayViewD<'a, A> = ArrayView<'a, A, IxDyn>;
pub type ArrayViewMut0<'a, A> = ArrayViewMut<'a, A, Ix0>;
pub type ArrayViewMut1<'a, A> = ArrayViewMut<'a, A, Ix1>;
pub type ArrayViewMut2<'a, A> = ArrayViewMut<'a, A, Ix2>;
pub type ArrayViewMut3<'a, A> = ArrayViewMut<'a, A, Ix3>;
pub type ArrayViewMutD<'a, A> = ArrayViewMut<'a, A, IxDyn>;

/// Elements that support linear algebra
pub trait LinalgScalar:
    'static
    + Copy
    + num_traits::Zero
    + num_traits::One
    + std::ops::Add<Output = Self>
    + std::ops::Sub<Output = Self>
    + std::ops::Mul<Output = Self>
    + std::ops::Div<Output = Self>
{
}
impl<T> LinalgScalar for T where
    T: 'static
        + Copy
        + num_traits::Zero
        + num_traits::One
        + std::ops::Add<Output = T>
        + std::ops::Sub<Output = T>
        + std::ops::Mul<Output = T>
        + std::ops::Div<Output = T>
{
}
pub trait NdFloat:
    num_traits::Float
    + std::ops::AddAssign
    + std::ops::SubAssign
    + std::ops::MulAssign
    + std::ops::DivAssign
    + std::ops::RemAssign
    + std::fmt::Display
    + std::fmt::Debug
    + std::fmt::LowerExp
    + std::fmt::UpperExp
    + ScalarOperand
    + LinalgScalar
    + Send
    + Sync
{
}
impl NdFloat for f32 {}
impl NdFloat for f64 {}

// ---- free constructors ---------------------------------------------------------------------

pub fn arr0<A>(x: A) -> Array0<A> {
    Array::from_raw_vec(Ix0(), vec![x])
}
pub fn arr1<A: Clone>(xs: &[A]) -> Array1<A> {
    Array::from_raw_vec(Ix1(xs.len()), xs.to_vec())
}
pub fn rcarr1<A: Clone>(xs: &[A]) -> Array1<A> {
    arr1(xs)
}
pub fn arr2<A: Clone, V: FixedInitializer<Elem = A> + Clone>(xs: &[V]) -> Array2<A> {
    Array::from_raw_vec(Ix2(xs.len(), V::len()), xs.iter().cloned().flat_map(|r| r.into_elems()).collect())
}
pub fn aview1<A>(xs: &[A]) -> ArrayView1<'_, A> {
    ArrayView::from(xs)
}

pub trait FixedInitializer {
    type Elem;
    fn into_elems(self) -> Vec<Self::Elem>;
    fn len() -> usize;
}
impl<T, const N: usize> FixedInitializer for [T; N] {
    type Elem = T;
    fn into_elems(self) -> Vec<T> {
        IntoIterator::into_iter(self).collect()
    }
    fn len() -> usize {
        N
    }
}

#[macro_export]
macro_rules! array {
    ($([$([$($x:expr),* $(,)*]),+ $(,)*]),+ $(,)*) => {{
        $crate::Array3::from(vec![$([$([$($x,)*],)*],)*])
    }};
    ($([$($x:expr),* $(,)*]),+ $(,)*) => {{
        $crate::Array2::from(vec![$([$($x,)*],)*])
    }};
    ($($x:expr),* $(,)*) => {{
        $crate::Array::from(vec![$($x,)*])
    }};
}

pub mod prelude {
    pub use crate::array;
    pub use crate::s;
    pub use crate::{
        arr0, arr1, arr2, aview1, Array, Array0, Array1, Array2, Array3, ArrayBase, ArrayD,
        ArrayView, ArrayView0, ArrayView1, ArrayView2, ArrayView3, ArrayViewD, ArrayViewMut,
        ArrayViewMut0, ArrayViewMut1, ArrayViewMut2, ArrayViewMut3, ArrayViewMutD, Axis, Dim,
        Dimension, Ix, Ix0, Ix1, Ix2, Ix3, IxDyn, NdFloat, ShapeBuilder,
    };
}
