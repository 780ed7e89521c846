use crate::*;
use num_traits::{Float, FromPrimitive, One, Zero};
use std::fmt;
use std::marker::PhantomData;
use std::ops::{Add, Div, Index, IndexMut, Mul};

impl<A, D: Dimension> Array<A, D> {
    pub(crate) fn from_raw_vec(dim: D, mut v: Vec<A>) -> Self {
        assert_eq!(dim.size(), v.len());
        let strides = dim.default_strides();
        let ptr = v.as_mut_ptr();
        ArrayBase { data: OwnedRepr(v), ptr, dim, strides }
    }
    pub fn into_raw_vec(self) -> Vec<A> {
        self.data.0
    }
}

// ---- constructors on any owned storage -------------------------------------------------------
impl<S, A, D> ArrayBase<S, D>
where
    S: DataOwned<Elem = A> + DataMut,
    D: Dimension,
{
    fn build(sh: Shape<D>, v: Vec<A>) -> Self {
        assert_eq!(sh.dim.size(), v.len(), "shape and data length differ");
        let data = S::from_vec(v);
        let strides = if sh.f {
            let mut s = D::zeros(sh.dim.ndim());
            let mut acc = 1;
            for i in 0..sh.dim.ndim() {
                s.slice_mut()[i] = acc;
                acc *= sh.dim.slice()[i];
            }
            s
        } else {
            sh.dim.default_strides()
        };
        let mut a = ArrayBase { data, ptr: std::ptr::null_mut(), dim: sh.dim, strides };
        a.ptr = a.data.data_ptr();
        a
    }
    pub fn from_elem<Sh: ShapeBuilder<Dim = D>>(shape: Sh, elem: A) -> Self
    where
        A: Clone,
    {
        let sh = shape.into_shape_();
        let n = sh.dim.size();
        Self::build(sh, vec![elem; n])
    }
    pub fn zeros<Sh: ShapeBuilder<Dim = D>>(shape: Sh) -> Self
    where
        A: Clone + Zero,
    {
        Self::from_elem(shape, A::zero())
    }
    pub fn ones<Sh: ShapeBuilder<Dim = D>>(shape: Sh) -> Self
    where
        A: Clone + One,
    {
        Self::from_elem(shape, A::one())
    }
    pub fn default<Sh: ShapeBuilder<Dim = D>>(shape: Sh) -> Self
    where
        A: Default,
    {
        let sh = shape.into_shape_();
        let n = sh.dim.size();
        Self::build(sh, (0..n).map(|_| A::default()).collect())
    }
    pub fn from_shape_vec<Sh: ShapeBuilder<Dim = D>>(shape: Sh, v: Vec<A>) -> Result<Self, ShapeError> {
        let sh = shape.into_shape_();
        if sh.dim.size() != v.len() {
            return Err(ShapeError("incompatible shapes"));
        }
        Ok(Self::build(sh, v))
    }
    pub fn from_shape_fn<Sh: ShapeBuilder<Dim = D>, F: FnMut(D::Pattern) -> A>(shape: Sh, f: F) -> Self {
        let sh = shape.into_shape_();
        let v = Indices(sh.dim.clone()).nd_iter().map(f).collect();
        Self::build(Shape { dim: sh.dim, f: false }, v)
    }
    pub unsafe fn uninitialized<Sh: ShapeBuilder<Dim = D>>(shape: Sh) -> Self
    where
        A: Copy + Zero,
    {
        Self::zeros(shape)
    }
}
impl<S, A> ArrayBase<S, Ix1>
where
    S: DataOwned<Elem = A> + DataMut,
{
    pub fn from_vec(v: Vec<A>) -> Self {
        let n = v.len();
        Self::build(n.into_shape_(), v)
    }
    pub fn from_iter<I: IntoIterator<Item = A>>(it: I) -> Self {
        Self::from_vec(it.into_iter().collect())
    }
    pub fn linspace(a: A, b: A, n: usize) -> Self
    where
        A: Float,
    {
        let d = A::from(n.max(2) - 1).unwrap();
        Self::from_vec((0..n).map(|i| a + (b - a) * A::from(i).unwrap() / d).collect())
    }
    pub fn range(a: A, b: A, step: A) -> Self
    where
        A: Float,
    {
        let n = ((b - a) / step).ceil().to_usize().unwrap_or(0);
        Self::from_vec((0..n).map(|i| a + step * A::from(i).unwrap()).collect())
    }
}
impl<S, A> ArrayBase<S, Ix2>
where
    S: DataOwned<Elem = A> + DataMut,
    A: Clone + Zero + One,
{
    pub fn eye(n: usize) -> Self {
        Self::from_shape_fn((n, n), |(i, j)| if i == j { A::one() } else { A::zero() })
    }
}
use crate::zip::NdProducer;

impl<A> From<Vec<A>> for Array1<A> {
    fn from(v: Vec<A>) -> Self {
        Array::from_raw_vec(Ix1(v.len()), v)
    }
}
impl<A, const N: usize> From<Vec<[A; N]>> for Array2<A> {
    fn from(v: Vec<[A; N]>) -> Self {
        let m = v.len();
        Array::from_raw_vec(Ix2(m, N), v.into_iter().flat_map(IntoIterator::into_iter).collect())
    }
}
impl<A, const N: usize, const M: usize> From<Vec<[[A; N]; M]>> for Array3<A> {
    fn from(v: Vec<[[A; N]; M]>) -> Self {
        let m = v.len();
        Array::from_raw_vec(
            Ix3(m, M, N),
            v.into_iter().flat_map(IntoIterator::into_iter).flat_map(IntoIterator::into_iter).collect(),
        )
    }
}
impl<A> std::iter::FromIterator<A> for Array1<A> {
    fn from_iter<I: IntoIterator<Item = A>>(it: I) -> Self {
        Array::from(it.into_iter().collect::<Vec<_>>())
    }
}
impl<'a, A> From<&'a [A]> for ArrayView1<'a, A> {
    fn from(s: &'a [A]) -> Self {
        ArrayBase { data: ViewRepr(PhantomData), ptr: s.as_ptr() as *mut A, dim: Ix1(s.len()), strides: Ix1(1) }
    }
}
impl<'a, A> From<&'a Vec<A>> for ArrayView1<'a, A> {
    fn from(s: &'a Vec<A>) -> Self {
        ArrayView::from(&s[..])
    }
}
impl<'a, A> From<&'a mut [A]> for ArrayViewMut1<'a, A> {
    fn from(s: &'a mut [A]) -> Self {
        ArrayBase { data: ViewRepr(PhantomData), ptr: s.as_mut_ptr(), dim: Ix1(s.len()), strides: Ix1(1) }
    }
}
impl<'a, A, D: Dimension> ArrayView<'a, A, D> {
    pub fn from_shape<Sh: ShapeBuilder<Dim = D>>(shape: Sh, xs: &'a [A]) -> Result<Self, ShapeError> {
        let sh = shape.into_shape_();
        if sh.dim.size() > xs.len() {
            return Err(ShapeError("out of bounds"));
        }
        let strides = sh.dim.default_strides();
        Ok(ArrayBase { data: ViewRepr(PhantomData), ptr: xs.as_ptr() as *mut A, dim: sh.dim, strides })
    }
    pub(crate) fn into_iter_(self) -> Iter<'a, A, D> {
        Iter { ptr: self.ptr, o: Offsets::new(self.dim.clone(), self.strides.clone()), m: PhantomData }
    }
    pub fn reborrow<'b>(self) -> ArrayView<'b, A, D>
    where
        'a: 'b,
    {
        ArrayBase { data: ViewRepr(PhantomData), ptr: self.ptr, dim: self.dim, strides: self.strides }
    }
    pub fn into_slice(&self) -> Option<&'a [A]> {
        if self.is_standard_layout() {
            Some(unsafe { std::slice::from_raw_parts(self.ptr, self.len()) })
        } else {
            None
        }
    }
    pub fn to_slice(&self) -> Option<&'a [A]> {
        self.into_slice()
    }
    pub fn split_at(self, axis: Axis, index: usize) -> (Self, Self) {
        let n = self.dim.slice()[axis.0];
        assert!(index <= n);
        let mut d1 = self.dim.clone();
        d1.slice_mut()[axis.0] = index;
        let mut d2 = self.dim.clone();
        d2.slice_mut()[axis.0] = n - index;
        let p2 = unsafe { self.ptr.offset(index as isize * self.strides.slice()[axis.0] as isize) };
        (
            ArrayBase { data: ViewRepr(PhantomData), ptr: self.ptr, dim: d1, strides: self.strides.clone() },
            ArrayBase { data: ViewRepr(PhantomData), ptr: p2, dim: d2, strides: self.strides },
        )
    }
}
impl<'a, A, D: Dimension> ArrayViewMut<'a, A, D> {
    pub(crate) fn into_iter_mut_(self) -> IterMut<'a, A, D> {
        IterMut { ptr: self.ptr, o: Offsets::new(self.dim.clone(), self.strides.clone()), m: PhantomData }
    }
    pub fn into_slice(self) -> Option<&'a mut [A]> {
        if self.is_standard_layout() {
            Some(unsafe { std::slice::from_raw_parts_mut(self.ptr, self.len()) })
        } else {
            None
        }
    }
    pub fn split_at(self, axis: Axis, index: usize) -> (Self, Self) {
        let n = self.dim.slice()[axis.0];
        assert!(index <= n);
        let mut d1 = self.dim.clone();
        d1.slice_mut()[axis.0] = index;
        let mut d2 = self.dim.clone();
        d2.slice_mut()[axis.0] = n - index;
        let p2 = unsafe { self.ptr.offset(index as isize * self.strides.slice()[axis.0] as isize) };
        (
            ArrayBase { data: ViewRepr(PhantomData), ptr: self.ptr, dim: d1, strides: self.strides.clone() },
            ArrayBase { data: ViewRepr(PhantomData), ptr: p2, dim: d2, strides: self.strides },
        )
    }
}
impl<'a, A, D: Dimension> IntoIterator for ArrayView<'a, A, D> {
    type Item = &'a A;
    type IntoIter = Iter<'a, A, D>;
    fn into_iter(self) -> Self::IntoIter {
        self.into_iter_()
    }
}
impl<'a, A, D: Dimension> IntoIterator for ArrayViewMut<'a, A, D> {
    type Item = &'a mut A;
    type IntoIter = IterMut<'a, A, D>;
    fn into_iter(self) -> Self::IntoIter {
        self.into_iter_mut_()
    }
}
impl<'a, S: Data, D: Dimension> IntoIterator for &'a ArrayBase<S, D>
where
    S::Elem: 'a,
{
    type Item = &'a S::Elem;
    type IntoIter = Iter<'a, S::Elem, D>;
    fn into_iter(self) -> Self::IntoIter {
        self.view().into_iter_()
    }
}
impl<'a, S: DataMut, D: Dimension> IntoIterator for &'a mut ArrayBase<S, D>
where
    S::Elem: 'a,
{
    type Item = &'a mut S::Elem;
    type IntoIter = IterMut<'a, S::Elem, D>;
    fn into_iter(self) -> Self::IntoIter {
        self.view_mut().into_iter_mut_()
    }
}

// ---- methods ---------------------------------------------------------------------------------
impl<A, S: RawData<Elem = A>, D: Dimension> ArrayBase<S, D> {
    pub fn len(&self) -> usize {
        self.dim.size()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn shape(&self) -> &[usize] {
        self.dim.slice()
    }
    pub fn strides(&self) -> &[isize] {
        let s = self.strides.slice();
        unsafe { std::slice::from_raw_parts(s.as_ptr() as *const isize, s.len()) }
    }
    pub fn ndim(&self) -> usize {
        self.dim.ndim()
    }
    pub fn dim(&self) -> D::Pattern {
        self.dim.clone().into_pattern()
    }
    pub fn raw_dim(&self) -> D {
        self.dim.clone()
    }
    pub fn len_of(&self, ax: Axis) -> usize {
        self.dim.slice()[ax.0]
    }
    pub fn is_standard_layout(&self) -> bool {
        let d = self.dim.default_strides();
        self.dim
            .slice()
            .iter()
            .zip(d.slice().iter().zip(self.strides.slice()))
            .all(|(&n, (&a, &b))| n <= 1 || a == b)
    }
    pub fn as_ptr(&self) -> *const A {
        self.ptr
    }
    fn offset_of(&self, ix: &[usize]) -> Option<isize> {
        if ix.len() != self.dim.ndim() {
            return None;
        }
        let mut o = 0isize;
        for ((&i, &n), &s) in ix.iter().zip(self.dim.slice()).zip(self.strides.slice()) {
            if i >= n {
                return None;
            }
            o += i as isize * s as isize;
        }
        Some(o)
    }
    fn cut(&self, args: &[SliceOrIndex]) -> (isize, Vec<usize>, Vec<usize>) {
        assert_eq!(args.len(), self.dim.ndim());
        let mut off = 0isize;
        let (mut d, mut st) = (vec![], vec![]);
        for (i, a) in args.iter().enumerate() {
            let n = self.dim.slice()[i];
            let s = self.strides.slice()[i] as isize;
            match *a {
                SliceOrIndex::Index(k) => {
                    let k = if k < 0 { k + n as isize } else { k };
                    assert!(k >= 0 && (k as usize) < n, "index {} out of bounds for axis of length {}", k, n);
                    off += k * s;
                }
                SliceOrIndex::Slice { start, end, step } => {
                    let (f, c, step) = Slice { start, end, step }.resolve(n);
                    if c > 0 {
                        off += f as isize * s;
                    }
                    d.push(c);
                    st.push((s * step) as usize);
                }
            }
        }
        (off, d, st)
    }
    fn keep(&self) -> Vec<SliceOrIndex> {
        vec![SliceOrIndex::Slice { start: 0, end: None, step: 1 }; self.dim.ndim()]
    }
    pub fn reversed_axes(mut self) -> Self {
        self.dim.slice_mut().reverse();
        self.strides.slice_mut().reverse();
        self
    }
    pub fn swap_axes(&mut self, a: usize, b: usize) {
        self.dim.slice_mut().swap(a, b);
        self.strides.slice_mut().swap(a, b);
    }
    pub fn invert_axis(&mut self, axis: Axis) {
        let n = self.dim.slice()[axis.0];
        let s = self.strides.slice()[axis.0] as isize;
        if n > 0 {
            self.ptr = unsafe { self.ptr.offset((n as isize - 1) * s) };
        }
        self.strides.slice_mut()[axis.0] = (-s) as usize;
    }
    pub fn into_dimensionality<D2: Dimension>(self) -> Result<ArrayBase<S, D2>, ShapeError> {
        if let Some(n) = D2::NDIM {
            if n != self.dim.ndim() {
                return Err(ShapeError("incompatible shapes"));
            }
        }
        Ok(ArrayBase {
            dim: D2::from_slice(self.dim.slice()),
            strides: D2::from_slice(self.strides.slice()),
            data: self.data,
            ptr: self.ptr,
        })
    }
    pub fn into_dyn(self) -> ArrayBase<S, IxDyn> {
        self.into_dimensionality().unwrap()
    }
    pub fn insert_axis(self, axis: Axis) -> ArrayBase<S, D::Larger> {
        ArrayBase {
            dim: self.dim.insert(axis.0, 1),
            strides: self.strides.insert(axis.0, 0),
            data: self.data,
            ptr: self.ptr,
        }
    }
    pub fn into_shape<E: IntoDimension>(self, shape: E) -> Result<ArrayBase<S, E::Dim>, ShapeError> {
        let dim = shape.into_dimension();
        if dim.size() != self.dim.size() || !self.is_standard_layout() {
            return Err(ShapeError("incompatible shapes"));
        }
        let strides = dim.default_strides();
        Ok(ArrayBase { data: self.data, ptr: self.ptr, dim, strides })
    }
    pub fn index_axis_move(self, axis: Axis, index: usize) -> ArrayBase<S, D::Smaller>
    where
        D: RemoveAxis,
    {
        assert!(index < self.dim.slice()[axis.0]);
        let off = index as isize * self.strides.slice()[axis.0] as isize;
        ArrayBase {
            ptr: unsafe { self.ptr.offset(off) },
            dim: self.dim.remove(axis.0),
            strides: self.strides.remove(axis.0),
            data: self.data,
        }
    }
    pub fn remove_axis(self, axis: Axis) -> ArrayBase<S, D::Smaller>
    where
        D: RemoveAxis,
    {
        self.index_axis_move(axis, 0)
    }
}
impl<A, S: Data<Elem = A>, D: Dimension> ArrayBase<S, D> {
    pub fn view(&self) -> ArrayView<'_, A, D> {
        ArrayBase { data: ViewRepr(PhantomData), ptr: self.ptr, dim: self.dim.clone(), strides: self.strides.clone() }
    }
    pub fn view_mut(&mut self) -> ArrayViewMut<'_, A, D>
    where
        S: DataMut,
    {
        ArrayBase { data: ViewRepr(PhantomData), ptr: self.ptr, dim: self.dim.clone(), strides: self.strides.clone() }
    }
    pub fn iter(&self) -> Iter<'_, A, D> {
        self.view().into_iter_()
    }
    pub fn iter_mut(&mut self) -> IterMut<'_, A, D>
    where
        S: DataMut,
    {
        self.view_mut().into_iter_mut_()
    }
    pub fn indexed_iter(&self) -> IndexedIter<'_, A, D> {
        IndexedIter(self.view().into_iter_())
    }
    pub fn indexed_iter_mut(&mut self) -> IndexedIterMut<'_, A, D>
    where
        S: DataMut,
    {
        IndexedIterMut(self.view_mut().into_iter_mut_())
    }
    pub fn to_owned(&self) -> Array<A, D>
    where
        A: Clone,
    {
        Array::from_raw_vec(self.dim.clone(), self.iter().cloned().collect())
    }
    pub fn into_owned(self) -> Array<A, D>
    where
        A: Clone,
    {
        self.to_owned()
    }
    pub fn t(&self) -> ArrayView<'_, A, D> {
        self.view().reversed_axes()
    }
    pub fn as_slice(&self) -> Option<&[A]> {
        if self.is_standard_layout() {
            Some(unsafe { std::slice::from_raw_parts(self.ptr, self.len()) })
        } else {
            None
        }
    }
    pub fn as_slice_mut(&mut self) -> Option<&mut [A]>
    where
        S: DataMut,
    {
        if self.is_standard_layout() {
            Some(unsafe { std::slice::from_raw_parts_mut(self.ptr, self.len()) })
        } else {
            None
        }
    }
    pub fn get<I: NdIndex<D>>(&self, i: I) -> Option<&A> {
        self.offset_of(&i.index_slice()).map(|o| unsafe { &*self.ptr.offset(o) })
    }
    pub fn get_mut<I: NdIndex<D>>(&mut self, i: I) -> Option<&mut A>
    where
        S: DataMut,
    {
        self.offset_of(&i.index_slice()).map(|o| unsafe { &mut *self.ptr.offset(o) })
    }
    pub unsafe fn uget<I: NdIndex<D>>(&self, i: I) -> &A {
        self.get(i).unwrap()
    }
    pub unsafe fn uget_mut<I: NdIndex<D>>(&mut self, i: I) -> &mut A
    where
        S: DataMut,
    {
        self.get_mut(i).unwrap()
    }
    pub fn first(&self) -> Option<&A> {
        self.iter().next()
    }
    pub fn swap<I: NdIndex<D>>(&mut self, i: I, j: I)
    where
        S: DataMut,
    {
        let (a, b) = (self.offset_of(&i.index_slice()).unwrap(), self.offset_of(&j.index_slice()).unwrap());
        unsafe { std::ptr::swap(self.ptr.offset(a), self.ptr.offset(b)) }
    }
    // --- slicing
    pub fn slice<Do: Dimension>(&self, info: &SliceInfo<D, Do>) -> ArrayView<'_, A, Do> {
        let (o, d, s) = self.cut(&info.args);
        ArrayBase {
            data: ViewRepr(PhantomData),
            ptr: unsafe { self.ptr.offset(o) },
            dim: Do::from_slice(&d),
            strides: Do::from_slice(&s),
        }
    }
    pub fn slice_mut<Do: Dimension>(&mut self, info: &SliceInfo<D, Do>) -> ArrayViewMut<'_, A, Do>
    where
        S: DataMut,
    {
        let (o, d, s) = self.cut(&info.args);
        ArrayBase {
            data: ViewRepr(PhantomData),
            ptr: unsafe { self.ptr.offset(o) },
            dim: Do::from_slice(&d),
            strides: Do::from_slice(&s),
        }
    }
    pub fn slice_move<Do: Dimension>(self, info: &SliceInfo<D, Do>) -> ArrayBase<S, Do> {
        let (o, d, s) = self.cut(&info.args);
        ArrayBase {
            ptr: unsafe { self.ptr.offset(o) },
            data: self.data,
            dim: Do::from_slice(&d),
            strides: Do::from_slice(&s),
        }
    }
    pub fn slice_axis(&self, axis: Axis, ix: Slice) -> ArrayView<'_, A, D> {
        let mut args = self.keep();
        args[axis.0] = ix.into();
        let (o, d, s) = self.cut(&args);
        ArrayBase {
            data: ViewRepr(PhantomData),
            ptr: unsafe { self.ptr.offset(o) },
            dim: D::from_slice(&d),
            strides: D::from_slice(&s),
        }
    }
    pub fn slice_axis_mut(&mut self, axis: Axis, ix: Slice) -> ArrayViewMut<'_, A, D>
    where
        S: DataMut,
    {
        let mut args = self.keep();
        args[axis.0] = ix.into();
        let (o, d, s) = self.cut(&args);
        ArrayBase {
            data: ViewRepr(PhantomData),
            ptr: unsafe { self.ptr.offset(o) },
            dim: D::from_slice(&d),
            strides: D::from_slice(&s),
        }
    }
    pub fn slice_axis_inplace(&mut self, axis: Axis, ix: Slice) {
        let mut args = self.keep();
        args[axis.0] = ix.into();
        let (o, d, s) = self.cut(&args);
        self.ptr = unsafe { self.ptr.offset(o) };
        self.dim = D::from_slice(&d);
        self.strides = D::from_slice(&s);
    }
    pub fn index_axis(&self, axis: Axis, index: usize) -> ArrayView<'_, A, D::Smaller>
    where
        D: RemoveAxis,
    {
        self.view().index_axis_move(axis, index)
    }
    pub fn index_axis_mut(&mut self, axis: Axis, index: usize) -> ArrayViewMut<'_, A, D::Smaller>
    where
        D: RemoveAxis,
        S: DataMut,
    {
        self.view_mut().index_axis_move(axis, index)
    }
    pub fn subview(&self, axis: Axis, index: usize) -> ArrayView<'_, A, D::Smaller>
    where
        D: RemoveAxis,
    {
        self.index_axis(axis, index)
    }
    pub fn subview_mut(&mut self, axis: Axis, index: usize) -> ArrayViewMut<'_, A, D::Smaller>
    where
        D: RemoveAxis,
        S: DataMut,
    {
        self.index_axis_mut(axis, index)
    }
    // --- lanes and axes
    pub fn lanes(&self, axis: Axis) -> Lanes<'_, A, D::Smaller> {
        let len = self.dim.slice()[axis.0];
        let stride = self.strides.slice()[axis.0];
        Lanes {
            base: ArrayBase {
                data: ViewRepr(PhantomData),
                ptr: self.ptr,
                dim: self.dim.remove(axis.0),
                strides: self.strides.remove(axis.0),
            },
            len,
            stride,
        }
    }
    pub fn lanes_mut(&mut self, axis: Axis) -> LanesMut<'_, A, D::Smaller>
    where
        S: DataMut,
    {
        let len = self.dim.slice()[axis.0];
        let stride = self.strides.slice()[axis.0];
        LanesMut {
            base: ArrayBase {
                data: ViewRepr(PhantomData),
                ptr: self.ptr,
                dim: self.dim.remove(axis.0),
                strides: self.strides.remove(axis.0),
            },
            len,
            stride,
        }
    }
    pub fn genrows(&self) -> Lanes<'_, A, D::Smaller> {
        self.lanes(Axis(self.ndim() - 1))
    }
    pub fn genrows_mut(&mut self) -> LanesMut<'_, A, D::Smaller>
    where
        S: DataMut,
    {
        let n = self.ndim();
        self.lanes_mut(Axis(n - 1))
    }
    pub fn gencolumns(&self) -> Lanes<'_, A, D::Smaller> {
        self.lanes(Axis(0))
    }
    pub fn gencolumns_mut(&mut self) -> LanesMut<'_, A, D::Smaller>
    where
        S: DataMut,
    {
        self.lanes_mut(Axis(0))
    }
    pub fn axis_iter(&self, axis: Axis) -> AxisIter<'_, A, D::Smaller>
    where
        D: RemoveAxis,
    {
        AxisIter {
            ptr: self.ptr,
            dim: self.dim.remove(axis.0),
            strides: self.strides.remove(axis.0),
            i: 0,
            end: self.dim.slice()[axis.0],
            step: self.strides.slice()[axis.0] as isize,
            m: PhantomData,
        }
    }
    pub fn axis_iter_mut(&mut self, axis: Axis) -> AxisIterMut<'_, A, D::Smaller>
    where
        D: RemoveAxis,
        S: DataMut,
    {
        AxisIterMut {
            ptr: self.ptr,
            dim: self.dim.remove(axis.0),
            strides: self.strides.remove(axis.0),
            i: 0,
            end: self.dim.slice()[axis.0],
            step: self.strides.slice()[axis.0] as isize,
            m: PhantomData,
        }
    }
    pub fn outer_iter(&self) -> AxisIter<'_, A, D::Smaller>
    where
        D: RemoveAxis,
    {
        self.axis_iter(Axis(0))
    }
    pub fn outer_iter_mut(&mut self) -> AxisIterMut<'_, A, D::Smaller>
    where
        D: RemoveAxis,
        S: DataMut,
    {
        self.axis_iter_mut(Axis(0))
    }
    // --- broadcasting
    pub(crate) fn broadcast_dim<E: Dimension>(&self, dim: E) -> Option<ArrayView<'_, A, E>> {
        let n = dim.ndim();
        let m = self.dim.ndim();
        if m > n {
            return None;
        }
        let mut strides = E::zeros(n);
        for i in 0..m {
            let (from, to) = (self.dim.slice()[m - 1 - i], dim.slice()[n - 1 - i]);
            if from == to {
                strides.slice_mut()[n - 1 - i] = self.strides.slice()[m - 1 - i];
            } else if from != 1 {
                return None;
            }
        }
        Some(ArrayBase { data: ViewRepr(PhantomData), ptr: self.ptr, dim, strides })
    }
    pub fn broadcast<E: IntoDimension>(&self, dim: E) -> Option<ArrayView<'_, A, E::Dim>> {
        self.broadcast_dim(dim.into_dimension())
    }
    // --- element-wise
    pub fn map<'a, B, F: FnMut(&'a A) -> B>(&'a self, f: F) -> Array<B, D>
    where
        A: 'a,
    {
        Array::from_raw_vec(self.dim.clone(), self.iter().map(f).collect())
    }
    pub fn mapv<B, F: FnMut(A) -> B>(&self, mut f: F) -> Array<B, D>
    where
        A: Clone,
    {
        self.map(|x| f(x.clone()))
    }
    pub fn mapv_into<F: FnMut(A) -> A>(mut self, f: F) -> Self
    where
        A: Clone,
        S: DataMut,
    {
        self.mapv_inplace(f);
        self
    }
    pub fn map_inplace<F: FnMut(&mut A)>(&mut self, f: F)
    where
        S: DataMut,
    {
        self.iter_mut().for_each(f)
    }
    pub fn mapv_inplace<F: FnMut(A) -> A>(&mut self, mut f: F)
    where
        A: Clone,
        S: DataMut,
    {
        self.map_inplace(|x| *x = f(x.clone()))
    }
    pub fn for_each<F: FnMut(&A)>(&self, f: F) {
        self.iter().for_each(f)
    }
    pub fn visit<F: FnMut(&A)>(&self, f: F) {
        self.iter().for_each(f)
    }
    pub fn fold<B, F: FnMut(B, &A) -> B>(&self, init: B, f: F) -> B {
        self.iter().fold(init, f)
    }
    pub fn fold_axis<B: Clone, F: FnMut(&B, &A) -> B>(&self, axis: Axis, init: B, mut f: F) -> Array<B, D::Smaller>
    where
        D: RemoveAxis,
    {
        let v = self.lanes(axis).into_iter().map(|l| l.iter().fold(init.clone(), |acc, x| f(&acc, x))).collect();
        Array::from_raw_vec(self.dim.remove(axis.0), v)
    }
    pub fn map_axis<B, F: FnMut(ArrayView1<'_, A>) -> B>(&self, axis: Axis, f: F) -> Array<B, D::Smaller>
    where
        D: RemoveAxis,
    {
        let v = self.lanes(axis).into_iter().map(f).collect();
        Array::from_raw_vec(self.dim.remove(axis.0), v)
    }
    pub fn sum(&self) -> A
    where
        A: Clone + Add<Output = A> + Zero,
    {
        self.iter().fold(A::zero(), |a, x| a + x.clone())
    }
    pub fn scalar_sum(&self) -> A
    where
        A: Clone + Add<Output = A> + Zero,
    {
        self.sum()
    }
    pub fn product(&self) -> A
    where
        A: Clone + Mul<Output = A> + One,
    {
        self.iter().fold(A::one(), |a, x| a * x.clone())
    }
    pub fn sum_axis(&self, axis: Axis) -> Array<A, D::Smaller>
    where
        A: Clone + Zero + Add<Output = A>,
        D: RemoveAxis,
    {
        let v = self.lanes(axis).into_iter().map(|l| l.iter().fold(A::zero(), |a, x| a + x.clone())).collect();
        Array::from_raw_vec(self.dim.remove(axis.0), v)
    }
    pub fn mean_axis(&self, axis: Axis) -> Array<A, D::Smaller>
    where
        A: Clone + Zero + FromPrimitive + Add<Output = A> + Div<Output = A>,
        D: RemoveAxis,
    {
        let n = A::from_usize(self.len_of(axis)).unwrap();
        let s = self.sum_axis(axis);
        let v = s.iter().map(|x| x.clone() / n.clone()).collect();
        Array::from_raw_vec(self.dim.remove(axis.0), v)
    }
    pub fn all_close<S2: Data<Elem = A>, E: Dimension>(&self, rhs: &ArrayBase<S2, E>, tol: A) -> bool
    where
        A: Float,
    {
        rhs.broadcast_dim(self.dim.clone()).unwrap().iter().zip(self.iter()).all(|(x, y)| (*x - *y).abs() <= tol)
    }
    // --- assignment
    pub fn fill(&mut self, x: A)
    where
        A: Clone,
        S: DataMut,
    {
        self.map_inplace(|e| *e = x.clone())
    }
    pub fn assign<E: Dimension, S2: Data<Elem = A>>(&mut self, rhs: &ArrayBase<S2, E>)
    where
        A: Clone,
        S: DataMut,
    {
        self.zip_mut_with(rhs, |x, y| *x = y.clone())
    }
    pub fn scaled_add<E: Dimension, S2: Data<Elem = A>>(&mut self, alpha: A, rhs: &ArrayBase<S2, E>)
    where
        S: DataMut,
        A: LinalgScalar,
    {
        self.zip_mut_with(rhs, move |y, &x| *y = *y + (alpha * x))
    }
    pub fn zip_mut_with<B, S2: Data<Elem = B>, E: Dimension, F: FnMut(&mut A, &B)>(
        &mut self,
        rhs: &ArrayBase<S2, E>,
        mut f: F,
    ) where
        S: DataMut,
    {
        let r = match rhs.broadcast_dim(self.dim.clone()) {
            Some(r) => r,
            None => panic!(
                "ndarray: could not broadcast array from shape: {:?} to: {:?}",
                rhs.shape(),
                self.shape()
            ),
        };
        for (x, y) in self.iter_mut().zip(r.into_iter_()) {
            f(x, y)
        }
    }
}
impl<A, S: Data<Elem = A>> ArrayBase<S, Ix1> {
    pub fn to_vec(&self) -> Vec<A>
    where
        A: Clone,
    {
        self.iter().cloned().collect()
    }
}
impl<A, S: Data<Elem = A>> ArrayBase<S, Ix2> {
    pub fn row(&self, i: usize) -> ArrayView1<'_, A> {
        self.index_axis(Axis(0), i)
    }
    pub fn column(&self, i: usize) -> ArrayView1<'_, A> {
        self.index_axis(Axis(1), i)
    }
    pub fn row_mut(&mut self, i: usize) -> ArrayViewMut1<'_, A>
    where
        S: DataMut,
    {
        self.index_axis_mut(Axis(0), i)
    }
    pub fn column_mut(&mut self, i: usize) -> ArrayViewMut1<'_, A>
    where
        S: DataMut,
    {
        self.index_axis_mut(Axis(1), i)
    }
    pub fn rows(&self) -> usize {
        self.dim.slice()[0]
    }
    pub fn cols(&self) -> usize {
        self.dim.slice()[1]
    }
    pub fn nrows(&self) -> usize {
        self.dim.slice()[0]
    }
    pub fn ncols(&self) -> usize {
        self.dim.slice()[1]
    }
    pub fn is_square(&self) -> bool {
        self.rows() == self.cols()
    }
    pub fn diag(&self) -> ArrayView1<'_, A> {
        let n = self.rows().min(self.cols());
        let s = self.strides.slice()[0] as isize + self.strides.slice()[1] as isize;
        ArrayBase { data: ViewRepr(PhantomData), ptr: self.ptr, dim: Ix1(n), strides: Ix1(s as usize) }
    }
    pub fn diag_mut(&mut self) -> ArrayViewMut1<'_, A>
    where
        S: DataMut,
    {
        let n = self.rows().min(self.cols());
        let s = self.strides.slice()[0] as isize + self.strides.slice()[1] as isize;
        ArrayBase { data: ViewRepr(PhantomData), ptr: self.ptr, dim: Ix1(n), strides: Ix1(s as usize) }
    }
}
impl<A, S: Data<Elem = A>, D: Dimension, I: NdIndex<D>> Index<I> for ArrayBase<S, D> {
    type Output = A;
    fn index(&self, i: I) -> &A {
        self.get(i).unwrap_or_else(|| panic!("ndarray: index out of bounds"))
    }
}
impl<A, S: DataMut<Elem = A>, D: Dimension, I: NdIndex<D>> IndexMut<I> for ArrayBase<S, D> {
    fn index_mut(&mut self, i: I) -> &mut A {
        self.get_mut(i).unwrap_or_else(|| panic!("ndarray: index out of bounds"))
    }
}
impl<A: PartialEq<B>, B, S: Data<Elem = A>, S2: Data<Elem = B>, D: Dimension> PartialEq<ArrayBase<S2, D>>
    for ArrayBase<S, D>
{
    fn eq(&self, o: &ArrayBase<S2, D>) -> bool {
        self.shape() == o.shape() && self.iter().zip(o.iter()).all(|(a, b)| a == b)
    }
}
impl<'a, A: PartialEq<B>, B, S: Data<Elem = A>, S2: Data<Elem = B>, D: Dimension> PartialEq<&'a ArrayBase<S2, D>>
    for ArrayBase<S, D>
{
    fn eq(&self, o: &&'a ArrayBase<S2, D>) -> bool {
        *self == **o
    }
}
impl<S: DataOwned + DataMut, D: Dimension> Default for ArrayBase<S, D>
where
    S::Elem: Default,
{
    fn default() -> Self {
        Self::default(D::zeros(D::NDIM.unwrap_or(1)))
    }
}

macro_rules! show {
    ($($tr:ident),*) => { $(
        impl<A: fmt::$tr, S: Data<Elem = A>, D: Dimension> fmt::$tr for ArrayBase<S, D> {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                fn go<A: fmt::$tr>(p: *mut A, d: &[usize], s: &[usize], f: &mut fmt::Formatter) -> fmt::Result {
                    if d.is_empty() {
                        return unsafe { (*p).fmt(f) };
                    }
                    write!(f, "[")?;
                    for i in 0..d[0] {
                        if i > 0 {
                            write!(f, ", ")?;
                        }
                        go(unsafe { p.offset(i as isize * s[0] as isize) }, &d[1..], &s[1..], f)?;
                    }
                    write!(f, "]")
                }
                go(self.ptr, self.dim.slice(), self.strides.slice(), f)
            }
        }
    )* };
}
show!(Debug, Display, LowerExp, UpperExp);
